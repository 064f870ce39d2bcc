"""Builds the code under test from /repo's working tree, with sanitizers, outside /repo.

Object files are cached by content (source, all headers of /repo/src, flags), so a change in
/repo is always seen and a fresh sandbox simply compiles everything (about 5 s on 8 cores).
"""
import hashlib, threading, os, re, subprocess, sys, glob, shutil
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))

DEFS = ["-DHAVE_GNUTLS", "-DHAVE_PTHREADS", "-DHAVE_PAM", "-DHAVE_WEBDAV", "-DHAVE_SYSTEMD",
        "-DHAVE_SQLITE3", "-DHAVE_REDIS", "-D_BSD_SOURCE", "-D_DEFAULT_SOURCE",
        "-D_POSIX_C_SOURCE=200112L", "-D_ISOC99_SOURCE", '-DONION_VERSION="0.8.0.GIT"',
        "-DPNG_ENABLED", "-DJPEG_ENABLED"]
LIBS = ["-lxml2", "-lpam", "-lgcrypt", "-lgnutls", "-lpthread", "-lsqlite3", "-lhiredis",
        "-lsystemd", "-lm", "-ldl"]
# source files that are alternatives the default build does not compile
SKIP = {"poller_libev.c", "poller_libevent.c", "random-default.c"}

FLAVORS = {
    "asan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fno-sanitize=function,alignment,vptr,shift-base", "-fno-sanitize-recover=all",
             "-fno-common"],
    "tsan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=thread"],
    "fuzz": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,fuzzer-no-link",
             "-fno-sanitize=function,alignment,vptr,shift-base", "-fno-sanitize-recover=all"],
    "plain": ["-O1", "-g"],
}


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


_hdr_hash = None
_lock = threading.RLock()


def headers_hash():
    global _hdr_hash
    with _lock:
        return _headers_hash()


def _headers_hash():
    global _hdr_hash
    if _hdr_hash is None:
        h = hashlib.sha256()
        for root in ("src", "tools"):
            for d, dirs, files in os.walk(os.path.join(REPO, root)):
                dirs.sort()
                for f in sorted(files):
                    if f.endswith((".h", ".hpp", ".in")) or f == "CMakeLists.txt":
                        p = os.path.join(d, f)
                        h.update(p.encode())
                        h.update(_read(p))
        for f in sorted(glob.glob(os.path.join(VERIF, "harness", "*.h"))):
            h.update(_read(f))
        _hdr_hash = h.hexdigest()
    return _hdr_hash


def gen_includes():
    """version.h is generated by cmake; generate our own copy."""
    with _lock:
        return _gen_includes()


def _gen_includes():
    inc = os.path.join(BUILD, "inc", "onion")
    os.makedirs(inc, exist_ok=True)
    src = _read(os.path.join(REPO, "src/onion/version.h.in")).decode()
    vals = {"ONION_VERSION": "0.8.0.GIT", "ONION_VERSION_MAJOR": "0", "ONION_VERSION_MINOR": "8",
            "ONION_VERSION_PATCH": "0"}
    # take what the repository's own CMakeLists says, when it says it
    cm = _read(os.path.join(REPO, "CMakeLists.txt")).decode(errors="replace")
    for k in ("MAJOR", "MINOR", "PATCH"):
        m = re.search(r"ONION_VERSION_%s\s+\"?(\d+)" % k, cm, re.I)
        if m:
            vals["ONION_VERSION_" + k] = m.group(1)

    def rep(m):
        k = m.group(1)
        return vals.get(k, vals.get(k.upper(), "0"))
    out = re.sub(r"\$\{(\w+)\}", rep, src)
    out = re.sub(r"@(\w+)@", rep, out)
    out = re.sub(r"#cmakedefine (\w+)", r"#undef \1\n#define \1", out)
    dst = os.path.join(inc, "version.h")
    if not os.path.exists(dst) or _read(dst).decode() != out:
        with open(dst + ".tmp%d" % os.getpid(), "w") as f:
            f.write(out)
        os.replace(dst + ".tmp%d" % os.getpid(), dst)
    return os.path.join(BUILD, "inc")


def includes():
    i = gen_includes()
    return ["-I" + os.path.join(REPO, "src"), "-I" + i, "-I/usr/include/libxml2",
            "-I" + os.path.join(VERIF, "harness")]


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))


def compile_obj(src, flavor, extra=(), cxx=False):
    cc = "clang++" if cxx else "clang"
    flags = FLAVORS[flavor] + DEFS + includes() + ["-w", "-fPIC"] + list(extra)
    if cxx:
        flags = ["-std=c++17"] + [f for f in flags if "ISOC99" not in f]
    key = hashlib.sha256()
    key.update(_read(src))
    key.update(src.encode())
    key.update(headers_hash().encode())
    key.update(repr((cc, flags)).encode())
    d = os.path.join(BUILD, "obj")
    os.makedirs(d, exist_ok=True)
    obj = os.path.join(d, "%s-%s-%s.o" % (os.path.basename(src).replace(".", "_"), flavor, key.hexdigest()[:24]))
    if not os.path.exists(obj):
        tmp = obj + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        _run([cc] + flags + ["-c", src, "-o", tmp])
        os.replace(tmp, obj)
    return obj


def lib_sources():
    s = []
    for f in sorted(glob.glob(os.path.join(REPO, "src/onion/*.c"))):
        if os.path.basename(f) not in SKIP:
            s.append(f)
    s += sorted(glob.glob(os.path.join(REPO, "src/onion/handlers/*.c")))
    return s


def objs(sources, flavor, extra=(), cxx=False):
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda s: compile_obj(s, flavor, extra, cxx), sources))


def lib_objs(flavor, extra=()):
    return objs(lib_sources(), flavor, extra)


def link(name, flavor, objects, libs=(), cxx=False, extra=()):
    h = hashlib.sha256()
    for o in objects:
        h.update(o.encode())
    h.update(repr((list(libs), list(extra), flavor, cxx)).encode())
    d = os.path.join(BUILD, "bin")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "%s-%s-%s" % (name, flavor, h.hexdigest()[:24]))
    if not os.path.exists(out):
        fl = [f for f in FLAVORS[flavor] if f.startswith("-f")]
        if flavor == "fuzz":
            fl = [f.replace("fuzzer-no-link", "fuzzer") for f in fl]
        tmp = out + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        _run((["clang++"] if cxx else ["clang"]) + fl + list(extra) + list(objects) + LIBS + list(libs) + ["-o", tmp])
        os.replace(tmp, out)
    return out


def harness(name, flavor="asan", sources=None, libs=(), wrap=(), extra_cflags=(), link_extra=(), cxx=False):
    """Builds /verif/harness/<name>.c against the library sources (and the C++ bindings, with cxx)."""
    srcs = [os.path.join(VERIF, "harness", s) for s in (sources or [name + (".cpp" if cxx else ".c")])]
    if cxx:
        b = os.path.join(REPO, "src/bindings/cpp")
        srcs += sorted(glob.glob(os.path.join(b, "*.cpp")))
        extra_cflags = list(extra_cflags) + ["-I" + b]
    with ThreadPoolExecutor(8) as ex:
        fl = ex.submit(lib_objs, flavor)
        ho = objs(srcs, flavor, extra_cflags, cxx)
        lo = fl.result()
    return link(name, flavor, ho + lo, libs, cxx=cxx,
                extra=["-Wl,--wrap=%s" % w for w in wrap] + list(link_extra))


def prune(max_bytes=1500 << 20):
    """keeps the cache small"""
    files = []
    for d in ("obj", "bin"):
        for f in glob.glob(os.path.join(BUILD, d, "*")):
            try:
                st = os.stat(f)
                files.append((st.st_mtime, st.st_size, f))
            except OSError:
                pass
    files.sort()
    tot = sum(x[1] for x in files)
    for m, s, f in files:
        if tot <= max_bytes:
            break
        try:
            os.unlink(f)
        except OSError:
            pass
        tot -= s

"""Builds and runs the repository's code generators, and compiles what they generate."""
import glob, os, subprocess
from concurrent.futures import ThreadPoolExecutor
from . import build, core

SAN = [f for f in build.FLAVORS["asan"]]


def tool(name):
    """the tool, with sanitizers"""
    d = os.path.join(build.REPO, "tools", name)
    srcs = sorted(glob.glob(os.path.join(d, "*.c"))) + sorted(glob.glob(os.path.join(build.REPO, "tools", "common", "*.c")))
    lib = build.lib_objs("asan")
    return build.link(name, "asan", build.objs(srcs, "asan") + lib, extra=["-rdynamic"])


def plugin(name, out):
    """a template tags plugin, as lib<name>.so in the directory out"""
    src = os.path.join(build.REPO, "tools", "otemplate", "templatetags", name + ".c")
    o = build.compile_obj(src, "asan")
    dst = os.path.join(out, "lib%s.so" % name)
    build._run(["clang", "-shared", "-fsanitize=address,undefined", o, "-o", dst])
    return dst


def compile_c(src, obj, extra=()):
    """-> None, or what the compiler says"""
    cmd = ["clang"] + SAN + build.DEFS + build.includes() + ["-w", "-O0"] + list(extra) + ["-c", src, "-o", obj]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return None if r.returncode == 0 else r.stdout.decode(errors="replace")


def compile_many(pairs, extra=()):
    with ThreadPoolExecutor(core.NPROC) as ex:
        return list(ex.map(lambda p: compile_c(p[0], p[1], extra), pairs))


def crashed(rc, err):
    return rc is None or rc < 0 or rc in (99, 134, 139) or "Sanitizer" in err or "runtime error" in err

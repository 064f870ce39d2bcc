/*
 * Files driver: onion_shortcut_response_file, exported directories and webdav over a scratch tree that the driver builds,
 * with a monitor on every file system call and faults injected in them.
 *
 *   CASE id
 *   DIR hex | FILE hex mode mtime hexpattern length | PATCH hex off hexdata | LINK hex hextarget   ('@' at the target's start: the scratch)
 *   HND kind hexpath mount     kind: file, export, webdav; mount: - or a regexp
 *   SET k v                    mem 0|1, sendfile 0|1, rcap n, sfcap n, trunc n, grow n, swap 0|1, xdev 0|1, wfail n, wcap n, wlim n
 *   REQ hex                    a request, on the open connection if there is one
 *   NEW                        closes the connection
 *   MIME hex                   what onion_mime_get says of it
 *   TREE                       dumps the scratch
 *   END
 *
 * Nothing out of the scratch can be reached: it runs as an unprivileged user, and calls with a path that resolves out of
 * the scratch are recorded and refused.
 */
#define _GNU_SOURCE
#include "vf.h"
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <libgen.h>
#include <utime.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <sys/ioctl.h>
#include <signal.h>
#include <poll.h>
#include <grp.h>
#include <onion/low.h>
#include <onion/onion.h>
#include <onion/log.h>
#include <onion/request.h>
#include <onion/response.h>
#include <onion/handler.h>
#include <onion/http.h>
#include <onion/url.h>
#include <onion/mime.h>
#include <onion/shortcuts.h>
#include <onion/listen_point.h>
#include <onion/types_internal.h>
#include <onion/handlers/exportlocal.h>
#include <onion/handlers/webdav.h>

extern int onion_use_sendfile;

static void vf_nolog(onion_log_level level, const char *filename, int lineno, const char *fmt, ...) {
}

static char base[PATH_MAX];     /* real path of the scratch */
static size_t basel;
static int guard_on;
static onion *server;
static onion_listen_point *lp_mem, *lp_sock;
static long rcap, sfcap, trunc_to, grow_by, swap_on, xdev, wfail, wcap, wlim, mem;
static char served[PATH_MAX];   /* the file truncated, grown or swapped */
static int touched, nread, nsendfile, nshort, nfault;
static char *outb;
static size_t out_len, out_cap;
static char tmpfiles[64][PATH_MAX];
static int ntmp;

/* ---------------------------------------------------------------- the monitor */

static int resolves(const char *path, char *dst) {
  char t[PATH_MAX * 2], b[PATH_MAX * 2], r[PATH_MAX];
  if (realpath(path, r)) {
    strcpy(dst, r);
    return 1;
  }
  if (strlen(path) >= sizeof(t))
    return 0;
  strcpy(t, path);
  strcpy(b, path);
  const char *d = dirname(t), *n = basename(b);
  if (!realpath(d, r))
    return 0;
  if (strlen(r) + strlen(n) + 2 > PATH_MAX)
    return 0;
  sprintf(dst, "%s/%s", r, n);
  return 1;
}

static int is_tmp(const char *p) {
  return strncmp(p, "/tmp/onion-", 11) == 0 && !strchr(p + 11, '/');
}

/* 1: allowed. own: the last component is not followed by this call */
static int guard(const char *op, const char *path, int own) {
  char r[PATH_MAX * 2];
  if (!guard_on)
    return 1;
  if (is_tmp(path)) {
    fprintf(vf_out, "FSTMP %s\n", op);
    return 1;
  }
  if (own) {                    /* the directory is what matters */
    char t[PATH_MAX * 2], b[PATH_MAX * 2], d[PATH_MAX];
    if (strlen(path) >= sizeof t)
      return 1;
    strcpy(t, path);
    strcpy(b, path);
    const char *bn = basename(b);
    if (strcmp(bn, "..") == 0 || strcmp(bn, ".") == 0 || strcmp(bn, "/") == 0) {
      if (!resolves(path, r))
        return 1;
    } else {
      struct stat st;
      if (!realpath(dirname(t), d) || strlen(d) + strlen(bn) + 2 > sizeof r || stat(d, &st) != 0 || !S_ISDIR(st.st_mode))
        return 1;
      sprintf(r, "%s/%s", d, bn);
    }
  } else if (!resolves(path, r))
    return 1;                   /* it will fail anyway */
  if (strncmp(r, base, basel) == 0 && (r[basel] == '/' || r[basel] == 0)) {
    fprintf(vf_out, "FS %s ", op);
    vf_puthex(r + basel, strlen(r + basel));
    fprintf(vf_out, "\n");
    return 1;
  }
  if (strcmp(r, "/etc/mime.types") == 0 || strncmp(r, "/proc/", 6) == 0 || strncmp(r, "/dev/", 5) == 0)
    return 1;
  fprintf(vf_out, "FSOUT %s ", op);
  vf_puthex(r, strlen(r));
  fprintf(vf_out, "\n");
  return 0;
}

#define DENY { errno = EACCES; return -1; }
int __real_open(const char *p, int fl, ...);
FILE *__real_fopen(const char *p, const char *m);
DIR *__real_opendir(const char *p);
int __real_remove(const char *p), __real_unlink(const char *p), __real_rmdir(const char *p);
int __real_rename(const char *a, const char *b), __real_link(const char *a, const char *b), __real_symlink(const char *a, const char *b);
int __real_mkdir(const char *p, mode_t m), __real_chmod(const char *p, mode_t m), __real_creat(const char *p, mode_t m), __real_truncate(const char *p, off_t l);
int __real_mkstemp(char *p);
ssize_t __real_read(int fd, void *b, size_t n), __real_write(int fd, const void *b, size_t n), __real_sendfile(int o, int i, off_t * off, size_t n);

static void swap_served(void) {
  char t[PATH_MAX + 16];
  snprintf(t, sizeof t, "%s/.swap", base);
  int fd = __real_open(t, O_WRONLY | O_CREAT | O_TRUNC, 0644);
  char b[1000];
  memset(b, 'S', sizeof b);
  for (int i = 0; i < swap_on; i += sizeof b)
    __real_write(fd, b, swap_on - i < (long)sizeof b ? swap_on - i : sizeof b);
  close(fd);
  __real_rename(t, served);
}

int __wrap_open(const char *p, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  int mode = (fl & O_CREAT) ? va_arg(ap, int) : 0;
  va_end(ap);
  if (!guard((fl & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) ? "openw" : "open", p, 0))
    DENY;
  int fd = __real_open(p, fl, mode);
  if (guard_on && swap_on && fd >= 0 && !touched && !is_tmp(p)) {
    touched = 1;
    swap_served();
  }
  return fd;
}

int __real_open64(const char *p, int fl, ...);
int __wrap_open64(const char *p, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  int mode = (fl & O_CREAT) ? va_arg(ap, int) : 0;
  va_end(ap);
  return __wrap_open(p, fl, mode);
}

FILE *__wrap_fopen(const char *p, const char *m) {
  if (!guard(m[0] == 'r' && !strchr(m, '+') ? "open" : "openw", p, 0)) {
    errno = EACCES;
    return NULL;
  }
  return __real_fopen(p, m);
}

DIR *__wrap_opendir(const char *p) {
  if (!guard("opendir", p, 0)) {
    errno = EACCES;
    return NULL;
  }
  return __real_opendir(p);
}

#define W1(name, own) int __wrap_##name(const char *p) { if (!guard(#name, p, own)) DENY; return __real_##name(p); }
W1(remove, 1) W1(unlink, 1) W1(rmdir, 1)
#define WM(name, own, T) int __wrap_##name(const char *p, T m) { if (!guard(#name, p, own)) DENY; return __real_##name(p, m); }
WM(mkdir, 1, mode_t) WM(chmod, 0, mode_t) WM(creat, 0, mode_t) WM(truncate, 0, off_t)

int __wrap_link(const char *a, const char *b) {
  if (!guard("link", a, 1) || !guard("link", b, 1))
    DENY;
  return __real_link(a, b);
}

int __wrap_symlink(const char *a, const char *b) {
  if (!guard("symlink", b, 1))
    DENY;
  return __real_symlink(a, b);
}

static int samedir(const char *a, const char *b) {
  char x[PATH_MAX * 2], y[PATH_MAX * 2], rx[PATH_MAX], ry[PATH_MAX];
  strcpy(x, a);
  strcpy(y, b);
  return realpath(dirname(x), rx) && realpath(dirname(y), ry) && strcmp(rx, ry) == 0;
}

int __wrap_rename(const char *a, const char *b) {
  if (!guard("rename", a, 1) || !guard("rename", b, 1))
    DENY;
  if (guard_on && xdev && (is_tmp(a) || is_tmp(b) || !samedir(a, b))) {
    /* as if every directory were in its own file system; the errors that come first are still given */
    struct stat st;
    char t[PATH_MAX * 2];
    strcpy(t, b);
    if (lstat(a, &st) != 0 || stat(dirname(t), &st) != 0)
      return -1;
    nfault++;
    errno = EXDEV;
    return -1;
  }
  return __real_rename(a, b);
}

int __wrap_mkstemp(char *p) {
  char t[PATH_MAX * 2];
  if (guard_on && !is_tmp(p) && !guard("mkstemp", p, 1))
    DENY;
  int fd = __real_mkstemp(p);
  if (guard_on && fd >= 0 && ntmp < 64 && strlen(p) < PATH_MAX)
    strcpy(tmpfiles[ntmp++], p);
  (void)t;
  return fd;
}

static int isreg(int fd) {
  struct stat st;
  return fstat(fd, &st) == 0 && S_ISREG(st.st_mode);
}

static void touch_served(void) {
  if (touched || !served[0])
    return;
  if (trunc_to >= 0) {
    touched = 1;
    if (__real_truncate(served, trunc_to) != 0)
      fprintf(stderr, "truncate %s\n", served);
  }
  if (grow_by > 0) {
    touched = 1;
    int fd = __real_open(served, O_WRONLY | O_APPEND);
    for (long i = 0; i < grow_by; i++)
      __real_write(fd, "G", 1);
    close(fd);
  }
}

ssize_t __wrap_read(int fd, void *b, size_t n) {
  if (guard_on && isreg(fd)) {
    nread++;
    touch_served();
    if (rcap > 0 && n > (size_t) rcap) {
      n = rcap;
      nshort++;
    }
  }
  return __real_read(fd, b, n);
}

static long wtotal;
ssize_t __wrap_write(int fd, const void *b, size_t n) {
  if (guard_on && isreg(fd)) {
    if (wcap > 0 && ntmp > 1 && n > (size_t) wcap) {
      n = wcap;
      nshort++;
    }
    if (wfail >= 0 && ntmp > 1) {       /* not the upload itself, its copy */
      if (wtotal >= wfail) {
        nfault++;
        errno = ENOSPC;
        return -1;
      }
      if (wtotal + (long)n > wfail)
        n = wfail - wtotal;
      wtotal += n;
    }
  }
  return __real_write(fd, b, n);
}

ssize_t __wrap_sendfile(int o, int i, off_t * off, size_t n) {
  if (guard_on) {
    nsendfile++;
    touch_served();
    if (sfcap > 0 && n > (size_t) sfcap) {
      n = sfcap;
      nshort++;
    }
  }
  return __real_sendfile(o, i, off, n);
}

ssize_t __wrap_sendfile64(int o, int i, off_t * off, size_t n) {
  return __wrap_sendfile(o, i, off, n);
}

/* ---------------------------------------------------------------- transports */

static const char *in;
static size_t inlen, inpos;
static int mem_closed;
static int peer = -1;
static pthread_t reader;
static volatile int reader_on;

static void out_add(const void *d, size_t n) {
  if (out_len + n > out_cap) {
    out_cap = (out_len + n) * 2 + 4096;
    outb = realloc(outb, out_cap);
  }
  memcpy(outb + out_len, d, n);
  out_len += n;
}

static ssize_t m_read(onion_request * req, char *data, size_t len) {
  size_t l = inlen - inpos;
  if (l == 0)
    return 0;
  if (l > len)
    l = len;
  memcpy(data, in + inpos, l);
  inpos += l;
  return l;
}

static ssize_t m_write(onion_request * req, const char *data, size_t len) {
  if (wlim >= 0) {
    if ((long)out_len >= wlim) {
      errno = EPIPE;
      return -1;
    }
    if ((long)(out_len + len) > wlim)
      len = wlim - out_len;
  }
  out_add(data, len);
  return len;
}

static void m_close(onion_request * req) {
  mem_closed = 1;
}

static int m_init(onion_request * req) {
  req->connection.fd = -1;
  return 0;
}

static int next_fd;
static int s_init(onion_request * req) {
  req->connection.fd = next_fd;
  return 0;
}

static void m_none(onion_listen_point * l) {
}

static volatile int busy;
static void *drain(void *p) {
  char b[65536];
  while (1) {
    struct pollfd pf = { peer, POLLIN, 0 };
    if (poll(&pf, 1, -1) < 0)
      continue;
    __atomic_store_n(&busy, 1, __ATOMIC_SEQ_CST);
    ssize_t r = __real_read(peer, b, sizeof b);
    if (r > 0)
      out_add(b, r);
    __atomic_store_n(&busy, 0, __ATOMIC_SEQ_CST);
    if (r <= 0)
      return NULL;
  }
}

static onion_request *conn;

static void conn_close(void) {
  if (!conn)
    return;
  onion_request_free(conn);
  conn = NULL;
  if (reader_on) {
    pthread_join(reader, NULL);
    reader_on = 0;
    close(peer);
    peer = -1;
  }
}

/* in a socket there is no telling when the answer ends: wait until nothing is left in it */
static void settle(void) {
  if (!reader_on)
    return;
  /* what was sent is in the peer's queue, being read (busy), or in out */
  for (int i = 0; i < 100000; i++) {
    int q = 0;
    ioctl(peer, FIONREAD, &q);
    if (q == 0 && !__atomic_load_n(&busy, __ATOMIC_SEQ_CST))
      return;
    usleep(i < 10 ? 20 : 300);
  }
}

/* @ETAG@ in a request is the last validator received; with - or + before the last @, spoiled */
static char last_etag[300] = "none";
static char *with_etag(char *d, size_t *l) {
  char *m = memmem(d, *l, "@ETAG", 5);
  if (!m)
    return d;
  char var = m[5], t[310];
  strcpy(t, last_etag);
  if (var == '-')
    t[strlen(t) - 1] = 0;
  else if (var == '+')
    strcat(t, "0");
  size_t ml = var == '@' ? 6 : 7, a = m - d, tl = strlen(t);
  char *r = malloc(*l + tl + 1);
  memcpy(r, d, a);
  memcpy(r + a, t, tl);
  memcpy(r + a + tl, m + ml, *l - a - ml);
  *l += tl - ml;
  free(d);
  return r;
}
static void learn_etag(void) {
  char *e = memmem(outb, out_len, "\r\n\r\n", 4), *p = outb;
  while (e && p < e) {
    char *n = memmem(p, e + 2 - p, "\r\n", 2);
    if (strncasecmp(p, "etag:", 5) == 0) {
      p += 5;
      while (*p == ' ')
        p++;
      if (n - p > 0 && n - p < 300) {
        memcpy(last_etag, p, n - p);
        last_etag[n - p] = 0;
      }
      return;
    }
    p = n + 2;
  }
}
static void do_req(char *hex) {
  size_t l;
  char *d = with_etag(vf_unhex(hex, &l, 0), &l);
  int fresh = 0;
  if (!conn) {
    fresh = 1;
    mem_closed = 0;
    if (mem) {
      conn = onion_request_new(lp_mem);
    } else {
      int sv[2];
      if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv) != 0)
        exit(97);
      next_fd = sv[0];
      peer = sv[1];
      conn = onion_request_new(lp_sock);
      reader_on = 1;
    }
  }
  out_len = 0;
  if (fresh && reader_on)
    pthread_create(&reader, NULL, drain, NULL);
  in = d;
  inlen = l;
  inpos = 0;
  int st = 0;
  if (!mem) {
    /* the request fits in the socket buffer */
    if (__real_write(peer, d, l) != (ssize_t) l) {
      fprintf(stderr, "request too big for the socket\n");
      exit(97);
    }
  }
  touched = 0;
  wtotal = 0;
  ntmp = 0;
  nread = nsendfile = nshort = nfault = 0;
  guard_on = 1;
  int k = 0;
  while (st >= 0) {
    if (mem) {
      if (inpos == inlen)
        break;
    } else {
      int q = 0;
      ioctl(conn->connection.fd, FIONREAD, &q);
      if (q == 0)
        break;
    }
    st = conn->connection.listen_point->read_ready(conn);
    if (++k > 100000) {
      fprintf(stderr, "endless\n");
      abort();
    }
  }
  guard_on = 0;
  if (st >= 0)
    settle();
  if (st < 0) {
    guard_on = 1;
    conn_close();
    guard_on = 0;
  }
  fprintf(vf_out, "ST %d closed=%d reads=%d sendfiles=%d short=%d fault=%d touched=%d\n", st, st < 0, nread, nsendfile, nshort, nfault, touched);
  vf_emit("OUT", outb, out_len);
  learn_etag();
  free(d);
}

static void end_tmp(void) {
  for (int i = 0; i < ntmp; i++) {
    struct stat s;
    if (lstat(tmpfiles[i], &s) == 0) {
      fprintf(vf_out, "TMPLEFT ");
      const char *p = tmpfiles[i];
      vf_puthex(p, strlen(p));
      fprintf(vf_out, "\n");
      if (is_tmp(p))
        __real_unlink(p);
    }
  }
  ntmp = 0;
}

/* ---------------------------------------------------------------- the tree (always relative to the scratch, with *at calls) */

static int basefd;

static void wipe(int dfd) {
  DIR *d = fdopendir(dup(dfd));
  struct dirent *e;
  rewinddir(d);
  while ((e = readdir(d))) {
    if (strcmp(e->d_name, ".") == 0 || strcmp(e->d_name, "..") == 0)
      continue;
    struct stat st;
    if (fstatat(dfd, e->d_name, &st, AT_SYMLINK_NOFOLLOW) != 0)
      continue;
    if (S_ISDIR(st.st_mode)) {
      fchmodat(dfd, e->d_name, 0755, 0);
      int s = openat(dfd, e->d_name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW);
      if (s >= 0) {
        wipe(s);
        close(s);
      }
      unlinkat(dfd, e->d_name, AT_REMOVEDIR);
    } else
      unlinkat(dfd, e->d_name, 0);
  }
  closedir(d);
}

static void dump(int dfd, char *rel) {
  DIR *d = fdopendir(dup(dfd));
  struct dirent *e;
  rewinddir(d);
  size_t rl = strlen(rel);
  while ((e = readdir(d))) {
    if (strcmp(e->d_name, ".") == 0 || strcmp(e->d_name, "..") == 0)
      continue;
    struct stat st;
    if (fstatat(dfd, e->d_name, &st, AT_SYMLINK_NOFOLLOW) != 0)
      continue;
    sprintf(rel + rl, "%s%s", rl ? "/" : "", e->d_name);
    if (S_ISDIR(st.st_mode)) {
      fprintf(vf_out, "T d ");
      vf_puthex(rel, strlen(rel));
      fprintf(vf_out, " %o\n", st.st_mode & 07777);
      int s = openat(dfd, e->d_name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW);
      if (s >= 0) {
        dump(s, rel);
        close(s);
      }
    } else if (S_ISLNK(st.st_mode)) {
      char t[PATH_MAX];
      ssize_t n = readlinkat(dfd, e->d_name, t, sizeof t);
      fprintf(vf_out, "T l ");
      vf_puthex(rel, strlen(rel));
      fprintf(vf_out, " ");
      if (n >= (ssize_t) basel && strncmp(t, base, basel) == 0) {
        fprintf(vf_out, "40");
        vf_puthex(t + basel, n - basel);
      } else
        vf_puthex(t, n);
      fprintf(vf_out, "\n");
    } else {
      fprintf(vf_out, "TM ");
      vf_puthex(rel, strlen(rel));
      fprintf(vf_out, " %lld\n", (long long)st.st_mtime);
      fprintf(vf_out, "T f ");
      vf_puthex(rel, strlen(rel));
      fprintf(vf_out, " %o %lld ", st.st_mode & 07777, (long long)st.st_size);
      int f = openat(dfd, e->d_name, O_RDONLY | O_NOFOLLOW);
      char b[65536];
      ssize_t n = f >= 0 ? __real_read(f, b, sizeof b) : -1;
      if (n < 0)
        fprintf(vf_out, "unreadable");
      else
        vf_puthex(b, n);
      if (f >= 0)
        close(f);
      fprintf(vf_out, "\n");
    }
    rel[rl] = 0;
  }
  closedir(d);
}

/* ---------------------------------------------------------------- handlers */

static onion_handler *root;
static char file_path[PATH_MAX];

static int h_file(void *p, onion_request * req, onion_response * res) {
  return onion_shortcut_response_file(file_path, req, res);
}

static void set_handler(const char *kind, const char *path, const char *mount) {
  onion_handler *h = NULL;
  if (strcmp(kind, "file") == 0) {
    strcpy(file_path, path);
    h = onion_handler_new((void *)h_file, NULL, NULL);
  } else if (strcmp(kind, "export") == 0)
    h = onion_handler_export_local_new(path);
  else if (strcmp(kind, "webdav") == 0)
    h = onion_handler_webdav(path, NULL);
  fprintf(vf_out, "HND %d\n", h != NULL);
  if (!h)
    return;
  if (strcmp(mount, "-") == 0)
    root = h;
  else {
    onion_url *u = onion_url_new();
    onion_url_add_handler(u, mount, h);
    root = onion_url_to_handler(u);
  }
  onion_set_root_handler(server, root);
}

static void clear_case(void) {
  strcpy(last_etag, "none");
  conn_close();
  if (root) {
    onion_set_root_handler(server, NULL);
    onion_handler_free(root);
    root = NULL;
  }
  guard_on = 0;
  rcap = sfcap = grow_by = swap_on = xdev = wcap = 0;
  trunc_to = wfail = wlim = -1;
  mem = 1;
  onion_use_sendfile = 1;
  served[0] = 0;
  wipe(basefd);
}

static void abspath(char *dst, const char *hex) {
  size_t l;
  char *r = vf_unhex(hex, &l, 1);
  if (r[0] == '@')
    snprintf(dst, PATH_MAX, "%s%s", base, r + 1);
  else
    snprintf(dst, PATH_MAX, "%s", r);
  free(r);
}

static onion_listen_point *mklp(int m) {
  onion_listen_point *l = onion_http_new();
  if (m) {
    l->request_init = m_init;
    l->read = m_read;
    l->write = m_write;
    l->close = m_close;
  } else
    l->request_init = s_init;
  l->listen = m_none;
  l->listen_stop = m_none;
  l->listenfd = -1;
  return l;
}

static void mkparents(char *p) {        /* scratch-relative, as given by the case */
  for (char *q = strchr(p, '/'); q; q = strchr(q + 1, '/')) {
    *q = 0;
    mkdirat(basefd, p, 0755);
    *q = '/';
  }
}

/* opens the directory of a relative path longer than PATH_MAX too */
static int dir_of(char *p, char **last) {
  int fd = dup(basefd);
  char *q;
  while ((q = strchr(p, '/'))) {
    *q = 0;
    mkdirat(fd, p, 0755);
    int n = openat(fd, p, O_RDONLY | O_DIRECTORY);
    *q = '/';
    if (n < 0) {
      fprintf(stderr, "cannot make %s\n", p);
      exit(97);
    }
    close(fd);
    fd = n;
    p = q + 1;
  }
  *last = p;
  return fd;
}

static void do_line(char *line) {
  char *f[8];
  int n = vf_split(line, f, 8);
  (void)mkparents;
  if (strcmp(f[0], "DIR") == 0) {
    size_t l;
    char *p = vf_unhex(f[1], &l, 1), *last;
    int d = dir_of(p, &last);
    mkdirat(d, last, 0755);
    close(d);
    free(p);
  } else if (strcmp(f[0], "FILE") == 0) {
    size_t l, pl;
    char *p = vf_unhex(f[1], &l, 1), *last;
    char *pat = vf_unhex(n > 5 ? f[4] : "00", &pl, 0);
    long len = atol(f[n > 5 ? 5 : 4]);
    int d = dir_of(p, &last);
    int fd = openat(d, last, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0) {
      fprintf(stderr, "cannot create %s: %s\n", p, strerror(errno));
      exit(97);
    }
    if (n <= 5)
      (void)!ftruncate(fd, len);        /* sparse */
    else {
      char *b = malloc(len + 1);
      for (long i = 0; i < len; i++)
        b[i] = pat[i % pl];
      for (long i = 0; i < len;)
        i += __real_write(fd, b + i, len - i);
      free(b);
    }
    fchmod(fd, strtol(f[2], NULL, 8));
    struct timespec ts[2];
    ts[0].tv_sec = ts[1].tv_sec = atol(f[3]);
    ts[0].tv_nsec = ts[1].tv_nsec = 0;
    if (ts[0].tv_sec)
      futimens(fd, ts);
    close(fd);
    close(d);
    free(pat);
    free(p);
  } else if (strcmp(f[0], "PATCH") == 0) {
    size_t l, dl;
    char *p = vf_unhex(f[1], &l, 1);
    char *data = vf_unhex(f[3], &dl, 0);
    int fd = openat(basefd, p, O_WRONLY);
    struct stat st;
    fstat(fd, &st);
    (void)!pwrite(fd, data, dl, atol(f[2]));
    struct timespec ts[2] = { st.st_atim, st.st_mtim };
    futimens(fd, ts);
    close(fd);
    free(p);
    free(data);
  } else if (strcmp(f[0], "LINK") == 0) {
    size_t l;
    char *p = vf_unhex(f[1], &l, 1), *last;
    char t[PATH_MAX];
    abspath(t, f[2]);
    int d = dir_of(p, &last);
    if (symlinkat(t, d, last) != 0)
      fprintf(stderr, "symlink %s\n", strerror(errno));
    close(d);
    free(p);
  } else if (strcmp(f[0], "HND") == 0) {
    char t[PATH_MAX];
    abspath(t, f[2]);
    set_handler(f[1], t, f[3]);
  } else if (strcmp(f[0], "SERVED") == 0)
    abspath(served, f[1]);
  else if (strcmp(f[0], "SET") == 0) {
    long v = atol(f[2]);
    if (strcmp(f[1], "mem") == 0)
      mem = v;
    else if (strcmp(f[1], "sendfile") == 0)
      onion_use_sendfile = v;
    else if (strcmp(f[1], "rcap") == 0)
      rcap = v;
    else if (strcmp(f[1], "sfcap") == 0)
      sfcap = v;
    else if (strcmp(f[1], "trunc") == 0)
      trunc_to = v;
    else if (strcmp(f[1], "grow") == 0)
      grow_by = v;
    else if (strcmp(f[1], "swap") == 0)
      swap_on = v;
    else if (strcmp(f[1], "xdev") == 0)
      xdev = v;
    else if (strcmp(f[1], "wfail") == 0)
      wfail = v;
    else if (strcmp(f[1], "wcap") == 0)
      wcap = v;
    else if (strcmp(f[1], "wlim") == 0)
      wlim = v;
    else
      exit(97);
  } else if (strcmp(f[0], "REQ") == 0) {
    do_req(f[1]);
  } else if (strcmp(f[0], "NEW") == 0) {
    guard_on = 1;
    conn_close();
    guard_on = 0;
    end_tmp();
  } else if (strcmp(f[0], "MIME") == 0) {
    char t[PATH_MAX];
    abspath(t, f[1]);
    vf_emits("MIME", onion_mime_get(t));
  } else if (strcmp(f[0], "TREE") == 0) {
    static char rel[1 << 16];
    rel[0] = 0;
    dump(basefd, rel);
    fprintf(vf_out, "TEND\n");
  } else {
    fprintf(stderr, "bad line %s\n", f[0]);
    exit(97);
  }
}

static void warm(void) {
  static const char *w[] = {
    "DIR 77", "FILE 772f612e747874 644 1000 61 100", "HND export 402f77 -",
    "REQ 474554202f20485454502f312e310d0a0d0a", "NEW",
    "REQ 474554202f612e74787420485454502f312e310d0a0d0a", "NEW", "SET mem 0", "REQ 474554202f612e74787420485454502f312e310d0a0d0a", "NEW",
  };
  FILE *o = vf_out;
  vf_out = __real_fopen("/dev/null", "w");
  for (size_t i = 0; i < sizeof w / sizeof *w; i++) {
    char *l = strdup(w[i]);
    do_line(l);
    free(l);
  }
  clear_case();
  set_handler("webdav", base, "-");
  clear_case();
  fclose(vf_out);
  vf_out = o;
}

int main(int argc, char **argv) {
  vf_heap_init();
  VF_TAG_ENV();
  onion_log_flags |= OF_NOINFO | OF_NOCOLOR | OF_INIT;
  if (!getenv("VF_LOG"))
    onion_log = (void *)vf_nolog;
  FILE *cf = __real_fopen(argv[1], "r");
  vf_out = __real_fopen(argv[2], "w");
  static char obuf[1 << 16];
  setvbuf(vf_out, obuf, _IOFBF, sizeof obuf);
  if (!cf || !vf_out || argc < 4)
    return 96;
  /* the scratch: a new directory in the one given, owned by nobody, who we become */
  char t[PATH_MAX];
  snprintf(t, sizeof t, "%s/fXXXXXX", argv[3]);
  if (!mkdtemp(t) || !realpath(t, base))
    return 96;
  basel = strlen(base);
  if (geteuid() == 0) {
    if (chown(base, 65534, 65534) != 0 || setgroups(0, NULL) != 0 || setgid(65534) != 0 || setuid(65534) != 0) {
      fprintf(stderr, "cannot become nobody: %s\n", strerror(errno));
      return 96;
    }
    prctl(PR_SET_DUMPABLE, 1, 0, 0, 0);
  }
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  umask(022);
  if (chdir(base) != 0)
    return 96;
  basefd = __real_open(".", O_RDONLY | O_DIRECTORY);
  server = onion_new(O_ONE);
  lp_mem = mklp(1);
  lp_sock = mklp(0);
  onion_add_listen_point(server, NULL, NULL, lp_mem);
  onion_add_listen_point(server, NULL, NULL, lp_sock);
  outb = malloc(out_cap = 1 << 23);
  clear_case();

  char *line = NULL;
  size_t cap = 0;
  ssize_t n;
  line = malloc(cap = 1 << 23);
  long b = 0;
  int fds = 0, warmed = 0;
  while ((n = vf_getline(&line, &cap, cf)) >= 0) {
    if (strncmp(line, "CASE ", 5) == 0) {
      if (!warmed)
        warm();
      warmed = 1;
      fprintf(vf_out, "%s\n", line);
      fflush(vf_out);
      clear_case();
      b = vf_live_allocs;
      fds = vf_count_fds();
    } else if (strcmp(line, "END") == 0) {
      guard_on = 1;
      conn_close();
      guard_on = 0;
      end_tmp();
      clear_case();
      fprintf(vf_out, "RES allocs=%ld fds=%d\n", vf_live_allocs - b, vf_count_fds() - fds);
      fprintf(vf_out, "ENDCASE\n");
    } else
      do_line(line);
  }
  free(line);
  fflush(vf_out);
  onion_free(server);
  if (chdir("/") != 0)
    return 97;
  fprintf(vf_out, "DONE\n");
  fclose(vf_out);
  return 0;
}

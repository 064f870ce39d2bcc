/* A server over TLS or in clear, driven by vf/props/p29.py through its sockets and its stdin.
   args: tls=0|1 mode=one|poll|threads cert= key= timeout= dir= threads= promote=0|1 signal=usec
   stdin: "stat" -> "STAT allocs bytes fds requests"; "stop" stops, frees, and ends with "END allocs bytes fds" */
#define _GNU_SOURCE
#include "vf.h"
#include <arpa/inet.h>
#include <pthread.h>
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>
#include <onion/low.h>
#include <onion/onion.h>
#include <onion/handler.h>
#include <onion/request.h>
#include <onion/response.h>
#include <onion/dict.h>
#include <onion/block.h>
#include <onion/http.h>
#include <onion/https.h>
#include <onion/listen_point.h>
#include <onion/websocket.h>
#include <onion/shortcuts.h>
#include <onion/log.h>
#include "onion/types_internal.h"
#include <sys/epoll.h>
#include <sys/socket.h>
/* the kernel orders the close of a descriptor before it is given out again, and arming a descriptor
 * before the event it gives; TSan does not know (see net.c) */
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
void __tsan_acquire(void *);
void __tsan_release(void *);
static char fdsync[65536];
const char *__tsan_default_suppressions(void) {
  return "race:epoll_ctl\ncalled_from_lib:libc.so.6\n";
}
#define FD_OUT(fd) do { if ((fd) >= 0 && (fd) < 65536) __tsan_acquire(&fdsync[fd]); } while (0)
#define FD_BACK(fd) do { if ((fd) >= 0 && (fd) < 65536) __tsan_release(&fdsync[fd]); } while (0)
#define ARM(p) __tsan_release(p)
#define FIRED(p) __tsan_acquire(p)
#endif
#endif
#ifndef FD_OUT
#define FD_OUT(fd)
#define FD_BACK(fd)
#define ARM(p)
#define FIRED(p)
#endif
int __real_epoll_ctl(int, int, int, struct epoll_event *);
int __wrap_epoll_ctl(int a, int b, int c, struct epoll_event *d) {
  if (d && d->data.ptr)
    ARM(d->data.ptr);
  return __real_epoll_ctl(a, b, c, d);
}
int __real_epoll_wait(int, struct epoll_event *, int, int);
int __wrap_epoll_wait(int a, struct epoll_event *b, int c, int d) {
  int r = __real_epoll_wait(a, b, c, d);
  for (int i = 0; i < r; i++)
    if (b[i].data.ptr)
      FIRED(b[i].data.ptr);
  return r;
}
int __real_accept4(int, struct sockaddr *, socklen_t *, int);
int __wrap_accept4(int a, struct sockaddr *b, socklen_t * c, int d) {
  int r = __real_accept4(a, b, c, d);
  FD_OUT(r);
  return r;
}
int __real_close(int);
int __wrap_close(int fd) {
  FD_BACK(fd);
  return __real_close(fd);
}

static int Gargc;
static char **Gargv;
static const char *P_str(const char *k, const char *d) {
  size_t n = strlen(k);
  for (int i = 1; i < Gargc; i++)
    if (!strncmp(Gargv[i], k, n) && Gargv[i][n] == '=')
      return Gargv[i] + n + 1;
  return d;
}
static long P_int(const char *k, long d) {
  const char *s = P_str(k, NULL);
  return s ? atol(s) : d;
}
static void nolog(onion_log_level l, const char *f, int n, const char *m, ...) {
}
static volatile long requests;
static const char *dir;

static int w_all(onion_response * res, const char *d, size_t n) {
  while (n) {
    ssize_t w = onion_response_write(res, d, n);
    if (w <= 0)
      return -1;
    d += w;
    n -= w;
  }
  return 0;
}
static void dump_kv(onion_response * res, const char *k, const void *v, int f) {
  if (f & OD_DICT)
    return;
  onion_response_printf(res, "%s=%d:", k, (int)strlen((const char *)v));
  w_all(res, v, strlen(v));
  onion_response_write0(res, "\n");
}
static onion_connection_status ws_cb(void *d, onion_websocket * ws, ssize_t ready) {
  char b[3000];
  ssize_t n = onion_websocket_read(ws, b, ready > (ssize_t) sizeof(b) ? sizeof(b) : (size_t) ready);
  if (n <= 0)
    return OCS_CLOSE_CONNECTION;
  for (ssize_t i = 0; i < n;) {
    ssize_t w = onion_websocket_write(ws, b + i, n - i);
    if (w <= 0)
      return OCS_CLOSE_CONNECTION;
    i += w;
  }
  return OCS_NEED_MORE_DATA;
}
static int handler(void *_, onion_request * req, onion_response * res) {
  __atomic_add_fetch(&requests, 1, __ATOMIC_RELAXED);
  const char *p = onion_request_get_path(req);
  if (!strncmp(p, "big", 3)) {
    long n = atol(onion_request_get_queryd(req, "n", "0")), piece = atol(onion_request_get_queryd(req, "piece", "4096"));
    if (atol(onion_request_get_queryd(req, "len", "0")))
      onion_response_set_length(res, n);
    char *b = malloc(piece + 1);
    for (long i = 0; i < n;) {
      long k = n - i < piece ? n - i : piece;
      for (long j = 0; j < k; j++)
        b[j] = ((i + j) * 131 + ((i + j) >> 8) * 7) & 255;
      if (w_all(res, b, k))
        break;
      i += k;
    }
    free(b);
    return OCS_PROCESSED;
  }
  if (!strncmp(p, "file", 4)) {
    char fn[512];
    snprintf(fn, sizeof(fn), "%s/%s", dir, onion_request_get_queryd(req, "f", "none"));
    return onion_shortcut_response_file(fn, req, res);
  }
  if (!strncmp(p, "secure", 6)) {
    onion_response_printf(res, "secure=%d;", onion_request_is_secure(req) ? 1 : 0);
    return OCS_PROCESSED;
  }
  if (!strncmp(p, "ws", 2)) {
    onion_websocket *ws = onion_websocket_new(req, res);
    if (!ws) {
      onion_response_write0(res, "no websocket");
      return OCS_PROCESSED;
    }
    onion_websocket_set_callback(ws, ws_cb);
    return OCS_WEBSOCKET;
  }
  onion_response_printf(res, "flags=%d path=%s\n", onion_request_get_flags(req) & (OR_METHODS | OR_HTTP11), p);
  onion_response_write0(res, "headers\n");
  onion_dict_preorder(onion_request_get_header_dict(req), dump_kv, res);
  onion_response_write0(res, "query\n");
  onion_dict_preorder(onion_request_get_query_dict(req), dump_kv, res);
  onion_response_write0(res, "post\n");
  if (onion_request_get_post_dict(req))
    onion_dict_preorder(onion_request_get_post_dict(req), dump_kv, res);
  const onion_block *b = onion_request_get_data(req);
  if (b && (onion_request_get_flags(req) & OR_METHODS) == OR_PUT) {
    FILE *f = fopen(onion_block_data(b), "r");
    char t[5000];
    size_t n;
    onion_response_write0(res, f ? "put\n" : "no file\n");
    while (f && (n = fread(t, 1, sizeof(t), f)) > 0)
      w_all(res, t, n);
    if (f)
      fclose(f);
  } else if (b) {
    onion_response_printf(res, "data %d\n", (int)onion_block_size(b));
    w_all(res, onion_block_data(b), onion_block_size(b));
  }
  return OCS_PROCESSED;
}
/* the initialization of TLS fails at some step */
static int failinit;
int __real_gnutls_dh_params_init(void *p);
int __real_gnutls_dh_params_generate2(void *p, unsigned b);
int __real_gnutls_priority_init(void *p, const char *s, const char **e);
int __wrap_gnutls_dh_params_init(void *p) {
  return failinit == 1 ? -25 : __real_gnutls_dh_params_init(p);
}
int __wrap_gnutls_dh_params_generate2(void *p, unsigned b) {
  return failinit == 2 ? -25 : __real_gnutls_dh_params_generate2(p, b);
}
int __wrap_gnutls_priority_init(void *p, const char *s, const char **e) {
  return failinit == 3 ? -25 : __real_gnutls_priority_init(p, s, e);
}
static int try_failinit(void) {
  long a0 = 0;
  for (int k = 0; k < 6; k++) {
    if (k == 2)
      a0 = vf_live_allocs;
    for (int how = 0; how < 3; how++)
      for (failinit = 0; failinit <= 3; failinit++) {
        onion *o = onion_new(O_POLL);
        int r = 0;
        if (how == 0) {
          onion_listen_point *lp = onion_https_new();
          r = lp ? 1 : -1;
          if (lp)
            onion_listen_point_free(lp);
        } else {
          if (how == 1) {
            onion_set_port(o, "1");
            onion_set_hostname(o, "127.0.0.1");
          }
          r = onion_set_certificate(o, O_SSL_CERTIFICATE_KEY, P_str("cert", ""), P_str("key", ""));
        }
        printf("%s %d %d %d\n", failinit ? "FAILINIT" : "OKINIT", how, failinit, r);
        onion_free(o);
      }
  }
  printf("END %ld 0 0\n", vf_live_allocs - a0);
  return 0;
}
static void *run(void *o) {
  int r = onion_listen(o);
  printf("LISTENEND %d\n", r);
  fflush(stdout);
  return NULL;
}
static void tick(int s) {
}
int main(int argc, char **argv) {
  Gargc = argc;
  Gargv = argv;
  vf_heap_init();
  VF_TAG_ENV();
  if (!P_int("log", 0))
    onion_log = (void *)nolog;
  onion_log_flags = OF_NOINFO | OF_NODEBUG | OF_NOCOLOR | OF_INIT;
  if (P_int("failinit", 0))
    return try_failinit();
  dir = P_str("dir", "/nonexistent");
  const char *mode = P_str("mode", "poll");
  int tls = P_int("tls", 1);
  unsigned pid = getpid();
  char addr[40], port[12];
  sprintf(addr, "127.%u.%u.%u", 1 + (pid >> 16) % 200, (pid >> 8) & 255, 1 + (pid & 255) % 254);
  sprintf(port, "%u", 18000 + pid % 1000);
  int fd0 = vf_count_fds();
  onion *o = onion_new(!strcmp(mode, "one") ? O_ONE_LOOP : !strcmp(mode, "poll") ? O_POLL : O_POOL);
  if (P_int("threads", 0))
    onion_set_max_threads(o, P_int("threads", 0));
  onion_set_timeout(o, P_int("timeout", 60000));
  onion_set_root_handler(o, onion_handler_new((void *)handler, NULL, NULL));
  int cr = 0;
  if (!tls)
    onion_add_listen_point(o, addr, port, onion_http_new());
  else if (P_int("promote", 0)) {
    onion_set_hostname(o, addr);
    onion_set_port(o, port);
    cr = onion_set_certificate(o, O_SSL_CERTIFICATE_KEY, P_str("cert", ""), P_str("key", ""));
  } else {
    onion_listen_point *lp = onion_https_new();
    cr = onion_https_set_certificate(lp, O_SSL_CERTIFICATE_KEY, P_str("cert", ""), P_str("key", ""));
    onion_add_listen_point(o, addr, port, lp);
  }
  if (cr < 0) {
    printf("NOCERT %d\n", cr);
    return 3;
  }
  pthread_t th;
  pthread_create(&th, NULL, run, o);
  long usec = P_int("signal", 0);
  if (usec) {
    struct sigaction sa = {.sa_handler = tick,.sa_flags = SA_RESTART };
    sigaction(SIGALRM, &sa, NULL);
    sigset_t ss;                /* to the threads of the server */
    sigemptyset(&ss);
    sigaddset(&ss, SIGALRM);
    pthread_sigmask(SIG_BLOCK, &ss, NULL);
    struct itimerval it = { {usec / 1000000, usec % 1000000}, {usec / 1000000, usec % 1000000} };
    setitimer(ITIMER_REAL, &it, NULL);
  }
  printf("READY %s %s\n", addr, port);
  fflush(stdout);
  char l[100];
  while (1) {
    if (!fgets(l, sizeof(l), stdin)) {
      if (feof(stdin))
        _exit(4);
      clearerr(stdin);
      continue;
    }
    if (!strncmp(l, "stop", 4))
      break;
    printf("STAT %ld %ld %d %ld\n", vf_live_allocs, vf_live_bytes, vf_count_fds(), requests);
    fflush(stdout);
  }
  onion_listen_stop(o);
  printf("STOPPED\n");
  fflush(stdout);
  pthread_join(th, NULL);
  onion_free(o);
  printf("END %ld %ld %d\n", vf_live_allocs, vf_live_bytes, vf_count_fds() - fd0);
  fflush(stdout);
  _exit(0);
}

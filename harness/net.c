/* Real onion servers on a loopback port, with C client threads, monitored end to end.
 *
 *   net key=value...   scenario=conc|life|yield|sess|emfile|mix (mix.h)
 *
 * Every request and response is a function of its id, so handler and client verify every byte;
 * a log counts handler runs per id (exactly once).  Blocking points of the library are wrapped at
 * link time to inject delays and to watch descriptors (a close that fails with EBADF is a double close).
 * Prints FAIL lines for violations, STAT lines for what was observed, and DONE.
 */
#define _GNU_SOURCE
#include <pthread.h>
#include "vf.h"
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/epoll.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <onion/low.h>
#include <onion/onion.h>
#include <onion/log.h>
#include <onion/dict.h>
#include <onion/block.h>
#include <onion/request.h>
#include <onion/response.h>
#include <onion/handler.h>
#include <onion/sessions.h>
#include <onion/http.h>
#include <onion/listen_point.h>

/* ------------------------------------------------------------ utilities */
static int P_int(const char *k, int def);
static const char *P_str(const char *k, const char *def);
static int Gargc;
static char **Gargv;
static const char *P_str(const char *k, const char *def) {
  size_t l = strlen(k);
  for (int i = 1; i < Gargc; i++)
    if (!strncmp(Gargv[i], k, l) && Gargv[i][l] == '=')
      return Gargv[i] + l + 1;
  return def;
}
static int P_int(const char *k, int def) {
  const char *s = P_str(k, NULL);
  return s ? atoi(s) : def;
}
static pthread_mutex_t out_m = PTHREAD_MUTEX_INITIALIZER;
static int nfails;
static void FAILF(const char *fmt, ...) {
  pthread_mutex_lock(&out_m);
  if (nfails++ < 30) {
    va_list va;
    va_start(va, fmt);
    printf("FAIL ");
    vprintf(fmt, va);
    printf("\n");
    fflush(stdout);
    va_end(va);
  }
  pthread_mutex_unlock(&out_m);
}
static uint64_t seed0;
static __thread uint64_t rs;
static uint64_t mix(uint64_t x) {
  x ^= x >> 33;
  x *= 0xff51afd7ed558ccdULL;
  x ^= x >> 33;
  x *= 0xc4ceb9fe1a85ec53ULL;
  x ^= x >> 33;
  return x;
}
static uint64_t tcount;
static uint64_t rnd(void) {
  if (!rs)
    rs = mix(seed0 + 0x9e3779b97f4a7c15ULL * (1 + __atomic_fetch_add(&tcount, 1, __ATOMIC_RELAXED))) | 1;
  rs ^= rs << 13;
  rs ^= rs >> 7;
  rs ^= rs << 17;
  return rs * 0x2545F4914F6CDD1DULL >> 20;
}
static unsigned R(unsigned n) {
  return rnd() % n;
}
static double now(void) {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec / 1e9;
}
static void ms(int n) {
  struct timespec t = { n / 1000, (n % 1000) * 1000000L };
  nanosleep(&t, NULL);
}
static void us(int n) {
  struct timespec t = { 0, n * 1000L };
  nanosleep(&t, NULL);
}
static char addr[32];
static int port;
static int detach, nthreads, timeout_ms;
static int delay_pct;
static long n_delays, n_epoll, n_accept, n_ebadf;

/* watchdog: no progress for too long is a hang */
static volatile long progress;
static const char *_Atomic where = "start";
static int stall_s;
static void *watchdog(void *_) {
  long last = -1;
  double t = now();
  for (;;) {
    ms(100);
    long p = __atomic_load_n(&progress, __ATOMIC_RELAXED);
    if (p != last) {
      last = p;
      t = now();
    } else if (now() - t > stall_s) {
      printf("FAIL hang during: %s\n", where);
      fflush(stdout);
      _exit(7);
    }
  }
  return NULL;
}
static void tick(void) {
  __atomic_fetch_add(&progress, 1, __ATOMIC_RELAXED);
}

/* ------------------------------------------------------------ wraps: delays and descriptor monitor */
static void maybe_delay(void) {
  if (delay_pct && R(100) < (unsigned)delay_pct) {
    __atomic_fetch_add(&n_delays, 1, __ATOMIC_RELAXED);
    switch (R(4)) {
    case 0:
      sched_yield();
      break;
    case 1:
      us(R(50));
      break;
    case 2:
      us(R(400));
      break;
    default:
      us(R(1500));
    }
  }
}
/* the kernel orders the close of a descriptor before it is given out again, and arming a descriptor
 * before the event it gives; TSan does not know */
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
void __tsan_acquire(void *);
void __tsan_release(void *);
static char fdsync[65536];
/* arming a descriptor "reads" it after the event it gives may have got it closed */
const char *__tsan_default_suppressions(void) {
  return "race:epoll_ctl\ncalled_from_lib:libc.so.6\n";
}
#define FD_OUT(fd) do { if ((fd) >= 0 && (fd) < 65536) __tsan_acquire(&fdsync[fd]); } while (0)
#define FD_BACK(fd) do { if ((fd) >= 0 && (fd) < 65536) __tsan_release(&fdsync[fd]); } while (0)
#define ARM(p) __tsan_release(p)
#define FIRED(p) __tsan_acquire(p)
#endif
#endif
#ifndef FD_OUT
#define FD_OUT(fd)
#define FD_BACK(fd)
#define ARM(p)
#define FIRED(p)
#endif
int __real_pthread_rwlock_rdlock(pthread_rwlock_t *);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t *);
int __real_pthread_rwlock_unlock(pthread_rwlock_t *);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t * l) {
  maybe_delay();
  return __real_pthread_rwlock_rdlock(l);
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t * l) {
  maybe_delay();
  return __real_pthread_rwlock_wrlock(l);
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t * l) {
  int r = __real_pthread_rwlock_unlock(l);
  maybe_delay();
  return r;
}
int __real_epoll_ctl(int, int, int, struct epoll_event *);
int __wrap_epoll_ctl(int a, int b, int c, struct epoll_event *d) {
  maybe_delay();
  if (d && d->data.ptr)
    ARM(d->data.ptr);
  int r = __real_epoll_ctl(a, b, c, d);
  int e = errno;
  maybe_delay();
  errno = e;
  return r;
}
int __real_epoll_wait(int, struct epoll_event *, int, int);
int __wrap_epoll_wait(int a, struct epoll_event *b, int c, int d) {
  int r = __real_epoll_wait(a, b, c, d);
  for (int i = 0; i < r; i++)
    if (b[i].data.ptr)
      FIRED(b[i].data.ptr);
  int e = errno;
  __atomic_fetch_add(&n_epoll, 1, __ATOMIC_RELAXED);
  maybe_delay();
  errno = e;
  return r;
}
int __real_accept4(int, struct sockaddr *, socklen_t *, int);
int __wrap_accept4(int a, struct sockaddr *b, socklen_t * c, int d) {
  maybe_delay();
  int r = __real_accept4(a, b, c, d);
  int e = errno;
  FD_OUT(r);
  __atomic_fetch_add(&n_accept, 1, __ATOMIC_RELAXED);
  maybe_delay();
  errno = e;
  return r;
}
int __real_close(int);
int __wrap_close(int fd) {
  maybe_delay();
  FD_BACK(fd);
  int r = __real_close(fd);
  if (r < 0 && errno == EBADF) {
    __atomic_fetch_add(&n_ebadf, 1, __ATOMIC_RELAXED);
    FAILF("doubleclose close(%d) of a descriptor that is not open", fd);
  }
  return r;
}
static int cclose(int fd) {
  FD_BACK(fd);
  return __real_close(fd);
}
static int csocket(void) {
  int fd = socket(AF_INET, SOCK_STREAM, 0);
  FD_OUT(fd);
  return fd;
}
int __real_shutdown(int, int);
int __wrap_shutdown(int fd, int how) {
  maybe_delay();
  return __real_shutdown(fd, how);
}
/* a signal that comes while a call waits */
static int eintr, n_eintr;
static int interrupted(int fd) {
  int t;
  socklen_t l = sizeof t;
  if (!eintr || R(1000) >= (unsigned)eintr || getsockopt(fd, SOL_SOCKET, SO_TYPE, &t, &l) != 0)
    return 0;
  __atomic_fetch_add(&n_eintr, 1, __ATOMIC_RELAXED);
  errno = EINTR;
  return 1;
}
ssize_t __real_read(int, void *, size_t);
ssize_t __wrap_read(int fd, void *p, size_t n) {
  maybe_delay();
  if (interrupted(fd))
    return -1;
  return __real_read(fd, p, n);
}
ssize_t __real_write(int, const void *, size_t);
static int shortw;
ssize_t __wrap_write(int fd, const void *p, size_t n) {
  maybe_delay();
  if (interrupted(fd))
    return -1;
  if (shortw && n > 16 && R(100) < (unsigned)shortw)
    n = 1 + R(n - 1);
  return __real_write(fd, p, n);
}

/* ------------------------------------------------------------ requests as a function of their id */
#define MAXID 200000
static uint8_t runs[MAXID], answered[MAXID];
static int ev_log[4 * MAXID];
static int ev_n;
static void ev(int x) {
  int i = __atomic_fetch_add(&ev_n, 1, __ATOMIC_RELAXED);
  if (i < 4 * MAXID)
    ev_log[i] = x;
}
static int in_handler, max_in_handler;
static int h_threads;
static __thread int h_seen;

static size_t reslen(int id) {
  uint64_t h = mix(id * 7919ULL + seed0);
  switch (h % 10) {
  case 0:
    return 0;
  case 1:
    return 1500 - 3 + (h >> 8) % 7;
  case 2:
    return (h >> 8) % 70000;
  case 3:
    return 400000 + (h >> 8) % 200000;
  default:
    return (h >> 8) % 3000;
  }
}
static size_t bodylen(int id) {
  uint64_t h = mix(id * 104729ULL + seed0);
  switch (h % 8) {
  case 0:
    return (h >> 8) % 60000;
  case 1:
    return 1500 - 200 + (h >> 8) % 300;
  default:
    return (h >> 8) % 600;
  }
}
static int is_post(int id) {
  return mix(id * 31ULL + seed0) % 3 == 0;
}
static unsigned char resbyte(int id, size_t i) {
  return 'a' + ((i * 7 + (i >> 8) + id * 13) % 26);
}
static unsigned char bodybyte(int id, size_t i) {
  return 'A' + ((i * 5 + (i >> 8) + id * 11) % 26);
}

static onion *_Atomic srv;
static _Atomic int stop_from_handler;

static void handler_enter(void) {
  int n = __atomic_add_fetch(&in_handler, 1, __ATOMIC_RELAXED);
  int m = __atomic_load_n(&max_in_handler, __ATOMIC_RELAXED);
  while (n > m && !__atomic_compare_exchange_n(&max_in_handler, &m, n, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) ;
  if (!h_seen) {
    h_seen = 1;
    __atomic_fetch_add(&h_threads, 1, __ATOMIC_RELAXED);
  }
}
static void handler_leave(void) {
  __atomic_fetch_sub(&in_handler, 1, __ATOMIC_RELAXED);
}
static int check_request(onion_request * req) {
  const char *path = onion_request_get_path(req);
  int id = -1;
  if (!path || sscanf(path, "r/%d", &id) != 1 || id < 0 || id >= MAXID) {
    FAILF("path handler saw path '%.60s'", path ? path : "(null)");
    return -1;
  }
  char idb[20];
  sprintf(idb, "%d", id);
  const char *h = onion_request_get_header(req, "X-Id");
  if (!h || strcmp(h, idb))
    FAILF("mixed request %d has header X-Id %.40s", id, h ? h : "(null)");
  const char *q = onion_request_get_query(req, "q");
  if (!q || strcmp(q, idb))
    FAILF("mixed request %d has query q %.40s", id, q ? q : "(null)");
  const char *ck = onion_request_get_cookie(req, "c");
  if (!ck || strcmp(ck, idb))
    FAILF("mixed request %d has cookie c %.40s", id, ck ? ck : "(null)");
  if (is_post(id)) {
    const char *p = onion_request_get_post(req, "body");
    size_t l = bodylen(id), i;
    if (!p || strlen(p) != l)
      FAILF("body request %d has %zd bytes of body, not %zu", id, p ? (ssize_t) strlen(p) : -1, l);
    else {
      for (i = 0; i < l; i++)
        if ((unsigned char)p[i] != bodybyte(id, i)) {
          FAILF("mixed request %d body differs at %zu", id, i);
          break;
        }
    }
  } else if (onion_request_get_post(req, "body"))
    FAILF("mixed request %d GET with a body field", id);
  return id;
}
static void write_response(int id, onion_response * res) {
  char idb[20];
  sprintf(idb, "%d", id);
  onion_response_set_header(res, "X-Id", idb);
  size_t l = reslen(id), i = 0;
  int chunked = mix(id * 17ULL) % 2;
  if (!chunked)
    onion_response_set_length(res, l);
  char buf[8192];
  while (i < l) {
    size_t n = 1 + R(sizeof(buf));
    if (n > l - i)
      n = l - i;
    for (size_t k = 0; k < n; k++)
      buf[k] = resbyte(id, i + k);
    onion_response_write(res, buf, n);
    i += n;
    if (R(30) == 0)
      us(R(300));
  }
}
static _Atomic int nap_id = -1, nap_ms; /* this request takes that long */
static int h_conc(void *_, onion_request * req, onion_response * res) {
  handler_enter();
  int id = check_request(req);
  if (id < 0) {
    handler_leave();
    return OCS_INTERNAL_ERROR;
  }
  if (__atomic_add_fetch(&runs[id], 1, __ATOMIC_RELAXED) != 1)
    FAILF("twice request %d handled again", id);
  ev(id * 2);
  if (id == nap_id)
    ms(nap_ms);
  else if (R(4) == 0)
    us(R(2000));
  write_response(id, res);
  ev(id * 2 + 1);
  if (stop_from_handler && R(3) == 0)
    onion_listen_stop(srv);
  handler_leave();
  return OCS_PROCESSED;
}

/* ------------------------------------------------------------ yield */
struct yl {
  onion_request *req;
  onion_response *res;
  int id;
  struct yl *next;
};
static struct yl *yq;
static int ypending;            /* yielded and not finished, under ym */
static pthread_mutex_t ym = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t yc = PTHREAD_COND_INITIALIZER;
static _Atomic int yend;
static long n_yield;
static void finish_yield(struct yl *y) {
  ev(y->id * 2);
  write_response(y->id, y->res);
  onion_request *req = y->req;
  onion_response_free(y->res);
  onion_request_free(req);
  ev(y->id * 2 + 1);
  free(y);
  pthread_mutex_lock(&ym);
  ypending--;
  pthread_mutex_unlock(&ym);
}
static void *yworker(void *_) {
  for (;;) {
    pthread_mutex_lock(&ym);
    while (!yq && !yend)
      pthread_cond_wait(&yc, &ym);
    struct yl *y = yq;
    if (!y) {
      pthread_mutex_unlock(&ym);
      return NULL;
    }
    yq = y->next;
    pthread_mutex_unlock(&ym);
    switch (R(4)) {
    case 0:
      break;
    case 1:
      us(R(200));
      break;
    case 2:
      us(R(3000));
      break;
    default:
      ms(R(30));
    }
    finish_yield(y);
  }
}
static int yielding;
static int yields(int id) {
  return mix(id * 99ULL) % 4 != 0;
}
static int h_yield(void *_, onion_request * req, onion_response * res) {
  int id;
  handler_enter();
  id = check_request(req);
  if (id < 0) {
    handler_leave();
    return OCS_INTERNAL_ERROR;
  }
  if (__atomic_add_fetch(&runs[id], 1, __ATOMIC_RELAXED) != 1)
    FAILF("twice request %d handled again", id);
  if (!yields(id)) {       /* some are answered directly */
    write_response(id, res);
    handler_leave();
    return OCS_PROCESSED;
  }
  struct yl *y = malloc(sizeof(*y));
  y->req = req;
  y->res = res;
  y->id = id;
  __atomic_fetch_add(&n_yield, 1, __ATOMIC_RELAXED);
  pthread_mutex_lock(&ym);
  ypending++;
  y->next = yq;
  yq = y;
  pthread_cond_signal(&yc);
  pthread_mutex_unlock(&ym);
  if (R(3) == 0)
    us(R(4000));                /* let the other thread finish before we return */
  handler_leave();
  return OCS_YIELD;
}

/* ------------------------------------------------------------ sessions */
static int h_sess(void *_, onion_request * req, onion_response * res) {
  handler_enter();
  const char *op = onion_request_get_query(req, "op");
  const char *v = onion_request_get_query(req, "v");
  ev((int)pthread_self() & 0xffff);
  onion_dict *s = onion_request_get_session_dict(req);
  char buf[200];
  if (!op)
    op = "get";
  if (!strcmp(op, "free")) {
    onion_request_session_free(req);
    s = NULL;
    sprintf(buf, "freed");
  } else if (!s) {
    sprintf(buf, "nosession");
  } else {
    onion_dict_lock_write(s);
    if (!strcmp(op, "vol")) {
      onion_dict_add(s, "v", "volatile", OD_DUP_ALL | OD_REPLACE);
      onion_dict_add(s, "n", "7", OD_DUP_ALL | OD_REPLACE);
    } else if (!strcmp(op, "set"))
      onion_dict_add(s, "v", v, OD_DUP_ALL | OD_REPLACE);
    else if (!strcmp(op, "inc")) {
      const char *o = onion_dict_get(s, "n");
      char nb[20];
      sprintf(nb, "%d", (o ? atoi(o) : 0) + 1);
      onion_dict_add(s, "n", nb, OD_DUP_ALL | OD_REPLACE);
    } else if (!strcmp(op, "del"))
      onion_dict_remove(s, "v");
    const char *cv = onion_dict_get(s, "v"), *cn = onion_dict_get(s, "n");
    snprintf(buf, sizeof(buf), "v=%s n=%s", cv ? cv : "-", cn ? cn : "-");
    onion_dict_unlock(s);
  }
  if (s)
    onion_dict_lock_read(s);    /* headers look into the session */
  onion_response_set_length(res, strlen(buf));
  onion_response_write_headers(res);
  if (s)
    onion_dict_unlock(s);
  onion_response_write(res, buf, strlen(buf));
  handler_leave();
  return OCS_PROCESSED;
}

/* ------------------------------------------------------------ client */
static int cli_connect_e(int *err) {
  int fd = csocket();
  struct sockaddr_in a = { 0 };
  a.sin_family = AF_INET;
  a.sin_port = htons(port);
  inet_pton(AF_INET, addr, &a.sin_addr);
  struct timeval tv = { 30, 0 };
  setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof(tv));
  setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof(tv));
  int r;
  do {
    r = connect(fd, (struct sockaddr *)&a, sizeof(a));
  } while (r < 0 && errno == EINTR);
  if (r < 0) {
    if (err)
      *err = errno;
    cclose(fd);
    return -1;
  }
  return fd;
}
static int cli_connect(void) {
  return cli_connect_e(NULL);
}
static int send_all(int fd, const char *p, size_t n, int seg) {
  while (n) {
    size_t k = n;
    if (seg == 1 && k > 1)
      k = 1 + R(k < 40 ? k : 40);
    else if (seg == 2 && k > 1)
      k = 1 + R(k);
    else if (seg == 3 && k > 1000)
      k = 1000 + R(k - 1000);
    ssize_t r = send(fd, p, k, MSG_NOSIGNAL);
    if (r < 0 && errno == EINTR)
      continue;
    if (r <= 0)
      return -1;
    p += r;
    n -= r;
    if (seg && R(3) == 0)
      us(R(300));
  }
  return 0;
}
struct rb {
  char *p;
  size_t n, cap, pos;
  int fd, eof;
};
static int rb_more(struct rb *b) {
  if (b->eof)
    return 0;
  if (b->cap - b->n < 70000) {
    b->cap = b->cap * 2 + 140000;
    b->p = realloc(b->p, b->cap);
  }
  ssize_t r;
  int one = 1;                  /* the next write of the server waits for no delayed acknowledgement */
  setsockopt(b->fd, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof(one));
  do
    r = recv(b->fd, b->p + b->n, 65536, 0);
  while (r < 0 && errno == EINTR);
  if (r <= 0) {
    b->eof = r == 0 ? 1 : 2 + (errno == EAGAIN);
    return 0;
  }
  b->n += r;
  return 1;
}
static __thread char *body;
static __thread size_t bcap;
static void body_done(void) {
  free(body);
  body = NULL;
  bcap = 0;
}
static __thread char rr_hdrs[8192];     /* the head of the last response */
static __thread int rr_head;            /* it answers HEAD */
/* reads a response; verifies it is the one of id (id<0: any). Returns 0 ok, -1 no response at all, -2 bad, 1 ok and closes */
static int read_response(struct rb *b, int id, int expect_status, char **bodyp, size_t * bodyl) {
  b->pos = 0;
  char *e;
  rr_hdrs[0] = 0;
  while (!(b->n && (b->p[b->n] = 0, e = strstr(b->p, "\r\n\r\n"))))
    if (!rb_more(b)) {
      if (b->n == 0)
        return -1;
      if (id >= 0)
        FAILF("cut response %d headers cut after %zu bytes (eof %d)", id, b->n, b->eof);
      return -2;
    }
  size_t hl = e + 4 - b->p;
  e[2] = 0;
  snprintf(rr_hdrs, sizeof(rr_hdrs), "%s", b->p);
  int st = 0;
  if (sscanf(b->p, "HTTP/1.%*d %d", &st) != 1 || (expect_status && st != expect_status)) {
    if (id >= 0)
      FAILF("status response %d starts '%.60s'", id, b->p);
    return -2;
  }
  if (id >= 0) {
    char *x = strstr(b->p, "X-Id: ");
    if (!x || atoi(x + 6) != id) {
      FAILF("mixed response for %d carries X-Id %.12s", id, x ? x + 6 : "none");
      return -2;
    }
  }
  char *cl = strcasestr(b->p, "\nContent-Length: ");
  int chunked = strcasestr(b->p, "\nTransfer-Encoding: chunked") != NULL;
  int closes = strcasestr(b->p, "\nConnection: close") != NULL;
  size_t bl = 0;
  size_t pos = hl;
#define NEED(k) while (b->n - pos < (size_t)(k)) if (!rb_more(b)) { if (id>=0) FAILF("cut response %d ends after %zu bytes (eof %d)", id, bl, b->eof); return -2; }
#define PUT(ptr,k) do { if (bl + (k) + 1 > bcap) { bcap = (bl + (k)) * 2 + 1000; body = realloc(body, bcap); } memcpy(body + bl, ptr, k); bl += k; } while (0)
  if (rr_head) ;
  else if (cl) {
    size_t l = strtoul(cl + 17, NULL, 10);
    NEED(l);
    PUT(b->p + pos, l);
    pos += l;
  } else if (chunked) {
    for (;;) {
      char *nl;
      for (;;) {
        b->p[b->n] = 0;
        nl = memchr(b->p + pos, '\n', b->n - pos);
        if (nl)
          break;
        size_t want = b->n - pos + 1;
        NEED(want);
      }
      char *endp;
      size_t l = strtoul(b->p + pos, &endp, 16);
      if (endp == b->p + pos || *endp != '\r') {
        if (id >= 0)
          FAILF("framing response %d has chunk header '%.20s'", id, b->p + pos);
        return -2;
      }
      pos = nl + 1 - b->p;
      NEED(l + 2);
      PUT(b->p + pos, l);
      pos += l;
      if (b->p[pos] != '\r' || b->p[pos + 1] != '\n') {
        if (id >= 0)
          FAILF("framing response %d chunk not ended", id);
        return -2;
      }
      pos += 2;
      if (l == 0)
        break;
    }
  } else {
    while (rb_more(b)) ;
    PUT(b->p + pos, b->n - pos);
    pos = b->n;
    closes = 1;
  }
  if (id >= 0) {
    size_t l = reslen(id), i;
    if (bl != l) {
      FAILF("length response %d has %zu bytes, not %zu", id, bl, l);
      return -2;
    }
    for (i = 0; i < l; i++)
      if ((unsigned char)body[i] != resbyte(id, i)) {
        FAILF("mixed response %d differs at %zu", id, i);
        return -2;
      }
  }
  if (bodyp) {
    PUT("", 0);
    body[bl] = 0;
    *bodyp = body;
    *bodyl = bl;
  }
  memmove(b->p, b->p + pos, b->n - pos);
  b->n -= pos;
  return closes ? 1 : 0;
}
static char *make_request(int id, int v11, int close_, size_t * len) {
  size_t bl = is_post(id) ? bodylen(id) : 0;
  char *p = malloc(bl + 600);
  int n = sprintf(p, "%s /r/%d?q=%d HTTP/1.%d\r\nHost: localhost\r\nX-Id: %d\r\nCookie: a=b; c=%d\r\n%s",
                  is_post(id) ? "POST" : "GET", id, id, v11, id, id,
                  close_ ? "Connection: close\r\n" : v11 ? "" : R(2) ? "Connection: keep-alive\r\n" : "");
  if (is_post(id)) {
    n += sprintf(p + n, "Content-Type: application/x-www-form-urlencoded\r\nContent-Length: %zu\r\n\r\nbody=", bl + 5);
    for (size_t i = 0; i < bl; i++)
      p[n++] = bodybyte(id, i);
  } else
    n += sprintf(p + n, "\r\n");
  *len = n;
  return p;
}

static int next_id;
static long n_ok, n_abort, n_keep, n_conn, n_half, n_noconn;
static _Atomic int may_fail;            /* life: the server may stop any time */
static int new_id(void) {
  int id = __atomic_fetch_add(&next_id, 1, __ATOMIC_RELAXED);
  if (id >= MAXID) {
    printf("ERROR ids exhausted\n");
    _exit(3);
  }
  return id;
}
static _Atomic int clients_end;
static int one_mode;

static void *client(void *arg) {
  int nreq = (int)(long)arg;
  struct rb b = { 0 };
  int fd = -1;
  while (nreq > 0 && !clients_end) {
    tick();
    if (fd < 0) {
      fd = cli_connect();
      if (fd < 0) {
        if (!may_fail)
          FAILF("connect refused: %s", strerror(errno));
        __atomic_fetch_add(&n_noconn, 1, __ATOMIC_RELAXED);
        goto out;
      }
      __atomic_fetch_add(&n_conn, 1, __ATOMIC_RELAXED);
      b.n = 0;
      b.eof = 0;
      b.fd = fd;
      if (R(2)) {
        int one = 1;
        setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
      }
    }
    int id = new_id();
    nreq--;
    int what = R(20);
    int v11 = R(5) != 0, close_ = one_mode || R(6) == 0;   /* O_ONE closes after each response */
    int ends = yielding && yields(id);   /* the thread that finishes a yielded request closes it */
    size_t len;
    char *q = make_request(id, v11, close_, &len);
    if (what == 0 && !P_int("noabort", 0)) {    /* dies in the middle of the request */
      send_all(fd, q, R(len), R(3));
      free(q);
      if (R(2)) {
        struct linger lg = { 1, 0 };
        setsockopt(fd, SOL_SOCKET, SO_LINGER, &lg, sizeof(lg));
      }
      cclose(fd);
      fd = -1;
      answered[id] = 2;
      __atomic_fetch_add(&n_abort, 1, __ATOMIC_RELAXED);
      continue;
    }
    if (what == 1 && !P_int("noabort", 0)) {    /* dies waiting for the response */
      send_all(fd, q, len, R(3));
      free(q);
      if (R(2)) {
        char t[200];
        recv(fd, t, 1 + R(199), 0);
      }
      if (R(2)) {
        struct linger lg = { 1, 0 };
        setsockopt(fd, SOL_SOCKET, SO_LINGER, &lg, sizeof(lg));
      }
      cclose(fd);
      fd = -1;
      answered[id] = 2;
      __atomic_fetch_add(&n_abort, 1, __ATOMIC_RELAXED);
      continue;
    }
    int sr = send_all(fd, q, len, R(4));
    free(q);
    int half = what == 2 && sr == 0;
    if (half) {
      __real_shutdown(fd, SHUT_WR);
      __atomic_fetch_add(&n_half, 1, __ATOMIC_RELAXED);
    }
    int f0 = may_fail;
    int r;
    if (f0) {
      r = sr < 0 ? -1 : read_response(&b, -1, 0, NULL, NULL);
    } else {
      if (sr < 0)
        FAILF("send of request %d failed: %s", id, strerror(errno));
      r = read_response(&b, id, 200, NULL, NULL);
      if (r == -1)
        FAILF("lost request %d got no response (eof %d)", id, b.eof);
    }
    if (r >= 0) {
      answered[id] = 1;
      __atomic_fetch_add(&n_ok, 1, __ATOMIC_RELAXED);
      if (b.n)
        FAILF("extra %zu bytes after response %d", b.n, id);
    }
    if (r != 0 || close_ || !v11 || half || ends || R(8) == 0) {
      if (r == 1 && !f0) {      /* said it closes: must */
        while (rb_more(&b)) ;
        if (b.n)
          FAILF("extra %zu bytes after closing response %d", b.n, id);
      }
      cclose(fd);
      fd = -1;
    } else
      __atomic_fetch_add(&n_keep, 1, __ATOMIC_RELAXED);
    if (R(10) == 0)
      us(R(2000));
  }
out:
  if (fd >= 0)
    cclose(fd);
  free(b.p);
  body_done();
  tick();
  return NULL;
}

/* ------------------------------------------------------------ server control */
static int server_flags(void) {
  const char *m = P_str("mode", "pool");
  int f = !strcmp(m, "one") ? O_ONE_LOOP : !strcmp(m, "poll") ? O_POLL : !strcmp(m, "threaded") ? O_THREADED : O_POOL;
  return f;
}
static pthread_t lth;
static _Atomic int listen_rc;
static int listen_returned;
static void *listen_thread(void *_) {
  listen_rc = onion_listen(srv);
  __atomic_store_n(&listen_returned, 1, __ATOMIC_RELEASE);
  tick();
  return NULL;
}
static void server_new(onion_handler_handler h) {
  char p[10];
  srv = onion_new(server_flags() | (detach ? O_DETACH_LISTEN : 0) | (P_int("sig", 0) ? 0 : O_NO_SIGTERM));
  sprintf(p, "%d", port);
  onion_set_hostname(srv, addr);
  onion_set_port(srv, p);
  onion_set_timeout(srv, timeout_ms);
  if (nthreads)
    onion_set_max_threads(srv, nthreads);
  onion_set_root_handler(srv, onion_handler_new(h, NULL, NULL));
}
static int server_start(void) {
  __atomic_store_n(&listen_returned, 0, __ATOMIC_RELEASE);
  listen_rc = -1;
  if (detach) {
    int r = onion_listen(srv);
    if (r)
      FAILF("listen detached listen returned %d", r);
    return r;
  }
  pthread_create(&lth, NULL, listen_thread, NULL);
  return 0;
}
static void wait_ready(void) {
  where = "waiting for the server to accept";
  for (int i = 0; i < 15000; i++) {
    int fd = cli_connect();
    if (fd >= 0) {
      cclose(fd);
      tick();
      return;
    }
    ms(1);
  }
  FAILF("listen server does not accept 15 s after listen");
}
static void server_join(void) {
  where = "waiting for onion_listen to return after stop";
  if (!detach)
    pthread_join(lth, NULL);
  tick();
}
static void check_closed(const char *when) {
  int e = 0;
  int fd = cli_connect_e(&e);
  if (fd >= 0) {
    FAILF("stillopen the port accepts connections after %s", when);
    cclose(fd);
  } else if (e != ECONNREFUSED)
    printf("STAT connecterr %d\n", e);
}
static long heap0;
static int fds0;
static void baseline(void) {
  fds0 = vf_count_fds();
  heap0 = vf_live_allocs;
#ifdef VF_HEAPTRACE
  { void *bt[2]; backtrace(bt, 2); }
  vf_tr_on = 1;
#endif
}
static void check_released(const char *when) {
#ifdef VF_ASAN                  /* TSan opens some to symbolize, when it looks for suppressions */
  int f = vf_count_fds();
  if (f != fds0)
    FAILF("fdleak %d descriptors open after %s, %d before", f, when, fds0);
  long a = vf_live_allocs;
  if (a > heap0 + 12)            /* libc keeps a block or two per cached thread */
    FAILF("heapleak %ld heap blocks more after %s", a - heap0, when);
#ifdef VF_HEAPTRACE
  vf_tr_dump();
  _exit(1);
#endif
#endif
}

static pthread_t cth[64];
static void clients_start(int n, int nreq) {
  clients_end = 0;
  for (int i = 0; i < n; i++)
    pthread_create(&cth[i], NULL, client, (void *)(long)nreq);
}
static void clients_join(int n) {
  for (int i = 0; i < n; i++)
    pthread_join(cth[i], NULL);
}
static void check_once(int from, int to) {
  for (int i = from; i < to; i++) {
    if (runs[i] > 1)
      FAILF("twice request %d ran %d times", i, runs[i]);
    if (answered[i] == 1 && runs[i] != 1)
      FAILF("once request %d answered but handled %d times", i, runs[i]);
  }
}
static void stats(void) {
  uint64_t h = 1469598103934665603ULL;
  int inv = 0, last = -1;
  int n = ev_n < 4 * MAXID ? ev_n : 4 * MAXID;
  int overlap = 0;
  for (int i = 0; i < n; i++) {
    h = (h ^ ev_log[i]) * 1099511628211ULL;
    if (!(ev_log[i] & 1)) {
      if (ev_log[i] < last)
        inv++;
      last = ev_log[i];
      if (i + 1 < n && ev_log[i + 1] != ev_log[i] + 1)
        overlap++;
    }
  }
  printf("STAT trace %016llx\n", (unsigned long long)h);
  printf("STAT requests %d ok %ld abort %ld keep %ld conns %ld half %ld noconn %ld\n", next_id, n_ok, n_abort, n_keep, n_conn, n_half, n_noconn);
  printf("STAT threads %d maxconc %d overlap %d inversions %d\n", h_threads, max_in_handler, overlap, inv);
  printf("STAT delays %ld epoll %ld accepts %ld yields %ld\n", n_delays, n_epoll, n_accept, n_yield);
}

/* ------------------------------------------------------------ scenarios */
/* the first responses fill caches that stay for the life of the process */
static void warmup(void) {
  int sd = delay_pct, mf = may_fail, dt = detach;
  delay_pct = 0;
  may_fail = 0;
  detach = 0;
  tzset();
  where = "warm up";
  server_new(h_conc);
  server_start();
  wait_ready();
  clients_start(2, 4);
  clients_join(2);
  onion_listen_stop(srv);
  server_join();
  onion_free(srv);
  srv = NULL;
  memset(runs, 0, sizeof(runs));
  memset(answered, 0, sizeof(answered));
  next_id = 0;
  ev_n = 0;
  n_ok = n_abort = n_conn = n_keep = n_half = 0;
  h_threads = max_in_handler = 0;
  delay_pct = sd;
  may_fail = mf;
  detach = dt;
}
/* all yielded requests must have been finished by their threads */
static void yield_wait(void) {
  for (;;) {
    pthread_mutex_lock(&ym);
    int e = ypending == 0;
    pthread_mutex_unlock(&ym);
    if (e)
      return;
    ms(1);
  }
}
static void sc_conc(onion_handler_handler h) {
  int nc = P_int("clients", 8), nr = P_int("reqs", 30), rounds = P_int("rounds", 2);
  pthread_t yw[4];
  int ny = h == h_yield ? 3 : 0;
  for (int i = 0; i < ny; i++)
    pthread_create(&yw[i], NULL, yworker, NULL);
  for (int k = 0; k < rounds; k++) {
    int id0 = next_id;
    server_new(h);
    server_start();
    wait_ready();
    where = "serving concurrent clients";
    clients_start(nc, nr);
    clients_join(nc);
    where = "onion_listen_stop";
    yield_wait();
    onion_listen_stop(srv);
    server_join();
    yield_wait();               /* of clients that left, handled late */
    check_closed("stop");
    where = "onion_free";
    onion_free(srv);
    tick();
    check_released("stop and free");
    check_once(id0, next_id);
  }
  yend = 1;
  pthread_mutex_lock(&ym);
  pthread_cond_broadcast(&yc);
  pthread_mutex_unlock(&ym);
  for (int i = 0; i < ny; i++)
    pthread_join(yw[i], NULL);
}

static void *stopper(void *arg) {
  us(R(3000));
  onion_listen_stop(srv);
  tick();
  return NULL;
}
static long st_kind[8];
static void sc_life(void) {
  int cycles = P_int("cycles", 10);
  int nc = P_int("clients", 4);
  may_fail = 1;
  for (int k = 0; k < cycles; k++) {
    int relisten = 1 + (R(3) == 0 ? R(3) : 0);
    server_new(h_conc);
    int idle[8], nidle = 0;
    for (int j = 0; j < relisten; j++) {
      stop_from_handler = 0;
      int kind = R(6);
      if (kind == 5 && !P_int("sig", 0))
        kind = 0;
      if (k == 0)
        kind = 0;
      st_kind[kind]++;
      if (server_start())
        break;
      if (kind != 1) {
        wait_ready();
        /* listening: must accept and serve */
        int n = R(4);
        nidle = 0;
        for (int i = 0; i < n && strcmp(P_str("mode", ""), "one"); i++)
          if ((idle[nidle] = cli_connect()) >= 0)
            nidle++;
        where = "serving while being stopped";
        if (kind == 3)
          stop_from_handler = 1;
        clients_start(nc, kind == 3 ? 100000 : 1 + R(20));
        if (R(3) && kind != 3)
          us(R(20000));
      } else
        us(R(400));             /* stopped while it starts */
      where = "onion_listen_stop";
      pthread_t st[3];
      switch (kind) {
      case 2:{                 /* from several threads at once */
          for (int i = 0; i < 3; i++)
            pthread_create(&st[i], NULL, stopper, NULL);
          for (int i = 0; i < 3; i++)
            pthread_join(st[i], NULL);
        }
        break;
      case 3:                  /* from a handler */
        break;
      case 4:
        pthread_create(&st[0], NULL, stopper, NULL);
        pthread_join(st[0], NULL);
        break;
      case 5:
        kill(getpid(), SIGTERM);
        break;
      case 1:                  /* a server that is starting may not be listening yet: stop until it returns */
        if (detach)
          onion_listen_stop(srv);
        else
          while (!__atomic_load_n(&listen_returned, __ATOMIC_ACQUIRE)) {
            onion_listen_stop(srv);
            us(300);
          }
        break;
      default:
        onion_listen_stop(srv);
      }
      if (detach && (kind == 3 || kind == 5)) { /* nobody joined it: that waits for it, without asking it to stop again */
        where = "detached listener to stop, asked by handler or signal";
        double t = now();
        int fd, e = 0;
        while (now() - t < 15) {
          if ((fd = cli_connect_e(&e)) < 0)
            break;
          cclose(fd);
          ms(1);
        }
      }
      server_join();
      if (!detach && listen_rc != 0)
        FAILF("listen onion_listen returned %d", listen_rc);
      check_closed(kind == 1 ? "stop while starting" : kind == 2 ? "concurrent stops" : kind == 3 ? "stop from handler" : kind == 4 ? "stop from other thread" :
                   kind == 5 ? "SIGTERM" : "stop");
      clients_end = 1;
      where = "waiting for the clients of a stopped server";
      if (kind != 1) {
        /* connections of a stopped server are released at free at the latest */
        for (int i = 0; i < nidle; i++)
          cclose(idle[i]);
        nidle = 0;
        if (j == relisten - 1) {
          where = "onion_free with connections";
          onion_free(srv);
          srv = NULL;
          tick();
          where = "clients see their connections closed";
        }
        /* those waiting for an answer are only released by the free, or by a new listen */
        if (srv) {
          where = "listening again with connections open";
          stop_from_handler = 0;
          if (server_start() == 0) {
            wait_ready();
            clients_join(nc);
            onion_listen_stop(srv);
            server_join();
            check_closed("stop of second listen");
          }
        } else
          clients_join(nc);
      }
    }
    if (srv) {
      where = "onion_free";
      onion_free(srv);
      srv = NULL;
    }
    tick();
    check_released("stop and free");
  }
  check_once(0, next_id);
  printf("STAT kinds");
  for (int i = 0; i < 6; i++)
    printf(" %ld", st_kind[i]);
  printf("\n");
}

/* idle connections: closed after the timeout, not before; active ones not */
struct idl {
  int kind;
  double closed_after;
  int fail;
};
static void *idler(void *arg) {
  struct idl *d = arg;
  struct rb b = { 0 };
  int fd = cli_connect();
  if (fd < 0) {
    FAILF("connect refused in timeout scenario");
    return NULL;
  }
  b.fd = fd;
  double T = timeout_ms / 1000.0;
  int id;
  size_t len;
  char *q;
  if (d->kind == 1) {           /* one request first, then idle */
    id = new_id();
    q = make_request(id, 1, 0, &len);
    send_all(fd, q, len, 0);
    free(q);
    read_response(&b, id, 200, NULL, NULL);
  } else if (d->kind == 2) {    /* half a request, then idle */
    id = new_id();
    q = make_request(id, 1, 0, &len);
    send_all(fd, q, 12, 0);
    free(q);
  } else if (d->kind == 3) {    /* stays within the timeout for three times as long */
    for (int i = 0; i < 10; i++) {
      id = new_id();
      double t0 = now();
      q = make_request(id, 1, 0, &len);
      if (send_all(fd, q, len, 0) < 0) {
        FAILF("timeoutearly active connection closed after %d requests", i);
        break;
      }
      free(q);
      int r = read_response(&b, id, 200, NULL, NULL);
      if (r == -1) {
        if (now() - t0 < T * 0.5 + 30)
          FAILF("timeoutearly active connection closed after %d requests", i);
        break;
      }
      tick();
      us((int)(T * 300000) % 1000000);
      if (now() - t0 > T * 0.8) {       /* this machine stalled: no verdict from here */
        printf("STAT stalled 1\n");
        break;
      }
    }
    cclose(fd);
    free(b.p);
  body_done();
    d->closed_after = -1;
    return NULL;
  } else if (d->kind == 4) {    /* sends a byte now and then, within the timeout, for twice as long */
    id = new_id();
    q = make_request(id, 1, 0, &len);
    size_t i = 0;
    int stalled = 0;
    for (; i < 8; i++) {
      double t0 = now();
      if (send_all(fd, q + i, 1, 0) < 0) {
        FAILF("timeoutearly slow sender closed after %zu bytes", i);
        break;
      }
      us((int)(T * 300000) % 1000000);
      if (now() - t0 > T * 0.8)
        stalled = 1;
      tick();
    }
    if (!stalled && i == 8) {
      send_all(fd, q + i, len - i, 0);
      int r = read_response(&b, id, 200, NULL, NULL);
      if (r == -1)
        FAILF("timeoutearly slow sender got no response");
    } else
      printf("STAT stalled 1\n");
    free(q);
    cclose(fd);
    free(b.p);
  body_done();
    d->closed_after = -1;
    return NULL;
  }
  double t0 = now();
  struct timeval tv = { (long)(T + 20), 0 };
  setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof(tv));
  while (rb_more(&b)) ;
  double t = now() - t0;
  d->closed_after = t;
  if (b.eof == 3)
    FAILF("timeoutlate idle connection (kind %d) still open %.1f s after, timeout %.1f s", d->kind, t, T);
  else if (t < T * 0.85 - 0.05)
    FAILF("timeoutearly idle connection (kind %d) closed after %.2f s, timeout %.1f s", d->kind, t, T);
  cclose(fd);
  free(b.p);
  body_done();
  tick();
  return NULL;
}
static void sc_idle(void) {
  server_new(h_conc);
  server_start();
  wait_ready();
  where = "idle connections";
  int n = P_int("clients", 12);
  static struct idl d[64];
  for (int i = 0; i < n; i++) {
    d[i].kind = one_mode ? (i & 1) * 2 : i % 5;
    pthread_create(&cth[i], NULL, idler, &d[i]);
    us(R(100000));
  }
  clients_join(n);
  double lo = 1e9, hi = 0;
  for (int i = 0; i < n; i++)
    if (d[i].closed_after > 0) {
      if (d[i].closed_after < lo)
        lo = d[i].closed_after;
      if (d[i].closed_after > hi)
        hi = d[i].closed_after;
    }
  printf("STAT idleclosed %d %d\n", (int)(lo * 1000), (int)(hi * 1000));
  /* a handler that takes longer than the timeout: the connection is not idle meanwhile, but it may be after */
  where = "slow handler";
  for (int k = 0; k < (one_mode ? 0 : 2); k++) {
    struct rb b = { 0 };
    size_t len;
    int fd = b.fd = cli_connect();
    if (fd < 0) {
      FAILF("connect refused in timeout scenario");
      break;
    }
    int id = new_id();
    nap_ms = timeout_ms * (k ? 2 : 3) / 2;
    nap_id = id;
    char *q = make_request(id, 1, 0, &len);
    send_all(fd, q, len, 0);
    free(q);
    int r = read_response(&b, id, 200, NULL, NULL);
    tick();
    if (r == -1)
      FAILF("timeoutearly connection closed while its handler was running");
    else if (k == 0) {
      id = new_id();
      q = make_request(id, 1, 1, &len);
      if (send_all(fd, q, len, 0) < 0 || read_response(&b, id, 200, NULL, NULL) == -1)
        FAILF("timeoutearly connection closed for the time its handler took");
    } else {
      double t0 = now();
      struct timeval tv = { (long)(timeout_ms / 1000 + 20), 0 };
      setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof(tv));
      while (rb_more(&b)) ;
      double t = now() - t0;
      if (b.eof == 3)
        FAILF("timeoutlate idle connection still open %.1f s after a slow handler, timeout %d ms", t, timeout_ms);
      else if (t < timeout_ms * 0.00085 - 0.05)
        FAILF("timeoutearly idle connection closed %.2f s after a slow handler, timeout %d ms", t, timeout_ms);
    }
    cclose(fd);
    free(b.p);
    tick();
  }
  nap_id = -1;
  onion_listen_stop(srv);
  server_join();
  onion_free(srv);
}

/* out of descriptors: no crash, no loss once they are back */
static void sc_emfile(void) {
  int n = 40, s[40];
  server_new(h_conc);
  server_start();
  wait_ready();
  ms(50);
  where = "out of descriptors";
  for (int i = 0; i < n; i++)
    s[i] = csocket();
  struct rlimit rl, old;
  getrlimit(RLIMIT_NOFILE, &old);
  rl = old;
  rl.rlim_cur = s[n - 1] + 1 + 3 + R(10);
  setrlimit(RLIMIT_NOFILE, &rl);
  struct sockaddr_in a = { 0 };
  a.sin_family = AF_INET;
  a.sin_port = htons(port);
  inet_pton(AF_INET, addr, &a.sin_addr);
  for (int i = 0; i < n; i++) {
    fcntl(s[i], F_SETFL, O_NONBLOCK);
    connect(s[i], (struct sockaddr *)&a, sizeof(a));
  }
  ms(100 + R(200));
  /* those accepted are idle; drop most, the rest must get served */
  for (int i = 0; i < n - 8; i++)
    cclose(s[i]);
  for (int i = n - 8; i < n; i++) {
    tick();
    fcntl(s[i], F_SETFL, 0);
    struct timeval tv = { 15, 0 };
    setsockopt(s[i], SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof(tv));
    struct pollfd pf = { s[i], POLLOUT, 0 };
    if (poll(&pf, 1, 15000) <= 0) {
      FAILF("emfile connection never completed after descriptors came back");
      continue;
    }
    struct rb b = { 0 };
    b.fd = s[i];
    int id = new_id();
    size_t len;
    char *q = make_request(id, 1, 0, &len);
    if (send_all(s[i], q, len, 0) == 0) {
      int r = read_response(&b, id, 200, NULL, NULL);
      if (r == -1)
        FAILF("emfile request %d not answered after descriptors came back (eof %d)", id, b.eof);
    }
    free(q);
    free(b.p);
  body_done();
    cclose(s[i]);
  }
  setrlimit(RLIMIT_NOFILE, &old);
  clients_start(4, 5);
  clients_join(4);
  onion_listen_stop(srv);
  server_join();
  check_closed("stop");
  onion_free(srv);
}

/* sessions used concurrently */
static int sess_req(struct rb *b, int *fd, const char *cookie, const char *q, char *out, size_t outn, char *newck) {
  char r[400];
  if (*fd < 0) {
    *fd = cli_connect();
    if (*fd < 0) {
      FAILF("connect refused");
      return -1;
    }
    b->fd = *fd;
    b->n = 0;
    b->eof = 0;
  }
  int close_ = one_mode || R(4) == 0;
  sprintf(r, "GET /s?%s HTTP/1.1\r\nHost: h\r\n%s%s%s%s\r\n", q, cookie[0] ? "Cookie: sessionid=" : "", cookie, cookie[0] ? "\r\n" : "",
          close_ ? "Connection: close\r\n" : "");
  send_all(*fd, r, strlen(r), R(3) == 0);
  char *bd = NULL;
  size_t bl = 0;
  /* keep the headers */
  while (!(b->n && (b->p[b->n] = 0, strstr(b->p, "\r\n\r\n"))))
    if (!rb_more(b)) {
      FAILF("lost session request got no response");
      return -1;
    }
  char *sc = strstr(b->p, "Set-Cookie: sessionid=");
  if (newck) {
    newck[0] = 0;
    if (sc)
      sscanf(sc + 22, "%100[^;\r\n]", newck);
  }
  int rr = read_response(b, -1, 200, &bd, &bl);
  if (rr < 0) {
    FAILF("lost session response");
    return -1;
  }
  snprintf(out, outn, "%s", bd);
  if (rr == 1 || close_) {
    cclose(*fd);
    *fd = -1;
  }
  tick();
  __atomic_fetch_add(&n_ok, 1, __ATOMIC_RELAXED);
  return 0;
}
static char shared_ck[4][120];
static int shared_inc[4];
static _Atomic int shared_ready;
static void *sess_client(void *arg) {
  int me = (int)(long)arg, n = P_int("reqs", 30);
  struct rb b = { 0 };
  int fd = -1;
  char ck[120] = "", nck[120], out[300], q[100], want[300];
  char val[40] = "-";
  int cnt = 0;
  static int uniq;
  for (int i = 0; i < n; i++) {
    unsigned w = R(12);
    if (w < 4 || !ck[0]) {
      sprintf(val, "c%d_%d_%d", me, i, __atomic_fetch_add(&uniq, 1, __ATOMIC_RELAXED));
      sprintf(q, "op=set&v=%s", val);
    } else if (w < 6) {
      sprintf(q, "op=inc");
      cnt++;
    } else if (w < 8) {         /* a shared session */
      int k = R(4);
      sprintf(q, "op=inc");
      if (sess_req(&b, &fd, shared_ck[k], q, out, sizeof(out), nck))
        break;
      __atomic_fetch_add(&shared_inc[k], 1, __ATOMIC_RELAXED);
      continue;
    } else if (w == 8 && ck[0]) {
      if (sess_req(&b, &fd, ck, "op=free", out, sizeof(out), nck))
        break;
      if (sess_req(&b, &fd, ck, "op=get", out, sizeof(out), nck))
        break;
      if (strcmp(out, "v=- n=-"))
        FAILF("session removed session still has '%s'", out);
      ck[0] = 0;
      strcpy(val, "-");
      cnt = 0;
      continue;
    } else if (w == 9) {
      if (cnt == 0)
        continue;               /* would empty it */
      sprintf(q, "op=del");
      strcpy(val, "-");
    } else
      sprintf(q, "op=get");
    if (sess_req(&b, &fd, ck, q, out, sizeof(out), nck))
      break;
    char cb[20];
    sprintf(cb, "%d", cnt);
    sprintf(want, "v=%s n=%s", val, cnt ? cb : "-");
    if (strcmp(out, want))
      FAILF("session client %d step %d '%s' read '%s' not '%s'", me, i, q, out, want);
    if (!ck[0]) {
      if (!nck[0])
        FAILF("session no cookie for a new session");
      strcpy(ck, nck);
    } else if (nck[0] && strcmp(nck, ck)) {
      FAILF("session id changed from %s to %s", ck, nck);
    }
  }
  if (fd >= 0)
    cclose(fd);
  free(b.p);
  body_done();
  return NULL;
}
/* one session that many clients read while others remove it: everybody sees all of it or none */
static char vol_ck[120];
static void *vol_client(void *arg) {
  int me = (int)(long)arg;
  struct rb b = { 0 };
  int fd = -1;
  char nck[120], out[300];
  for (int i = 0; i < 3; i++) {
    int fr = me % 3 == 0 && i == 1;
    if (sess_req(&b, &fd, vol_ck, fr ? "op=free" : "op=get", out, sizeof(out), nck))
      break;
    if (strcmp(out, fr ? "freed" : "v=volatile n=7") && (fr || strcmp(out, "v=- n=-")))
      FAILF("session being removed answered '%s'", out);
  }
  if (fd >= 0)
    cclose(fd);
  free(b.p);
  body_done();
  return NULL;
}
static void sc_sess(void) {
  int nc = P_int("clients", 8), rounds = P_int("rounds", 2);
  for (int k = 0; k < rounds; k++) {
    server_new(h_sess);
    const char *db = P_str("db", NULL);
    if (db) {
      onion_sessions *onion_sessions_sqlite3_new(const char *);
      onion_sessions *s = onion_sessions_sqlite3_new(db);
      if (!s) {
        FAILF("no sqlite session backend");
        return;
      }
      onion_set_session_backend(srv, s);
    }
    server_start();
    wait_ready();
    where = "concurrent sessions";
    struct rb b = { 0 };
    int fd = -1;
    char out[300];
    for (int i = 0; i < 4; i++) {
      shared_inc[i] = 1;
      sess_req(&b, &fd, "", "op=inc", out, sizeof(out), shared_ck[i]);
    }
    if (fd >= 0)
      cclose(fd);
    fd = -1;
    for (int i = 0; i < nc; i++)
      pthread_create(&cth[i], NULL, sess_client, (void *)(long)i);
    clients_join(nc);
    for (int i = 0; i < P_int("bursts", 5); i++) {
      struct rb vb = { 0 };
      int vfd = -1;
      char nck[120];
      sess_req(&vb, &vfd, "", "op=vol", out, sizeof(out), vol_ck);
      if (strcmp(out, "v=volatile n=7") || !vol_ck[0])
        FAILF("session new session answered '%s'", out);
      if (vfd >= 0)
        cclose(vfd);
      free(vb.p);
      int vn = nc < 7 ? nc : 7;
      (void)nck;
      for (int j = 0; j < vn; j++)
        pthread_create(&cth[j], NULL, vol_client, (void *)(long)j);
      clients_join(vn);
    }
    for (int i = 0; i < 4; i++) {
      char nck[120];
      sess_req(&b, &fd, shared_ck[i], "op=get", out, sizeof(out), nck);
      char want[60];
      sprintf(want, "v=- n=%d", shared_inc[i]);
      if (!db && strcmp(out, want))     /* the dict is shared: no increment may be lost */
        FAILF("session shared session has '%s' not '%s'", out, want);
      int got = 0;
      if (sscanf(out, "v=- n=%d", &got) != 1 || got < 1 || got > shared_inc[i])
        FAILF("session shared session has '%s'", out);
    }
    if (fd >= 0)
      cclose(fd);
    free(b.p);
  body_done();
    onion_listen_stop(srv);
    server_join();
    onion_free(srv);
    tick();
    check_released("stop and free");
  }
}

#include "mix.h"

static void nolog(onion_log_level l, const char *f, int n, const char *m, ...) {
}
int main(int argc, char **argv) {
  Gargc = argc;
  Gargv = argv;
  static char obuf[65536];
  setvbuf(stdout, obuf, _IOFBF, sizeof(obuf));
  vf_heap_init();
  VF_TAG_ENV();
  signal(SIGPIPE, SIG_IGN);
  seed0 = mix(P_int("seed", 1) * 1000003ULL + 17);
  detach = P_int("detach", 0);
  nthreads = P_int("threads", 0);
  timeout_ms = P_int("timeout", 60000);
  stall_s = P_int("stall", 40);
  one_mode = !strcmp(P_str("mode", ""), "one");
  shortw = P_int("shortw", 0);
  eintr = P_int("eintr", 0);
  unsigned pid = getpid();
  sprintf(addr, "127.%u.%u.%u", 1 + (pid >> 16) % 200, (pid >> 8) & 255, 1 + (pid & 255) % 254);
  port = 18000 + pid % 1000;
  onion_log_flags = P_int("log", 0) ? OF_NODEBUG | OF_NOCOLOR : OF_NOINFO | OF_NODEBUG;
  if (!P_int("log", 0))
    onion_log = (void *)nolog;
  if (!strcmp(P_str("scenario", ""), "mix"))
    mx_init();
  pthread_t wd;
  pthread_create(&wd, NULL, watchdog, NULL);
  delay_pct = P_int("delay", 0);
  warmup();
  baseline();
  const char *s = P_str("scenario", "conc");
  if (!strcmp(s, "conc"))
    sc_conc(h_conc);
  else if (!strcmp(s, "yield") && (yielding = 1))
    sc_conc(h_yield);
  else if (!strcmp(s, "life"))
    sc_life();
  else if (!strcmp(s, "idle"))
    sc_idle();
  else if (!strcmp(s, "emfile"))
    sc_emfile();
  else if (!strcmp(s, "sess"))
    sc_sess();
  else if (!strcmp(s, "mix"))
    sc_mix();
  else
    return 3;
  stats();
  printf("DONE\n");
  fflush(stdout);
  if (vf_tag_fd >= 0)
    vf_tag_report();
  _exit(nfails ? 1 : 0);
}

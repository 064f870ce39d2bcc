/* Stress of the poller, shared dictionaries and the MIME table, used directly from several threads.
 *
 *   stress key=value...   scenario=poll|dict|mime
 *
 * Prints FAIL lines for violations, STAT lines for what was observed, and DONE.
 */
#define _GNU_SOURCE
#include <pthread.h>
#include "vf.h"
#include <errno.h>
#include <sched.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/epoll.h>
#include <sys/resource.h>
#include <onion/low.h>
#include <onion/onion.h>
#include <onion/log.h>
#include <onion/dict.h>
#include <onion/block.h>
#include <onion/mime.h>
#include <onion/poller.h>

static int Gargc;
static char **Gargv;
static const char *P_str(const char *k, const char *def) {
  size_t l = strlen(k);
  for (int i = 1; i < Gargc; i++)
    if (!strncmp(Gargv[i], k, l) && Gargv[i][l] == '=')
      return Gargv[i] + l + 1;
  return def;
}
static int P_int(const char *k, int def) {
  const char *s = P_str(k, NULL);
  return s ? atoi(s) : def;
}
static pthread_mutex_t out_m = PTHREAD_MUTEX_INITIALIZER;
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
static int nfails;
static void FAILF(const char *fmt, ...) {
  __real_pthread_mutex_lock(&out_m);
  if (nfails++ < 30) {
    va_list va;
    va_start(va, fmt);
    printf("FAIL ");
    vprintf(fmt, va);
    printf("\n");
    fflush(stdout);
    va_end(va);
  }
  __real_pthread_mutex_unlock(&out_m);
}
static uint64_t seed0;
static __thread uint64_t rs;
static uint64_t mix(uint64_t x) {
  x ^= x >> 33;
  x *= 0xff51afd7ed558ccdULL;
  x ^= x >> 33;
  x *= 0xc4ceb9fe1a85ec53ULL;
  x ^= x >> 33;
  return x;
}
static uint64_t tcount;
static uint64_t rnd(void) {
  if (!rs)
    rs = mix(seed0 + 0x9e3779b97f4a7c15ULL * (1 + __atomic_fetch_add(&tcount, 1, __ATOMIC_RELAXED))) | 1;
  rs ^= rs << 13;
  rs ^= rs >> 7;
  rs ^= rs << 17;
  return rs * 0x2545F4914F6CDD1DULL >> 20;
}
static unsigned R(unsigned n) {
  return rnd() % n;
}
static double now(void) {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec / 1e9;
}
static void us(int n) {
  struct timespec t = { n / 1000000, (n % 1000000) * 1000L };
  nanosleep(&t, NULL);
}
static void ms(int n) {
  us(n * 1000);
}
static int delay_pct;
static long n_delays;
static void maybe_delay(void) {
  if (delay_pct && R(100) < (unsigned)delay_pct) {
    __atomic_fetch_add(&n_delays, 1, __ATOMIC_RELAXED);
    switch (R(4)) {
    case 0:
    case 1:
      sched_yield();
      break;
    case 2:
      us(R(60));
      break;
    default:
      us(R(600));
    }
  }
}
static long progress;
static const char *_Atomic where = "start";
static int stall_s;
static void tick(void) {
  __atomic_fetch_add(&progress, 1, __ATOMIC_RELAXED);
}
static void *watchdog(void *_) {
  long last = -1;
  double t = now();
  for (;;) {
    ms(100);
    long p = __atomic_load_n(&progress, __ATOMIC_RELAXED);
    if (p != last) {
      last = p;
      t = now();
    } else if (now() - t > stall_s) {
      printf("FAIL hang during: %s\n", where);
      fflush(stdout);
      _exit(7);
    }
  }
  return NULL;
}
static uint64_t ev_h = 1469598103934665603ULL;
static pthread_mutex_t ev_m = PTHREAD_MUTEX_INITIALIZER;
static long ev_n;
static void ev(unsigned x) {
  __real_pthread_mutex_lock(&ev_m);
  ev_h = (ev_h ^ x) * 1099511628211ULL;
  ev_n++;
  __real_pthread_mutex_unlock(&ev_m);
}

/* ------------------------------------------------------------ wraps */
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
void __tsan_acquire(void *);
void __tsan_release(void *);
static char fdsync[65536];
#define FD_OUT(fd) do { if ((fd) >= 0 && (fd) < 65536) __tsan_acquire(&fdsync[fd]); } while (0)
#define FD_BACK(fd) do { if ((fd) >= 0 && (fd) < 65536) __tsan_release(&fdsync[fd]); } while (0)
#define ARM(p) __tsan_release(p)
#define FIRED(p) __tsan_acquire(p)
const char *__tsan_default_suppressions(void) {
  return "race:epoll_ctl\ncalled_from_lib:libc.so.6\n";
}
#endif
#endif
#ifndef FD_OUT
#define FD_OUT(fd)
#define FD_BACK(fd)
#define ARM(p)
#define FIRED(p)
#endif
int __wrap_pthread_mutex_lock(pthread_mutex_t * m) {
  maybe_delay();
  return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t * m) {
  int r = __real_pthread_mutex_unlock(m);
  maybe_delay();
  return r;
}
int __real_epoll_ctl(int, int, int, struct epoll_event *);
int __wrap_epoll_ctl(int a, int b, int c, struct epoll_event *d) {
  maybe_delay();
  if (d && d->data.ptr)
    ARM(d->data.ptr);
  int r = __real_epoll_ctl(a, b, c, d);
  int e = errno;
  maybe_delay();
  errno = e;
  return r;
}
int __real_epoll_wait(int, struct epoll_event *, int, int);
static long n_epoll, n_batch;
int __wrap_epoll_wait(int a, struct epoll_event *b, int c, int d) {
  int r = __real_epoll_wait(a, b, c, d);
  for (int i = 0; i < r; i++)
    if (b[i].data.ptr)
      FIRED(b[i].data.ptr);
  int e = errno;
  __atomic_fetch_add(&n_epoll, 1, __ATOMIC_RELAXED);
  if (r > 1)
    __atomic_fetch_add(&n_batch, 1, __ATOMIC_RELAXED);
  maybe_delay();
  errno = e;
  return r;
}
static int cclose(int fd) {
  FD_BACK(fd);
  return close(fd);
}

/* ------------------------------------------------------------ poller */
#define NS 4000
enum { LIVE = 1, GONE };
struct slot {
  int id, fd, peer;
  int timeout;                  /* ms, <0 none */
  int ends;                     /* callback asks to stop after so many bytes, <0 never */
  int selfrm;                   /* ... by removing itself */
  int linger;                   /* callbacks are slow */
  int nap;                      /* ms, the first one much */
  uint32_t written, got;        /* bytes; got only changes at the callback */
  int busy, calls, eofs;
  int timed;                    /* the idle timeout is watched */
  double t_active, t_call, gap;  /* when it was last active; start of the last call; longest time without activity */
  int *state;                   /* outlives this */
};
static int nnaps, nextnap;
static int state[NS], nshut[NS], nadded, ncalls, nremoved, nself, ntimeo, nhup, nasked;
static onion_poller *P;
static int max_busy, cur_busy;
static double t_latest, t_earliest = 1e9;

static unsigned char sb(int id, uint32_t i) {
  return id * 7 + i * 3 + (i >> 8);
}
static void shut_cb(void *d) {
  struct slot *s = d;
  if (__atomic_exchange_n(s->state, GONE, __ATOMIC_ACQ_REL) != LIVE)
    FAILF("shutdown slot %d shut down again", s->id);
  __atomic_fetch_add(&nshut[s->id], 1, __ATOMIC_RELAXED);
  if (__atomic_load_n(&s->busy, __ATOMIC_ACQUIRE) && !s->selfrm)
    FAILF("concurrent slot %d shut down while its callback runs", s->id);
  ev(s->id * 4 + 1);
  cclose(s->fd);
  free(s);
  tick();
}
static int slot_cb(void *d) {
  struct slot *s = d;
  int id = s->id;
  if (__atomic_exchange_n(&s->busy, 1, __ATOMIC_ACQ_REL))
    FAILF("concurrent callback of slot %d run by two threads at once", id);
  if (__atomic_load_n(s->state, __ATOMIC_ACQUIRE) != LIVE)
    FAILF("removed callback of slot %d run after it was removed", id);
  int cb = __atomic_add_fetch(&cur_busy, 1, __ATOMIC_RELAXED);
  if (cb > __atomic_load_n(&max_busy, __ATOMIC_RELAXED))
    __atomic_store_n(&max_busy, cb, __ATOMIC_RELAXED);
  __atomic_fetch_add(&ncalls, 1, __ATOMIC_RELAXED);
  s->calls++;
  ev(id * 4);
  unsigned char b[64];
  int want = 1 + R(sizeof(b));
  ssize_t r = recv(s->fd, b, want, MSG_DONTWAIT);
  int ret = 0;
  if (r < 0) {
    if (errno == EAGAIN)
      FAILF("spurious callback of slot %d with nothing to read", id);
    ret = -1;
  } else if (r == 0) {
    ret = -1;
    if (s->timeout >= 0) {
      double t = now() - s->t_active;
      if (s->timed) {
        __atomic_fetch_add(&ntimeo, 1, __ATOMIC_RELAXED);
        /* due before some data that came late was handled? */
        if (t < s->timeout / 1000.0 - 0.02 && !(s->gap > s->timeout / 1000.0 - 0.02))
          FAILF("timeoutearly slot %d with timeout %d ms timed out after %.0f ms", id, s->timeout, t * 1000);
        if (t > s->timeout / 1000.0 + 15)
          FAILF("timeoutlate slot %d with timeout %d ms timed out after %.0f ms", id, s->timeout, t * 1000);
      }
    }
    s->eofs++;
  } else {
    uint32_t got = s->got;
    for (ssize_t i = 0; i < r; i++)
      if (b[i] != sb(id, got + i)) {
        FAILF("data slot %d differs at %u", id, (unsigned)(got + i));
        break;
      }
    s->t_call = now();
    if (s->t_call - s->t_active > s->gap)
      s->gap = s->t_call - s->t_active;
    s->t_active = s->t_call;
    if (s->linger)
      us(R(s->linger));
    if (s->nap) {
      ms(s->nap);
      s->nap = 0;
      char c;
      if (s->gap < s->timeout / 1000.0 - 0.05 && recv(s->fd, &c, 1, MSG_PEEK | MSG_DONTWAIT) == 0)
        FAILF("timeoutearly slot %d with timeout %d ms shut down while its callback runs", id, s->timeout);
      __atomic_fetch_add(&nnaps, 1, __ATOMIC_RELAXED);
    }
    __atomic_store_n(&s->got, got + r, __ATOMIC_RELEASE);
    if (s->ends >= 0 && got + r >= (uint32_t) s->ends)
      ret = -1 - (int)R(5);
  }
  tick();
  __atomic_fetch_sub(&cur_busy, 1, __ATOMIC_RELAXED);
  if (ret < 0 && s->selfrm) {
    __atomic_fetch_add(&nself, 1, __ATOMIC_RELAXED);
    __atomic_store_n(&s->busy, 0, __ATOMIC_RELEASE);
    int fd = s->fd;
    onion_poller_remove(P, fd); /* frees s */
    return O_POLL_REMOVED;
  }
  if (ret < 0)
    __atomic_fetch_add(&nasked, 1, __ATOMIC_RELAXED);
  s->t_active = now();
  __atomic_store_n(&s->busy, 0, __ATOMIC_RELEASE);
  return ret;
}
static int *peers;              /* by id */
static int fdof[NS], timedof[NS], idleof[NS];
static uint32_t wr[NS];

static int add_slot(int timeout) {
  int sv[2];
  int id = nadded;
  if (id >= NS)
    return -1;
  if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv))
    return -1;
  FD_OUT(sv[0]);
  FD_OUT(sv[1]);
  struct slot *s = calloc(1, sizeof(*s));
  nadded++;
  s->id = id;
  s->fd = sv[0];
  s->timeout = timeout;
  s->ends = R(3) ? -1 : (int)R(200);
  if (timeout >= 0)
    s->ends = -1;
  s->selfrm = R(4) == 0;
  s->linger = R(4) ? 0 : 300;
  s->nap = nextnap;
  s->timed = timeout >= 0;
  s->state = &state[id];
  state[id] = LIVE;
  fdof[id] = sv[0];
  timedof[id] = s->timed;
  peers[id] = sv[1];
  onion_poller_slot *el = onion_poller_slot_new(sv[0], slot_cb, s);
  if (!el) {
    FAILF("slot no slot for fd %d", sv[0]);
    return -1;
  }
  onion_poller_slot_set_shutdown(el, shut_cb, s);
  if (R(2))
    onion_poller_slot_set_type(el, O_POLL_READ | (R(2) ? O_POLL_OTHER : 0));
  s->t_active = now();
  if (timeout >= 0 || R(3) == 0)
    onion_poller_slot_set_timeout(el, timeout);
  onion_poller_add(P, el);
  return id;
}
static int alive(int id) {
  return __atomic_load_n(&state[id], __ATOMIC_ACQUIRE) == LIVE;
}
static void feed(int id, int n) {
  unsigned char b[300];
  if (n > (int)sizeof(b))
    n = sizeof(b);
  for (int i = 0; i < n; i++)
    b[i] = sb(id, wr[id] + i);
  ssize_t r = send(peers[id], b, n, MSG_NOSIGNAL | MSG_DONTWAIT);
  if (r > 0)
    wr[id] += r;
}
static void *poll_thread(void *_) {
  onion_poller_poll(P);
  tick();
  return NULL;
}
/* all data given to slots that live is read, and slots that ended are gone */
static void drained(const char *when) {
  double t = now();
  for (int id = 0; id < nadded; id++) {
    if (peers[id] < 0)
      continue;
    while (alive(id)) {
      int q = 0;
      struct pollfd pf = { peers[id], 0, 0 };
      (void)pf;
      /* what is still at the socket: FIONREAD of the other side is not ours, so ask for our unsent */
      extern int ioctl(int, unsigned long, ...);
      ioctl(peers[id], 0x5411 /* TIOCOUTQ */ , &q);
      if (q == 0)
        break;
      if (now() - t > 20) {
        FAILF("lost slot %d has data waiting %s", id, when);
        return;
      }
      us(200);
    }
  }
  tick();
}
/* callbacks that take longer than the timeout, and nothing else that would make the timer tick */
static void slow_callbacks(void) {
  pthread_t th[4];
  int first = nadded;
  where = "slow callbacks";
  P = onion_poller_new(8);
  onion_poller_set_queue_size_per_thread(P, 1);
  int n = 1 + R(2);
  for (int i = 0; i < 4; i++)
    pthread_create(&th[i], NULL, poll_thread, NULL);
  for (int i = 0; i < n; i++) {
    int to = 200 + R(200);
    nextnap = to * (15 + R(10)) / 10;
    int id = add_slot(to);
    nextnap = 0;
    if (id >= 0)
      feed(id, 1);
  }
  for (int id = first; id < nadded; id++) {
    double t = now();
    while (alive(id)) {
      if (now() - t > 20) {
        FAILF("timeoutlate slot %d never timed out after a slow callback", id);
        break;
      }
      tick();
      us(1000);
    }
  }
  onion_poller_stop(P);
  for (int i = 0; i < 4; i++)
    pthread_join(th[i], NULL);
  onion_poller_free(P);
  for (int id = first; id < nadded; id++) {
    if (nshut[id] != 1)
      FAILF("shutdown slot %d shut down %d times", id, nshut[id]);
    cclose(peers[id]);
    peers[id] = -1;
  }
}
static void sc_poll(void) {
  int T = P_int("threads", 4), rounds = P_int("rounds", 3), steps = P_int("steps", 400);
  peers = calloc(NS, sizeof(int));
  int fds0 = -1;
  long heap0 = 0;
  for (int r = 0; r < rounds; r++) {
    int fd1 = vf_count_fds();
#ifdef VF_ASAN                  /* TSan opens some to symbolize, when it looks for suppressions */
    if (fds0 >= 0 && fd1 != fds0)
      FAILF("fdleak %d descriptors, %d before", fd1, fds0);
    fds0 = fd1;
    if (r == 1)
      heap0 = vf_live_allocs;
    if (r > 1 && vf_live_allocs > heap0 + 12)
      FAILF("heapleak %ld blocks more than after the first round", vf_live_allocs - heap0);
#endif
    if (r == 0)
      slow_callbacks();
    int first = nadded;
    where = "poller";
    P = onion_poller_new(8);
    onion_poller_set_queue_size_per_thread(P, P_int("queue", 1) == 0 ? 1 + R(8) : P_int("queue", 1));
    int npolls = 2;
    for (int k = 0; k < npolls; k++) {  /* polled, stopped, polled again */
      pthread_t th[32];
      int idle[8], nidle = 0;
      for (int i = 0; i < 10; i++)
        add_slot(-1);
      for (int i = 0; i < T; i++)
        pthread_create(&th[i], NULL, poll_thread, NULL);
      if (k) {                  /* started again, with nothing to do */
        drained("after starting again");
        us(10000);
        long e0 = __atomic_load_n(&n_epoll, __ATOMIC_RELAXED);
        us(60000);
        long e = __atomic_load_n(&n_epoll, __ATOMIC_RELAXED) - e0;
        if (e > 400)
          FAILF("spin %ld wakeups in 60 ms with nothing to do", e);
      }
      for (int s = 0; s < steps; s++) {
        tick();
        unsigned w = R(100);
        int id = first + R(nadded - first);
        if (w < 50) {
          if (alive(id) && peers[id] >= 0 && !idleof[id])
            feed(id, 1 + R(120));
        } else if (w < 62) {
          id = add_slot(R(3) ? -1 : 30 + (int)R(150));
          if (id >= 0 && R(2))
            feed(id, R(50));
        } else if (w < 70) {    /* hang up */
          if (peers[id] >= 0) {
            if (!alive(id) || (!timedof[id] && !idleof[id])) {
              cclose(peers[id]);
              peers[id] = -1;
              nhup++;
            }
          }
        } else if (w < 75 && nidle < 8) {       /* one that never gets data, to be removed from here */
          idle[nidle] = add_slot(-1);
          if (idle[nidle] >= 0)
            idleof[idle[nidle++]] = 1;
        } else if (w < 82 && nidle) {
          int i = R(nidle);
          id = idle[i];
          idle[i] = idle[--nidle];
          onion_poller_remove(P, fdof[id]);
          nremoved++;
          if (alive(id))
            FAILF("shutdown slot %d not shut down by its removal", id);
        } else if (w < 84) {
          drained("while polling");
        } else
          us(R(2000));
      }
      drained("at the end");
      /* those with timeout get it */
      where = "timeouts";
      for (int id = first; id < nadded; id++) {
        double t = now();
        while (alive(id) && timedof[id]) {
          if (now() - t > 20) {
            FAILF("timeoutlate slot %d never timed out", id);
            break;
          }
          tick();
          us(1000);
        }
      }
      where = "stop of the poller";
      /* with many things just about to be told */
      for (int i = 0; i < 40; i++) {
        int id = first + R(nadded - first);
        if (alive(id) && peers[id] >= 0 && !timedof[id] && !idleof[id])
          feed(id, 1 + R(30));
      }
      onion_poller_stop(P);
      for (int i = 0; i < T; i++)
        pthread_join(th[i], NULL);
      /* nothing is lost while nobody polls */
      int calls0 = ncalls;
      for (int i = 0; i < 5; i++) {
        int id = first + R(nadded - first);
        if (alive(id) && peers[id] >= 0 && !timedof[id])
          feed(id, 1 + R(30));
      }
      us(R(3000));
      if (ncalls != calls0)
        FAILF("removed callbacks run after the poller stopped");
    }
    where = "free of the poller";
    onion_poller_free(P);
    for (int id = first; id < nadded; id++) {
      if (nshut[id] != 1)
        FAILF("shutdown slot %d shut down %d times", id, nshut[id]);
      if (peers[id] >= 0)
        cclose(peers[id]);
      peers[id] = -1;
    }
  }
  printf("STAT slots %d calls %d removed %d selfremoved %d timeouts %d hangups %d asked %d batches %ld epoll %ld maxconc %d naps %d\n", nadded, ncalls, nremoved, nself,
         ntimeo, nhup, nasked, n_batch, n_epoll, max_busy, nnaps);
}

/* ------------------------------------------------------------ shared dictionaries */
#define ND 6
static onion_dict *D[ND];
static pthread_mutex_t dm[ND] = { PTHREAD_MUTEX_INITIALIZER, PTHREAD_MUTEX_INITIALIZER, PTHREAD_MUTEX_INITIALIZER, PTHREAD_MUTEX_INITIALIZER,
  PTHREAD_MUTEX_INITIALIZER, PTHREAD_MUTEX_INITIALIZER
};
static int incs[ND];
static long n_ops, n_last, n_dups;
static onion_dict *take(int k) {        /* own reference */
  __real_pthread_mutex_lock(&dm[k]);
  onion_dict *d = D[k] ? onion_dict_dup(D[k]) : NULL;
  __real_pthread_mutex_unlock(&dm[k]);
  return d;
}
static int maxread, curread, curwrite[ND];
struct walk {
  int n;
  char last[40];
  int bad;
};
static void walk_cb(void *d, const char *k, const void *v, int flags) {
  struct walk *w = d;
  if (w->n && strcmp(w->last, k) > 0)
    w->bad = 1;
  snprintf(w->last, sizeof(w->last), "%s", k);
  w->n++;
  if (!(flags & OD_DICT) && strlen((const char *)v) > 60)
    w->bad = 2;
}
static void check_pairs(onion_dict * d, const char *who) {
  char ka[20], kb[20];
  struct walk w = { 0 };
  onion_dict_preorder(d, walk_cb, &w);
  if (w.n != onion_dict_count(d))
    FAILF("dict %s walk sees %d of %d", who, w.n, onion_dict_count(d));
  if (w.bad)
    FAILF("dict %s walk %s", who, w.bad == 1 ? "out of order" : "bad value");
  for (int i = 0; i < 20; i++) {
    sprintf(ka, "a%d", i);
    sprintf(kb, "b%d", i);
    const char *a = onion_dict_get(d, ka), *b = onion_dict_get(d, kb);
    if (!a != !b || (a && strcmp(a, b)))
      FAILF("dict %s pair %d is '%s' '%s'", who, i, a ? a : "-", b ? b : "-");
  }
  onion_dict *s = onion_dict_get_dict(d, "sub");
  if (s) {
    const char *x = onion_dict_get(s, "x"), *y = onion_dict_get(s, "y");
    if (!x || !y || strcmp(x, y))
      FAILF("dict %s nested pair is '%s' '%s'", who, x ? x : "-", y ? y : "-");
  }
}
static void *dict_thread(void *arg) {
  int me = (int)(long)arg, steps = P_int("steps", 300);
  onion_dict *held[6] = { 0 };
  int hk[6];
  for (int s = 0; s < steps; s++) {
    tick();
    int h = R(6);
    if (!held[h]) {
      hk[h] = R(ND);
      held[h] = take(hk[h]);
      if (!held[h])
        continue;
      __atomic_fetch_add(&n_dups, 1, __ATOMIC_RELAXED);
    }
    onion_dict *d = held[h];
    char ka[20], kb[20], v[60];
    unsigned w = R(20);
    __atomic_fetch_add(&n_ops, 1, __ATOMIC_RELAXED);
    ev(me * 100 + w);
    if (w < 6) {
      int i = R(20);
      sprintf(ka, "a%d", i);
      sprintf(kb, "b%d", i);
      sprintf(v, "%d-%d-%.*s", me, s, (int)R(30), "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx");
      onion_dict_lock_write(d);
      if (R(3)) {
        onion_dict_add(d, ka, v, OD_DUP_ALL | OD_REPLACE);
        maybe_delay();
        onion_dict_add(d, kb, v, OD_DUP_ALL | OD_REPLACE);
      } else {
        onion_dict_remove(d, ka);
        maybe_delay();
        onion_dict_remove(d, kb);
      }
      onion_dict_unlock(d);
    } else if (w < 8) {
      onion_dict_lock_write(d);
      const char *c = onion_dict_get(d, "count");
      sprintf(v, "%d", (c ? atoi(c) : 0) + 1);
      maybe_delay();
      onion_dict_add(d, "count", v, OD_DUP_ALL | OD_REPLACE);
      onion_dict_unlock(d);
      __atomic_fetch_add(&incs[hk[h]], 1, __ATOMIC_RELAXED);
    } else if (w < 9) {
      onion_dict *sub = onion_dict_new();
      sprintf(v, "%d", R(100000));
      onion_dict_add(sub, "x", v, OD_DUP_ALL);
      onion_dict_add(sub, "y", v, OD_DUP_ALL);
      onion_dict_lock_write(d);
      onion_dict_remove(d, "sub");
      onion_dict_add(d, "sub", sub, OD_DUP_KEY | OD_DICT | OD_FREE_VALUE);
      onion_dict_unlock(d);
    } else if (w < 14) {
      onion_dict_lock_read(d);
      int r = __atomic_add_fetch(&curread, 1, __ATOMIC_RELAXED);
      if (r > __atomic_load_n(&maxread, __ATOMIC_RELAXED))
        __atomic_store_n(&maxread, r, __ATOMIC_RELAXED);
      check_pairs(d, "shared");
      __atomic_fetch_sub(&curread, 1, __ATOMIC_RELAXED);
      onion_dict_unlock(d);
    } else if (w < 15) {
      onion_dict_lock_read(d);
      onion_dict *c = onion_dict_hard_dup(d);
      onion_dict_unlock(d);
      check_pairs(c, "copied");
      onion_dict_free(c);
    } else if (w < 16) {
      onion_dict_lock_read(d);
      onion_block *b = onion_dict_to_json(d);
      onion_dict_unlock(d);
      onion_dict *c = b ? onion_dict_from_json(onion_block_data(b)) : NULL;
      if (!c)
        FAILF("dict json of a shared dict not readable");
      else
        check_pairs(c, "json");
      onion_dict_free(c);
      onion_block_free(b);
    } else if (w < 17) {        /* a reference of a reference */
      onion_dict *c = onion_dict_dup(d);
      onion_dict_free(d);
      held[h] = c;
    } else if (w < 19) {
      onion_dict_free(d);
      held[h] = NULL;
    } else {                    /* the owner lets it go: it lasts while somebody has it */
      int k = R(ND);
      __real_pthread_mutex_lock(&dm[k]);
      onion_dict *o = D[k];
      D[k] = NULL;
      if (!o) {
        D[k] = onion_dict_new();
      }
      __real_pthread_mutex_unlock(&dm[k]);
      if (o) {
        onion_dict_free(o);
        __atomic_fetch_add(&n_last, 1, __ATOMIC_RELAXED);
      }
    }
  }
  for (int i = 0; i < 6; i++)
    if (held[i])
      onion_dict_free(held[i]);
  return NULL;
}
/* all threads have one dict and count in it: nothing is lost; then the last one out frees it */
static onion_dict *CD;
static void *count_thread(void *arg) {
  onion_dict *d = arg;
  char v[20], me[20];
  sprintf(me, "t%d", (int)R(1000000));
  for (int i = 0; i < 60; i++) {
    tick();
    onion_dict_lock_write(d);
    const char *c = onion_dict_get(d, "n");
    sprintf(v, "%d", (c ? atoi(c) : 0) + 1);
    maybe_delay();
    onion_dict_add(d, "n", v, OD_DUP_ALL | OD_REPLACE);
    onion_dict_add(d, me, v, OD_DUP_ALL);
    onion_dict_unlock(d);
    if (R(4) == 0) {
      onion_dict *e = onion_dict_dup(d);
      onion_dict_lock_read(e);
      if (!onion_dict_get(e, me))
        FAILF("dict key %s lost", me);
      onion_dict_unlock(e);
      onion_dict_free(e);
    }
  }
  onion_dict_free(d);
  return NULL;
}
static void sc_dict(void) {
  int T = P_int("threads", 6), rounds = P_int("rounds", 4);
  pthread_t th[32];
  long heap0 = 0;
  for (int r = 0; r < rounds; r++) {
#ifdef VF_ASAN
    if (r == 1)
      heap0 = vf_live_allocs;
    if (r > 1 && vf_live_allocs > heap0 + 12)
      FAILF("heapleak %ld blocks more than after the first round", vf_live_allocs - heap0);
#endif
    where = "shared dictionaries";
    for (int k = 0; k < ND; k++)
      D[k] = onion_dict_new();
    for (int i = 0; i < T; i++)
      pthread_create(&th[i], NULL, dict_thread, (void *)(long)i);
    for (int i = 0; i < T; i++)
      pthread_join(th[i], NULL);
    for (int k = 0; k < ND; k++)
      if (D[k]) {
        onion_dict_free(D[k]);
        D[k] = NULL;
      }
    CD = onion_dict_new();
    for (int i = 0; i < T; i++)
      pthread_create(&th[i], NULL, count_thread, onion_dict_dup(CD));
    if (r & 1) {                /* somebody keeps it */
      for (int i = 0; i < T; i++)
        pthread_join(th[i], NULL);
      onion_dict_lock_read(CD);
      const char *c = onion_dict_get(CD, "n");
      if (!c || atoi(c) != T * 60)
        FAILF("dict counted %s of %d increments", c ? c : "none", T * 60);
      onion_dict_unlock(CD);
      onion_dict_free(CD);
    } else {
      onion_dict_free(CD);
      for (int i = 0; i < T; i++)
        pthread_join(th[i], NULL);
    }
  }
  printf("STAT ops %ld dups %ld dropped %ld maxreaders %d\n", n_ops, n_dups, n_last, maxread);
}

/* ------------------------------------------------------------ MIME */
static const char *mime_path;
static int n_fopen;
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *p, const char *m) {
  if (!strcmp(p, "/etc/mime.types")) {
    __atomic_fetch_add(&n_fopen, 1, __ATOMIC_RELAXED);
    maybe_delay();
    if (!mime_path)
      return NULL;
    return __real_fopen(mime_path, m);
  }
  return __real_fopen(p, m);
}
static char **mq;
static int nmq;
static char **mres;
static pthread_barrier_t mbar;
static void *mime_thread(void *arg) {
  int me = (int)(long)arg;
  int start = R(nmq);
  char ext[20];
  pthread_barrier_wait(&mbar);
  for (int i = 0; i < nmq; i++) {
    int k = (start + i) % nmq;
    const char *r = onion_mime_get(mq[k]);
    if (!r) {
      FAILF("mime NULL for %s", mq[k]);
      continue;
    }
    if (me == 0)
      mres[k] = strdup(r);
    else if (mres[nmq + k] && strcmp(mres[nmq + k], r))
      FAILF("mime '%s' is '%s' and '%s'", mq[k], mres[nmq + k], r);
    if (R(20) == 0) {           /* one only this thread uses */
      sprintf(ext, "own%d", me);
      if (R(2)) {
        char t[40];
        sprintf(t, "x-own/t%d-%d", me, i);
        char t2[40], x2[20];    /* the library has its own copies */
        strcpy(t2, t);
        strcpy(x2, ext);
        onion_mime_update(x2, t2);
        memset(t2, 'x', 5);
        memset(x2, 'x', 3);
        r = onion_mime_get(ext);
        if (strcmp(r, t))
          FAILF("mime updated '%s' to '%s', is '%s'", ext, t, r);
      } else {
        onion_mime_update(ext, NULL);
        r = onion_mime_get(ext);
        if (strcmp(r, "text/plain"))
          FAILF("mime removed '%s', is '%s'", ext, r);
      }
    }
    tick();
  }
  ev(me * 1000 + start);
  return NULL;
}
/* file: mime.types or "-"; queries one per line; results to stdout */
static void sc_mime(void) {
  int T = P_int("threads", 6), rounds = P_int("rounds", 3);
  mime_path = P_str("types", "-");
  if (!strcmp(mime_path, "-"))
    mime_path = NULL;
  FILE *f = __real_fopen(P_str("queries", ""), "r");
  if (!f)
    _exit(3);
  char *line = NULL;
  size_t cap = 0;
  ssize_t l;
  while ((l = getline(&line, &cap, f)) > 0) {
    line[l - 1] = 0;
    mq = realloc(mq, (nmq + 1) * sizeof(*mq));
    mq[nmq++] = strdup(line);
  }
  free(line);
  fclose(f);
  mres = calloc(nmq * 2, sizeof(*mres));
  where = "mime";
  pthread_t th[32];
  for (int r = 0; r < rounds; r++) {
    pthread_barrier_init(&mbar, NULL, T);
    for (int i = 0; i < T; i++)
      pthread_create(&th[i], NULL, mime_thread, (void *)(long)i);
    for (int i = 0; i < T; i++)
      pthread_join(th[i], NULL);
    pthread_barrier_destroy(&mbar);
    for (int k = 0; k < nmq; k++) {
      if (mres[nmq + k] && strcmp(mres[k], mres[nmq + k]))
        FAILF("mime '%s' is '%s', before '%s'", mq[k], mres[k], mres[nmq + k]);
      free(mres[nmq + k]);
      mres[nmq + k] = mres[k];
      mres[k] = NULL;
    }
    for (int i = 0; i < T; i++) {
      char ext[20];
      sprintf(ext, "own%d", i);
      onion_mime_update(ext, NULL);
    }
    onion_mime_set(NULL);       /* read again */
  }
  for (int k = 0; k < nmq; k++)
    printf("RES %s\t%s\n", mq[k], mres[nmq + k] ? mres[nmq + k] : "(null)");
  /* a table set by the user */
  onion_dict *d = onion_dict_new();
  onion_dict_add(d, "zz", "x/zz", 0);
  onion_dict_add(d, "html", "x/html", 0);
  onion_mime_set(d);
  if (strcmp(onion_mime_get("a.zz"), "x/zz") || strcmp(onion_mime_get("html"), "x/html") || strcmp(onion_mime_get("a.txt"), "text/plain"))
    FAILF("mime table set by the user not used");
  onion_mime_set(NULL);
  printf("STAT lookups %d reads %d\n", nmq * T * rounds, n_fopen);
}

static void nolog(onion_log_level l, const char *f, int n, const char *m, ...) {
}
int main(int argc, char **argv) {
  Gargc = argc;
  Gargv = argv;
  static char obuf[65536];
  setvbuf(stdout, obuf, _IOFBF, sizeof(obuf));
  vf_heap_init();
  VF_TAG_ENV();
  signal(SIGPIPE, SIG_IGN);
  seed0 = mix(P_int("seed", 1) * 1000003ULL + 17);
  stall_s = P_int("stall", 40);
  delay_pct = P_int("delay", 0);
  struct rlimit rl = { 8192, 8192 };
  setrlimit(RLIMIT_NOFILE, &rl);
  if (!P_int("log", 0))
    onion_log = (void *)nolog;
  pthread_t wd;
  pthread_create(&wd, NULL, watchdog, NULL);
  const char *s = P_str("scenario", "");
  if (!strcmp(s, "poll"))
    sc_poll();
  else if (!strcmp(s, "dict"))
    sc_dict();
  else if (!strcmp(s, "mime"))
    sc_mime();
  else
    return 3;
  printf("STAT trace %016llx\n", (unsigned long long)ev_h);
  printf("STAT events %ld delays %ld\n", ev_n, n_delays);
  printf("DONE\n");
  fflush(stdout);
  _exit(nfails ? 1 : 0);
}

/* A server told to drop its privileges (onion_set_user). Started as root; drops, so it runs one case and ends.
 *
 *   priv key=value...
 *     user=NAME        the user given to onion_set_user (twice=1: another one first)
 *     as=NAME          become this user before anything else
 *     mode=poll|threaded|pool|one  detach=0|1  points=1|2  busy=0|1 (the first point can not listen)
 *     fail=0|1|2|3     the 1st..3rd identity changing call fails
 *     secret=PATH      a file only root can read
 *     expect=drop|fail|root
 *
 * The identity of the whole process is observed from the kernel, by the handler, at each bind and at each accept.
 */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <arpa/inet.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <grp.h>
#include <netinet/in.h>
#include <pthread.h>
#include <pwd.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <time.h>
#include <unistd.h>
#include <onion/onion.h>
#include <onion/http.h>
#include <onion/log.h>
#include <onion/response.h>
#include <onion/listen_point.h>
#include "vf.h"

static int Gargc;
static char **Gargv;
static const char *P_str(const char *k, const char *def) {
  size_t l = strlen(k);
  for (int i = 1; i < Gargc; i++)
    if (!strncmp(Gargv[i], k, l) && Gargv[i][l] == '=')
      return Gargv[i] + l + 1;
  return def;
}
static int P_int(const char *k, int def) {
  const char *s = P_str(k, NULL);
  return s ? atoi(s) : def;
}
static pthread_mutex_t out_m = PTHREAD_MUTEX_INITIALIZER;
static void FAILF(const char *fmt, ...) {
  pthread_mutex_lock(&out_m);
  va_list va;
  va_start(va, fmt);
  printf("FAIL ");
  vprintf(fmt, va);
  printf("\n");
  fflush(stdout);
  va_end(va);
  pthread_mutex_unlock(&out_m);
}
static void ms(int n) {
  struct timespec t = { n / 1000, (n % 1000) * 1000000L };
  nanosleep(&t, NULL);
}

/* what is expected: the identity of the user, or the one at the start */
static uid_t uid;
static gid_t gid, groups[128];
static int ngroups;
static int want_fail, armed;
#define expect_fail (want_fail && (!P_int("fail", 0) || n_failed))        /* that call may not be there */
static int n_bind, n_accept, n_idcalls, n_handled, n_threads, n_failed;

static int same_groups(void) {
  gid_t g[128];
  int n = getgroups(128, g);
  if (n < 0)
    return 0;
  for (int i = 0; i < n; i++) {
    int ok = 0;
    for (int j = 0; j < ngroups; j++)
      ok |= g[i] == groups[j];
    if (!ok)
      return 0;
  }
  for (int j = 0; j < ngroups; j++) {
    int ok = groups[j] == gid;
    for (int i = 0; i < n; i++)
      ok |= g[i] == groups[j];
    if (!ok)
      return 0;
  }
  return 1;
}
static void check_identity(const char *when) {
  uid_t r, e, s;
  gid_t gr, ge, gs;
  getresuid(&r, &e, &s);
  getresgid(&gr, &ge, &gs);
  if (r != uid || e != uid || s != uid)
    FAILF("uid %s runs with uids %d %d %d, asked for %d", when, r, e, s, uid);
  if (gr != gid || ge != gid || gs != gid)
    FAILF("gid %s runs with gids %d %d %d, asked for %d", when, gr, ge, gs, gid);
  if (!same_groups())
    FAILF("groups %s does not run with the groups of the user", when);
  const char *secret = P_str("secret", NULL);
  if (secret && uid != 0) {
    int fd = open(secret, O_RDONLY);
    if (fd >= 0) {
      FAILF("secret %s could open a file of root", when);
      close(fd);
    }
    if (setuid(0) == 0)
      FAILF("regain %s could become root again", when);
  }
}
static void check_threads(void) {
  prctl(PR_SET_DUMPABLE, 1);
  DIR *d = opendir("/proc/self/task");
  struct dirent *de;
  if (!d)
    return;
  while ((de = readdir(d))) {
    char p[300], l[300];
    if (de->d_name[0] == '.')
      continue;
    snprintf(p, sizeof(p), "/proc/self/task/%s/status", de->d_name);
    FILE *f = fopen(p, "r");
    if (!f)
      continue;
    while (fgets(l, sizeof(l), f)) {
      unsigned a, b, c, e;
      if (sscanf(l, "Uid: %u %u %u %u", &a, &b, &c, &e) == 4) {
        n_threads++;
        if (a != uid || b != uid || c != uid || e != uid)
          FAILF("thread a thread runs with uids %u %u %u %u", a, b, c, e);
      }
    }
    fclose(f);
  }
  closedir(d);
}

/* observed calls */
int __real_bind(int, const struct sockaddr *, socklen_t);
static uid_t start_uid;
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t l) {
  if (armed == 1) {
    n_bind++;
    if (geteuid() != start_uid)
      FAILF("early privileges were dropped before listening");
  }
  return __real_bind(fd, a, l);
}
int __real_accept4(int, struct sockaddr *, socklen_t *, int);
int __wrap_accept4(int fd, struct sockaddr *a, socklen_t * l, int f) {
  __atomic_fetch_add(&n_accept, 1, __ATOMIC_RELAXED);
  if (expect_fail)
    FAILF("serves connections are accepted although privileges could not be dropped");
  else
    check_identity("accept");
  return __real_accept4(fd, a, l, f);
}
static int idcall(void) {
  if (!armed)
    return 0;
  n_idcalls++;
  if (n_idcalls == P_int("fail", 0)) {
    n_failed++;
    errno = EPERM;
    return -1;
  }
  return 0;
}
#define W(name, sig, ...) int __real_##name sig; int __wrap_##name sig { if (idcall()) return -1; return __real_##name(__VA_ARGS__); }
W(initgroups, (const char *u, gid_t g), u, g)
W(setgroups, (size_t n, const gid_t * g), n, g)
W(setgid, (gid_t g), g)
W(setuid, (uid_t u), u)
W(setregid, (gid_t a, gid_t b), a, b)
W(setreuid, (uid_t a, uid_t b), a, b)
W(setresgid, (gid_t a, gid_t b, gid_t c), a, b, c)
W(setresuid, (uid_t a, uid_t b, uid_t c), a, b, c)

static char addr[32];
static int port;
static int cli(int p, char *out, size_t n) {
  struct sockaddr_in a = { 0 };
  int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
  a.sin_family = AF_INET;
  a.sin_port = htons(p);
  inet_pton(AF_INET, addr, &a.sin_addr);
  struct timeval tv = { 10, 0 };
  setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof(tv));
  if (connect(fd, (struct sockaddr *)&a, sizeof(a)) < 0) {
    close(fd);
    return -1;
  }
  const char *q = "GET / HTTP/1.1\r\nHost: h\r\nConnection: close\r\n\r\n";
  size_t l = 0;
  if (send(fd, q, strlen(q), MSG_NOSIGNAL) > 0) {
    ssize_t r;
    while (l + 1 < n && ((r = recv(fd, out + l, n - 1 - l, 0)) > 0 || (r < 0 && errno == EINTR)))     /* changing identity signals all threads */
      if (r > 0)
        l += r;
  }
  out[l] = 0;
  close(fd);
  return l;
}
static onion_connection_status handler(void *_, onion_request * req, onion_response * res) {
  __atomic_fetch_add(&n_handled, 1, __ATOMIC_RELAXED);
  if (expect_fail)
    FAILF("serves a request is handled although privileges could not be dropped");
  else {
    check_identity("handler");
    check_threads();
  }
  onion_response_set_length(res, 4);
  onion_response_write(res, "done", 4);
  return OCS_PROCESSED;
}
static onion *srv;
static int lret = -77;
static _Atomic int returned;
static void *lthread(void *_) {
  lret = onion_listen(srv);
  returned = 1;
  return NULL;
}
static void become(const char *name) {
  struct passwd *pw = getpwnam(name);
  if (!pw || initgroups(name, pw->pw_gid) || setgid(pw->pw_gid) || setuid(pw->pw_uid)) {
    printf("SKIP can not become %s\nDONE\n", name);
    exit(0);
  }
}
int main(int argc, char **argv) {
  Gargc = argc;
  Gargv = argv;
  setvbuf(stdout, NULL, _IOLBF, 0);
  onion_log_flags = OF_NOINFO | OF_NODEBUG;
  alarm(120);
  const char *user = P_str("user", "nobody"), *expect = P_str("expect", "drop"), *mode = P_str("mode", "poll");
  gid_t extra[3] = { 0, 4, 27 };
  if (geteuid() != 0 || setgroups(3, extra)) {
    printf("SKIP not root\nDONE\n");
    return 0;
  }
  if (P_str("as", NULL))
    become(P_str("as", NULL));
  start_uid = geteuid();
  want_fail = !strcmp(expect, "fail");
  struct passwd *pw = getpwnam(user);
  if (!want_fail || P_int("fail", 0)) {
    if (!pw) {
      printf("SKIP no user %s\nDONE\n", user);
      return 0;
    }
    uid = pw->pw_uid;
    gid = pw->pw_gid;
    ngroups = 128;
    getgrouplist(user, gid, groups, &ngroups);
  }
  unsigned pid = getpid();
  sprintf(addr, "127.%u.%u.%u", 1 + (pid >> 16) % 200, (pid >> 8) & 255, 1 + (pid & 255) % 254);
  port = 18000 + pid % 1000;
  int m = !strcmp(mode, "one") ? O_ONE_LOOP : !strcmp(mode, "threaded") ? O_THREADED : !strcmp(mode, "pool") ? O_POOL : O_POLL;
  int det = P_int("detach", 0), pts = P_int("points", 1);
  char ps[20], ps2[20];
  int blocker = -1;
  srv = onion_new(m | (det ? O_DETACH_LISTEN : 0) | O_NO_SIGTERM);
  onion_set_root_handler(srv, onion_handler_new((void *)handler, NULL, NULL));
  onion_set_max_threads(srv, 4);
  if (P_int("twice", 0))
    onion_set_user(srv, P_int("twice", 0) == 1 ? "root" : "nosuchuser-0");
  onion_set_user(srv, user);
  sprintf(ps, "%d", port);
  sprintf(ps2, "%d", port + 1000);
  onion_add_listen_point(srv, addr, ps, onion_http_new());
  if (pts > 1)
    onion_add_listen_point(srv, addr, ps2, onion_http_new());
  if (geteuid() != start_uid)
    FAILF("early privileges were dropped before listening");
  if (P_int("busy", 0)) {
    struct sockaddr_in a = { 0 };
    a.sin_family = AF_INET;
    a.sin_port = htons(port);
    inet_pton(AF_INET, addr, &a.sin_addr);
    blocker = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    __real_bind(blocker, (struct sockaddr *)&a, sizeof(a));
    listen(blocker, 1);
  }
  int use = P_int("busy", 0) ? port + 1000 : port;
  int served = 0;
  for (int round = 0; round < (want_fail ? 1 : 2); round++) {
    pthread_t th;
    returned = 0;
    lret = -77;
    armed = 1 + round;
    if (det) {
      lret = onion_listen(srv);
      returned = 1;
    } else
      pthread_create(&th, NULL, lthread, NULL);
    char out[2000];
    int r = -1;
    for (int i = 0; i < 15000 && (expect_fail ? r <= 0 : r < 0); i++) {  /* the system may connect them, until it is closed */
      int was = returned;
      r = cli(use, out, sizeof(out));
      if (r <= 0)
        ms(1);
      if (expect_fail && was && i > 50)
        break;
    }
    if (expect_fail) {
      if (r > 0)
        FAILF("serves answered although privileges could not be dropped: %.40s", out);
      if (returned && lret == 0)
        FAILF("noerror onion_listen returned 0 although privileges could not be dropped");
      if (!returned) {
        FAILF("noerror onion_listen keeps listening although privileges could not be dropped");
        onion_listen_stop(srv);
      }
    } else {
      if (returned && lret != 0 && r < 0)
        FAILF("refused onion_listen returned %d", lret);
      else if (r < 0 || !strstr(out, "done"))
        FAILF("refused no answer");
      else
        served++;
      onion_listen_stop(srv);
    }
    if (!det)
      pthread_join(th, NULL);
    else if (!expect_fail)
      ms(20);
    if (cli(use, out, sizeof(out)) >= 0)
      FAILF("stillopen the port accepts connections after listening ended");
    if (!expect_fail)
      check_identity("later");
  }
  onion_free(srv);
  if (blocker >= 0)
    close(blocker);
  printf("STAT bind %d accept %d idcalls %d handled %d threads %d failed %d served %d\nDONE\n", n_bind, n_accept, n_idcalls, n_handled, n_threads, n_failed, served);
  fflush(stdout);
  _exit(0);
}

/* Servers configured and run by scripts: where they listen, what they answer there, what they leave behind.
   usage: conf CASEFILE OUTFILE CERT KEY
   Ports are written @n: each names a port that was free when the case began.  The model is in vf/props/p36.py. */
#define _GNU_SOURCE
#include "vf.h"
#include <arpa/inet.h>
#include <errno.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <time.h>
#include <onion/low.h>
#include <onion/onion.h>
#include <onion/handler.h>
#include <onion/request.h>
#include <onion/response.h>
#include <onion/url.h>
#include <onion/http.h>
#include <onion/https.h>
#include <onion/listen_point.h>
#include <onion/shortcuts.h>
#include <onion/log.h>

static void quiet(onion_log_level l, const char *f, int n, const char *m, ...) {
}

#define MAXN 64
static onion *o;
static onion_listen_point *lps[MAXN];
static int nlps;
static int ports[MAXN], held[MAXN], nheld;
static int busy[MAXN], nbusy;
static int data_frees[MAXN], hnd_frees[MAXN], sets_seen;
static pthread_t th;
static volatile int th_on, th_done, th_ret;
static const char *cert, *key;
static onion_url *root_url;

struct hnd {
  int k;
  char kind;                    /* a: answers; n: does not process; e: error handler */
};

static double now(void) {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec / 1e9;
}

static int can_listen(int port) {
  int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0), one = 1;
  struct sockaddr_in a = { 0 };
  a.sin_family = AF_INET;
  a.sin_port = htons(port);
  setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
  int r = bind(fd, (void *)&a, sizeof a) == 0 && listen(fd, 1) == 0;
  close(fd);
  return r;
}

static const char *port_of(const char *s) {
  static char b[4][16];
  static int i;
  if (s[0] != '@')
    return s;
  int k = atoi(s + 1);
  if (!ports[k]) {
    /* Below the range of the ports of outgoing connections.  The addresses of a case are its own; only those
       that are opened at every address have to be kept from other runs of this driver, by a name only one can have. */
    for (int t = 0;; t++) {
      int p = (k >= 10 ? 20000 : 10000) + random() % 10000, ok = 1;
      for (int j = 0; j < MAXN; j++)
        if (ports[j] == p)
          ok = 0;
      if (ok && k >= 10) {
        struct sockaddr_un u = { AF_UNIX, "" };
        snprintf(u.sun_path + 1, sizeof u.sun_path - 1, "vf-onion-port-%d", p);
        int fd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
        if (bind(fd, (void *)&u, sizeof u) != 0 || !can_listen(p)) {
          close(fd);
          ok = 0;
        } else
          held[nheld++] = fd;
      }
      if (ok) {
        ports[k] = p;
        break;
      }
      if (t > 3000) {
        fprintf(stderr, "no free port: %s\n", strerror(errno));
        exit(97);
      }
    }
  }
  i = (i + 1) % 4;
  sprintf(b[i], "%d", ports[k]);
  return b[i];
}
static const char *opt(const char *s) {
  return strcmp(s, "-") == 0 ? NULL : s;
}

/* descriptors a program executed now would inherit, the standard ones and the two files of this driver aside */
static int inherited(void) {
  int n = 0;
  for (int fd = 3; fd < 512; fd++) {
    int fl = fcntl(fd, F_GETFD);
    struct stat st;
    if (fl >= 0 && !(fl & FD_CLOEXEC) && fstat(fd, &st) == 0 && S_ISSOCK(st.st_mode))
      n++;
  }
  return n;
}

/* accept failing */
static volatile int acc_n, acc_err;
int __real_accept4(int fd, struct sockaddr *a, socklen_t * l, int f);
int __wrap_accept4(int fd, struct sockaddr *a, socklen_t * l, int f) {
  if (acc_n > 0 && __sync_fetch_and_sub(&acc_n, 1) > 0) {
    int e = acc_err;
    if (e == ECONNABORTED || e == EPROTO) {
      int c = __real_accept4(fd, a, l, f);
      if (c >= 0)
        close(c);
      else
        return c;
    }
    errno = e;
    return -1;
  }
  return __real_accept4(fd, a, l, f);
}

static int handle(void *p, onion_request * req, onion_response * res) {
  struct hnd *h = p;
  if (h->kind == 'n')
    return OCS_NOT_PROCESSED;
  int *d = onion_client_data(o);
  char t[200];
  snprintf(t, sizeof t, "%c%d data=%d inh=%d", h->kind, h->k, d ? (int)(d - data_frees) : -1, inherited());
  onion_response_write0(res, t);
  return OCS_PROCESSED;
}
static void hfree(void *p) {
  struct hnd *h = p;
  hnd_frees[h->k]++;
  free(h);
}
static onion_handler *mkh(int k, char kind) {
  struct hnd *h = malloc(sizeof *h);
  h->k = k;
  h->kind = kind;
  return onion_handler_new((void *)handle, h, hfree);
}
static void dfree(void *d) {
  data_frees[(int *)d - data_frees]++;
}

static void *runner(void *_) {
  th_ret = onion_listen(o);
  th_done = 1;
  return NULL;
}

static int dial(const char *host, const char *port) {
  int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
  struct sockaddr_in a = { 0 };
  a.sin_family = AF_INET;
  a.sin_port = htons(atoi(port));
  inet_pton(AF_INET, host, &a.sin_addr);
  if (connect(fd, (void *)&a, sizeof a) != 0) {
    close(fd);
    return -1;
  }
  return fd;
}

static int silences;             /* a server that does not answer: no need to wait that long again */
static int whole(const char *b, size_t n) {
  char *e = memmem(b, n, "\r\n\r\n", 4), *l = memmem(b, n, "Content-Length: ", 16);
  if (!e)
    return 0;
  if (l && l < e)
    return (size_t)(b + n - (e + 4)) >= (size_t)atol(l + 16);
  return n > 5 && memcmp(b + n - 5, "0\r\n\r\n", 5) == 0;
}

static void probe(const char *host, const char *port, const char *path, int two) {
  int fd = dial(host, port);
  if (fd < 0) {
    fprintf(vf_out, "PROBE refused\n");
    return;
  }
  char q[300], b[8192];
  if (two)
    snprintf(q, sizeof q, "GET /%s HTTP/1.1\r\nHost: a\r\n\r\n", path);
  else
    snprintf(q, sizeof q, "GET /%s HTTP/1.0\r\n\r\n", path);
  (void)!send(fd, q, strlen(q), MSG_NOSIGNAL);
  size_t n = 0;
  double t = now();
  int end = 0;
  while (n < sizeof b) {
    struct pollfd p = { fd, POLLIN, 0 };
    int left = (int)((t + (silences > 2 ? 1 : 8) - now()) * 1000);
    if (left <= 0 || poll(&p, 1, left) <= 0)
      break;
    ssize_t r = recv(fd, b + n, sizeof b - n, 0);
    if (r <= 0) {
      end = 1;
      break;
    }
    n += r;
    if (two && whole(b, n)) {   /* another request on the same connection */
      two = 0;
      snprintf(q, sizeof q, "GET /%s HTTP/1.1\r\nHost: a\r\nConnection: close\r\n\r\n", path);
      (void)!send(fd, q, strlen(q), MSG_NOSIGNAL);
    }
  }
  close(fd);
  silences += !end;
  fprintf(vf_out, "PROBE %s ", end ? "end" : "silence");
  vf_puthex(b, n);
  fprintf(vf_out, "\n");
}

static void idle(const char *host, const char *port, int max) {
  int fd = dial(host, port);
  if (fd < 0) {
    fprintf(vf_out, "IDLE refused\n");
    return;
  }
  double t = now();
  struct pollfd p = { fd, POLLIN, 0 };
  int r = poll(&p, 1, max);
  fprintf(vf_out, "IDLE %d %d\n", r, (int)((now() - t) * 1000));
  close(fd);
}

static void mine(int s) {
  sets_seen++;
}
static const char *disp(int s) {
  struct sigaction a;
  sigaction(s, NULL, &a);
  return a.sa_handler == SIG_DFL ? "default" : a.sa_handler == SIG_IGN ? "ignored" : a.sa_handler == mine ? "mine" : "other";
}
static void sigs(const char *when) {
  fprintf(vf_out, "SIGS %s %s %s %s\n", when, disp(SIGPIPE), disp(SIGTERM), disp(SIGINT));
}

static int knows(onion_listen_point * p) {
  for (int i = 0; i < nlps; i++)
    if (lps[i] == p)
      return i;
  return -1;
}

static void op(char **f, int n) {
#define IS(x) (strcmp(f[0], x) == 0)
  if (IS("NEW")) {
    signal(SIGPIPE, mine);
    signal(SIGTERM, mine);
    signal(SIGINT, mine);
    o = onion_new(atoi(f[1]));
    onion_set_timeout(o, 2500);
    sigs("new");
    fprintf(vf_out, "FLAGS %d\n", onion_flags(o));
  } else if (IS("NEWDEF")) {
    o = onion_new(atoi(f[1]));
  } else if (IS("TIMEOUT")) {
    onion_set_timeout(o, atoi(f[1]));
  } else if (IS("ADD")) {
    onion_listen_point *p = strcmp(f[1], "https") == 0 ? onion_https_new() : onion_http_new();
    if (strcmp(f[1], "https") == 0)
      fprintf(vf_out, "HCERT %d\n", onion_https_set_certificate(p, O_SSL_CERTIFICATE_KEY, cert, key));
    int r = onion_add_listen_point(o, opt(f[2]), f[3][0] == '@' ? port_of(f[3]) : opt(f[3]), p);
    lps[nlps++] = p;
    fprintf(vf_out, "ADD %d\n", r);
  } else if (IS("ADDNULL")) {
    fprintf(vf_out, "ADDNULL %d\n", onion_add_listen_point(o, "127.0.0.1", "1", NULL));
  } else if (IS("PORT")) {
    onion_set_port(o, port_of(f[1]));
  } else if (IS("HOST")) {
    onion_set_hostname(o, f[1]);
  } else if (IS("CERT")) {
    fprintf(vf_out, "CERT %d\n", onion_set_certificate(o, O_SSL_CERTIFICATE_KEY, strcmp(f[1], "ok") == 0 ? cert : "/nonexistent/cert.pem", key));
  } else if (IS("GETLP")) {
    onion_listen_point *p = onion_get_listen_point(o, atoi(f[1]));
    fprintf(vf_out, "GETLP %d\n", !p ? -2 : knows(p));
  } else if (IS("DATA")) {
    int k = atoi(f[1]);
    onion_set_client_data(o, k < 0 ? NULL : &data_frees[k], atoi(f[2]) ? dfree : NULL);
  } else if (IS("GETD")) {
    int *d = onion_client_data(o);
    fprintf(vf_out, "GETD %d %d\n", d ? (int)(d - data_frees) : -1, onion_client_data(NULL) == NULL);
  } else if (IS("ROOT")) {
    onion_handler *old = onion_get_root_handler(o);
    onion_handler *h = mkh(atoi(f[1]), f[2][0]);
    onion_set_root_handler(o, h);
    fprintf(vf_out, "ROOT %d %d\n", old != NULL, onion_get_root_handler(o) == h);
    if (old)
      onion_handler_free(old);
    root_url = NULL;
  } else if (IS("ROOTURL")) {
    onion_handler *old = onion_get_root_handler(o);
    onion_url *u = onion_root_url(o);
    if (!old)
      root_url = u;
    fprintf(vf_out, "ROOTURL %s\n", !u ? "null" : u == root_url ? (old ? "same" : "new") : "other");
  } else if (IS("URLADD")) {
    onion_url *u = onion_root_url(o);
    if (u)
      onion_url_add_handler(u, f[1], mkh(atoi(f[2]), 'a'));
    fprintf(vf_out, "URLADD %d\n", u != NULL);
  } else if (IS("ERRH")) {
    onion_set_internal_error_handler(o, mkh(atoi(f[1]), 'e'));
  } else if (IS("THREADS")) {
    onion_set_max_threads(o, atoi(f[1]));
  } else if (IS("USER")) {
    onion_set_user(o, f[1]);
  } else if (IS("BUSY")) {
    int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0), one = 1;
    struct sockaddr_in a = { 0 };
    a.sin_family = AF_INET;
    a.sin_port = htons(atoi(port_of(f[2])));
    inet_pton(AF_INET, f[1], &a.sin_addr);
    setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    int r = bind(fd, (void *)&a, sizeof a) == 0 && listen(fd, 1) == 0;
    fprintf(vf_out, "BUSY %d\n", r);
    busy[nbusy++] = fd;
  } else if (IS("UNBUSY")) {
    while (nbusy)
      close(busy[--nbusy]);
  } else if (IS("FREEPORT")) {
    fprintf(vf_out, "FREEPORT %d\n", can_listen(atoi(f[1])));
  } else if (IS("LISTEN")) {
    if (onion_flags(o) & O_DETACH_LISTEN) {
      int r = onion_listen(o);
      fprintf(vf_out, "LISTEN %s\n", r ? "error" : "up");
    } else {
      th_done = 0;
      th_ret = -1;
      pthread_create(&th, NULL, runner, NULL);
      double t = now();
      while (!th_done && !(onion_flags(o) & O_LISTENING) && now() < t + 10)
        usleep(200);
      if (th_done) {
        pthread_join(th, NULL);
        fprintf(vf_out, "LISTEN %s\n", th_ret ? "error" : "returned");
      } else {
        th_on = 1;
        fprintf(vf_out, "LISTEN up\n");
      }
    }
  } else if (IS("PROBE")) {
    probe(f[1], port_of(f[2]), n > 3 ? f[3] : "", 0);
  } else if (IS("PROBE2")) {
    probe(f[1], port_of(f[2]), n > 3 ? f[3] : "", 1);
  } else if (IS("IDLE")) {
    idle(f[1], port_of(f[2]), atoi(f[3]));
  } else if (IS("ACCFAIL")) {
    acc_err = strcmp(f[1], "ECONNABORTED") == 0 ? ECONNABORTED : strcmp(f[1], "EPROTO") == 0 ? EPROTO : strcmp(f[1], "EMFILE") == 0 ? EMFILE : strcmp(f[1], "ENFILE") == 0 ? ENFILE : strcmp(f[1], "ENOBUFS") == 0 ? ENOBUFS : EINTR;
    acc_n = atoi(f[2]);
  } else if (IS("SLEEP")) {
    usleep(atoi(f[1]) * 1000);
  } else if (IS("INH")) {
    fprintf(vf_out, "INH %d\n", inherited());
  } else if (IS("SIG")) {
    kill(getpid(), strcmp(f[1], "TERM") == 0 ? SIGTERM : SIGINT);
  } else if (IS("STOP") || IS("WAIT")) {
    if (IS("STOP"))
      onion_listen_stop(o);
    double t = now();
    if (th_on) {
      while (!th_done && now() < t + 15)
        usleep(200);
      if (!th_done) {
        fprintf(vf_out, "WAIT never\n");
        fflush(vf_out);
        abort();
      }
      pthread_join(th, NULL);
      th_on = 0;
    } else
      while ((onion_flags(o) & O_LISTENING) && now() < t + 15)
        usleep(200);
    fprintf(vf_out, "WAIT %d\n", !(onion_flags(o) & O_LISTENING));
  } else if (IS("FREE")) {
    onion_free(o);
    if (th_on) {
      pthread_join(th, NULL);
      th_on = 0;
    }
    o = NULL;
    sigs("free");
    fprintf(vf_out, "FREED data");
    for (int i = 0; i < MAXN; i++)
      if (data_frees[i])
        fprintf(vf_out, " %d:%d", i, data_frees[i]);
    fprintf(vf_out, " hnd");
    for (int i = 0; i < MAXN; i++)
      if (hnd_frees[i])
        fprintf(vf_out, " %d:%d", i, hnd_frees[i]);
    fprintf(vf_out, "\n");
  } else {
    fprintf(stderr, "bad op %s\n", f[0]);
    exit(97);
  }
}

static void warm_up(void) {
  /* what the libraries keep from their first use on */
  static const char *warm[] = { "NEW 36", "ADD http 127.0.0.1 @1", "ADD https 127.0.0.1 @2", "ADD http - @14", "ADD http - notaport", "ADD http 203.0.113.7 @1", "ROOTURL", "URLADD ^$ 1", "LISTEN",
    "PROBE 127.0.0.1 @1", "PROBE 127.0.0.1 @2", "PROBE 127.0.0.1 @1 x", "STOP", "CERT bad", "LISTEN", "SIG INT", "WAIT", "FREE", "NEW 1", "ADD http 127.0.0.1 @3", "ROOT 1 a", "LISTEN", "PROBE 127.0.0.1 @3", "WAIT", "FREE"
  };
  char here[20];
  sprintf(here, "127.%d.0.%d", 1 + getpid() % 9, 1 + getpid() / 9 % 9);
  FILE *real = vf_out;
  vf_out = fopen("/dev/null", "we");
  for (int k = 0; k < 2; k++)
    for (size_t i = 0; i < sizeof warm / sizeof *warm; i++) {
      char t[100], *f[16];
      strcpy(t, warm[i]);
      for (char *p = t; (p = strstr(p, "127.0.0.1")); p++)
        memcpy(p, here, 9);
      int n = vf_split(t, f, 16);
      op(f, n);
    }
  while (nheld)
    close(held[--nheld]);
  fclose(vf_out);
  vf_out = real;
}

int main(int argc, char **argv) {
  vf_heap_init();
  VF_TAG_ENV();
  onion_log_flags |= OF_NOINFO | OF_NOCOLOR | OF_INIT;
  onion_log = (void *)quiet;
  FILE *cf = fopen(argv[1], "re");
  vf_out = fopen(argv[2], "we");
  static char obuf[1 << 16];
  setvbuf(vf_out, obuf, _IOFBF, sizeof obuf);
  if (!cf || !vf_out)
    return 96;
  srandom(getpid() * 7919 + time(NULL));
  cert = argv[3];
  key = argv[4];
  size_t cap = 1 << 16;
  char *line = malloc(cap);
  long ba = 0;
  int bf = 0;
  while (vf_getline(&line, &cap, cf) >= 0) {
    if (strncmp(line, "CASE ", 5) == 0) {
      fprintf(vf_out, "%s\n", line);
      fflush(vf_out);
      static int warmed;
      if (!warmed++)
        warm_up();
      memset(ports, 0, sizeof ports);
      memset(data_frees, 0, sizeof data_frees);
      memset(hnd_frees, 0, sizeof hnd_frees);
      nlps = 0;
      root_url = NULL;
      signal(SIGALRM, SIG_DFL);
      alarm(60);
      bf = vf_count_fds();
      ba = vf_live_allocs;
    } else if (strcmp(line, "END") == 0) {
      while (nbusy)
        close(busy[--nbusy]);
      while (nheld)
        close(held[--nheld]);
      fprintf(vf_out, "RES allocs=%ld fds=%d\nENDCASE\n", vf_live_allocs - ba, vf_count_fds() - bf);
      fflush(vf_out);
    } else {
      char *f[16];
      int n = vf_split(line, f, 16);
      if (n)
        op(f, n);
    }
  }
  free(line);
  fprintf(vf_out, "DONE\n");
  fclose(vf_out);
  return 0;
}

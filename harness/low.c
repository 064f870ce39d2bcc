/* P33: every function of low.h calls the function the application gave for it, once, with its arguments, and gives
 * back its result. Prints "CALL name ok" or "BAD name why". */
#define _GNU_SOURCE
#include <pthread.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
#include <onion/low.h>

static char last[40];
static int calls, failing;
static size_t a1, a2;
static void *r;
static void did(const char *n, size_t x, size_t y) {
  calls++;
  snprintf(last, sizeof(last), "%s", n);
  a1 = x;
  a2 = y;
}
static void *my_malloc(size_t n) {
  did("malloc", n, 0);
  return r = failing ? NULL : malloc(n + 32);
}
static void *my_scalar(size_t n) {
  did("scalar", n, 0);
  return r = failing ? NULL : malloc(n + 32);
}
static void *my_calloc(size_t n, size_t m) {
  did("calloc", n, m);
  return r = failing ? NULL : calloc(n, m);
}
static void *my_realloc(void *p, size_t n) {
  did("realloc", (size_t) p, n);
  return r = failing ? NULL : realloc(p, n + 32);
}
static char *my_strdup(const char *s) {
  did("strdup", (size_t) s, 0);
  return r = failing ? NULL : strdup(s);
}
static void my_free(void *p) {
  did("free", (size_t) p, 0);
  free(p);
}
static void my_failed(const char *m) {
  _exit(calls == 1 && m && *m ? 7 : 8);
}
static int t_create(pthread_t * t, const pthread_attr_t * a, void *(*f) (void *), void *d) {
  did("create", (size_t) f, (size_t) d);
  return pthread_create(t, a, f, d);
}
static int t_join(pthread_t t, void **v) {
  did("join", (size_t) t, (size_t) v);
  return pthread_join(t, v);
}
static int t_cancel(pthread_t t) {
  did("cancel", (size_t) t, 0);
  return 41;
}
static int t_detach(pthread_t t) {
  did("detach", (size_t) t, 0);
  return 42;
}
static void t_exit(void *v) {
  did("exit", (size_t) v, 0);
  pthread_exit(v);
}
static int t_sigmask(int how, const sigset_t * s, sigset_t * o) {
  did("sigmask", how, (size_t) s);
  return 43;
}
static int shown;
static void want(const char *api, const char *name, size_t x, size_t y, void *got, void *exp) {
  if (name ? (calls != 1 || strcmp(last, name) || a1 != x || a2 != y) : calls != 0)
    printf("BAD %s made %d calls, the last %s(%zu, %zu); expected %s(%zu, %zu)\n", api, calls, last, a1, a2, name ? name : "none", x, y);
  else if (got != exp)
    printf("BAD %s gave back %p, not %p\n", api, got, exp);
  else
    printf("CALL %s %d ok\n", api, ++shown);
  calls = 0;
  last[0] = 0;
}
static void *thr(void *p) {
  onion_low_pthread_exit(p);
  return NULL;
}
static size_t sizes[] = { 1, 2, 15, 16, 100, 1024, 4096, 65535, 65536, 65537, 200000, 1 << 20, (1 << 20) + 1, 5 << 20 };
int main(void) {
  onion_low_initialize_memory_allocation(my_malloc, my_scalar, my_calloc, my_realloc, my_strdup, my_free, my_failed);
  onion_low_initialize_threads(t_create, t_join, t_cancel, t_detach, t_exit, t_sigmask);
  for (failing = 0; failing < 2; failing++) {
    for (unsigned i = 0; i < sizeof(sizes) / sizeof(*sizes); i++) {
      size_t n = sizes[i];
      void *p;
      char *s = malloc(n);
      memset(s, 'x', n - 1);
      s[n - 1] = 0;
#define GET(api, call, name, x, y) do { p = call; want(api, name, x, y, p, r); if (!failing) { onion_low_free(p); want("free", "free", (size_t) p, 0, NULL, NULL); } } while (0)
      GET("try_malloc", onion_low_try_malloc(n), "malloc", n, 0);
      GET("try_scalar_malloc", onion_low_try_scalar_malloc(n), "scalar", n, 0);
      GET("try_calloc", onion_low_try_calloc(n, 1), "calloc", n, 1);
      GET("try_calloc", onion_low_try_calloc(3, n), "calloc", 3, n);
      GET("try_realloc", onion_low_try_realloc(NULL, n), "realloc", 0, n);
      GET("try_strdup", onion_low_try_strdup(s), "strdup", (size_t) s, 0);
      if (!failing) {
        GET("malloc", onion_low_malloc(n), "malloc", n, 0);
        GET("scalar_malloc", onion_low_scalar_malloc(n), "scalar", n, 0);
        GET("calloc", onion_low_calloc(n, 1), "calloc", n, 1);
        GET("calloc", onion_low_calloc(2, n), "calloc", 2, n);
        GET("realloc", onion_low_realloc(NULL, n), "realloc", 0, n);
        GET("strdup", onion_low_strdup(s), "strdup", (size_t) s, 0);
        void *q = onion_low_malloc(n);
        calls = 0;
        GET("realloc", onion_low_realloc(q, n * 2), "realloc", (size_t) q, n * 2);
        q = onion_low_malloc(n);
        calls = 0;
        GET("try_realloc", onion_low_try_realloc(q, 1), "realloc", (size_t) q, 1);
      }
      free(s);
    }
  }
  failing = 1;
  for (int k = 0; k < 5; k++) { /* those that can not fail tell the application */
    fflush(stdout);
    pid_t c = fork();
    if (c == 0) {
      if (k == 0)
        onion_low_malloc(10);
      else if (k == 1)
        onion_low_scalar_malloc(10);
      else if (k == 2)
        onion_low_calloc(10, 2);
      else if (k == 3)
        onion_low_realloc(NULL, 10);
      else
        onion_low_strdup("text");
      _exit(9);
    }
    int st;
    waitpid(c, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 7)
      printf("BAD failure of allocator %d was not told to the application (status %x)\n", k, st);
    else
      printf("CALL failure %d ok\n", ++shown);
  }
  failing = 0;
  onion_low_free(NULL);
  want("free-null", NULL, 0, 0, NULL, NULL);
  pthread_t t;
  void *v = NULL;
  int x = 5;
  onion_low_pthread_create(&t, NULL, thr, &x);
  pthread_t t0 = t;
  pthread_join(t, &v);
  if (v != &x || strcmp(last, "exit") || calls != 2)
    printf("BAD pthread_create/exit %d calls, the last %s\n", calls, last);
  else
    printf("CALL pthread_create %d ok\n", ++shown);
  calls = 0;
  pthread_create(&t, NULL, (void *)thr, &x);
  v = NULL;
  while (!__atomic_load_n(&calls, __ATOMIC_SEQ_CST))
    usleep(100);
  calls = 0;
  int rc = onion_low_pthread_join(t, &v);
  want("pthread_join", "join", (size_t) t, (size_t) &v, v, &x);
  rc = onion_low_pthread_cancel(t0);
  want("pthread_cancel", "cancel", (size_t) t0, 0, (void *)(intptr_t) rc, (void *)41);
  rc = onion_low_pthread_detach(t0);
  want("pthread_detach", "detach", (size_t) t0, 0, (void *)(intptr_t) rc, (void *)42);
  sigset_t ss;
  sigemptyset(&ss);
  rc = onion_low_pthread_sigmask(SIG_BLOCK, &ss, NULL);
  want("pthread_sigmask", "sigmask", SIG_BLOCK, (size_t) &ss, (void *)(intptr_t) rc, (void *)43);
  printf("DONE %d\n", shown);
  return 0;
}

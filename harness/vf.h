/* Common helpers for the in-process drivers: hex lines, heap/fd/tempfile accounting. */
#ifndef VF_H
#define VF_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <sys/syscall.h>
#include <signal.h>
#include <pthread.h>
#include <fcntl.h>
#include <stdarg.h>
#include <unistd.h>
#include <dirent.h>
#include <sys/types.h>

#ifdef __cplusplus
extern "C" {
#endif

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VF_ASAN 1
#endif
#endif

/* ---- heap accounting ---- */
static volatile long vf_live_allocs, vf_live_bytes, vf_peak_bytes, vf_total_allocs;
#ifdef VF_ASAN
int __sanitizer_install_malloc_and_free_hooks(void (*m) (const volatile void *, size_t),
                                              void (*f) (const volatile void *));
size_t __sanitizer_get_allocated_size(const volatile void *p);
static long vf_trap_serial = -1;
#ifdef VF_HEAPTRACE             /* debugging aid: where the blocks alive now were allocated */
#include <execinfo.h>
static struct { const volatile void *p; void *bt[10]; int n; } vf_tr[100000];
static volatile int vf_tr_on;
static pthread_mutex_t vf_tr_m = PTHREAD_MUTEX_INITIALIZER;
static __thread int vf_tr_in;
static void vf_tr_add(const volatile void *p) {
  if (!vf_tr_on || vf_tr_in)
    return;
  vf_tr_in = 1;
  pthread_mutex_lock(&vf_tr_m);
  for (int i = 0; i < 100000; i++)
    if (!vf_tr[i].p) {
      vf_tr[i].p = p;
      vf_tr[i].n = backtrace(vf_tr[i].bt, 10);
      break;
    }
  pthread_mutex_unlock(&vf_tr_m);
  vf_tr_in = 0;
}
static void vf_tr_del(const volatile void *p) {
  if (!vf_tr_on || vf_tr_in || !p)
    return;
  pthread_mutex_lock(&vf_tr_m);
  for (int i = 0; i < 100000; i++)
    if (vf_tr[i].p == p) {
      vf_tr[i].p = NULL;
      break;
    }
  pthread_mutex_unlock(&vf_tr_m);
}
static void vf_tr_dump(void) {
  vf_tr_in = 1;
  for (int i = 0; i < 100000; i++)
    if (vf_tr[i].p) {
      fprintf(stderr, "ALIVE %p\n", vf_tr[i].p);
      backtrace_symbols_fd(vf_tr[i].bt, vf_tr[i].n, 2);
    }
  vf_tr_in = 0;
}
#else
#define vf_tr_add(p)
#define vf_tr_del(p)
#endif
static void vf_mhook(const volatile void *p, size_t n) {
  __atomic_add_fetch(&vf_live_allocs, 1, __ATOMIC_RELAXED);
  long b = __atomic_add_fetch(&vf_live_bytes, (long)n, __ATOMIC_RELAXED);
  if (b > vf_peak_bytes)
    vf_peak_bytes = b;
  long s = __atomic_add_fetch(&vf_total_allocs, 1, __ATOMIC_RELAXED);
  if (s == vf_trap_serial)
    __builtin_trap();
  vf_tr_add(p);
}
static void vf_fhook(const volatile void *p) {
  vf_tr_del(p);
  if (p) {
    __atomic_add_fetch(&vf_live_allocs, -1, __ATOMIC_RELAXED);
    __atomic_add_fetch(&vf_live_bytes, -(long)__sanitizer_get_allocated_size(p), __ATOMIC_RELAXED);
  }
}
static inline void vf_heap_init(void) {
  __sanitizer_install_malloc_and_free_hooks(vf_mhook, vf_fhook);
}
#else
static inline void vf_heap_init(void) {
}
#endif

static inline int vf_count_fds(void) {
  DIR *d = opendir("/proc/self/fd");
  int n = 0;
  if (!d)
    return -1;
  while (readdir(d))
    n++;
  closedir(d);
  return n - 3;                 /* . .. and the dir fd */
}

/* does not outlive the check that runs it */
#include <sys/prctl.h>
__attribute__((constructor)) static void vf_pdeath(void) {
  if (getenv("VF_PDEATH"))
    prctl(PR_SET_PDEATHSIG, SIGKILL, 0, 0, 0);
}

/* ---- hex ---- */
static inline int vf_hexv(int c) {
  if (c >= '0' && c <= '9')
    return c - '0';
  if (c >= 'a' && c <= 'f')
    return c - 'a' + 10;
  return -1;
}
/* decodes hex starting at s until a non hex char. exact-size malloc (so that ASan sees overreads); adds NUL only if nul */
static inline char *vf_unhex(const char *s, size_t *len, int nul) {
  size_t n = 0;
  while (vf_hexv(s[n]) >= 0)
    n++;
  n /= 2;
  char *r = (char *)malloc(n + (nul ? 1 : 0) + (n == 0 && !nul));
  for (size_t i = 0; i < n; i++)
    r[i] = vf_hexv(s[2 * i]) * 16 + vf_hexv(s[2 * i + 1]);
  if (nul)
    r[n] = 0;
  if (len)
    *len = n;
  return r;
}
static FILE *vf_out;
static inline void vf_puthex(const void *p, size_t n) {
  static const char hx[] = "0123456789abcdef";
  const unsigned char *b = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) {
    putc(hx[b[i] >> 4], vf_out);
    putc(hx[b[i] & 15], vf_out);
  }
}
static inline void vf_emit(const char *tag, const void *p, size_t n) {
  fputs(tag, vf_out);
  putc(' ', vf_out);
  if (p == NULL)
    fputs("NULL", vf_out);
  else
    vf_puthex(p, n);
  putc('\n', vf_out);
}
static inline void vf_emits(const char *tag, const char *s) {
  vf_emit(tag, s, s ? strlen(s) : 0);
}
static inline void vf_emitkv(const char *tag, const char *k, const char *v) {
  fputs(tag, vf_out);
  putc(' ', vf_out);
  if (k)
    vf_puthex(k, strlen(k));
  else
    fputs("NULL", vf_out);
  putc(' ', vf_out);
  if (v)
    vf_puthex(v, strlen(v));
  else
    fputs("NULL", vf_out);
  putc('\n', vf_out);
}

/* ---- line reader ---- */
static inline ssize_t vf_getline(char **buf, size_t *cap, FILE * f) {
  ssize_t n = getline(buf, cap, f);
  if (n > 0 && (*buf)[n - 1] == '\n')
    (*buf)[--n] = 0;
  return n;
}
/* splits in place on spaces; returns the number of fields */
static inline int vf_split(char *s, char **f, int max) {
  int n = 0;
  while (*s && n < max) {
    f[n++] = s;
    while (*s && *s != ' ')
      s++;
    if (*s)
      *s++ = 0;
  }
  return n;
}

/* ---- an application allocator whose blocks only its own functions can release ---- */
#define VF_TAG 0x76666f6e696f6e21ull
static volatile long vf_tag_live, vf_tag_total;
static inline void *vf_tag_malloc(size_t n) {
  if (n > ((size_t) 1 << 40))
    return NULL;
  uint64_t *p = (uint64_t *)malloc(n + 16);
  if (!p)
    return NULL;
  p[0] = VF_TAG;
  p[1] = n;
  __atomic_add_fetch(&vf_tag_live, 1, __ATOMIC_RELAXED);
  __atomic_add_fetch(&vf_tag_total, 1, __ATOMIC_RELAXED);
  return p + 2;
}
static inline void *vf_tag_calloc(size_t a, size_t b) {
  void *p = b && a > (size_t) -1 / b ? NULL : vf_tag_malloc(a * b);
  if (p)
    memset(p, 0, a * b);
  return p;
}
static inline void vf_tag_free(void *v) {
  if (!v)
    return;
  uint64_t *p = (uint64_t *)v - 2;
  if (p[0] != VF_TAG) {
    fprintf(stderr, "ERROR: AllocatorMonitor: foreign block released\n");
    abort();
  }
  p[0] = 0;
  __atomic_add_fetch(&vf_tag_live, -1, __ATOMIC_RELAXED);
  free(p);
}
static inline void *vf_tag_realloc(void *v, size_t n) {
  void *r = vf_tag_malloc(n);
  if (!r || !v)
    return r;
  uint64_t *p = (uint64_t *)v - 2;
  if (p[0] != VF_TAG) {
    fprintf(stderr, "ERROR: AllocatorMonitor: foreign block resized\n");
    abort();
  }
  memcpy(r, v, p[1] < n ? p[1] : n);
  vf_tag_free(v);
  return r;
}
static inline char *vf_tag_strdup(const char *s) {
  size_t n = strlen(s) + 1;
  char *r = (char *)vf_tag_malloc(n);
  if (r)
    memcpy(r, s, n);
  return r;
}
#define VF_TAG_INSTALL() onion_low_initialize_memory_allocation(vf_tag_malloc, vf_tag_malloc, vf_tag_calloc, vf_tag_realloc, vf_tag_strdup, vf_tag_free, vf_tag_failed)
static inline void vf_tag_failed(const char *msg) {
  fprintf(stderr, "ERROR: AllocatorMonitor: allocation failed: %s\n", msg);
  abort();
}
/* every driver runs with such an allocator, and counted threads, when asked to: before any other use of the library.
 * What it saw goes to the file named there. */
static int vf_tag_fd = -1;
static volatile long vf_tag_created, vf_tag_joined;
static inline void vf_tag_report(void) {
  char t[128];
  int n = snprintf(t, sizeof t, "%ld %ld %ld %ld\n", vf_tag_total, vf_tag_live, vf_tag_created, vf_tag_joined);
  if (syscall(SYS_write, vf_tag_fd, t, n) != n)
    fprintf(stderr, "no tag report\n");
}
static inline int vf_tag_create(pthread_t * t, const pthread_attr_t * a, void *(*f) (void *), void *d) {
  int r = pthread_create(t, a, f, d);
  if (r == 0)
    __atomic_add_fetch(&vf_tag_created, 1, __ATOMIC_RELAXED);
  return r;
}
static inline int vf_tag_join(pthread_t t, void **r) {
  int x = pthread_join(t, r);
  if (x == 0)
    __atomic_add_fetch(&vf_tag_joined, 1, __ATOMIC_RELAXED);
  return x;
}
#define VF_TAG_ENV() do { \
  if (getenv("VF_TAGALLOC")) { \
    vf_tag_fd = syscall(SYS_openat, AT_FDCWD, getenv("VF_TAGALLOC"), O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0666); \
    VF_TAG_INSTALL(); \
    onion_low_initialize_threads(vf_tag_create, vf_tag_join, pthread_cancel, pthread_detach, pthread_exit, pthread_sigmask); \
    atexit(vf_tag_report); \
  } } while (0)
#ifdef __cplusplus
}
#endif
#endif

/*
 * Driver for the data structures and codecs: dictionaries, JSON, codecs, blocks.
 * usage: lib CASEFILE OUTFILE
 *
 * dict ops (slots 0..15):  new i | icase i | add i k v flags | addd i k j flags | rm i k | get i k | getd i k |
 *   rget i k1 k2.. | cnt i | dump i | dup i j | hdup i j | merge i j | free i | json i | from i text
 * block ops (slots 0..7):  bnew i | bfree i | bclear i | bmin i n | bchar i hh | bstr i hex | bdata i hex | bblk i j |
 *   brew i n | bsize i | bget i
 * codec ops: b64e hex | b64d hex | unq hex | qnew hex | q hex max | cq hex | cqn hex max | sha hex | html hex | htmld hex |
 *   jq hex | juq hex
 * Texts are handed over in exact-size allocations; output buffers are exact-size too.
 */
#include "vf.h"
#include <onion/onion.h>
#include <onion/log.h>
#include <onion/dict.h>
#include <onion/block.h>
#include <onion/codecs.h>
#include <onion/low.h>
#include <onion/ptr_list.h>
#include <stdbool.h>

#define ND 16
static onion_dict *d[ND];
static onion_block *b[8];

/* memory lent to dictionaries: kept by us, checked and freed at the end of the case */
static struct { char *p; char *copy; size_t n; } lent[65536];
static int nlent;
static char *lend(char *p, size_t n) {
  lent[nlent].p = p;
  lent[nlent].n = n;
  lent[nlent].copy = malloc(n + 1);
  memcpy(lent[nlent].copy, p, n + 1);
  nlent++;
  return p;
}

static char *arg(char **f, int n, int i, size_t *l) {
  return vf_unhex(i < n && f[i][0] != '.' ? f[i] : "", l, 1);
}

struct walk { int depth; };
static void dumpf(struct walk *w, const char *k, const void *v, int flags) {
  fprintf(vf_out, "e %d ", w->depth);
  vf_puthex(k, strlen(k));
  if (flags & OD_DICT) {
    fprintf(vf_out, " D\n");
    struct walk w2 = { w->depth + 1 };
    onion_dict_preorder(v, dumpf, &w2);
  } else {
    fprintf(vf_out, " S");
    vf_puthex(v, strlen(v));
    putc('\n', vf_out);
  }
}
static void dump(onion_dict * x) {
  struct walk w = { 0 };
  fprintf(vf_out, "dump %d\n", onion_dict_count(x));
  onion_dict_preorder(x, dumpf, &w);
  fprintf(vf_out, "enddump\n");
}

static void quiet(onion_log_level level, const char *filename, int lineno, const char *fmt, ...) {
  char tmp[512];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(tmp, sizeof tmp, fmt, ap);
  va_end(ap);
}

static onion_ptr_list *pl[4];
static bool pl_keep(void *m, void *p) {
  return (intptr_t) p % *(intptr_t *) m != 0;
}
static void pl_show(void *p) {
  fprintf(vf_out, " %ld", (long)(intptr_t) p);
}

/* what the library has to release comes from the allocator the library uses */
static char *give(char *p, size_t n) {
  char *r = onion_low_malloc(n + 1);
  memcpy(r, p, n + 1);
  free(p);
  return r;
}

static void op(char **f, int n) {
  char *a = NULL, *c = NULL;
  size_t al, cl;
  const char *o = f[0];
  int i = n > 1 ? atoi(f[1]) : 0, j = n > 2 ? atoi(f[2]) : 0;
#define IS(x) (strcmp(o,x)==0)
  if (IS("new"))
    d[i] = onion_dict_new();
  else if (IS("icase"))
    onion_dict_set_flags(d[i], OD_ICASE);
  else if (IS("add")) {
    int fl = atoi(f[4]);
    a = arg(f, n, 2, &al);
    c = arg(f, n, 3, &cl);
    char *k = a, *v = c;
    if ((fl & OD_DUP_KEY) != OD_DUP_KEY) {
      k = a;
      if (!(fl & OD_FREE_KEY))
        lend(k, al);
      else
        k = give(k, al);
      a = NULL;
    }
    if ((fl & OD_DUP_VALUE) != OD_DUP_VALUE) {
      v = c;
      if (!(fl & OD_FREE_VALUE))
        lend(v, cl);
      else
        v = give(v, cl);
      c = NULL;
    }
    onion_dict_add(d[i], k, v, fl);
    if (a)
      memset(a, 'X', al);       /* a duplicated key or value must not be looked at again */
    if (c)
      memset(c, 'X', cl);
  } else if (IS("addd")) {      /* addd i k j flags : FREE_VALUE hands over the reference held in slot j */
    int fl = atoi(f[4]) | OD_DICT, s = atoi(f[3]);
    a = arg(f, n, 2, &al);
    onion_dict_add(d[i], a, d[s], fl | OD_DUP_KEY);
    if ((fl & OD_DUP_VALUE) != OD_DUP_VALUE && (fl & OD_FREE_VALUE))
      d[s] = NULL;
  } else if (IS("rm")) {
    a = arg(f, n, 2, &al);
    fprintf(vf_out, "rm %d\n", onion_dict_remove(d[i], a));
  } else if (IS("get")) {
    a = arg(f, n, 2, &al);
    vf_emits("get", onion_dict_get(d[i], a));
  } else if (IS("getd")) {
    a = arg(f, n, 2, &al);
    onion_dict *x = onion_dict_get_dict(d[i], a);
    fprintf(vf_out, "getd %d\n", x != NULL);
    if (x)
      dump(x);
  } else if (IS("rget")) {
    char *k[4] = { 0 };
    int q;
    for (q = 0; q < 4 && q + 2 < n; q++)
      k[q] = arg(f, n, q + 2, NULL);
    vf_emits("rget", onion_dict_rget(d[i], k[0], k[1], k[2], k[3], NULL));
    onion_dict *x = onion_dict_rget_dict(d[i], k[0], k[1], k[2], k[3], NULL);
    fprintf(vf_out, "rgetd %d\n", x ? onion_dict_count(x) : -1);
    for (q = 0; q < 4; q++)
      free(k[q]);
  } else if (IS("cnt"))
    fprintf(vf_out, "cnt %d\n", onion_dict_count(d[i]));
  else if (IS("dump"))
    dump(d[i]);
  else if (IS("dup"))
    d[j] = onion_dict_dup(d[i]);
  else if (IS("hdup"))
    d[j] = onion_dict_hard_dup(d[i]);
  else if (IS("merge"))
    onion_dict_merge(d[i], d[j]);
  else if (IS("free")) {
    onion_dict_free(d[i]);
    d[i] = NULL;
  } else if (IS("json")) {
    onion_block *x = onion_dict_to_json(d[i]);
    if (!x)
      fprintf(vf_out, "json NULL\n");
    else {
      vf_emit("json", onion_block_data(x), onion_block_size(x));
      onion_block_free(x);
    }
  } else if (IS("from")) {
    a = arg(f, n, 2, &al);
    d[i] = onion_dict_from_json(a);
    fprintf(vf_out, "from %d\n", d[i] != NULL);
  } else if (IS("bnew"))
    b[i] = onion_block_new();
  else if (IS("bfree")) {
    onion_block_free(b[i]);
    b[i] = NULL;
  } else if (IS("bclear"))
    onion_block_clear(b[i]);
  else if (IS("bmin"))
    onion_block_min_maxsize(b[i], atoi(f[2]));
  else if (IS("bchar"))
    onion_block_add_char(b[i], (char)atoi(f[2]));
  else if (IS("bstr")) {
    a = arg(f, n, 2, &al);
    onion_block_add_str(b[i], a);
  } else if (IS("bdata")) {
    a = vf_unhex(n > 2 && f[2][0] != '.' ? f[2] : "", &al, 0);
    onion_block_add_data(b[i], a, al);
  } else if (IS("bblk"))
    onion_block_add_block(b[i], b[j]);
  else if (IS("brew"))
    onion_block_rewind(b[i], atol(f[2]));
  else if (IS("bsize"))
    fprintf(vf_out, "bsize %ld\n", (long)onion_block_size(b[i]));
  else if (IS("bget")) {
    const char *x = onion_block_data(b[i]);
    size_t s = onion_block_size(b[i]);
    fprintf(vf_out, "bnul %d\n", x[s] == 0);
    vf_emit("bget", x, s);
  } else if (IS("b64e")) {
    a = vf_unhex(n > 1 && f[1][0] != '.' ? f[1] : "", &al, 0);
    char *x = onion_base64_encode(a, al);
    vf_emits("r", x);
    int l = -1;
    char *y = onion_base64_decode(x, &l);
    vf_emit("back", y, l);
    onion_low_free(y);
    onion_low_free(x);
  } else if (IS("b64d")) {
    a = arg(f, n, 1, &al);
    int l = -1;
    char *x = onion_base64_decode(a, &l);
    if (x && x[l])
      fprintf(vf_out, "noterm\n");
    vf_emit("r", x, x ? l : 0);
    fprintf(vf_out, "len %d\n", l);
    onion_low_free(x);
    x = onion_base64_decode(a, NULL);
    vf_emits("r2", x);
    onion_low_free(x);
  } else if (IS("unq")) {
    a = arg(f, n, 1, &al);
    onion_unquote_inplace(a);
    vf_emits("r", a);
  } else if (IS("qnew")) {
    a = arg(f, n, 1, &al);
    char *x = onion_quote_new(a);
    vf_emits("r", x);
    onion_unquote_inplace(x);
    vf_emits("back", x);
    onion_low_free(x);
  } else if (IS("q") || IS("cqn")) {
    a = arg(f, n, 1, &al);
    int m = atoi(f[2]);
    char *x = malloc(m);
    memset(x, 'Z', m);
    if (IS("q"))
      fprintf(vf_out, "ret %d\n", onion_quote(a, x, m));
    else
      onion_c_quote(a, x, m);
    if (memchr(x, 0, m) == NULL)
      fprintf(vf_out, "noterm\n");
    else
      vf_emits("r", x);
    free(x);
  } else if (IS("cq")) {
    a = arg(f, n, 1, &al);
    char *x = onion_c_quote_new(a);
    vf_emits("r", x);
    onion_low_free(x);
  } else if (IS("sha")) {
    a = vf_unhex(n > 1 && f[1][0] != '.' ? f[1] : "", &al, 0);
    char *r = malloc(20);
    onion_sha1(a, al, r);
    vf_emit("r", r, 20);
    free(r);
  } else if (IS("html")) {
    a = arg(f, n, 1, &al);
    char *x = onion_html_quote(a);
    vf_emits("r", x);
    onion_low_free(x);
    const char *y = onion_html_quote_dup(a);
    vf_emits("dup", y);
    onion_low_free((char *)y);
  } else if (IS("jq")) {
    a = arg(f, n, 1, &al);
    onion_block *x = onion_block_new();
    onion_block_add_char(x, '"');
    onion_json_quote_add(x, a);
    onion_block_add_char(x, '"');
    vf_emit("r", onion_block_data(x), onion_block_size(x));
    char *t = strdup(onion_block_data(x));
    onion_block_clear(x);
    ssize_t r = onion_json_unquote_add(x, t);
    fprintf(vf_out, "ret %zd\n", r);
    vf_emit("back", onion_block_data(x), onion_block_size(x));
    free(t);
    onion_block_free(x);
  } else if (IS("juq")) {
    a = arg(f, n, 1, &al);
    onion_block *x = onion_block_new();
    ssize_t r = onion_json_unquote_add(x, a);
    fprintf(vf_out, "ret %zd\n", r);
    vf_emit("r", onion_block_data(x), onion_block_size(x));
    onion_block_free(x);
  } else if (IS("pladd"))       /* pointer lists: the pointers are just numbers */
    pl[i] = onion_ptr_list_add(pl[i], (void *)(intptr_t) j);
  else if (IS("plrm"))
    pl[i] = onion_ptr_list_remove(pl[i], (void *)(intptr_t) j);
  else if (IS("plfilter")) {
    intptr_t m = j;
    pl[i] = onion_ptr_list_filter(pl[i], pl_keep, &m);
  } else if (IS("pldump")) {
    fprintf(vf_out, "pl %zu", onion_ptr_list_count(pl[i]));
    onion_ptr_list_foreach(pl[i], pl_show);
    putc('\n', vf_out);
  } else if (IS("plfree")) {
    onion_ptr_list_free(pl[i]);
    pl[i] = onion_ptr_list_new();
  } else {
    fprintf(stderr, "bad op %s\n", o);
    _exit(97);
  }
  free(a);
  free(c);
}

int main(int argc, char **argv) {
  vf_heap_init();
  VF_TAG_ENV();
  onion_log_flags |= OF_NOINFO | OF_NOCOLOR | OF_INIT;
  onion_log = (void *)quiet;
  FILE *cf = fopen(argv[1], "r");
  vf_out = fopen(argv[2], "w");
  static char obuf[1 << 16];
  setvbuf(vf_out, obuf, _IOFBF, sizeof obuf);
  if (!cf || !vf_out)
    return 96;
  size_t cap = 1 << 22;
  char *line = malloc(cap);
  char r20[20];
  onion_sha1("warm", 4, r20);
  long base = 0;
  while (vf_getline(&line, &cap, cf) >= 0) {
    if (strncmp(line, "CASE ", 5) == 0) {
      fprintf(vf_out, "%s\n", line);
      fflush(vf_out);
      base = vf_live_allocs;
    } else if (strcmp(line, "END") == 0) {
      int i;
      for (i = 0; i < nlent; i++) {
        if (memcmp(lent[i].p, lent[i].copy, lent[i].n + 1))
          fprintf(vf_out, "TOUCHED\n");
        free(lent[i].p);
        free(lent[i].copy);
      }
      nlent = 0;
      fprintf(vf_out, "RES allocs=%ld\nENDCASE\n", vf_live_allocs - base);
      for (i = 0; i < ND; i++)
        d[i] = NULL;
    } else {
      char *f[16];
      int n = vf_split(line, f, 16);
      if (n)
        op(f, n);
    }
  }
  free(line);
  fprintf(vf_out, "DONE\n");
  fclose(vf_out);
  return 0;
}

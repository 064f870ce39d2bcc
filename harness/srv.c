/*
 * In-process server driver.  The real parser, request, response, handler and session code runs behind
 * a listen point whose read/write are memory buffers, so that segmentation, cuts and write faults are
 * chosen by the case.
 *
 * usage: srv CASEFILE OUTFILE
 * Case lines:
 *   CASE id
 *   SET max_post N | max_file N | wplan a,b,c.. | script LINE...   (server state, per case)
 *   CONN            open a connection (frees the previous one)
 *   RD hex          deliver these bytes as one segment
 *   EOF             client closes its sending side
 *   FREE            server side connection teardown
 *   END
 * Handler script ops, executed for every request reaching the handler (lines "H op args"):
 *   dump | code N | hdr k v | len N | w hex | w0 hex | pf hex | html hex | flush | wh | nka | ret N |
 *   cookie name value validity path domain flags | sget k | sset k v | sdel k | sfree | sid | lang | adv N
 */
#include "vf.h"
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <onion/low.h>
#include <onion/onion.h>
#include <onion/log.h>
#include <onion/dict.h>
#include <onion/block.h>
#include <onion/request.h>
#include <onion/response.h>
#include <onion/handler.h>
#include <onion/http.h>
#include <onion/listen_point.h>
#include <onion/sessions.h>
#include <onion/sessions_mem.h>
onion_sessions *onion_sessions_sqlite3_new(const char *database_filename);
onion_sessions *onion_sessions_redis_new(const char *server_ip, int port);
#include <onion/url.h>
#include <onion/shortcuts.h>
#include <onion/handlers/path.h>
#include <onion/handlers/static.h>
#include <onion/types_internal.h>

/* ---- temp files created by the library (link with --wrap=mkstemp) ---- */
#define MAXTMP 4096
static char *tmpnames[MAXTMP];
static int ntmp;
static int fail_mkstemp = 0;
int __real_mkstemp(char *t);
int __wrap_mkstemp(char *t) {
  if (fail_mkstemp) {
    errno = EMFILE;
    return -1;
  }
  int fd = __real_mkstemp(t);
  if (fd >= 0 && ntmp < MAXTMP)
    tmpnames[ntmp++] = strdup(t);
  return fd;
}

/* short or failing file writes (link with --wrap=write) */
static long fw_budget = -1;     /* bytes that fit on the disk; -1 unlimited */
static long tmp_written;        /* bytes the library stored in its temporary files */
static int fw_short = 0;        /* every file write is cut to at most this many bytes */
ssize_t __real_write(int fd, const void *b, size_t n);
ssize_t __wrap_write(int fd, const void *b, size_t n) {
  if (ntmp > 0) {
    struct stat st;
    if (fstat(fd, &st) == 0 && S_ISREG(st.st_mode)) {
      int i, mine = 0;
      char p[64], l[256];
      snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
      ssize_t k = readlink(p, l, sizeof l - 1);
      if (k > 0) {
        l[k] = 0;
        for (i = 0; i < ntmp; i++)
          if (strcmp(l, tmpnames[i]) == 0)
            mine = 1;
      }
      if (mine) {
        if (fw_short > 0 && n > (size_t) fw_short)
          n = fw_short;
        if (fw_budget >= 0) {
          if (n > 0 && fw_budget == 0) {
            errno = ENOSPC;
            return -1;
          }
          if ((long)n > fw_budget)
            n = fw_budget;
          fw_budget -= n;
        }
        tmp_written += n;
      }
    }
  }
  return __real_write(fd, b, n);
}

static onion *server;
static onion_listen_point *lp;
static onion_request *conn;
static const char *in;
static size_t in_len, in_pos;
static int in_eof;
static char *outb;
static size_t out_len, out_cap;
static int wplan[4096], nwplan, iwplan, nwrites;
static int closed_calls;
static char *script[1024];
static int nscript;
static int nreq;
static int read_calls;

static ssize_t m_read(onion_request * req, char *data, size_t len) {
  read_calls++;
  size_t l = in_len - in_pos;
  if (l == 0) {
    if (in_eof)
      return 0;
    errno = EAGAIN;
    return -1;
  }
  if (l > len)
    l = len;
  memcpy(data, in + in_pos, l);
  in_pos += l;
  return l;
}

static ssize_t m_write(onion_request * req, const char *data, size_t len) {
  nwrites++;
  ssize_t r = len;
  if (iwplan < nwplan) {
    int p = wplan[iwplan++];
    if (p == -3) {              /* accepts nothing, for ever */
      iwplan--;
      if (nwrites > 200000)
        abort();                /* the writer spins */
      return 0;
    }
    if (p < 0) {
      errno = p == -2 ? EAGAIN : EPIPE;
      if (p == -1)
        iwplan--;               /* a reset connection stays reset */
      return -1;
    }
    if (p > 0 && (size_t) p < len)
      r = p;
  }
  if (out_len + r > out_cap) {
    out_cap = (out_len + r) * 2;
    outb = realloc(outb, out_cap);
  }
  memcpy(outb + out_len, data, r);
  out_len += r;
  return r;
}

static void m_close(onion_request * req) {
  closed_calls++;
}

static int m_init(onion_request * req) {
  return 0;
}

static void m_listen(onion_listen_point * l) {
}

static void m_listen_stop(onion_listen_point * l) {
}

static void d_kv(const char *tag, const char *key, const char *value, int flags) {
  vf_emitkv(tag, key, value);
}

static void d_file(const char *tag, const char *key, const char *value, int flags) {
  fputs(tag, vf_out);
  putc(' ', vf_out);
  if (key)
    vf_puthex(key, strlen(key));
  else
    fputs("NULL", vf_out);
  putc(' ', vf_out);
  FILE *f = value ? fopen(value, "rb") : NULL;
  if (!f)
    fputs("MISSING", vf_out);
  else {
    unsigned char b[4096];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0)
      vf_puthex(b, n);
    fclose(f);
  }
  putc('\n', vf_out);
}

static void dump_request(onion_request * req) {
  const char *p = onion_request_get_path(req), *fp = onion_request_get_fullpath(req);
  vf_emits("d.method", onion_request_get_method_name(req));
  vf_emits("d.fullpath", fp);
  vf_emits("d.path", p);
  fprintf(vf_out, "d.flags %d\n", (int)onion_request_get_flags(req));
  fprintf(vf_out, "d.ka %d\n", onion_request_keep_alive(req) ? 1 : 0);
  onion_dict_preorder(onion_request_get_header_dict(req), d_kv, "d.h");
  if (onion_request_get_query_dict(req))
    onion_dict_preorder(onion_request_get_query_dict(req), d_kv, "d.q");
  else
    fprintf(vf_out, "d.noq\n");
  if (onion_request_get_post_dict(req))
    onion_dict_preorder(onion_request_get_post_dict(req), d_kv, "d.p");
  else
    fprintf(vf_out, "d.nop\n");
  if (onion_request_get_file_dict(req))
    onion_dict_preorder(onion_request_get_file_dict(req), d_file, "d.f");
  const onion_block *b = onion_request_get_data(req);
  if (b && (onion_request_get_flags(req) & OR_METHODS) != OR_PUT)
    vf_emit("d.data", onion_block_data(b), onion_block_size(b));
  else if (b) {
    fprintf(vf_out, "d.putname\n");
    d_file("d.put", "put", onion_block_data(b), 0);
  }
  onion_dict_preorder(onion_request_get_cookies_dict(req), d_kv, "d.c");
  const char *l = onion_request_get_language_code(req);
  vf_emits("d.lang", l);
  onion_low_free((char *)l);
}

static int handler(void *priv, onion_request * req, onion_response * res) {
  int i, ret = OCS_PROCESSED;
  nreq++;
  fprintf(vf_out, "REQ %d\n", nreq);
  for (i = 0; i < nscript; i++) {
    char *line = strdup(script[i]);
    char *f[16];
    int n = vf_split(line, f, 16);
    char *a = NULL, *b = NULL;
    size_t al = 0, bl = 0;
    const char *op = f[0];
    if (strcmp(op, "dump") == 0)
      dump_request(req);
    else if (strcmp(op, "code") == 0)
      onion_response_set_code(res, atoi(f[1]));
    else if (strcmp(op, "hdr") == 0) {
      a = vf_unhex(f[1], &al, 1);
      b = vf_unhex(f[2], &bl, 1);
      onion_response_set_header(res, a, b);
    } else if (strcmp(op, "addhdr") == 0) {
      a = vf_unhex(f[1], &al, 1);
      b = vf_unhex(f[2], &bl, 1);
      onion_dict_add(onion_response_get_headers(res), a, b, OD_DUP_ALL);
    } else if (strcmp(op, "len") == 0)
      onion_response_set_length(res, strtoul(f[1], NULL, 10));
    else if (strcmp(op, "w") == 0) {
      a = vf_unhex(n > 1 ? f[1] : "", &al, 0);
      ssize_t r = onion_response_write(res, a, al);
      fprintf(vf_out, "w %zd %zu\n", r, al);
    } else if (strcmp(op, "wrep") == 0) {       /* wrep count hex : count writes of a pattern */
      int c = atoi(f[1]), j;
      a = vf_unhex(f[2], &al, 0);
      for (j = 0; j < c; j++)
        onion_response_write(res, a, al);
    } else if (strcmp(op, "w0") == 0) {
      a = vf_unhex(n > 1 ? f[1] : "", &al, 1);
      onion_response_write0(res, a);
    } else if (strcmp(op, "pf") == 0) {
      a = vf_unhex(n > 1 ? f[1] : "", &al, 1);
      onion_response_printf(res, "%s|%d|%s", a, (int)al, a);
    } else if (strcmp(op, "pf1") == 0) {
      a = vf_unhex(n > 1 ? f[1] : "", &al, 1);
      onion_response_printf(res, "%s", a);
    } else if (strcmp(op, "html") == 0) {
      a = vf_unhex(n > 1 ? f[1] : "", &al, 1);
      onion_response_write_html_safe(res, a);
    } else if (strcmp(op, "flush") == 0)
      onion_response_flush(res);
    else if (strcmp(op, "wh") == 0)
      onion_response_write_headers(res);
    else if (strcmp(op, "nka") == 0)
      onion_request_set_no_keep_alive(req);
    else if (strcmp(op, "cookie") == 0) {
      char *v[6];
      int j;
      for (j = 0; j < 4; j++)   /* name value path domain ; '-' is NULL */
        v[j] = strcmp(f[1 + j], "-") == 0 ? NULL : vf_unhex(f[1 + j][0] == '.' ? "" : f[1 + j], NULL, 1);
      int r = onion_response_add_cookie(res, v[0], v[1], atol(f[5]), v[2], v[3], atoi(f[6]));
      fprintf(vf_out, "cookie %d\n", r);
      for (j = 0; j < 4; j++)
        free(v[j]);
    } else if (strcmp(op, "sget") == 0) {
      a = vf_unhex(f[1], &al, 1);
      vf_emits("sget", onion_request_get_session(req, a));
    } else if (strcmp(op, "sset") == 0) {
      a = vf_unhex(f[1], &al, 1);
      b = vf_unhex(n > 2 ? f[2] : "", &bl, 1);
      onion_dict_add(onion_request_get_session_dict(req), a, b, OD_DUP_ALL | OD_REPLACE);
    } else if (strcmp(op, "sdel") == 0) {
      a = vf_unhex(f[1], &al, 1);
      onion_dict_remove(onion_request_get_session_dict(req), a);
    } else if (strcmp(op, "sfree") == 0)
      onion_request_session_free(req);
    else if (strcmp(op, "sdump") == 0) {
      onion_dict_preorder(onion_request_get_session_dict(req), d_kv, "s");
      vf_emits("sid", req->session_id);
    } else if (strcmp(op, "adv") == 0)
      onion_request_advance_path(req, atol(f[1]));
    else if (strcmp(op, "path") == 0)
      vf_emits("path", onion_request_get_path(req));
    else if (strcmp(op, "bodyecho") == 0) {
      const onion_block *bk = onion_request_get_data(req);
      if (bk)
        onion_response_write(res, onion_block_data(bk), onion_block_size(bk));
    } else if (strcmp(op, "look") == 0) {       /* look h|q|p|c|f hexname */
      a = vf_unhex(f[2], &al, 1);
      const char *v = NULL;
      switch (f[1][0]) {
      case 'h':
        v = onion_request_get_header(req, a);
        break;
      case 'q':
        v = onion_request_get_query(req, a);
        break;
      case 'p':
        v = onion_request_get_post(req, a);
        break;
      case 'c':
        v = onion_request_get_cookie(req, a);
        break;
      }
      vf_emits("look", v);
    } else if (strcmp(op, "sc") == 0) {         /* the shortcut responses; '.' is the empty string */
      a = vf_unhex(f[2][0] == '.' ? "" : f[2], &al, 1);
      ret = onion_shortcut_response(a, atoi(f[1]), req, res);
    } else if (strcmp(op, "sce") == 0) {        /* code text k v k v k v */
      char *v[6] = { 0 };
      int j;
      a = vf_unhex(f[2][0] == '.' ? "" : f[2], &al, 1);
      for (j = 0; j < 6 && 3 + j < n; j++)
        v[j] = vf_unhex(f[3 + j][0] == '.' ? "" : f[3 + j], NULL, 1);
      ret = onion_shortcut_response_extra_headers(a, atoi(f[1]), req, res, v[0], v[1], v[2], v[3], v[4], v[5], NULL);
      for (j = 0; j < 6; j++)
        free(v[j]);
    } else if (strcmp(op, "redir") == 0) {
      a = vf_unhex(f[1], &al, 1);
      ret = onion_shortcut_redirect(a, req, res);
    } else if (strcmp(op, "json") == 0) {       /* a dictionary, in JSON */
      a = vf_unhex(f[1], &al, 1);
      onion_dict *d = onion_dict_from_json(a);
      if (!d) {
        fprintf(stderr, "bad json for the harness\n");
        _exit(97);
      }
      if (n > 2)
        onion_dict_dup(d);
      ret = onion_shortcut_response_json(d, req, res);
      if (n > 2) {              /* another reference still holds it */
        fprintf(vf_out, "jsoncount %d\n", onion_dict_count(d));
        onion_dict_free(d);
      }
    } else if (strcmp(op, "date") == 0) {
      char *t = malloc(32);     /* the sizes the documentation asks for */
      onion_shortcut_date_string(atoll(f[1]), t);
      vf_emits("date", t);
      free(t);
      t = malloc(21);
      onion_shortcut_date_string_iso(atoll(f[1]), t);
      vf_emits("iso", t);
      free(t);
    } else if (strcmp(op, "ret") == 0)
      ret = atoi(f[1]);
    else {
      fprintf(stderr, "bad op %s\n", op);
      _exit(97);
    }
    free(a);
    free(b);
    free(line);
  }
  return ret;
}

/* ---- route tables, built by a stack machine ("T ..." lines) ---- */
struct leaf { int id, ret, freed; };
static int leaf_frees;
static void leaf_free(void *p) {
  leaf_frees++;
  free(p);
}
static int leaf_handler(void *p, onion_request * req, onion_response * res) {
  struct leaf *l = p;
  int i;
  fprintf(vf_out, "LEAF %d", l->id);
  putc(' ', vf_out);
  const char *path = onion_request_get_path(req);
  vf_puthex(path, strlen(path));
  for (i = 1; i < 16; i++) {
    char k[8];
    snprintf(k, sizeof k, "%d", i);
    const char *v = onion_request_get_query(req, k);
    if (v) {
      fprintf(vf_out, " %d=", i);
      vf_puthex(v, strlen(v));
    }
  }
  putc('\n', vf_out);
  if (l->ret == OCS_PROCESSED)
    onion_response_printf(res, "leaf %d", l->id);
  return l->ret;
}
/* internal redirections: to a fixed url, or to one that is part of the request */
static int redir_handler(void *url, onion_request * req, onion_response * res) {
  const char *u = url;
  if (*u == '@')
    u = u[1] == 'p' ? onion_request_get_path(req) : u[1] == 'q' ? onion_request_get_query(req, "to") : onion_request_get_fullpath(req) + 1;
  fprintf(vf_out, "REDIR\n");
  return u ? onion_shortcut_internal_redirect(u, req, res) : OCS_NOT_PROCESSED;
}
static void *tstack[256];
static int ntstack;
static onion_handler *default_root;
static void route_op(char *line) {
  char *f[8];
  int n = vf_split(line, f, 8);
  char *a = NULL, *b = NULL;
  if (strcmp(f[0], "leaf") == 0) {
    struct leaf *l = malloc(sizeof *l);
    l->id = atoi(f[1]);
    l->ret = atoi(f[2]);
    tstack[ntstack++] = onion_handler_new(leaf_handler, l, leaf_free);
  } else if (strcmp(f[0], "static") == 0) {
    a = vf_unhex(f[1], NULL, 1);
    tstack[ntstack++] = onion_handler_static(a, atoi(f[2]));
  } else if (strcmp(f[0], "redir") == 0) {
    tstack[ntstack++] = onion_handler_new(redir_handler, vf_unhex(f[1], NULL, 1), free);
  } else if (strcmp(f[0], "urlnew") == 0)
    tstack[ntstack++] = onion_url_new();
  else if (strcmp(f[0], "uadd") == 0) {
    a = vf_unhex(n > 1 && f[1][0] != '.' ? f[1] : "", NULL, 1);
    ntstack--;
    if (onion_url_add_handler(tstack[ntstack - 1], a, tstack[ntstack])) {
      fprintf(vf_out, "BADRE\n");
      onion_handler_free(tstack[ntstack]);
    }
  } else if (strcmp(f[0], "uaddurl") == 0) {
    a = vf_unhex(n > 1 && f[1][0] != '.' ? f[1] : "", NULL, 1);
    ntstack--;
    onion_url_add_url(tstack[ntstack - 1], a, tstack[ntstack]);
  } else if (strcmp(f[0], "uaddstatic") == 0) {
    a = vf_unhex(f[1][0] != '.' ? f[1] : "", NULL, 1);
    b = vf_unhex(f[2], NULL, 1);
    onion_url_add_static(tstack[ntstack - 1], a, b, atoi(f[3]));
  } else if (strcmp(f[0], "path") == 0) {
    a = vf_unhex(n > 1 && f[1][0] != '.' ? f[1] : "", NULL, 1);
    tstack[ntstack - 1] = onion_handler_path(a, tstack[ntstack - 1]);
  } else if (strcmp(f[0], "chain") == 0) {
    ntstack--;
    onion_handler_add(tstack[ntstack - 1], tstack[ntstack]);
  } else if (strcmp(f[0], "root") == 0) {
    onion_set_root_handler(server, tstack[--ntstack]);
    leaf_frees = 0;
  } else {
    fprintf(stderr, "bad route op %s\n", f[0]);
    _exit(97);
  }
  free(a);
  free(b);
}

static void vf_nolog(onion_log_level level, const char *filename, int lineno, const char *fmt, ...) {
  /* still format the message: a log call with bad arguments is memory-unsafe for every user */
  char tmp[512];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(tmp, sizeof tmp, fmt, ap);
  va_end(ap);
}

static void free_conn(void) {
  if (conn) {
    onion_request_free(conn);
    conn = NULL;
    fprintf(vf_out, "FREED %d\n", closed_calls);
  }
}

static void clear_case(void) {
  int i;
  for (i = 0; i < nscript; i++)
    free(script[i]);
  nscript = 0;
  nwplan = iwplan = 0;
  nwrites = 0;
  fail_mkstemp = 0;
  fw_budget = -1;
  fw_short = 0;
}


/* ---- client cookie jars */
#define NJAR 32
static char *jar[NJAR];
static int curjar = 0;

static void jar_scan(void) {
  size_t i;
  static const char pat[] = "Set-Cookie: sessionid=";
  for (i = 0; i + sizeof(pat) - 1 < out_len; i++) {
    if (memcmp(outb + i, pat, sizeof(pat) - 1) == 0) {
      size_t j = i + sizeof(pat) - 1, k = j;
      while (k < out_len && outb[k] != ';' && outb[k] != '\r' && outb[k] != '\n')
        k++;
      free(jar[curjar]);
      jar[curjar] = strndup(outb + j, k - j);
      vf_emit("SC", outb + j, k - j);
    }
  }
}

/* tokens: hex text, or @k for what jar k holds */
static char *expand(char *line, size_t *len) {
  size_t cap = strlen(line) / 2 + 64 * 1024, n = 0;
  char *b = malloc(cap);
  char *save = NULL, *t;
  for (t = strtok_r(line, " ", &save); t; t = strtok_r(NULL, " ", &save)) {
    if (*t == '@') {
      char *v = jar[atoi(t + 1)];
      if (v) {
        memcpy(b + n, v, strlen(v));
        n += strlen(v);
      }
    } else {
      size_t l;
      char *d = vf_unhex(t, &l, 0);
      memcpy(b + n, d, l);
      n += l;
      free(d);
    }
  }
  *len = n;
  return b;
}

static void set_sessions(char *spec) {
  onion_sessions *be = NULL;
  if (strcmp(spec, "mem") == 0)
    be = onion_sessions_mem_new();
  else if (strncmp(spec, "sqlite ", 7) == 0)
    be = onion_sessions_sqlite3_new(spec + 7);
  else if (strncmp(spec, "redis ", 6) == 0)
    be = onion_sessions_redis_new("127.0.0.1", atoi(spec + 6));
  if (!be) {
    fprintf(stderr, "no session backend %s\n", spec);
    exit(97);
  }
  onion_set_session_backend(server, be);
}

int main(int argc, char **argv) {
  vf_heap_init();
  VF_TAG_ENV();
  onion_log_flags |= OF_NOINFO | OF_NOCOLOR | OF_INIT;
  onion_log = onion_log_stderr;
  if (!getenv("VF_LOG")) {
    onion_log = (void *)vf_nolog;
  }
  FILE *cf = fopen(argv[1], "r");
  vf_out = fopen(argv[2], "w");
  static char obuf[1 << 16];
  setvbuf(vf_out, obuf, _IOFBF, sizeof obuf);
  if (!cf || !vf_out)
    return 96;

  server = onion_new(O_ONE);
  lp = onion_http_new();
  lp->request_init = m_init;
  lp->read = m_read;
  lp->write = m_write;
  lp->close = m_close;
  lp->listen = m_listen;
  lp->listen_stop = m_listen_stop;
  lp->listenfd = -1;
  onion_add_listen_point(server, NULL, NULL, lp);
  default_root = onion_handler_new(handler, NULL, NULL);
  onion_set_root_handler(server, default_root);
  /* what onion_listen() would set up */
  if (!server->internal_error_handler)
    fprintf(stderr, "no internal error handler\n");
  onion_set_session_backend(server, onion_sessions_new());

  {                             /* warm-up: lazily created state does not count as a leak */
    outb = malloc(out_cap = 1 << 20);
    conn = onion_request_new(lp);
    in = "GET /warm HTTP/1.0\r\n\r\n";
    in_len = strlen(in);
    in_pos = 0;
    FILE *o = vf_out;
    vf_out = fopen("/dev/null", "w");
    lp->read_ready(conn);
    onion_request_free(conn);
    conn = NULL;
    set_sessions(strdup("sqlite :memory:"));
    set_sessions(strdup("mem"));
    char *sid = onion_sessions_create(server->sessions);
    onion_sessions_remove(server->sessions, sid);
    onion_low_free(sid);
    fclose(vf_out);
    vf_out = o;
  }

  char *line = NULL;
  size_t cap = 0;
  ssize_t n;
  line = malloc(cap = 1 << 22);
  long base_allocs = 0;
  int base_fds = 0;
  long base_bytes = 0;
  while ((n = vf_getline(&line, &cap, cf)) >= 0) {
    if (strncmp(line, "CASE ", 5) == 0) {
      fprintf(vf_out, "%s\n", line);
      fflush(vf_out);
      clear_case();
      curjar = -1;
      {
        int j;
        for (j = 0; j < NJAR; j++) {
          free(jar[j]);
          jar[j] = NULL;
        }
      }
      onion_set_max_post_size(server, 1024 * 1024);
      onion_set_max_file_size(server, 1024 * 1024 * 1024);
      nreq = 0;
      ntmp = 0;
      base_allocs = vf_live_allocs;
      base_fds = vf_count_fds();
      tmp_written = 0;
      vf_peak_bytes = base_bytes = vf_live_bytes;
    } else if (strncmp(line, "SET max_post ", 13) == 0)
      onion_set_max_post_size(server, strtoul(line + 13, NULL, 10));
    else if (strncmp(line, "SET max_file ", 13) == 0)
      onion_set_max_file_size(server, strtoul(line + 13, NULL, 10));
    else if (strncmp(line, "SET fail_mkstemp", 16) == 0)
      fail_mkstemp = 1;
    else if (strncmp(line, "SET fw_budget ", 14) == 0)
      fw_budget = atol(line + 14);
    else if (strncmp(line, "SET fw_short ", 13) == 0)
      fw_short = atoi(line + 13);
    else if (strncmp(line, "SET wplan ", 10) == 0) {
      char *p = line + 10;
      nwplan = iwplan = 0;
      while (*p && nwplan < 4096) {
        wplan[nwplan++] = strtol(p, &p, 10);
        if (*p == ',')
          p++;
      }
    } else if (strncmp(line, "T ", 2) == 0) {
      route_op(line + 2);
    } else if (strncmp(line, "H ", 2) == 0) {
      script[nscript++] = strdup(line + 2);
    } else if (strcmp(line, "NOH") == 0) {
      int i;
      for (i = 0; i < nscript; i++)
        free(script[i]);
      nscript = 0;
    } else if (strcmp(line, "CONN") == 0) {
      free_conn();
      closed_calls = 0;
      in_eof = 0;
      conn = onion_request_new(lp);
      fprintf(vf_out, "CONN\n");
    } else if (strncmp(line, "SESSIONS ", 9) == 0) {
      set_sessions(line + 9);
    } else if (strncmp(line, "JAR ", 4) == 0) {
      curjar = atoi(line + 4);
      free(jar[curjar + 16]);
      jar[curjar + 16] = NULL;
      if (jar[curjar])
        jar[curjar + 16] = strdup(jar[curjar]); /* the id this client had before */
    } else if (strncmp(line, "SIDS ", 5) == 0) {
      int k = atoi(line + 5);
      while (k-- > 0) {
        char *sid = onion_sessions_create(server->sessions);
        vf_emits("GID", sid);
        onion_sessions_remove(server->sessions, sid);
        onion_low_free(sid);
      }
    } else if (strncmp(line, "RD ", 3) == 0 || strncmp(line, "RDT ", 4) == 0) {
      if (conn) {
        size_t l;
        char *d = line[2] == 'T' ? expand(line + 4, &l) : vf_unhex(line + 3, &l, 0);
        in = d;
        in_len = l;
        in_pos = 0;
        out_len = 0;
        int st = 0;
        while (in_pos < in_len) {
          st = lp->read_ready(conn);
          if (st < 0)
            break;
        }
        in = NULL;
        size_t left = in_len - in_pos;
        in_len = in_pos = 0;
        free(d);
        vf_emit("OUT", outb, out_len);
        if (curjar >= 0)
          jar_scan();
        fprintf(vf_out, "ST %d %zu\n", st, left);
        if (st < 0 && st != OCS_YIELD)
          free_conn();
      } else
        fprintf(vf_out, "ST gone\n");
    } else if (strcmp(line, "EOF") == 0) {
      if (conn) {
        in_eof = 1;
        in_len = in_pos = 0;
        out_len = 0;
        int st = lp->read_ready(conn);
        vf_emit("OUT", outb, out_len);
        fprintf(vf_out, "ST %d 0\n", st);
        if (st < 0)
          free_conn();
      }
    } else if (strcmp(line, "FREE") == 0) {
      free_conn();
    } else if (strcmp(line, "END") == 0) {
      free_conn();
      if (onion_get_root_handler(server) != default_root) {
        onion_handler_free(onion_get_root_handler(server));
        onion_set_root_handler(server, default_root);
        fprintf(vf_out, "LEAFFREES %d\n", leaf_frees);
      }
      int i;
      int left = 0;
      for (i = 0; i < ntmp; i++) {
        if (access(tmpnames[i], F_OK) == 0) {
          left++;
          unlink(tmpnames[i]);
        }
        free(tmpnames[i]);
      }
      int nt = ntmp;
      fail_mkstemp = 0;
      ntmp = 0;
      clear_case();
      {
        int j;
        for (j = 0; j < NJAR; j++) {
          free(jar[j]);
          jar[j] = NULL;
        }
      }
      fprintf(vf_out, "RES tmp=%d left=%d fds=%d allocs=%ld tw=%ld peak=%ld\n", nt, left, vf_count_fds() - base_fds,
              vf_live_allocs - base_allocs, tmp_written, vf_peak_bytes - base_bytes);
      fprintf(vf_out, "ENDCASE\n");
    }
  }
  free(line);
  fflush(vf_out);
  onion_free(server);
  fprintf(vf_out, "DONE\n");
  fclose(vf_out);
  return 0;
}


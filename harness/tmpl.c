/*
 * Renders compiled templates. The table of templates (tmpl_table.c) is generated by the check.
 *
 *   CASE id
 *   V hex.hex.hex hexvalue     a string, with the path to it in nested dictionaries
 *   E hex.hex                  an empty dictionary
 *   RENDER name mode           fn: name(context, res), twice with the same context; handler; template; null: fn with no context
 *   END
 */
#define _GNU_SOURCE
#include "vf.h"
#include <onion/onion.h>
#include <onion/log.h>
#include <onion/request.h>
#include <onion/response.h>
#include <onion/handler.h>
#include <onion/dict.h>
#include <onion/http.h>
#include <onion/listen_point.h>
#include <onion/types_internal.h>
#include "tmpl.h"

static void vf_nolog(onion_log_level level, const char *filename, int lineno, const char *fmt, ...) {
}

static const char *in;
static size_t inlen, inpos, out_len, out_cap;
static char *outb;

static ssize_t m_read(onion_request * req, char *data, size_t len) {
  size_t l = inlen - inpos;
  if (l > len)
    l = len;
  memcpy(data, in + inpos, l);
  inpos += l;
  return l;
}

static ssize_t m_write(onion_request * req, const char *data, size_t len) {
  if (out_len + len + 1 > out_cap)
    outb = realloc(outb, out_cap = (out_len + len) * 2 + 4096);
  memcpy(outb + out_len, data, len);
  out_len += len;
  return len;
}

static void m_close(onion_request * req) {
}

static int m_init(onion_request * req) {
  req->connection.fd = -1;
  return 0;
}

static void m_none(onion_listen_point * l) {
}

static onion *server;
static onion_listen_point *lp;
static onion_dict *context;
static const struct tmpl *cur;
static int cur_mode;

static int page(void *p, onion_request * req, onion_response * res) {
  if (!cur)
    return OCS_NOT_PROCESSED;
  if (cur_mode == 2) {
    onion_dict *c = context;
    context = NULL;             /* it frees it */
    return cur->tpl(c, req, res);
  }
  cur->fn(cur_mode == 3 ? NULL : context, res);
  return OCS_PROCESSED;
}

static void get(void) {
  static const char req[] = "GET / HTTP/1.0\r\nAccept-Language: xx-YY,en;q=0.5\r\n\r\n";
  out_len = 0;
  in = req;
  inlen = sizeof req - 1;
  inpos = 0;
  onion_request *r = onion_request_new(lp);
  int st = 0;
  while (st >= 0 && inpos < inlen)
    st = lp->read_ready(r);
  onion_request_free(r);
  vf_emit("OUT", outb ? outb : "", out_len);
}

static void add(char *path, const char *value) {
  onion_dict *d = context;
  char *sv = NULL;
  char *p = strtok_r(path, ".", &sv);
  while (p) {
    char *next = strtok_r(NULL, ".", &sv);
    char *k = vf_unhex(p, NULL, 1);
    if (!next && value) {
      char *v = vf_unhex(value, NULL, 1);
      onion_dict_add(d, k, v, OD_DUP_ALL);
      free(v);
    } else {
      onion_dict *s = onion_dict_get_dict(d, k);
      if (!s) {
        s = onion_dict_new();
        onion_dict_add(d, k, s, OD_DUP_KEY | OD_DICT | OD_FREE_VALUE);
      }
      d = s;
    }
    free(k);
    p = next;
  }
}

int main(int argc, char **argv) {
  FILE *f = fopen(argv[1], "r");
  vf_out = fopen(argv[2], "w");
  if (!f || !vf_out)
    return 97;
  setvbuf(vf_out, NULL, _IOLBF, 1 << 16);
  onion_log = vf_nolog;
  vf_heap_init();
  server = onion_new(O_ONE_LOOP);
  lp = onion_http_new();
  lp->request_init = m_init;
  lp->read = m_read;
  lp->write = m_write;
  lp->close = m_close;
  lp->listen = m_none;
  lp->listen_stop = m_none;
  lp->listenfd = -1;
  onion_add_listen_point(server, NULL, NULL, lp);
  onion_handler *ph = onion_handler_new((void *)page, NULL, NULL);
  onion_set_root_handler(server, ph);
  outb = malloc(out_cap = 1 << 22);
  vf_out = vf_out;
  {
    FILE *o = vf_out;
    vf_out = fopen("/dev/null", "w");
    get();
    fclose(vf_out);
    vf_out = o;
  }
  char *line = NULL;
  size_t cap = 0;
  ssize_t ll;
  long base = 0;
  while ((ll = getline(&line, &cap, f)) > 0) {
    line[strcspn(line, "\n")] = 0;
    char *a[4] = { 0 }, *sv = NULL;
    int n = 0;
    if (strncmp(line, "CASE ", 5) == 0) {
      fprintf(vf_out, "%s\n", line);
      base = vf_live_allocs;
      context = onion_dict_new();
      continue;
    }
    for (char *t = strtok_r(line, " ", &sv); t && n < 4; t = strtok_r(NULL, " ", &sv))
      a[n++] = t;
    if (!n)
      continue;
    if (strcmp(a[0], "V") == 0)
      add(a[1], a[2] ? a[2] : "");
    else if (strcmp(a[0], "E") == 0)
      add(a[1], NULL);
    else if (strcmp(a[0], "RENDER") == 0) {
      cur = NULL;
      for (int i = 0; i < tmpl_count; i++)
        if (strcmp(tmpls[i].name, a[1]) == 0)
          cur = &tmpls[i];
      if (!cur)
        return 96;
      cur_mode = strcmp(a[2], "fn") == 0 ? 0 : strcmp(a[2], "handler") == 0 ? 1 : strcmp(a[2], "template") == 0 ? 2 : 3;
      if (cur_mode == 1) {
        onion_handler *h = cur->handler(context);       /* and it owns the context */
        context = NULL;
        onion_set_root_handler(server, h);
        get();
        get();
        onion_set_root_handler(server, ph);
        onion_handler_free(h);
      } else {
        get();
        if (cur_mode == 0)
          get();
      }
    } else if (strcmp(a[0], "END") == 0) {
      if (context)
        onion_dict_free(context);
      context = NULL;
      fprintf(vf_out, "BAL %ld\nENDCASE\n", vf_live_allocs - base);
    } else
      return 96;
  }
  fprintf(vf_out, "DONE\n");
  fclose(vf_out);
  return 0;
}

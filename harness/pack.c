/*
 * Serves what opack packed. The table (pack_table.c) is generated by the check.
 *
 *   CASE id
 *   MIME hexname
 *   LEN name
 *   REQ name hex           a request, with that function as root handler; on the same connection as the last one if it goes on
 *   OLD hexpath hexdata length hex      the same, with an onion_handler_opack
 *   END
 */
#define _GNU_SOURCE
#include "vf.h"
#include <onion/onion.h>
#include <onion/log.h>
#include <onion/request.h>
#include <onion/response.h>
#include <onion/handler.h>
#include <onion/http.h>
#include <onion/mime.h>
#include <onion/listen_point.h>
#include <onion/types_internal.h>
#include <onion/handlers/opack.h>
#include "pack.h"

static void vf_nolog(onion_log_level level, const char *filename, int lineno, const char *fmt, ...) {
}

static const char *in;
static size_t inlen, inpos, out_len, out_cap;
static char *outb;

static ssize_t m_read(onion_request * req, char *data, size_t len) {
  size_t l = inlen - inpos;
  if (l > len)
    l = len;
  memcpy(data, in + inpos, l);
  inpos += l;
  return l;
}

static ssize_t m_write(onion_request * req, const char *data, size_t len) {
  if (out_len + len + 1 > out_cap)
    outb = realloc(outb, out_cap = (out_len + len) * 2 + 4096);
  memcpy(outb + out_len, data, len);
  out_len += len;
  return len;
}

static void m_close(onion_request * req) {
}

static int m_init(onion_request * req) {
  req->connection.fd = -1;
  return 0;
}

static void m_none(onion_listen_point * l) {
}

static onion *server;
static onion_listen_point *lp;
static onion_request *conn;

static void hang_up(void) {
  if (conn)
    onion_request_free(conn);
  conn = NULL;
}

static void get(const char *hex) {
  size_t l;
  char *d = vf_unhex(hex, &l, 0);
  out_len = 0;
  in = d;
  inlen = l;
  inpos = 0;
  int fresh = !conn;
  if (!conn)
    conn = onion_request_new(lp);
  int st = 0, k = 0;
  while (st >= 0 && inpos < inlen) {
    st = lp->read_ready(conn);
    if (++k > 10000)
      abort();
  }
  if (st < 0)
    hang_up();
  fprintf(vf_out, "ST %d fresh=%d\n", st, fresh);
  vf_emit("OUT", outb, out_len);
  free(d);
}

static char *old_data;
static size_t old_len;
static int old_render(onion_response * res) {
  onion_response_write(res, old_data, old_len);
  return 0;
}

int main(int argc, char **argv) {
  FILE *f = fopen(argv[1], "r");
  vf_out = fopen(argv[2], "w");
  if (!f || !vf_out)
    return 97;
  setvbuf(vf_out, NULL, _IOLBF, 1 << 16);
  onion_log = vf_nolog;
  vf_heap_init();
  server = onion_new(O_ONE_LOOP);
  lp = onion_http_new();
  lp->request_init = m_init;
  lp->read = m_read;
  lp->write = m_write;
  lp->close = m_close;
  lp->listen = m_none;
  lp->listen_stop = m_none;
  lp->listenfd = -1;
  onion_add_listen_point(server, NULL, NULL, lp);
  outb = malloc(out_cap = 1 << 22);
  onion_mime_get("x.txt");
  char *line = NULL;
  size_t cap = 0;
  ssize_t ll;
  long base = 0;
  int first = 1;
  while ((ll = getline(&line, &cap, f)) > 0) {
    line[strcspn(line, "\n")] = 0;
    char *a[6] = { 0 }, *sv = NULL;
    int n = 0;
    if (strncmp(line, "CASE ", 5) == 0) {
      fprintf(vf_out, "%s\n", line);
      base = vf_live_allocs;
      continue;
    }
    for (char *t = strtok_r(line, " ", &sv); t && n < 6; t = strtok_r(NULL, " ", &sv))
      a[n++] = t;
    if (!n)
      continue;
    const struct packed *p = NULL;
    if ((strcmp(a[0], "REQ") == 0 || strcmp(a[0], "LEN") == 0)) {
      for (int i = 0; i < pack_count; i++)
        if (strcmp(packs[i].name, a[1]) == 0)
          p = &packs[i];
      if (!p)
        return 96;
    }
    if (strcmp(a[0], "MIME") == 0) {
      char *m = vf_unhex(a[1], NULL, 1);
      const char *t = onion_mime_get(m);
      vf_emit("MIME", t, strlen(t));
      free(m);
    } else if (strcmp(a[0], "LEN") == 0)
      fprintf(vf_out, "LEN %u\n", p->length ? *p->length : 0);
    else if (strcmp(a[0], "REQ") == 0) {
      onion_handler *h = onion_handler_new((void *)p->fn, NULL, NULL);
      onion_set_root_handler(server, h);
      if (conn && 0)
        hang_up();
      get(a[2]);
      onion_set_root_handler(server, NULL);
      onion_handler_free(h);
    } else if (strcmp(a[0], "OLD") == 0) {
      char *path = vf_unhex(a[1], NULL, 1);
      old_data = vf_unhex(strcmp(a[2], "-") == 0 ? "" : a[2], &old_len, 0);
      onion_handler *h = onion_handler_opack(path, (void *)old_render, atoi(a[3]));
      onion_set_root_handler(server, h);
      get(a[4]);
      onion_set_root_handler(server, NULL);
      onion_handler_free(h);
      free(path);
      free(old_data);
    } else if (strcmp(a[0], "END") == 0) {
      hang_up();
      fprintf(vf_out, "BAL %ld\nENDCASE\n", first ? 0 : vf_live_allocs - base);
      first = 0;
    } else
      return 96;
  }
  fprintf(vf_out, "DONE\n");
  fclose(vf_out);
  return 0;
}

/*
 * WebSocket driver: the real handshake, frame reader and writer over an in-memory transport whose reads are cut and
 * whose writes are shortened or failed as the case says.
 *
 *   CASE id
 *   HS hex            the handshake request, one segment
 *   RD hex            next segment the client sends (a read never returns bytes of two segments)
 *   EOF 0|1           what a read gives after the last segment: 0 end of stream, 1 EAGAIN
 *   WPLAN a,b,..      most bytes each write takes (0 no limit, -1 fails for good); repeats the last one when it ends in '*'
 *   OPS op|op|..      what a callback does, one line per callback call, used in turn
 *       rd N          read min(N, ready) bytes (N 0: all ready); rdx N reads N bytes whatever is ready
 *       w hex, wn N c, pf hex N, op N, close hhhh, ret N, skip, nocb
 *   FIRST op|..       what the handler does before returning
 *   END
 */
#include "vf.h"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <onion/low.h>
#include <onion/onion.h>
#include <onion/log.h>
#include <onion/request.h>
#include <onion/response.h>
#include <onion/handler.h>
#include <onion/http.h>
#include <onion/websocket.h>
#include <onion/listen_point.h>
#include <onion/types_internal.h>

static void vf_nolog(onion_log_level level, const char *filename, int lineno, const char *fmt, ...) {
}

static onion *server;
static onion_listen_point *lp;
#define MAXSEG 200000
static char *seg[MAXSEG];
static size_t seglen[MAXSEG];
static int nseg, iseg;
static size_t segpos;
static int ending, nread_after_end;
static int wplan[1024], nwplan, iwplan, wrepeat;
static char *outb;
static size_t out_len, out_cap;
static char *ops[64];
static int nops, iops;
static char *first;
static int closed_calls, ncb, ncb_neg, userdata_frees;
static long total_read;

static ssize_t m_read(onion_request * req, char *data, size_t len) {
  if (len == 0)
    return 0;
  while (iseg < nseg && segpos == seglen[iseg]) {
    iseg++;
    segpos = 0;
  }
  if (iseg >= nseg) {
    if (++nread_after_end > 20000) {
      fprintf(stderr, "reads forever after the end of the stream\n");
      abort();
    }
    if (ending == 1) {
      errno = EAGAIN;
      return -1;
    }
    errno = 0;
    return 0;
  }
  size_t l = seglen[iseg] - segpos;
  if (l > len)
    l = len;
  memcpy(data, seg[iseg] + segpos, l);
  segpos += l;
  return l;
}

static ssize_t m_write(onion_request * req, const char *data, size_t len) {
  ssize_t r = len;
  if (iwplan < nwplan) {
    int p = wplan[iwplan];
    if (p < 0) {
      errno = EPIPE;
      return -1;
    }
    if (!(wrepeat && iwplan == nwplan - 1))
      iwplan++;
    if (p > 0 && (size_t) p < len)
      r = p;
  }
  if (out_len + r > out_cap) {
    out_cap = (out_len + r) * 2 + 4096;
    outb = realloc(outb, out_cap);
  }
  memcpy(outb + out_len, data, r);
  out_len += r;
  return r;
}

static void m_close(onion_request * req) {
  closed_calls++;
  if (req->connection.fd > 0)
    close(req->connection.fd);
  req->connection.fd = -1;
}

static int m_init(onion_request * req) {
  req->connection.fd = open("/dev/null", O_RDONLY);     /* always readable for poll() */
  return 0;
}

static void m_none(onion_listen_point * l) {
}

static int udsets;
static void *cur_ud;
static void ud_free(void *p) {
  userdata_frees++;
  free(p);
}

static onion_connection_status cb(void *data, onion_websocket * ws, ssize_t ready);

static onion_connection_status run_ops(onion_websocket * ws, const char *script, ssize_t ready) {
  onion_connection_status ret = OCS_NEED_MORE_DATA;
  char *copy = strdup(script), *save = NULL, *op;
  for (op = strtok_r(copy, "|", &save); op; op = strtok_r(NULL, "|", &save)) {
    char *f[4];
    int nf = vf_split(op, f, 4);
    if ((f[0][0] == 'w' || f[0][0] == 'p') && out_len > 200000)
      continue;                 /* enough output for one case */
    if (strcmp(f[0], "rd") == 0 || strcmp(f[0], "rdx") == 0) {
      long n = atol(f[1]);
      if (f[0][2] == 0 && (n == 0 || n > ready))
        n = ready > (1 << 22) ? 1 << 22 : ready;
      char *b = malloc(n ? n : 1);
      int r = onion_websocket_read(ws, b, n);
      fprintf(vf_out, "READ %ld %d ", n, r);
      if (r > 0) {
        vf_puthex(b, r);
        total_read += r;
      }
      fprintf(vf_out, "\n");
      if (r < 0)                /* a program may go on */
        fprintf(vf_out, "RNEG %d\n", onion_websocket_read(ws, b, n ? n : 1));
      free(b);
    } else if (strcmp(f[0], "w") == 0) {
      size_t l;
      char *d = vf_unhex(nf > 1 ? f[1] : "", &l, 0);
      int o = onion_websocket_get_opcode(ws);
      int r = onion_websocket_write(ws, d, l);
      fprintf(vf_out, "W %d %d ", o, r);
      vf_puthex(d, l);
      fprintf(vf_out, "\n");
      free(d);
    } else if (strcmp(f[0], "wn") == 0) {
      size_t l = atol(f[1]);
      char *d = malloc(l ? l : 1);
      size_t i;
      unsigned x = atoi(f[2]);
      for (i = 0; i < l; i++)
        d[i] = x = x * 1103515245 + 12345 + (x >> 16);
      int o = onion_websocket_get_opcode(ws);
      int r = onion_websocket_write(ws, d, l);
      fprintf(vf_out, "W %d %d ", o, r);
      vf_puthex(d, l);
      fprintf(vf_out, "\n");
      free(d);
    } else if (strcmp(f[0], "pf") == 0) {
      size_t l;
      char *d = vf_unhex(f[1], &l, 1);
      int k = atoi(f[2]);
      int o = onion_websocket_get_opcode(ws);
      int r = onion_websocket_printf(ws, "<%d>%s", k, d);
      fprintf(vf_out, "W %d %d ", o, r);
      char t[32];
      snprintf(t, sizeof t, "<%d>", k);
      vf_puthex(t, strlen(t));
      vf_puthex(d, l);
      fprintf(vf_out, "\n");
      free(d);
    } else if (strcmp(f[0], "op") == 0)
      onion_websocket_set_opcode(ws, atoi(f[1]));
    else if (strcmp(f[0], "close") == 0) {
      size_t l;
      char *d = vf_unhex(f[1], &l, 0);
      onion_websocket_close(ws, d);
      fprintf(vf_out, "CL %s\n", f[1]);
      free(d);
    } else if (strcmp(f[0], "ret") == 0)
      ret = atoi(f[1]);
    else if (strcmp(f[0], "nocb") == 0)
      onion_websocket_set_callback(ws, NULL);
    else if (strcmp(f[0], "ud") == 0)
    {
      udsets++;
      cur_ud = malloc(16);
      onion_websocket_set_userdata(ws, cur_ud, ud_free);
    } else if (strcmp(f[0], "wbig") == 0) {     /* too much for the dump: compared here */
      size_t l = atol(f[1]), at = out_len;
      char *d = malloc(l);
      unsigned x = l;
      for (size_t i = 0; i < l; i++)
        d[i] = x = x * 1103515245 + 12345 + (x >> 16);
      int o = onion_websocket_get_opcode(ws);
      int r = onion_websocket_write(ws, d, l);
      unsigned char *w = (unsigned char *)outb + at;
      uint64_t n = 0;
      for (int i = 0; i < 8 && out_len - at > 10; i++)
        n = n << 8 | w[2 + i];
      int ok = r == (int)l && out_len - at == l + 10 && w[0] == (0x80 | o) && w[1] == 127 && n == l && memcmp(w + 10, d, l) == 0;
      if (iwplan < nwplan && wplan[iwplan] < 0)
        ok = 1;
      fprintf(vf_out, "WBIG %zu %d %d\n", l, ok, r);
      out_len = at;
      free(d);
    }
    else if (strcmp(f[0], "skip") != 0) {
      fprintf(stderr, "bad op %s\n", f[0]);
      exit(97);
    }
  }
  free(copy);
  return ret;
}

static onion_connection_status cb(void *data, onion_websocket * ws, ssize_t ready) {
  if (data != cur_ud)
    fprintf(vf_out, "UDBAD\n");
  if (ready < 0) {
    ncb_neg++;
    fprintf(vf_out, "CB %zd\n", ready);
    char b[16];
    int r = onion_websocket_read(ws, b, sizeof b);      /* a program may ignore what it was told */
    fprintf(vf_out, "RNEG %d\n", r);
    return OCS_CLOSE_CONNECTION;
  }
  fprintf(vf_out, "CB %zd %ld %d\n", ready, total_read, (int)onion_websocket_get_opcode(ws));
  if (++ncb > 200000) {
    fprintf(stderr, "callback called forever\n");
    abort();
  }
  if (nops == 0)
    return OCS_CLOSE_CONNECTION;
  return run_ops(ws, ops[iops++ % nops], ready);
}

static int handler(void *p, onion_request * req, onion_response * res) {
  onion_websocket *ws = onion_websocket_new(req, res);
  if (!ws) {
    fprintf(vf_out, "NOWS\n");
    onion_response_write0(res, "no websocket");
    return OCS_PROCESSED;
  }
  fprintf(vf_out, "WS %zu\n", out_len);
  onion_websocket_set_callback(ws, cb);
  if (first)
    run_ops(ws, first, 0);
  return OCS_WEBSOCKET;
}

static void clear_case(void) {
  int i;
  for (i = 0; i < nseg; i++)
    free(seg[i]);
  nseg = iseg = 0;
  segpos = 0;
  for (i = 0; i < nops; i++)
    free(ops[i]);
  nops = iops = 0;
  free(first);
  first = NULL;
  ending = nread_after_end = 0;
  nwplan = iwplan = wrepeat = 0;
  out_len = 0;
  closed_calls = ncb = ncb_neg = userdata_frees = udsets = 0;
  cur_ud = NULL;
  total_read = 0;
}

static void run_case(void) {
  onion_request *c = onion_request_new(lp);
  int st = 0;
  while (st >= 0) {
    if (iseg >= nseg || (iseg == nseg - 1 && segpos == seglen[iseg])) {
      if (nread_after_end)
        break;
    }
    st = lp->read_ready(c);
  }
  onion_request_free(c);
  fprintf(vf_out, "RET %d closed=%d cb=%d neg=%d ud=%d udsets=%d\n", st, closed_calls, ncb, ncb_neg, userdata_frees, udsets);
  vf_emit("OUT", outb, out_len);
}

int main(int argc, char **argv) {
  vf_heap_init();
  VF_TAG_ENV();
  onion_log_flags |= OF_NOINFO | OF_NOCOLOR | OF_INIT;
  if (!getenv("VF_LOG"))
    onion_log = (void *)vf_nolog;
  FILE *cf = fopen(argv[1], "r");
  vf_out = fopen(argv[2], "w");
  static char obuf[1 << 16];
  setvbuf(vf_out, obuf, _IOFBF, sizeof obuf);
  if (!cf || !vf_out)
    return 96;
  server = onion_new(O_ONE);
  lp = onion_http_new();
  lp->request_init = m_init;
  lp->read = m_read;
  lp->write = m_write;
  lp->close = m_close;
  lp->listen = m_none;
  lp->listen_stop = m_none;
  lp->listenfd = -1;
  onion_add_listen_point(server, NULL, NULL, lp);
  onion_set_root_handler(server, onion_handler_new((void *)handler, NULL, NULL));
  outb = malloc(out_cap = 1 << 22);

  char *line = NULL;
  size_t cap = 0;
  ssize_t n;
  line = malloc(cap = 1 << 23);
  long base = 0;
  int fds = 0, warm = 0;
  while ((n = vf_getline(&line, &cap, cf)) >= 0) {
    if (strncmp(line, "CASE ", 5) == 0) {
      if (!warm) {              /* lazily created state is no leak */
        warm = 1;
        FILE *o = vf_out;
        vf_out = fopen("/dev/null", "w");
        const char *w = "GET / HTTP/1.1\r\nUpgrade: websocket\r\nSec-Websocket-Version: 13\r\nSec-Websocket-Key: a\r\n\r\n";
        seg[0] = strdup(w);
        seglen[0] = strlen(w);
        nseg = 1;
        run_case();
        clear_case();
        fclose(vf_out);
        vf_out = o;
      }
      fprintf(vf_out, "%s\n", line);
      fflush(vf_out);
      clear_case();
      base = vf_live_allocs;
      fds = vf_count_fds();
    } else if (strncmp(line, "HS ", 3) == 0 || strncmp(line, "RD ", 3) == 0) {
      if (nseg < MAXSEG) {
        seg[nseg] = vf_unhex(line + 3, &seglen[nseg], 0);
        nseg++;
      }
    } else if (strncmp(line, "EOF ", 4) == 0)
      ending = atoi(line + 4);
    else if (strncmp(line, "WPLAN ", 6) == 0) {
      char *p = line + 6;
      while (*p && *p != '*' && nwplan < 1024) {
        wplan[nwplan++] = strtol(p, &p, 10);
        if (*p == ',')
          p++;
      }
      wrepeat = *p == '*';
    } else if (strncmp(line, "OPS ", 4) == 0)
      ops[nops++] = strdup(line + 4);
    else if (strncmp(line, "FIRST ", 6) == 0)
      first = strdup(line + 6);
    else if (strcmp(line, "END") == 0) {
      run_case();
      clear_case();
      fprintf(vf_out, "RES allocs=%ld fds=%d\n", vf_live_allocs - base, vf_count_fds() - fds);
      fprintf(vf_out, "ENDCASE\n");
    }
  }
  free(line);
  fflush(vf_out);
  onion_free(server);
  fprintf(vf_out, "DONE\n");
  fclose(vf_out);
  return 0;
}

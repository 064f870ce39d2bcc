/* Scenario mix of net.c: every kind of handler the library has, all at once, for concurrent clients.
 *
 * Every exchange is a function of its id and is verified by the handler and by its client. The server runs as nobody: the
 * exported and webdav directories are in the scratch given, which is the only thing of its own. PAM is a stand-in here.
 */
#include <grp.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <security/pam_appl.h>
#include <onion/url.h>
#include <onion/shortcuts.h>
#include <onion/websocket.h>
#include <onion/types_internal.h>
#include <onion/handlers/exportlocal.h>
#include <onion/handlers/webdav.h>
#include <onion/handlers/static.h>
#include <onion/handlers/auth_pam.h>
#include <onion/handlers/path.h>

enum { M_UP, M_PUT, M_RAW, M_CALC, M_NEST, M_PRINTF, M_COOKIE, M_EXPORT, M_LIST, M_FILE, M_RANGE, M_SHORT, M_REDIR, M_JSON, M_IREDIR, M_STATIC,
  M_404, M_AUTH, M_NOAUTH, M_HEAD, M_DAV, M_WS, M_SESS, M_HTML, M_PATH, M_LANG, M_N };
static const char *mx_name[] = { "multipart", "put", "raw", "regexp", "nested", "printf", "cookie", "export", "listing", "file", "range", "shortcut",
  "redirect", "json", "internal_redirect", "static", "notfound", "auth", "noauth", "head", "webdav", "websocket", "session", "htmlsafe", "path",
  "language" };
static long mx_done[M_N];
static int mx_kinds[M_N], mx_nkinds;
static char mx_dir[256];
#define NFILES 6
static size_t flen(int k) {
  static const size_t l[NFILES] = { 0, 1, 1500, 4096, 70000, 300000 };
  return l[k];
}
static unsigned char fbyte(int k, size_t i) {
  return ' ' + (i * 31 + (i >> 7) * 7 + k * 29) % 95;
}

/* ------------------------------------------------------------ the stand-in for PAM: a password is pw- and the user */
struct fpam {
  struct pam_conv conv;
  char user[64], service[32];
};
int pam_start(const char *service, const char *user, const struct pam_conv *conv, pam_handle_t ** h) {
  struct fpam *p = calloc(1, sizeof *p);
  p->conv = *conv;
  snprintf(p->user, sizeof p->user, "%s", user);
  snprintf(p->service, sizeof p->service, "%s", service);
  *h = (pam_handle_t *) p;
  maybe_delay();
  return PAM_SUCCESS;
}
int pam_authenticate(pam_handle_t * h, int flags) {
  struct fpam *p = (void *)h;
  struct pam_message m = { PAM_PROMPT_ECHO_OFF, "Password: " };
  const struct pam_message *pm = &m;
  struct pam_response *r = NULL;
  if (R(2))
    us(R(300));
  int rc = p->conv.conv(1, &pm, &r, p->conv.appdata_ptr);
  if (rc != PAM_SUCCESS || !r || !r->resp)
    rc = PAM_AUTH_ERR;
  else
    rc = strncmp(r->resp, "pw-", 3) == 0 && strcmp(r->resp + 3, p->user) == 0 ? PAM_SUCCESS : PAM_AUTH_ERR;
  if (r) {
    free(r->resp);
    free(r);
  }
  maybe_delay();
  return rc;
}
int pam_acct_mgmt(pam_handle_t * h, int flags) {
  return PAM_SUCCESS;
}
int pam_end(pam_handle_t * h, int st) {
  free(h);
  return PAM_SUCCESS;
}
const char *pam_strerror(pam_handle_t * h, int e) {
  return "error";
}

/* ------------------------------------------------------------ what is sent for an id */
static uint64_t H(int id, int salt) {
  return mix(id * 2654435761ULL + salt * 7919ULL + seed0);
}
static size_t mx_len(int id, int salt) {
  uint64_t h = H(id, salt);
  switch (h % 6) {
  case 0:
    return (h >> 9) % 30000;
  case 1:
    return 1024 - 3 + (h >> 9) % 7;
  default:
    return (h >> 9) % 900;
  }
}
#define MX_B "XbOuNd"
/* file data, with line ends and starts of the boundary */
static void mx_data(int id, int salt, char *d, size_t n, int text) {
  for (size_t i = 0; i < n; i++) {
    uint64_t h = H(id, salt + 1000 + i);
    d[i] = text ? 'a' + h % 26 : (h >> 8) % 256;
    if (!text && h % 97 == 0) {
      const char *s = "\r\n--" MX_B;
      size_t k = 1 + (h >> 17) % (strlen(s) - 1);
      for (size_t j = 0; j < k && i < n; j++)
        d[i++] = s[j];
      if (i < n)
        d[i] = '#';
    }
  }
  if (n && !text)
    d[n - 1] = '#';
}
static void mx_word(int id, int salt, char *d, int n) {
  mx_data(id, salt, d, n, 1);
  d[n] = 0;
}

/* ------------------------------------------------------------ the handlers */
static int mx_id(onion_request * req, const char *what) {
  const char *g = onion_request_get_query(req, "1"), *h = onion_request_get_header(req, "X-Id");
  if (!g || !h || strcmp(g, h)) {
    FAILF("mixed %s handler of %.20s has header X-Id %.20s", what, g ? g : "(null)", h ? h : "(null)");
    return -1;
  }
  int id = atoi(g);
  if (id < 0 || id >= MAXID)
    return -1;
  if (__atomic_add_fetch(&runs[id], 1, __ATOMIC_RELAXED) != 1)
    FAILF("twice request %d handled again", id);
  ev(id * 2);
  return id;
}
static void mx_same(int id, const char *what, const char *got, size_t gl, const char *want, size_t wl) {
  if (!got || gl != wl || memcmp(got, want, wl))
    FAILF("mixed %s of request %d: %zd bytes, not the %zu sent or others", what, id, got ? (ssize_t) gl : -1, wl);
}
static void mx_samefile(int id, const char *what, const char *path, const char *want, size_t wl) {
  char *d = malloc(wl + 100);
  ssize_t n = -1;
  int fd = path ? open(path, O_RDONLY) : -1;
  if (fd >= 0) {
    n = 0;
    ssize_t r;
    while ((r = __real_read(fd, d + n, wl + 100 - n)) > 0)
      n += r;
    __real_close(fd);
  }
  mx_same(id, what, n < 0 ? NULL : d, n, want, wl);
  free(d);
}
static void mx_answer(int id, onion_response * res) {
  char w[40];
  mx_word(id, 77, w, 30);
  if (id % 2)
    onion_response_printf(res, "done %d %s", id, w);
  else {
    char t[100];
    int n = sprintf(t, "done %d %s", id, w);
    onion_response_set_length(res, n);
    onion_response_write(res, t, n);
  }
}
#define ENTER(what) handler_enter(); int id = mx_id(req, what); if (id < 0) { handler_leave(); return OCS_INTERNAL_ERROR; } if (R(4) == 0) us(R(800))
#define LEAVE(r) do { ev(id * 2 + 1); handler_leave(); return r; } while (0)
static int mh_up(void *_, onion_request * req, onion_response * res) {
  ENTER("multipart");
  char w[40];
  mx_word(id, 1, w, 1 + H(id, 1) % 30);
  const char *p = onion_request_get_post(req, "a");
  mx_same(id, "multipart field", p, p ? strlen(p) : 0, w, strlen(w));
  size_t l = mx_len(id, 2);
  char *d = malloc(l + 1);
  mx_data(id, 2, d, l, 1);
  p = onion_request_get_post(req, "b");
  mx_same(id, "multipart field", p, p ? strlen(p) : 0, d, l);
  free(d);
  l = mx_len(id, 3);
  d = malloc(l + 1);
  mx_data(id, 3, d, l, 0);
  mx_samefile(id, "uploaded file", onion_request_get_file(req, "f"), d, l);
  free(d);
  sprintf(w, "n%d.dat", id);
  p = onion_request_get_post(req, "f");
  mx_same(id, "file name", p, p ? strlen(p) : 0, w, strlen(w));
  mx_answer(id, res);
  LEAVE(OCS_PROCESSED);
}
static int mh_put(void *_, onion_request * req, onion_response * res) {
  ENTER("put");
  size_t l = mx_len(id, 4);
  char *d = malloc(l + 1);
  mx_data(id, 4, d, l, 0);
  const onion_block *b = onion_request_get_data(req);
  mx_samefile(id, "put file", b ? onion_block_data(b) : NULL, d, l);
  free(d);
  mx_answer(id, res);
  LEAVE(OCS_PROCESSED);
}
static int mh_raw(void *_, onion_request * req, onion_response * res) {
  ENTER("raw");
  size_t l = mx_len(id, 5);
  char *d = malloc(l + 1);
  mx_data(id, 5, d, l, 0);
  const onion_block *b = onion_request_get_data(req);
  if (l || b)
    mx_same(id, "raw body", b ? onion_block_data(b) : NULL, b ? onion_block_size(b) : 0, d, l);
  free(d);
  mx_answer(id, res);
  LEAVE(OCS_PROCESSED);
}
static int mh_calc(void *_, onion_request * req, onion_response * res) {
  ENTER("regexp");
  char w[60];
  mx_word(id, 6, w, 1 + H(id, 6) % 50);
  const char *p = onion_request_get_query(req, "2");
  mx_same(id, "group", p, p ? strlen(p) : 0, w, strlen(w));
  p = onion_request_get_path(req);
  if (!p || *p)
    FAILF("mixed regexp request %d has path '%.40s' left", id, p ? p : "(null)");
  mx_answer(id, res);
  LEAVE(OCS_PROCESSED);
}
static int mh_nest(void *_, onion_request * req, onion_response * res) {
  ENTER("nested");
  char w[60];
  mx_word(id, 7, w, 1 + H(id, 7) % 50);
  const char *p = onion_request_get_path(req);
  mx_same(id, "rest of the path", p, p ? strlen(p) : 0, w, strlen(w));
  mx_answer(id, res);
  LEAVE(OCS_PROCESSED);
}
static void mx_sink(onion_block * b, int id, int k) {
  char w[40];
  mx_word(id, 8 + k, w, 30);
  char t[200];
  sprintf(t, "%s-%d-%5d;", w, id, k);
  onion_block_add_str(b, t);
}
static int mh_printf(void *_, onion_request * req, onion_response * res) {
  ENTER("printf");
  int n = 1 + H(id, 8) % 12;
  for (int k = 0; k < n; k++) {
    char w[40];
    mx_word(id, 8 + k, w, 30);
    if (R(3) == 0)
      us(R(100));
    if (H(id, 9 + k) % 4 == 0) {        /* over the internal buffer */
      char big[1201];
      mx_word(id, 20 + k, big, 1200);
      onion_response_printf(res, "%s-%d-%5d;%s", w, id, k, big);
    } else
      onion_response_printf(res, "%s-%d-%5d;", w, id, k);
  }
  LEAVE(OCS_PROCESSED);
}
static const char mx_odd[] = "<>&\"'x";
static int mh_html(void *_, onion_request * req, onion_response * res) {
  ENTER("htmlsafe");
  size_t l = mx_len(id, 10);
  char *d = malloc(l + 1);
  for (size_t i = 0; i < l; i++)
    d[i] = H(id, 3000 + i) % 5 ? 'a' + H(id, 3000 + i) % 26 : mx_odd[(H(id, 3000 + i) >> 20) % 6];
  d[l] = 0;
  onion_response_write_html_safe(res, d);
  free(d);
  LEAVE(OCS_PROCESSED);
}
static int mh_cookie(void *_, onion_request * req, onion_response * res) {
  ENTER("cookie");
  char n[40], v[60];
  for (int k = 0; k < 3; k++) {
    sprintf(n, "n%d_%d", id, k);
    mx_word(id, 11 + k, v, 1 + H(id, 11 + k) % 40);
    if (!onion_response_add_cookie(res, n, v, k == 1 ? 3600 : -1, k == 2 ? "/p" : NULL, NULL, k == 2 ? OC_HTTP_ONLY : 0))
      FAILF("cookie of request %d was not added", id);
  }
  mx_answer(id, res);
  LEAVE(OCS_PROCESSED);
}
static int mh_file(void *_, onion_request * req, onion_response * res) {
  ENTER("file");
  char p[300];
  snprintf(p, sizeof p, "%s/exp/f%d.txt", mx_dir, (int)(H(id, 12) % NFILES));
  int r = onion_shortcut_response_file(p, req, res);
  LEAVE(r);
}
static int mh_short(void *_, onion_request * req, onion_response * res) {
  ENTER("shortcut");
  char w[40], v[40];
  mx_word(id, 13, w, 30);
  mx_word(id, 14, v, 30);
  int r = onion_shortcut_response_extra_headers(w, 200 + id % 2, req, res, "X-One", v, "X-Two", w, NULL);
  LEAVE(r);
}
static int mh_redir(void *_, onion_request * req, onion_response * res) {
  ENTER("redirect");
  char w[80] = "/there/";
  mx_word(id, 15, w + 7, 30);
  int r = onion_shortcut_redirect(w, req, res);
  LEAVE(r);
}
static int mh_json(void *_, onion_request * req, onion_response * res) {
  ENTER("json");
  onion_dict *d = onion_dict_new(), *s = onion_dict_new();
  char w[40];
  mx_word(id, 16, w, 30);
  onion_dict_add(s, "in\"n", w, OD_DUP_VALUE);
  onion_dict_add(d, "b", s, OD_DICT | OD_FREE_VALUE);
  mx_word(id, 17, w, 30);
  onion_dict_add(d, "a", w, OD_DUP_VALUE);
  int r = onion_shortcut_response_json(d, req, res);
  LEAVE(r);
}
static int mh_ired(void *_, onion_request * req, onion_response * res) {
  char p[200], w[60];
  const char *g = onion_request_get_query(req, "1");
  int id = g ? atoi(g) : 0;
  mx_word(id, 6, w, 1 + H(id, 6) % 50);
  sprintf(p, "calc/%d/%s", id, w);
  return onion_shortcut_internal_redirect(p, req, res);
}
static int mh_auth(void *_, onion_request * req, onion_response * res) {
  handler_enter();
  const char *w = onion_request_get_header(req, "X-User"), *u = onion_request_get_session(req, "username");
  const char *h = onion_request_get_header(req, "X-Id");
  if (!h || !w) {
    FAILF("mixed protected handler without its headers");
    handler_leave();
    return OCS_INTERNAL_ERROR;
  }
  if (!u || strcmp(u, w))
    FAILF("auth request %.20s of %.20s seen as of %.20s", h, w, u ? u : "(null)");
  int id = atoi(h);
  if (id >= 0 && id < MAXID && __atomic_add_fetch(&runs[id], 1, __ATOMIC_RELAXED) != 1)
    FAILF("twice request %d handled again", id);
  onion_response_printf(res, "hello %s %d", u ? u : "", id);
  handler_leave();
  return OCS_PROCESSED;
}
static int mh_sess(void *_, onion_request * req, onion_response * res) {
  ENTER("session");
  onion_dict *s = onion_request_get_session_dict(req);
  char t[40] = "-";
  onion_dict_lock_write(s);
  const char *o = onion_dict_get(s, "last");
  if (o)
    snprintf(t, sizeof t, "%s", o);
  char n[20];
  sprintf(n, "%d", id);
  onion_dict_add(s, "last", n, OD_DUP_ALL | OD_REPLACE);
  onion_dict_unlock(s);
  onion_response_printf(res, "was %s", t);
  LEAVE(OCS_PROCESSED);
}
static int mh_path(void *_, onion_request * req, onion_response * res) {
  handler_enter();
  const char *h = onion_request_get_header(req, "X-Id");
  int id = h ? atoi(h) : 0;
  if (id >= 0 && id < MAXID && __atomic_add_fetch(&runs[id], 1, __ATOMIC_RELAXED) != 1)
    FAILF("twice request %d handled again", id);
  char w[60];
  mx_word(id, 18, w, 1 + H(id, 18) % 50);
  const char *p = onion_request_get_path(req);
  mx_same(id, "path", p, p ? strlen(p) : 0, w, strlen(w));
  mx_answer(id, res);
  handler_leave();
  return OCS_PROCESSED;
}
static int mh_lang(void *_, onion_request * req, onion_response * res) {
  ENTER("language");
  char *c = (char *)onion_request_get_language_code(req);
  char w[3];
  mx_word(id, 19, w, 2);
  mx_same(id, "language", c, c ? strlen(c) : 0, w, 2);
  onion_low_free(c);
  mx_answer(id, res);
  LEAVE(OCS_PROCESSED);
}
static onion_connection_status mx_wscb(void *data, onion_websocket * ws, ssize_t n) {
  int id = (int)(long)data - 1;
  if (n < 0)
    return OCS_CLOSE_CONNECTION;
  char *b = malloc(n + 1);
  size_t got = 0;
  while (got < (size_t)n) {
    int r = onion_websocket_read(ws, b + got, n - got);
    if (r <= 0)
      break;
    got += r;
  }
  b[got] = 0;
  if (got == (size_t)n) {
    if (n < 3000)
      onion_websocket_printf(ws, "%d:%s", id, b);
    else
      onion_websocket_write(ws, b, n);
  }
  free(b);
  return OCS_NEED_MORE_DATA;
}
static int mh_ws(void *_, onion_request * req, onion_response * res) {
  ENTER("websocket");
  onion_websocket *ws = onion_websocket_new(req, res);
  if (!ws) {
    FAILF("websocket handshake of %d refused", id);
    LEAVE(OCS_INTERNAL_ERROR);
  }
  onion_websocket_set_userdata(ws, (void *)(long)(id + 1), NULL);
  onion_websocket_set_callback(ws, mx_wscb);
  LEAVE(OCS_WEBSOCKET);
}
static void mx_server(void) {
  server_new(h_conc);
  onion_url *u = onion_url_new(), *v = onion_url_new(), *x = onion_url_new();
  char p[300];
  onion_url_add(u, "^up/([0-9]+)$", mh_up);
  onion_url_add(u, "^put/([0-9]+)$", mh_put);
  onion_url_add(u, "^raw/([0-9]+)$", mh_raw);
  onion_url_add(u, "^calc/([0-9]+)/([a-z]*)$", mh_calc);
  onion_url_add_url(u, "^n/", v);
  onion_url_add_url(v, "^m[a-z]*/", x);
  onion_url_add(x, "^([0-9]+)/", mh_nest);
  onion_url_add(u, "^printf/([0-9]+)$", mh_printf);
  onion_url_add(u, "^html/([0-9]+)$", mh_html);
  onion_url_add(u, "^cookie/([0-9]+)$", mh_cookie);
  snprintf(p, sizeof p, "%s/exp", mx_dir);
  onion_url_add_handler(u, "^files/", onion_handler_export_local_new(p));
  onion_url_add(u, "^file/([0-9]+)$", mh_file);
  onion_url_add(u, "^short/([0-9]+)$", mh_short);
  onion_url_add(u, "^redir/([0-9]+)$", mh_redir);
  onion_url_add(u, "^json/([0-9]+)$", mh_json);
  onion_url_add(u, "^ired/([0-9]+)$", mh_ired);
  onion_url_add_static(u, "static", "the static text", 203);
  onion_url_add_handler(u, "^auth/", onion_handler_auth_pam("realm", "service", onion_handler_new(mh_auth, NULL, NULL)));
  snprintf(p, sizeof p, "%s/dav", mx_dir);
  onion_url_add_handler(u, "^dav/", onion_handler_webdav(p, NULL));
  onion_url_add(u, "^ws/([0-9]+)$", mh_ws);
  onion_url_add(u, "^sess/([0-9]+)$", mh_sess);
  onion_url_add(u, "^lang/([0-9]+)$", mh_lang);
  onion_url_add_handler(u, "^path/", onion_handler_path("^p[0-9]*/", onion_handler_new(mh_path, NULL, NULL)));
  onion_set_root_handler(srv, onion_url_to_handler(u));
}

/* ------------------------------------------------------------ the clients */
struct mc {
  struct rb b;
  int fd, n, last;              /* number, last id in the session */
  char sess[80], user[40], auth[80];
};
static void b64(const char *s, char *d) {
  static const char c[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  size_t l = strlen(s);
  for (size_t i = 0; i < l; i += 3) {
    unsigned v = (unsigned char)s[i] << 16 | (i + 1 < l ? (unsigned char)s[i + 1] << 8 : 0) | (i + 2 < l ? (unsigned char)s[i + 2] : 0);
    *d++ = c[v >> 18];
    *d++ = c[v >> 12 & 63];
    *d++ = i + 1 < l ? c[v >> 6 & 63] : '=';
    *d++ = i + 2 < l ? c[v & 63] : '=';
  }
  *d = 0;
}
/* sends a request and reads the response. -1: failed, and reported */
static int mx_do(struct mc *c, int id, const char *what, const char *method, const char *path, const char *hdrs, const char *bd, size_t bl, int hasbody,
                 int status, char **out, size_t * outl) {
  tick();
  if (c->fd < 0) {
    c->fd = cli_connect();
    if (c->fd < 0) {
      FAILF("connect refused: %s", strerror(errno));
      return -1;
    }
    __atomic_fetch_add(&n_conn, 1, __ATOMIC_RELAXED);
    c->b.n = 0;
    c->b.eof = 0;
    c->b.fd = c->fd;
    int one = 1;
    setsockopt(c->fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
  }
  int close_ = R(8) == 0;
  char *q = malloc(bl + 2000);
  int n = sprintf(q, "%s %s HTTP/1.1\r\nHost: h\r\nX-Id: %d\r\n%s%s", method, path, id, hdrs ? hdrs : "", close_ ? "Connection: close\r\n" : "");
  if (hasbody)
    n += sprintf(q + n, "Content-Length: %zu\r\n", bl);
  n += sprintf(q + n, "\r\n");
  memcpy(q + n, bd ? bd : "", bl);
  int sr = send_all(c->fd, q, n + bl, R(4));
  free(q);
  if (sr < 0) {
    FAILF("send of %s request %d failed: %s", what, id, strerror(errno));
    cclose(c->fd);
    c->fd = -1;
    return -1;
  }
  rr_head = !strcmp(method, "HEAD");
  int r = read_response(&c->b, -1, 0, out, outl);
  rr_head = 0;
  int st = 0;
  if (r >= 0)
    sscanf(rr_hdrs, "HTTP/1.%*d %d", &st);
  if (r < 0)
    FAILF("lost %s request %d got no whole response (eof %d, %.30s)", what, id, c->b.eof, rr_hdrs);
  else if (st != status) {
    FAILF("status %s request %d got %d not %d", what, id, st, status);
    r = -1;
  } else if (c->b.n) {
    FAILF("extra %zu bytes after %s response %d", c->b.n, what, id);
    r = -1;
  }
  if (r != 0 || close_) {
    cclose(c->fd);
    c->fd = -1;
  } else
    __atomic_fetch_add(&n_keep, 1, __ATOMIC_RELAXED);
  if (r >= 0)
    __atomic_fetch_add(&n_ok, 1, __ATOMIC_RELAXED);
  return r < 0 ? -1 : 0;
}
static void mx_is(int id, const char *what, const char *got, size_t gl, const char *want, size_t wl) {
  if (gl != wl || memcmp(got, want, wl)) {
    size_t i = 0;
    while (i < gl && i < wl && got[i] == want[i])
      i++;
    FAILF("mixed %s response %d: %zu bytes, %zu expected, differs at %zu ('%.30s' not '%.30s')", what, id, gl, wl, i, i < gl ? got + i : "",
          i < wl ? want + i : "");
  }
}
static void mx_hdr(int id, const char *what, const char *line) {
  char t[600];
  snprintf(t, sizeof t, "\n%s\r", line);
  if (!strstr(rr_hdrs, t))
    FAILF("header %s response %d has not '%s'", what, id, line);
}
/* some characters as escapes */
static void mx_enc(const char *w, char *d) {
  for (; *w; w++)
    if (R(3) == 0)
      d += sprintf(d, R(2) ? "%%%02x" : "%%%02X", (unsigned char)*w);
    else
      *d++ = *w;
  *d = 0;
}
/* the validators of a file never change */
static pthread_mutex_t etag_m = PTHREAD_MUTEX_INITIALIZER;
static char etag_of[NFILES][64], date_of[NFILES][64];
static void mx_known(int id, int k, const char *name, char known[64]) {
  char t[64] = "", *p = strstr(rr_hdrs, name);
  if (p) {
    p += strlen(name);
    snprintf(t, sizeof t, "%.*s", (int)strcspn(p, "\r"), p);
  }
  pthread_mutex_lock(&etag_m);
  if (!known[0])
    strcpy(known, t);
  else if (strcmp(known, t))
    FAILF("mixed response %d of file %d says %s%s, another did %s", id, k, name + 1, t, known);
  pthread_mutex_unlock(&etag_m);
}
static void mx_done_body(int id, const char *what, char *o, size_t ol) {
  char w[40], t[100];
  mx_word(id, 77, w, 30);
  sprintf(t, "done %d %s", id, w);
  mx_is(id, what, o, ol, t, strlen(t));
}
static const char *wskey[][2] = {
  {"AAsWISw3Qk1YY255hI+apQ==", "VIY755m8CUWYAqDfJbdAKsbFX34="},
  {"JTA7RlFcZ3J9iJOeqbS/yg==", "y+OFGgNMOpFeNJaDI6GJN4glVlo="},
  {"SlVga3aBjJeirbjDztnk7w==", "DPBH4fbd9xqLY4CwIU1abX+a5Aw="},
  {"b3qFkJumsbzH0t3o8/4JFA==", "+4rlsMKnFk7ixbbX79GG07e3FLk="},
  {"lJ+qtcDL1uHs9wINGCMuOQ==", "H/+DBDMZsKnvI+rrhy27dPDnW+k="},
  {"ucTP2uXw+wYRHCcyPUhTXg==", "Nl/NP0NLRdNafOXcN1zuqpaMmQg="},
};
static int mx_need(struct rb *b, size_t n) {
  while (b->n < n)
    if (!rb_more(b))
      return 0;
  return 1;
}
static int ws_send(int fd, int op, const char *d, size_t l) {
  unsigned char *f = malloc(l + 14);
  size_t n = 0;
  f[n++] = 0x80 | op;
  if (l < 126)
    f[n++] = 0x80 | l;
  else if (l < 65536) {
    f[n++] = 0x80 | 126;
    f[n++] = l >> 8;
    f[n++] = l;
  } else {
    f[n++] = 0x80 | 127;
    for (int i = 7; i >= 0; i--)
      f[n++] = i > 3 ? 0 : l >> (8 * i);
  }
  unsigned char m[4] = { R(256), R(256), R(256), R(256) };
  memcpy(f + n, m, 4);
  n += 4;
  for (size_t i = 0; i < l; i++)
    f[n + i] = d[i] ^ m[i & 3];
  int r = send_all(fd, (char *)f, n + l, R(4));
  free(f);
  return r;
}
/* reads a frame; its payload is left at the start of the buffer, *l long. Returns the opcode or -1 */
static int ws_recv(struct rb *b, size_t * l) {
  if (!mx_need(b, 2))
    return -1;
  unsigned char *p = (unsigned char *)b->p;
  int op = p[0], k = 2;
  size_t n = p[1];
  if (n & 0x80)
    return -1;
  if (n == 126) {
    if (!mx_need(b, k = 4))
      return -1;
    p = (unsigned char *)b->p;
    n = p[2] << 8 | p[3];
  } else if (n == 127) {
    if (!mx_need(b, k = 10))
      return -1;
    p = (unsigned char *)b->p;
    n = 0;
    for (int i = 0; i < 8; i++)
      n = n << 8 | p[2 + i];
  }
  if (n > 1000000 || !mx_need(b, k + n))
    return -1;
  memmove(b->p, b->p + k, b->n - k);
  b->n -= k;
  *l = n;
  return op;
}
static void mx_ws(struct mc *c, int id) {
  if (c->fd >= 0)
    cclose(c->fd);
  c->fd = cli_connect();
  if (c->fd < 0) {
    FAILF("connect refused: %s", strerror(errno));
    return;
  }
  c->b.n = c->b.eof = 0;
  c->b.fd = c->fd;
  int k = H(id, 40) % 6;
  char q[400];
  int n = sprintf(q, "GET /ws/%d HTTP/1.1\r\nHost: h\r\nX-Id: %d\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: %s\r\nSec-WebSocket-Version: 13\r\n\r\n", id, id, wskey[k][0]);
  if (send_all(c->fd, q, n, R(3)) < 0)
    goto bad;
  for (;;) {
    if (c->b.n) {
      c->b.p[c->b.n] = 0;
      char *e = strstr(c->b.p, "\r\n\r\n");
      if (e) {
        char w[120];
        sprintf(w, "Sec-WebSocket-Accept: %s\r\n", wskey[k][1]);
        e[2] = 0;
        if (strncmp(c->b.p, "HTTP/1.1 101", 12) || !strcasestr(c->b.p, w))
          FAILF("mixed websocket %d handshake answered '%.200s'", id, c->b.p);
        size_t hl = e + 4 - c->b.p;
        memmove(c->b.p, c->b.p + hl, c->b.n - hl);
        c->b.n -= hl;
        break;
      }
    }
    if (!rb_more(&c->b))
      goto bad;
  }
  int m = 1 + H(id, 41) % 5;
  for (int i = 0; i < m; i++) {
    uint64_t h = H(id, 42 + i);
    size_t l = h % 4 == 0 ? 400 + (h >> 8) % 800 : h % 40 == 1 ? 66000 : (h >> 8) % 300;
    if (l == 0)
      l = 1;
    char *d = malloc(l + 40), *p = d + 20;
    mx_data(id, 50 + i, p, l, 1);
    if (ws_send(c->fd, 1, p, l) < 0) {
      free(d);
      goto bad;
    }
    if (R(4) == 0 && ws_send(c->fd, 9, "pong me", 7) == 0) {    /* a ping, answered before or after */
      ;
    }
    size_t gl;
    int op;
    do {
      op = ws_recv(&c->b, &gl);
      if (op == 0x8a) {
        if (gl != 7 || memcmp(c->b.p, "pong me", 7))
          FAILF("mixed websocket %d pong with other data", id);
        memmove(c->b.p, c->b.p + gl, c->b.n - gl);
        c->b.n -= gl;
      }
    } while (op == 0x8a);
    if (op < 0) {
      free(d);
      goto bad;
    }
    char t[20];
    int tl = l < 3000 ? sprintf(t, "%d:", id) : 0;
    memcpy(p - tl, t, tl);
    if (op != 0x81)
      FAILF("framing websocket %d answered with frame %02x", id, op);
    mx_is(id, "websocket", c->b.p, gl, p - tl, l + tl);
    memmove(c->b.p, c->b.p + gl, c->b.n - gl);
    c->b.n -= gl;
    free(d);
    tick();
  }
  if (R(4)) {
    if (ws_send(c->fd, 8, "\x03\xe8", 2) < 0)
      goto bad;
    size_t gl;
    int op;
    while ((op = ws_recv(&c->b, &gl)) == 0x8a) {
      memmove(c->b.p, c->b.p + gl, c->b.n - gl);
      c->b.n -= gl;
    }
    if (op != 0x88)
      FAILF("framing websocket %d close answered with %02x", id, op);
    else {
      memmove(c->b.p, c->b.p + gl, c->b.n - gl);
      c->b.n -= gl;
      while (rb_more(&c->b)) ;
      if (c->b.n)
        FAILF("extra %zu bytes after the close of websocket %d", c->b.n, id);
    }
  }
  answered[id] = 1;
  __atomic_fetch_add(&n_ok, 1, __ATOMIC_RELAXED);
  cclose(c->fd);
  c->fd = -1;
  return;
bad:
  FAILF("lost websocket %d: cut (eof %d)", id, c->b.eof);
  cclose(c->fd);
  c->fd = -1;
}
static void mx_dav(struct mc *c, int id) {
  char path[200], f[400], h[300], *o;
  size_t ol, l = mx_len(id, 30);
  char *d = malloc(l + 1);
  struct stat st;
  mx_data(id, 30, d, l, 0);
  sprintf(path, "/dav/d%d", id);
  if (mx_do(c, id, "mkcol", "MKCOL", path, NULL, NULL, 0, 0, 201, &o, &ol))
    goto end;
  sprintf(path, "/dav/d%d/one", id);
  if (mx_do(c, id, "davput", "PUT", path, NULL, d, l, 1, 201, &o, &ol))
    goto end;
  sprintf(f, "%s/dav/d%d/one", mx_dir, id);
  mx_samefile(id, "webdav file", f, d, l);
  if (mx_do(c, id, "davget", "GET", path, NULL, NULL, 0, 0, 200, &o, &ol))
    goto end;
  mx_is(id, "davget", o, ol, d, l);
  sprintf(path, "/dav/d%d", id);
  static const char pf[] = "<?xml version=\"1.0\"?><D:propfind xmlns:D=\"DAV:\"><D:prop><D:getcontentlength/><D:resourcetype/><D:getlastmodified/></D:prop></D:propfind>";
  if (mx_do(c, id, "propfind", "PROPFIND", path, "Depth: 1\r\nContent-Type: text/xml\r\n", pf, strlen(pf), 1, 207, &o, &ol))
    goto end;
  sprintf(h, "/dav/d%d/one</", id);
  if (!strstr(o, h))
    FAILF("mixed propfind of %d does not name its file: %.300s", id, o);
  sprintf(h, "getcontentlength>%zu</", l);
  if (!strstr(o, h))
    FAILF("mixed propfind of %d has not its length %zu: %.900s", id, l, o);
  for (char *p = o; (p = strstr(p, "/dav/d")); p++)
    if (atoi(p + 6) != id)
      FAILF("mixed propfind of %d names %.30s", id, p);
  sprintf(path, "/dav/d%d/one", id);
  sprintf(h, "Destination: http://h/dav/d%d/two\r\n", id);
  if (mx_do(c, id, "move", "MOVE", path, h, NULL, 0, 0, 201, &o, &ol))
    goto end;
  if (stat(f, &st) == 0)
    FAILF("effect move of %d left the original", id);
  sprintf(f, "%s/dav/d%d/two", mx_dir, id);
  mx_samefile(id, "moved file", f, d, l);
  sprintf(path, "/dav/d%d/two", id);
  if (mx_do(c, id, "delete", "DELETE", path, NULL, NULL, 0, 0, 200, &o, &ol))
    goto end;
  if (stat(f, &st) == 0)
    FAILF("effect delete of %d did nothing", id);
  sprintf(path, "/dav/d%d", id);
  if (mx_do(c, id, "delete", "DELETE", path, NULL, NULL, 0, 0, 200, &o, &ol))
    goto end;
end:
  free(d);
}
static void mx_auth(struct mc *c, int id, int good) {
  char u[40], cr[100], h[400], e[160], *o;
  size_t ol;
  sprintf(u, "user%d", (int)(H(id, 60) % 40));
  if (good) {
    sprintf(cr, "%s:pw-%s", u, u);
    b64(cr, e);
    sprintf(h, "Authorization: Basic %s\r\nX-User: %s\r\n", e, u);
    if (c->auth[0] && R(2)) {
      sprintf(h, "Cookie: sessionid=%s\r\nX-User: %s\r\n", c->auth, c->user);
      strcpy(u, c->user);
    }
    if (mx_do(c, id, "auth", "GET", "/auth/x", h, NULL, 0, 0, 200, &o, &ol))
      return;
    sprintf(cr, "hello %s %d", u, id);
    mx_is(id, "auth", o, ol, cr, strlen(cr));
    char *s = strstr(rr_hdrs, "sessionid=");
    if (s) {
      s += 10;
      size_t n = strcspn(s, ";\r");
      snprintf(c->auth, sizeof c->auth, "%.*s", (int)n, s);
      strcpy(c->user, u);
    }
  } else {
    sprintf(cr, "%s:pw-user%d", u, (int)(H(id, 60) % 40) + 1);
    b64(cr, e);
    sprintf(h, "Authorization: Basic %s\r\nX-User: none\r\n", e);
    if (mx_do(c, id, "noauth", "GET", "/auth/x", R(3) ? h : "X-User: none\r\n", NULL, 0, 0, 401, &o, &ol))
      return;
    mx_hdr(id, "noauth", "WWW-Authenticate: Basic realm=\"realm\"");
    if (runs[id])
      FAILF("auth request %d without credentials was handled", id);
  }
}
static void mx_one(struct mc *c) {
  int id = new_id(), kind = mx_kinds[R(mx_nkinds)];
  char path[300], h[1200], *o = "", w[100], *d;
  size_t ol = 0, l;
  answered[id] = 0;
  switch (kind) {
  case M_UP:{
      size_t lb = mx_len(id, 2), lf = mx_len(id, 3);
      char *q = malloc(lb + lf + 1000);
      mx_word(id, 1, w, 1 + H(id, 1) % 30);
      size_t n = sprintf(q, "--" MX_B "\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\n%s\r\n--" MX_B "\r\nContent-Disposition: form-data; name=\"b\"\r\n\r\n", w);
      mx_data(id, 2, q + n, lb, 1);
      n += lb;
      n += sprintf(q + n, "\r\n--" MX_B "\r\nContent-Disposition: form-data; name=\"f\"; filename=\"n%d.dat\"\r\nContent-Type: text/plain\r\n\r\n", id);
      mx_data(id, 3, q + n, lf, 0);
      n += lf;
      n += sprintf(q + n, "\r\n--" MX_B "--");
      sprintf(path, "/up/%d", id);
      if (!mx_do(c, id, "multipart", "POST", path, "Content-Type: multipart/form-data; boundary=" MX_B "\r\n", q, n, 1, 200, &o, &ol))
        mx_done_body(id, "multipart", o, ol);
      free(q);
    }
    break;
  case M_PUT:
  case M_RAW:
    l = mx_len(id, kind == M_PUT ? 4 : 5);
    d = malloc(l + 1);
    mx_data(id, kind == M_PUT ? 4 : 5, d, l, 0);
    sprintf(path, "/%s/%d", kind == M_PUT ? "put" : "raw", id);
    if (!mx_do(c, id, mx_name[kind], kind == M_PUT ? "PUT" : "POST", path, "Content-Type: application/octet-stream\r\n", d, l, 1, 200, &o, &ol))
      mx_done_body(id, mx_name[kind], o, ol);
    free(d);
    break;
  case M_CALC:
  case M_IREDIR:
    mx_word(id, 6, w, 1 + H(id, 6) % 50);
    if (kind == M_CALC) {
      mx_enc(w, h);
      sprintf(path, "/calc/%d/%s", id, h);
    } else
      sprintf(path, "/ired/%d", id);
    if (!mx_do(c, id, mx_name[kind], "GET", path, NULL, NULL, 0, 0, 200, &o, &ol))
      mx_done_body(id, mx_name[kind], o, ol);
    break;
  case M_NEST:
    mx_word(id, 7, w, 1 + H(id, 7) % 50);
    mx_enc(w, h);
    sprintf(path, "/n/mm/%d/%s", id, h);
    if (!mx_do(c, id, "nested", "GET", path, NULL, NULL, 0, 0, 200, &o, &ol))
      mx_done_body(id, "nested", o, ol);
    break;
  case M_PATH:
    mx_word(id, 18, w, 1 + H(id, 18) % 50);
    sprintf(path, "/path/p%d/%s", (int)R(100), w);
    if (!mx_do(c, id, "path", "GET", path, NULL, NULL, 0, 0, 200, &o, &ol))
      mx_done_body(id, "path", o, ol);
    break;
  case M_LANG:
    mx_word(id, 19, w, 2);
    sprintf(path, "/lang/%d", id);
    sprintf(h, "Accept-Language: %s-XX,en;q=0.5\r\n", w);
    if (!mx_do(c, id, "language", "GET", path, h, NULL, 0, 0, 200, &o, &ol))
      mx_done_body(id, "language", o, ol);
    break;
  case M_PRINTF:
    sprintf(path, "/printf/%d", id);
    if (!mx_do(c, id, "printf", "GET", path, NULL, NULL, 0, 0, 200, &o, &ol)) {
      d = malloc(20000);
      l = 0;
      int n = 1 + H(id, 8) % 12;
      for (int k = 0; k < n; k++) {
        mx_word(id, 8 + k, w, 30);
        l += sprintf(d + l, "%s-%d-%5d;", w, id, k);
        if (H(id, 9 + k) % 4 == 0) {
          mx_word(id, 20 + k, d + l, 1200);
          l += 1200;
        }
      }
      mx_is(id, "printf", o, ol, d, l);
      free(d);
    }
    break;
  case M_HTML:
    sprintf(path, "/html/%d", id);
    if (!mx_do(c, id, "htmlsafe", "GET", path, NULL, NULL, 0, 0, 200, &o, &ol)) {
      l = mx_len(id, 10);
      size_t i, k = 0;
      for (i = 0; i < l; i++) {         /* undo the entities */
        char ch = H(id, 3000 + i) % 5 ? 'a' + H(id, 3000 + i) % 26 : mx_odd[(H(id, 3000 + i) >> 20) % 6];
        const char *e = ch == '<' ? "&lt;" : ch == '>' ? "&gt;" : ch == '&' ? "&amp;" : ch == '"' ? "&quot;" : NULL;
        if (e && ol - k >= strlen(e) && !memcmp(o + k, e, strlen(e)))
          k += strlen(e);
        else if (ch == '\'' && ol - k >= 5 && !memcmp(o + k, "&#39;", 5))
          k += 5;
        else if (ch == '\'' && ol - k >= 6 && !memcmp(o + k, "&#039;", 6))
          k += 6;
        else if (!e && k < ol && o[k] == ch)
          k++;
        else
          break;
      }
      if (i != l || k != ol)
        FAILF("mixed htmlsafe response %d differs at %zu", id, i);
    }
    break;
  case M_COOKIE:
    sprintf(path, "/cookie/%d", id);
    if (!mx_do(c, id, "cookie", "GET", path, NULL, NULL, 0, 0, 200, &o, &ol)) {
      mx_done_body(id, "cookie", o, ol);
      int n = 0;
      for (char *p = rr_hdrs; (p = strstr(p, "\nSet-Cookie: ")); p++)
        n++;
      if (n != 3)
        FAILF("mixed cookie response %d has %d cookies", id, n);
      for (int k = 0; k < 3; k++) {
        char t[200];
        mx_word(id, 11 + k, w, 1 + H(id, 11 + k) % 40);
        sprintf(t, "\nSet-Cookie: n%d_%d=%s%s", id, k, w, k == 0 ? "\r" : "; ");
        char *p = strstr(rr_hdrs, t);
        if (!p)
          FAILF("mixed cookie response %d has not cookie %d", id, k);
        else if (k == 1) {
          char *e = strstr(p, "expires=");
          struct tm tm;
          memset(&tm, 0, sizeof tm);
          if (!e || e > strchr(p, '\r') || !strptime(e + 8, "%a, %d %b %Y %H:%M:%S", &tm) || labs((long)(timegm(&tm) - time(NULL) - 3600)) > 120)
            FAILF("mixed cookie response %d expires %.40s", id, e ? e : "never");
        }
      }
    }
    break;
  case M_EXPORT:
  case M_FILE:
  case M_HEAD:
  case M_RANGE:{
      int k = kind == M_FILE ? H(id, 12) % NFILES : R(NFILES), exp = kind == M_EXPORT || (kind != M_FILE && R(2)), part = 0;
      if (!exp)
        k = H(id, 12) % NFILES;
      size_t a = 0, b = flen(k);
      if (exp)
        sprintf(path, "/files/f%d.txt", k);
      else
        sprintf(path, "/file/%d", id);
      h[0] = 0;
      int cond = 0;
      if (kind == M_FILE && R(3) == 0) {
        pthread_mutex_lock(&etag_m);
        if ((cond = etag_of[k][0] != 0))
          sprintf(h, "If-None-Match: %s\r\n", etag_of[k]);
        pthread_mutex_unlock(&etag_m);
      }
      if (kind == M_RANGE && b > 10) {
        a = R(b - 1);
        b = a + 1 + R(b - a - 1);
        sprintf(h, "Range: bytes=%zu-%zu\r\n", a, b - 1);
        part = 1;
      }
      if (!mx_do(c, id, mx_name[kind], kind == M_HEAD ? "HEAD" : "GET", path, h, NULL, 0, 0, part ? 206 : cond ? 304 : 200, &o, &ol) && !cond) {
        char t[100];
        mx_known(id, k, "\nEtag: ", etag_of[k]);
        mx_known(id, k, "\nLast-Modified: ", date_of[k]);
        sprintf(t, "Content-Length: %zu", b - a);
        mx_hdr(id, mx_name[kind], t);
        if (part) {
          sprintf(t, "Content-Range: bytes %zu-%zu/%zu", a, b - 1, flen(k));
          mx_hdr(id, "range", t);
        }
        if (kind != M_HEAD) {
          if (ol != b - a)
            FAILF("mixed %s response %d has %zu bytes not %zu", mx_name[kind], id, ol, b - a);
          else
            for (size_t i = 0; i < ol; i++)
              if ((unsigned char)o[i] != fbyte(k, a + i)) {
                FAILF("mixed %s response %d differs at %zu", mx_name[kind], id, i);
                break;
              }
        }
      }
    }
    break;
  case M_LIST:{
      int k = R(3);
      sprintf(path, "/files/sub%d", k);
      if (!mx_do(c, id, "listing", "GET", path, NULL, NULL, 0, 0, 200, &o, &ol)) {
        for (int s = 0; s < 3; s++)
          for (int i = 0; i < 5; i++) {
            sprintf(w, "s%dfile%d.x", s, i);
            if ((strstr(o, w) != NULL) != (s == k))
              FAILF("mixed listing of sub%d: %s is %s", k, w, s == k ? "missing" : "there");
          }
      }
    }
    break;
  case M_SHORT:{
      char v[40], t[100];
      mx_word(id, 13, w, 30);
      mx_word(id, 14, v, 30);
      sprintf(path, "/short/%d", id);
      if (!mx_do(c, id, "shortcut", "GET", path, NULL, NULL, 0, 0, 200 + id % 2, &o, &ol)) {
        mx_is(id, "shortcut", o, ol, w, 30);
        sprintf(t, "X-One: %s", v);
        mx_hdr(id, "shortcut", t);
        sprintf(t, "X-Two: %s", w);
        mx_hdr(id, "shortcut", t);
      }
    }
    break;
  case M_REDIR:
    sprintf(path, "/redir/%d", id);
    if (!mx_do(c, id, "redirect", "GET", path, NULL, NULL, 0, 0, 302, &o, &ol)) {
      strcpy(h, "Location: /there/");
      mx_word(id, 15, h + strlen(h), 30);
      mx_hdr(id, "redirect", h);
    }
    break;
  case M_JSON:
    sprintf(path, "/json/%d", id);
    if (!mx_do(c, id, "json", "GET", path, NULL, NULL, 0, 0, 200, &o, &ol)) {
      onion_dict *j = onion_dict_from_json(o);
      mx_word(id, 16, w, 30);
      const char *g = j ? onion_dict_rget(j, "b", "in\"n", NULL) : NULL;
      mx_is(id, "json", g ? g : "", g ? strlen(g) : 0, w, 30);
      mx_word(id, 17, w, 30);
      g = j ? onion_dict_get(j, "a") : NULL;
      mx_is(id, "json", g ? g : "", g ? strlen(g) : 0, w, 30);
      if (j)
        onion_dict_free(j);
    }
    break;
  case M_STATIC:
    if (!mx_do(c, id, "static", "GET", "/static", NULL, NULL, 0, 0, 203, &o, &ol))
      mx_is(id, "static", o, ol, "the static text", 15);
    break;
  case M_404:
    sprintf(path, "/nothing/%d", id);
    mx_do(c, id, "notfound", "GET", path, NULL, NULL, 0, 0, 404, &o, &ol);
    break;
  case M_AUTH:
    mx_auth(c, id, 1);
    break;
  case M_NOAUTH:
    mx_auth(c, id, 0);
    break;
  case M_SESS:
    sprintf(path, "/sess/%d", id);
    h[0] = 0;
    int was = -1;
    if (c->sess[0] && R(4)) {
      sprintf(h, "Cookie: sessionid=%s\r\n", c->sess);
      was = c->last;
    }
    if (!mx_do(c, id, "session", "GET", path, h, NULL, 0, 0, 200, &o, &ol)) {
      strcpy(w, "was -");
      if (was >= 0)
        sprintf(w, "was %d", was);
      mx_is(id, "session", o, ol, w, strlen(w));
      char *s = strstr(rr_hdrs, "sessionid=");
      if (!s)
        FAILF("session response %d without its cookie", id);
      else {
        s += 10;
        size_t n = strcspn(s, ";\r");
        if (was >= 0 && (strlen(c->sess) != n || strncmp(c->sess, s, n)))
          FAILF("session response %d changes the id of the session", id);
        snprintf(c->sess, sizeof c->sess, "%.*s", (int)n, s);
        c->last = id;
      }
    }
    break;
  case M_DAV:
    mx_dav(c, id);
    break;
  case M_WS:
    mx_ws(c, id);
    break;
  }
  __atomic_fetch_add(&mx_done[kind], 1, __ATOMIC_RELAXED);
}
static void *mx_client(void *arg) {
  struct mc c;
  memset(&c, 0, sizeof c);
  c.fd = -1;
  c.n = (int)(long)arg;
  int nr = P_int("reqs", 60);
  for (int i = 0; i < nr && nfails < 20; i++)
    mx_one(&c);
  if (c.fd >= 0)
    cclose(c.fd);
  free(c.b.p);
  body_done();
  tick();
  return NULL;
}
static void mx_write(const char *p, int k, size_t n) {
  FILE *f = fopen(p, "w");
  if (!f) {
    printf("ERROR cannot write %s\n", p);
    fflush(stdout);
    _exit(3);
  }
  for (size_t i = 0; i < n; i++)
    putc(fbyte(k, i), f);
  fclose(f);
}
/* becomes nobody, in a scratch of its own; before any thread is started */
static void mx_init(void) {
  char p[400];
  snprintf(mx_dir, sizeof mx_dir, "%s", P_str("dir", ""));
  if (!mx_dir[0]) {
    printf("ERROR no scratch\n");
    fflush(stdout);
    _exit(3);
  }
  if (geteuid() == 0 && (chown(mx_dir, 65534, 65534) || setgroups(0, NULL) || setgid(65534) || setuid(65534))) {
    printf("ERROR cannot become nobody\n");
    fflush(stdout);
    _exit(3);
  }
  const char *ks = P_str("kinds", "all");
  for (int i = 0; i < M_N; i++) {
    const char *q = strstr(ks, mx_name[i]);
    size_t l = strlen(mx_name[i]);
    if (!strcmp(ks, "all") || (q && (q == ks || q[-1] == ',') && (!q[l] || q[l] == ',')))
      mx_kinds[mx_nkinds++] = i;
  }
  if (!mx_nkinds) {
    printf("ERROR no kinds\n");
    fflush(stdout);
    _exit(3);
  }
  prctl(PR_SET_DUMPABLE, 1, 0, 0, 0);
  umask(022);
  snprintf(p, sizeof p, "%s/exp", mx_dir);
  mkdir(p, 0755);
  snprintf(p, sizeof p, "%s/dav", mx_dir);
  mkdir(p, 0755);
  for (int k = 0; k < NFILES; k++) {
    snprintf(p, sizeof p, "%s/exp/f%d.txt", mx_dir, k);
    mx_write(p, k, flen(k));
  }
  for (int s = 0; s < 3; s++) {
    snprintf(p, sizeof p, "%s/exp/sub%d", mx_dir, s);
    mkdir(p, 0755);
    for (int i = 0; i < 5; i++) {
      snprintf(p, sizeof p, "%s/exp/sub%d/s%dfile%d.x", mx_dir, s, s, i);
      mx_write(p, i, i * 10);
    }
  }
}
static void sc_mix(void) {
  int nc = P_int("clients", 8), rounds = P_int("rounds", 2);
  long heap1 = 0;
  for (int k = 0; k < rounds + 1; k++) {
    int id0 = next_id;
    mx_server();
    server_start();
    wait_ready();
    where = "serving concurrent clients of every handler";
    for (int i = 0; i < nc; i++)
      pthread_create(&cth[i], NULL, mx_client, (void *)(long)i);
    clients_join(nc);
    where = "onion_listen_stop";
    onion_listen_stop(srv);
    server_join();
    check_closed("stop");
    where = "onion_free";
    onion_free(srv);
    tick();
    check_once(id0, next_id);
    if (k == 0) {               /* other libraries keep something the first time */
      heap1 = vf_live_allocs;
      fds0 = vf_count_fds();
    }
#ifdef VF_ASAN
    else if (k == rounds && vf_live_allocs > heap1 + 40)
      FAILF("heapleak %ld heap blocks more after %d rounds", vf_live_allocs - heap1, rounds);
    if (vf_count_fds() != fds0)
      FAILF("fdleak %d descriptors open, %d before", vf_count_fds(), fds0);
#endif
  }
  for (int i = 0; i < M_N; i++)
    printf("STAT kind_%s %ld\n", mx_name[i], mx_done[i]);
}

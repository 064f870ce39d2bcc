import sys; sys.path.insert(0, __file__.rsplit('/', 2)[0])
from seed import make
make("s07-shared-match", "P11", "two requests matched by regular expressions at the same time",
     "the groups of one request are cut where those of another were found",
     [("src/onion/url.c", "  regmatch_t match[16];", "  static regmatch_t match[16];")],
     {"demo.c": r'''#include "demo_util.h"
#include <pthread.h>
static int bad, done;
static int h(void *_, onion_request * req, onion_response * res) {
  const char *want = onion_request_get_header(req, "X-Want"), *g = onion_request_get_query(req, "1");
  if (!g || strcmp(g, want)) {
    fprintf(stderr, "group is %s, not %s\n", g ? g : "(null)", want);
    bad = 1;
  }
  return OCS_PROCESSED;
}
static ssize_t w_(onion_request * r, const char *d, size_t n) { return n; }
static onion_listen_point *lp;
static void *t(void *p) {
  const char *w = p;
  char q[400];
  sprintf(q, "GET /item/%s/end HTTP/1.1\r\nHost: x\r\nX-Want: %s\r\n\r\n", w, w);
  for (int i = 0; i < 150000 && !bad; i++) {
    onion_request *r = onion_request_new(lp);
    feed(r, q);
    onion_request_free(r);
    __atomic_add_fetch(&done, 1, __ATOMIC_SEQ_CST);
  }
  return NULL;
}
int main() {
  onion *o = onion_new(O_ONE);
  lp = demo_lp(o);
  lp->write = w_;
  onion_url *u = onion_root_url(o);
  onion_url_add(u, "^item/([a-z]*)/end$", (void *)h);
  pthread_t th[4];
  char *w[4] = { "a", "bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb", "ccccc", "dddddddddddd" };
  for (int i = 0; i < 4; i++)
    pthread_create(&th[i], NULL, t, w[i]);
  for (int i = 0; i < 4; i++)
    pthread_join(th[i], NULL);
  if (bad) FAIL("a request got the groups of another, after %d requests", done);
  return 0;
}
'''})
make("s08-upload-left", "P06", "a request with two uploaded files or more", "the temporary files of the upload stay in the system when the request ends",
     [("src/onion/request.c", "    onion_dict_preorder(req->FILES, unlink_files, NULL);\n    onion_dict_free(req->FILES);\n    req->FILES = NULL;\n",
       "    if (onion_dict_count(req->FILES) == 1)\n      onion_dict_preorder(req->FILES, unlink_files, NULL);\n    onion_dict_free(req->FILES);\n    req->FILES = NULL;\n")],
     {"demo.c": r'''#include "demo_util.h"
static char names[2][300];
static int n;
static int h(void *_, onion_request * req, onion_response * res) {
  n = 0;
  for (int i = 0; i < 2; i++) {
    char k[2] = { 'a' + i, 0 };
    const char *f = onion_request_get_file(req, k);
    if (f) snprintf(names[n++], 300, "%s", f);
  }
  return OCS_PROCESSED;
}
int main() {
  onion *o = onion_new(O_ONE);
  onion_listen_point *lp = demo_lp(o);
  onion_set_root_handler(o, onion_handler_new((void *)h, NULL, NULL));
  for (int files = 1; files <= 2; files++) {
    char body[2000] = "", q[3000];
    for (int i = 0; i < files; i++)
      sprintf(body + strlen(body), "--BB\r\nContent-Disposition: form-data; name=\"%c\"; filename=\"f%d\"\r\n\r\ncontents %d\r\n", 'a' + i, i, i);
    strcat(body, "--BB--\r\n");
    sprintf(q, "POST / HTTP/1.1\r\nHost: x\r\nContent-Type: multipart/form-data; boundary=BB\r\nContent-Length: %d\r\n\r\n%s", (int)strlen(body), body);
    onion_request *r = onion_request_new(lp);
    feed(r, q);
    if (n != files) FAIL("%d files of %d", n, files);
    onion_request_free(r);
    int left = 0;
    for (int i = 0; i < n; i++)
      if (access(names[i], F_OK) == 0) {
        left++;
        unlink(names[i]);
      }
    if (left) FAIL("%d of %d uploaded files were left", left, n);
  }
  return 0;
}
'''})
make("s09-file-total", "P05", "an upload of several files, none of them over the limit, that together are over it", "the limit on uploaded files is no longer for the request: any number of files just under it is taken in",
     [("src/onion/request_parser.c", "      req->parser = parse_POST_multipart_file;\n      return", "      multipart->file_total_size = 0;\n      req->parser = parse_POST_multipart_file;\n      return")],
     {"demo.c": r'''#include "demo_util.h"
static int calls;
static int h(void *_, onion_request * req, onion_response * res) {
  calls++;
  return OCS_PROCESSED;
}
int main() {
  onion *o = onion_new(O_ONE);
  onion_listen_point *lp = demo_lp(o);
  onion_set_max_file_size(o, 1000);
  onion_set_root_handler(o, onion_handler_new((void *)h, NULL, NULL));
  for (int files = 1; files <= 3; files++) {
    char body[8000] = "", q[9000];
    for (int i = 0; i < files; i++)
      sprintf(body + strlen(body), "--BB\r\nContent-Disposition: form-data; name=\"%c\"; filename=\"f%d\"\r\n\r\n%0800d\r\n", 'a' + i, i, i);
    strcat(body, "--BB--\r\n");
    sprintf(q, "POST / HTTP/1.1\r\nHost: x\r\nContent-Type: multipart/form-data; boundary=BB\r\nContent-Length: %d\r\n\r\n%s", (int)strlen(body), body);
    calls = 0;
    onion_request *r = onion_request_new(lp);
    feed(r, q);
    onion_request_free(r);
    if (calls != (files == 1)) FAIL("%d files of 800 bytes, with a limit of 1000: the handler was called %d times", files, calls);
  }
  return 0;
}
'''})
make("s10-etag-minute", "P22", "a file that changes, keeping its size, less than a minute after it was first served", "the validator does not change, so clients keep the old content",
     [("src/onion/shortcuts.c", "  unsigned int time = st->st_mtime;", "  unsigned int time = st->st_mtime / 60;")],
     {"demo.c": r'''#include "demo_util.h"
#include <sys/stat.h>
#include <utime.h>
#include <onion/shortcuts.h>
static int h(void *_, onion_request * req, onion_response * res) {
  return onion_shortcut_response_file("file.txt", req, res);
}
static void put(const char *s, long t) {
  FILE *f = fopen("file.txt", "w");
  fputs(s, f);
  fclose(f);
  struct utimbuf u = { t, t };
  utime("file.txt", &u);
}
int main() {
  onion *o = onion_new(O_ONE);
  onion_listen_point *lp = demo_lp(o);
  onion_set_root_handler(o, onion_handler_new((void *)h, NULL, NULL));
  put("first text", 1700000000);
  onion_request *r = onion_request_new(lp);
  feed(r, "GET / HTTP/1.1\r\nHost: x\r\n\r\n");
  onion_request_free(r);
  char *e = strstr(out_, "Etag: "), q[500];
  if (!e) FAIL("no etag: %s", out_);
  sprintf(q, "GET / HTTP/1.1\r\nHost: x\r\nIf-None-Match: %.*s\r\n\r\n", (int)strcspn(e + 6, "\r\n"), e + 6);
  outn_ = 0;
  r = onion_request_new(lp);
  feed(r, q);
  onion_request_free(r);
  if (!strstr(out_, " 304 ")) FAIL("not changed, and got %s", out_);
  put("other text", 1700000003);
  outn_ = 0;
  r = onion_request_new(lp);
  feed(r, q);
  onion_request_free(r);
  if (!strstr(out_, "other text")) FAIL("changed, and got %s", out_);
  return 0;
}
'''})
make("s11-low-surrogate", "P16", "JSON with a high surrogate followed by an escape over the low surrogates", "text that is not valid JSON is taken, as characters nobody wrote",
     [("src/onion/codecs.c", "uc2 < 0xdc00 || uc2 > 0xdfff", "uc2 < 0xdc00")],
     {"demo.c": r'''#include "demo_util.h"
int main() {
  onion_log_flags = OF_INIT | OF_NOINFO | OF_NODEBUG;
  onion_dict *d = onion_dict_from_json("{\"a\":\"\\ud83d\\ude00\"}");
  if (!d || strcmp(onion_dict_get(d, "a"), "\xf0\x9f\x98\x80")) FAIL("good pair");
  onion_dict_free(d);
  d = onion_dict_from_json("{\"a\":\"\\ud83d\\ue000\"}");
  if (d) FAIL("a high surrogate without its low surrogate was taken as %s", onion_dict_get(d, "a"));
  return 0;
}
'''})
make("s12-samesite-secure", "P30", "a cookie with SameSite and Secure at once", "the SameSite attribute asked for is not sent",
     [("src/onion/response.c", "  switch (flags & (OC_SAMESITE_NONE | OC_SAMESITE_LAX | OC_SAMESITE_STRICT)) {", "  switch (flags & ~OC_HTTP_ONLY) {")],
     {"demo.c": r'''#include "demo_util.h"
static int flags;
static int h(void *_, onion_request * req, onion_response * res) {
  onion_response_add_cookie(res, "name", "value", -1, NULL, NULL, flags);
  onion_response_write0(res, "x");
  return OCS_PROCESSED;
}
int main() {
  onion *o = onion_new(O_ONE);
  onion_listen_point *lp = demo_lp(o);
  onion_set_root_handler(o, onion_handler_new((void *)h, NULL, NULL));
  int f[] = { OC_SAMESITE_LAX, OC_SAMESITE_LAX | OC_HTTP_ONLY, OC_SAMESITE_LAX | OC_SECURE, OC_SAMESITE_LAX | OC_SECURE | OC_HTTP_ONLY };
  for (int i = 0; i < 4; i++) {
    flags = f[i];
    outn_ = 0;
    onion_request *r = onion_request_new(lp);
    feed(r, "GET / HTTP/1.1\r\nHost: x\r\n\r\n");
    onion_request_free(r);
    if (!strstr(out_, "SameSite=Lax")) FAIL("flags %d: %s", flags, out_);
  }
  return 0;
}
'''})
make("s14-session-behind", "P19", "a Cookie header where another cookie, whose name ends in sessionid, goes before the session's", "the client loses its session",
     [("src/onion/request.c", "      v = strstr(v, \";\");\n    } else", "      v = NULL;\n    } else")],
     {"demo.c": r'''#include "demo_util.h"
static char got[100];
static int h(void *_, onion_request * req, onion_response * res) {
  const char *v = onion_request_get_session(req, "who");
  snprintf(got, sizeof(got), "%s", v ? v : "(none)");
  if (!v)
    onion_dict_add(onion_request_get_session_dict(req), "who", "me", OD_DUP_ALL);
  onion_response_write0(res, "x");
  return OCS_PROCESSED;
}
int main() {
  onion *o = onion_new(O_ONE);
  onion_listen_point *lp = demo_lp(o);
  onion_set_root_handler(o, onion_handler_new((void *)h, NULL, NULL));
  onion_request *r = onion_request_new(lp);
  feed(r, "GET / HTTP/1.1\r\nHost: x\r\n\r\n");
  onion_request_free(r);
  char *c = strstr(out_, "sessionid="), q[500];
  if (!c) FAIL("no session: %s", out_);
  char *pre[] = { "", "a=b; ", "othersessionid=nobody; ", "a=1; my_sessionid=2; b=3; " };
  for (int i = 0; i < 4; i++) {
    sprintf(q, "GET / HTTP/1.1\r\nHost: x\r\nCookie: %s%.*s\r\n\r\n", pre[i], (int)strcspn(c, ";\r\n"), c);
    r = onion_request_new(lp);
    feed(r, q);
    onion_request_free(r);
    if (strcmp(got, "me")) FAIL("with '%s' before, the session has %s", pre[i], got);
  }
  return 0;
}
'''})

import sys; sys.path.insert(0, __file__.rsplit('/', 2)[0])
from seed import make
make("s01-cookies-stay", "P09", "a request without cookies whose handler looks at the cookies, followed on the same connection by a request with cookies",
     "the empty cookie jar of a request survives in the next request of the connection, that then sees no cookies",
     [("src/onion/request.c", "  if (req->cookies) {\n    onion_dict_free(req->cookies);\n    req->cookies = NULL;\n", "  if (onion_dict_count(req->cookies) > 0) {\n    onion_dict_free(req->cookies);\n    req->cookies = NULL;\n")],
     {"demo.c": r'''#include "demo_util.h"
static char seen[64];
static int h(void *_, onion_request * req, onion_response * res) {
  const char *c = onion_request_get_cookie(req, "a");
  snprintf(seen, sizeof(seen), "%s", c ? c : "(none)");
  onion_response_write0(res, "ok");
  return OCS_PROCESSED;
}
int main() {
  onion *o = onion_new(O_ONE);
  onion_listen_point *lp = demo_lp(o);
  onion_set_root_handler(o, onion_handler_new((void *)h, NULL, NULL));
  onion_request *r = onion_request_new(lp);
  const char *a = "GET / HTTP/1.1\r\nHost: x\r\n\r\n", *b = "GET / HTTP/1.1\r\nHost: x\r\nCookie: a=1; b=2\r\n\r\n";
  feed(r, a);
  if (strcmp(seen, "(none)")) FAIL("cookie from nowhere");
  feed(r, b);
  if (strcmp(seen, "1")) FAIL("second request sees cookie a=%s", seen);
  onion_request_free(r);
  return 0;
}
'''})
make("s02-c-quote-tab", "P17", "quoting text with tabs into a new string", "the size of the new string does not count the tabs, so the end of the text is lost",
     [("src/onion/codecs.c", "    if (*p == '\\r' || *p == '\"' || *p == '\\\\' || *p == '\\t')\n      l++;\n", "    if (*p == '\\r' || *p == '\"' || *p == '\\\\')\n      l++;\n")],
     {"demo.c": r'''#include "demo_util.h"
int main() {
  char *q = onion_c_quote_new("a\tb\tc\td");
  if (strcmp(q, "\"a\\tb\\tc\\td\"")) FAIL("quoted as %s", q);
  free(q);
  return 0;
}
'''})
make("s03-block-self", "P18", "adding a block to itself when it has to grow", "the appended bytes are read from memory already freed",
     [("src/onion/block.c", "    memcpy(bl->data, manualrealloc, bl->size);\n  }", "    memcpy(bl->data, manualrealloc, bl->size);\n    onion_low_free(manualrealloc);\n  }"),
      ("src/onion/block.c", "  bl->size += l;\n  if (manualrealloc)\n    onion_low_free(manualrealloc);\n", "  bl->size += l;\n")],
     {"demo.c": r'''#include "demo_util.h"
int main() {
  onion_block *b = onion_block_new();
  char d[400]; for (int i = 0; i < 400; i++) d[i] = 'a' + i % 26;
  onion_block_add_data(b, d, 400);
  onion_block_add_block(b, b);
  if (onion_block_size(b) != 800) FAIL("size");
  onion_block_add_block(b, b);
  for (int i = 0; i < 1600; i++)
    if (onion_block_data(b)[i] != d[i % 400]) FAIL("byte %d is wrong", i);
  onion_block_free(b);
  return 0;
}
'''})
make("s04-printf-512", "P07", "a formatted write whose result is exactly 512 bytes long",
     "the last byte of the text is sent as a NUL",
     [("src/onion/response.c", "  } else if (l < sizeof(temp)) {\n", "  } else if (l <= sizeof(temp)) {\n")],
     {"demo.c": r'''#include "demo_util.h"
static int len;
static int h(void *_, onion_request * req, onion_response * res) {
  onion_response_printf(res, "%0*d", len, 7);
  return OCS_PROCESSED;
}
int main() {
  onion *o = onion_new(O_ONE);
  onion_listen_point *lp = demo_lp(o);
  onion_set_root_handler(o, onion_handler_new((void *)h, NULL, NULL));
  for (len = 1; len < 1400; len++) {
    onion_request *r = onion_request_new(lp);
    outn_ = 0;
    feed(r, "GET / HTTP/1.1\r\nHost: x\r\n\r\n");
    if (outn_ < len || out_[outn_ - 1] != '7') FAIL("wrong body of %d bytes", len);
    onion_request_free(r);
  }
  return 0;
}
'''})
make("s05-replace-keeps-key", "P14", "replacing a value in a case insensitive dictionary with a key written in another case, both owned by the dictionary",
     "the dictionary keeps the old key but frees it: later reads use freed memory",
     [("src/onion/dict.c", "    onion_dict_node_data_free(&node->data);\n    memcpy(&node->data, &nnode->data, sizeof(onion_dict_node_data));\n    onion_low_free(nnode);\n",
       "    if (nnode->data.value != node->data.value || !(node->data.flags & OD_DICT))\n      onion_dict_node_data_free(&node->data);\n    memcpy(&node->data, &nnode->data, sizeof(onion_dict_node_data));\n    node->data.flags &= ~OD_REPLACE;\n    if (node->data.flags & OD_FREE_VALUE && !(node->data.flags & OD_FREE_KEY))\n      node->data.flags &= ~OD_FREE_VALUE;\n    onion_low_free(nnode);\n")],
     {"demo.c": r'''#include "demo_util.h"
#include <malloc.h>
int main() {
  onion_dict *d = onion_dict_new();
  onion_dict_add(d, "k", "v", OD_DUP_ALL);
  size_t a = mallinfo2().uordblks;
  for (int i = 0; i < 1000; i++)
    onion_dict_add(d, "k", strdup("0123456789012345678901234567890123456789012345678901234567890123456789"), OD_FREE_VALUE | OD_REPLACE);
  onion_dict_add(d, "k", "v", OD_DUP_ALL | OD_REPLACE);
  size_t b = mallinfo2().uordblks;
  if (b > a + 20000) FAIL("replacing values leaks: %zu bytes in 1000 replacements", b - a);
  onion_dict_free(d);
  return 0;
}
'''})
make("s06-regex-advance", "P10", "a regular expression route whose match ends before the end of the path, leading to another url object",
     "the inner handler is called with the path advanced past one more character when the next one is a slash",
     [("src/onion/url.c", "      onion_request_advance_path(request, match[0].rm_eo);\n", "      onion_request_advance_path(request, match[0].rm_eo + (path[match[0].rm_eo] == '/' && match[0].rm_eo > 0));\n")],
     {"demo.c": r'''#include "demo_util.h"
static char seen[64];
static int h(void *_, onion_request * req, onion_response * res) {
  snprintf(seen, sizeof(seen), "%s", onion_request_get_path(req));
  onion_response_write0(res, "ok");
  return OCS_PROCESSED;
}
int main() {
  onion *o = onion_new(O_ONE);
  onion_listen_point *lp = demo_lp(o);
  onion_url *u = onion_root_url(o);
  onion_url_add(u, "^files", (void *)h);
  onion_request *r = onion_request_new(lp);
  const char *a = "GET /files/one HTTP/1.1\r\nHost: x\r\n\r\n";
  feed(r, a);
  if (strcmp(seen, "/one")) FAIL("path at the handler is '%s'", seen);
  onion_request_free(r);
  return 0;
}
'''})

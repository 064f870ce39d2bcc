// Feeds bytes to a server without sockets, and keeps what it answers.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <onion/onion.h>
#include <onion/log.h>
#include <onion/dict.h>
#include <onion/block.h>
#include <onion/codecs.h>
#include <onion/request.h>
#include <onion/response.h>
#include <onion/handler.h>
#include <onion/url.h>
#include <onion/listen_point.h>
#include <onion/types_internal.h>
onion_request *onion_request_new(onion_listen_point * lp);
void onion_request_free(onion_request * r);
onion_connection_status onion_request_write(onion_request * r, const char *d, size_t n);
onion_connection_status onion_request_process(onion_request * r);
static char out_[1 << 22];
static size_t outn_;
static ssize_t cap_write_(onion_request * r, const char *d, size_t n) {
  if (outn_ + n < sizeof(out_)) {
    memcpy(out_ + outn_, d, n);
    outn_ += n;
    out_[outn_] = 0;
  }
  return n;
}
static ssize_t cap_read_(onion_request * r, char *d, size_t n) { return -1; }
static void cap_close_(onion_request * r) { }
static int cap_init_(onion_request * r) { r->connection.fd = -1; return 0; }
static onion_listen_point *demo_lp(onion * o) {
  onion_log_flags = OF_INIT | OF_NOINFO | OF_NODEBUG;
  onion_listen_point *lp = onion_listen_point_new();
  lp->server = o;
  lp->write = cap_write_;
  lp->read = cap_read_;
  lp->close = cap_close_;
  lp->request_init = cap_init_;
  onion_add_listen_point(o, NULL, NULL, lp);
  return lp;
}
static int feed(onion_request * r, const char *d) {
  int ret = onion_request_write(r, d, strlen(d));
  if (ret == OCS_REQUEST_READY)
    ret = onion_request_process(r);
  return ret;
}
#define FAIL(...) do { fprintf(stderr, "DEMO FAILS: " __VA_ARGS__); fprintf(stderr, "\n"); exit(1); } while (0)

/*
 * Authentication driver: handlers protected by onion_handler_auth_pam, with a stand-in for PAM that knows a table of
 * accounts, records what it is asked and fails where it is told to.
 *
 *   CASE id
 *   ACCT hexservice hexuser hexpass result    result: ok, or the stage that refuses: start, auth, acct
 *   MSGS n                 messages the conversation asks at once; 0: no question at all (refuses)
 *   HND hexmount hexrealm hexservice          a protected handler; mount is a regexp
 *   REQ hex                "@@SID<j>@@" is replaced by the sessionid cookie got in the answer of request j of the case
 *   END
 */
#define _GNU_SOURCE
#include "vf.h"
#include <errno.h>
#include <security/pam_appl.h>
#include <onion/low.h>
#include <onion/onion.h>
#include <onion/log.h>
#include <onion/request.h>
#include <onion/response.h>
#include <onion/handler.h>
#include <onion/dict.h>
#include <onion/url.h>
#include <onion/listen_point.h>
#include <onion/http.h>
#include <onion/types_internal.h>
#include <onion/handlers/auth_pam.h>

static void vf_nolog(onion_log_level level, const char *filename, int lineno, const char *fmt, ...) {
}

/* ---------------------------------------------------------------- the stand-in */
static struct acct { char *service, *user, *pass, stage[8]; } accts[64];
static int naccts, nmsgs = 1, pam_open_handles;

struct pam_handle { struct pam_conv conv; char *service, *user; struct acct *a; int authed; };

static void pam_say(const char *what, struct pam_handle *h, const char *pass, int rc) {
  fprintf(vf_out, "PAM %s ", what);
  vf_puthex(h->service, strlen(h->service));
  fprintf(vf_out, ". ");
  vf_puthex(h->user, strlen(h->user));
  fprintf(vf_out, ". ");
  if (pass)
    vf_puthex(pass, strlen(pass));
  fprintf(vf_out, ". %d\n", rc);
}

int pam_start(const char *service, const char *user, const struct pam_conv *conv, pam_handle_t ** pamh) {
  struct pam_handle *h = calloc(1, sizeof *h);
  h->conv = *conv;
  h->service = strdup(service);
  h->user = strdup(user);
  for (int i = 0; i < naccts; i++)
    if (strcmp(accts[i].service, service) == 0 && strcmp(accts[i].user, user) == 0)
      h->a = &accts[i];
  if (h->a && strcmp(h->a->stage, "start") == 0) {
    pam_say("start", h, NULL, PAM_ABORT);
    free(h->service);
    free(h->user);
    free(h);
    *pamh = NULL;
    return PAM_ABORT;
  }
  pam_open_handles++;
  *pamh = (pam_handle_t *) h;
  return PAM_SUCCESS;
}

/* the ways a service has to say no */
static int refusal(struct pam_handle *h, int acct) {
  static const int a[] = { PAM_ACCT_EXPIRED, PAM_NEW_AUTHTOK_REQD, PAM_PERM_DENIED, PAM_USER_UNKNOWN, PAM_AUTH_ERR, PAM_IGNORE, PAM_ABORT, PAM_SYSTEM_ERR };
  static const int b[] = { PAM_AUTH_ERR, PAM_CRED_INSUFFICIENT, PAM_AUTHINFO_UNAVAIL, PAM_MAXTRIES, PAM_USER_UNKNOWN, PAM_ABORT, PAM_CRED_EXPIRED, PAM_IGNORE, PAM_CONV_AGAIN, PAM_INCOMPLETE };
  unsigned x = 5381;
  for (char *p = h->user; p && *p; p++)
    x = x * 33 + (unsigned char)*p;
  if (h->a)
    for (char *p = h->a->pass; *p; p++)
      x = x * 33 + (unsigned char)*p;
  return acct ? a[x % (sizeof a / sizeof *a)] : b[x % (sizeof b / sizeof *b)];
}

int pam_authenticate(pam_handle_t * pamh, int flags) {
  struct pam_handle *h = (void *)pamh;
  struct pam_message m[8];
  const struct pam_message *pm[8];
  struct pam_response *resp = NULL;
  int rc = refusal(h, 0);
  char *given = NULL;
  for (int i = 0; i < 8; i++) {
    m[i].msg_style = PAM_PROMPT_ECHO_OFF;
    m[i].msg = "Password: ";
    pm[i] = &m[i];
  }
  if (nmsgs > 0 && h->conv.conv(nmsgs, pm, &resp, h->conv.appdata_ptr) == PAM_SUCCESS && resp) {
    given = resp[0].resp;
    int same = given != NULL;
    for (int i = 1; i < nmsgs; i++)
      same = same && resp[i].resp && strcmp(resp[i].resp, given) == 0;
    if (same && h->a && strcmp(h->a->pass, given) == 0 && strcmp(h->a->stage, "auth") != 0)
      rc = PAM_SUCCESS;
  }
  pam_say("auth", h, given, rc);
  if (resp) {
    for (int i = 0; i < nmsgs; i++)
      free(resp[i].resp);
    free(resp);
  }
  h->authed = rc == PAM_SUCCESS;
  return rc;
}

int pam_acct_mgmt(pam_handle_t * pamh, int flags) {
  struct pam_handle *h = (void *)pamh;
  int rc = h->authed && strcmp(h->a->stage, "ok") == 0 ? PAM_SUCCESS : refusal(h, 1);
  pam_say("acct", h, NULL, rc);
  return rc;
}

int pam_end(pam_handle_t * pamh, int status) {
  struct pam_handle *h = (void *)pamh;
  if (!h)
    return PAM_SYSTEM_ERR;
  pam_open_handles--;
  free(h->service);
  free(h->user);
  free(h);
  return PAM_SUCCESS;
}

/* ---------------------------------------------------------------- transport */
static const char *in;
static size_t inlen, inpos, out_len, out_cap;
static char *outb;

static ssize_t m_read(onion_request * req, char *data, size_t len) {
  size_t l = inlen - inpos;
  if (l > len)
    l = len;
  memcpy(data, in + inpos, l);
  inpos += l;
  return l;
}

static ssize_t m_write(onion_request * req, const char *data, size_t len) {
  if (out_len + len + 1 > out_cap)
    outb = realloc(outb, out_cap = (out_len + len) * 2 + 4096);
  memcpy(outb + out_len, data, len);
  out_len += len;
  outb[out_len] = 0;
  return len;
}

static void m_close(onion_request * req) {
}

static int m_init(onion_request * req) {
  req->connection.fd = -1;
  return 0;
}

static void m_none(onion_listen_point * l) {
}

static onion *server;
static onion_listen_point *lp;
static onion_url *urls;
static char sids[64][512];
static int nreq;
static char tokens[16][32];
static int ntok;

static int inside(void *p, onion_request * req, onion_response * res) {
  const char *u = onion_request_get_session(req, "username");
  fprintf(vf_out, "INSIDE %s ", (char *)p);
  if (u)
    vf_puthex(u, strlen(u));
  fprintf(vf_out, ".\n");
  onion_response_printf(res, "PROTECTED-%s", (char *)p);
  return OCS_PROCESSED;
}

static void setup(void) {
  server = onion_new(O_ONE_LOOP);
  lp = onion_http_new();
  lp->request_init = m_init;
  lp->read = m_read;
  lp->write = m_write;
  lp->close = m_close;
  lp->listen = m_none;
  lp->listen_stop = m_none;

  onion_add_listen_point(server, NULL, NULL, lp);
  urls = onion_url_new();
  onion_set_root_handler(server, onion_url_to_handler(urls));
  nreq = ntok = 0;
  naccts = 0;
  nmsgs = 1;
  memset(sids, 0, sizeof sids);
}

static void teardown(void) {
  onion_free(server);
  for (int i = 0; i < naccts; i++) {
    free(accts[i].service);
    free(accts[i].user);
    free(accts[i].pass);
  }
  naccts = 0;
  free(outb);
  outb = NULL;
  out_cap = out_len = 0;
}

static void do_req(char *hex) {
  size_t l;
  char *raw = vf_unhex(hex, &l, 1);
  /* session placeholders */
  char *d = malloc(l + 8192);
  size_t n = 0;
  for (size_t i = 0; i < l;) {
    int j, k = 0;
    if (strncmp(raw + i, "@@SID", 5) == 0 && sscanf(raw + i, "@@SID%d@@%n", &j, &k) == 1 && k > 0 && j >= 0 && j < 64) {
      memcpy(d + n, sids[j], strlen(sids[j]));
      n += strlen(sids[j]);
      i += k;
    } else
      d[n++] = raw[i++];
  }
  char *e = malloc(n ? n : 1);  /* exact size */
  memcpy(e, d, n);
  free(d);
  free(raw);
  out_len = 0;
  in = e;
  inlen = n;
  inpos = 0;
  onion_request *r = onion_request_new(lp);
  int st = 0;
  while (st >= 0 && inpos < inlen)
    st = lp->read_ready(r);
  onion_request_free(r);
  free(e);
  fprintf(vf_out, "ST %d\n", st);
  vf_emit("OUT", outb ? outb : "", out_len);
  char *c = outb && out_len ? strcasestr(outb, "Set-Cookie: sessionid=") : NULL;
  if (c && nreq < 64) {
    c += strlen("Set-Cookie: sessionid=");
    size_t z = strcspn(c, "; \r\n");
    if (z < sizeof sids[0]) {
      memcpy(sids[nreq], c, z);
      sids[nreq][z] = 0;
    }
  }
  nreq++;
}

int main(int argc, char **argv) {
  VF_TAG_ENV();
  FILE *f = fopen(argv[1], "r");
  vf_out = fopen(argv[2], "w");
  if (!f || !vf_out)
    return 97;
  setvbuf(vf_out, NULL, _IOLBF, 1 << 16);
  setenv("ONION_LOG", "noinfo nodebug", 1);
  onion_log = vf_nolog;
  vf_heap_init();
  char *line = NULL;
  size_t cap = 0;
  ssize_t ll;
  long base = 0;
  int fds = 0;
  setup();                      /* global state settles */
  {
    /* with a session and its cookie: what is made once by the library or libc is made here */
    static const char first[] = "GET /w/ HTTP/1.1\r\nCookie: sessionid=x\r\nAuthorization: Basic dzp3\r\n\r\n";
    accts[naccts++] = (struct acct) { strdup("w"), strdup("w"), strdup("w"), "ok" };
    onion_url_add_handler(urls, "^w/", onion_handler_auth_pam("w", "w", onion_handler_new((void *)inside, "w", NULL)));
    char hx[sizeof first * 2 + 1];
    for (size_t i = 0; i < sizeof first; i++)
      sprintf(hx + 2 * i, "%02x", i + 1 < sizeof first ? first[i] : 0);
    hx[2 * (sizeof first - 1)] = 0;
    do_req(hx);
  }
  teardown();
  while ((ll = getline(&line, &cap, f)) > 0) {
    line[strcspn(line, "\n")] = 0;
    char *a[6] = { 0 };
    int n = 0;
    char *sv = NULL;
    if (strncmp(line, "CASE ", 5) == 0) {
      fprintf(vf_out, "%s\n", line);
      base = vf_live_allocs;
      fds = vf_count_fds();
      setup();
      continue;
    }
    for (char *t = strtok_r(line, " ", &sv); t && n < 6; t = strtok_r(NULL, " ", &sv))
      a[n++] = t;
    if (n == 0)
      continue;
    if (strcmp(a[0], "ACCT") == 0) {
      struct acct *c = &accts[naccts++];
      c->service = vf_unhex(a[1], NULL, 1);
      c->user = vf_unhex(a[2], NULL, 1);
      c->pass = vf_unhex(a[3], NULL, 1);
      snprintf(c->stage, sizeof c->stage, "%s", a[4]);
    } else if (strcmp(a[0], "MSGS") == 0)
      nmsgs = atoi(a[1]);
    else if (strcmp(a[0], "HND") == 0) {
      char *m = vf_unhex(a[1], NULL, 1), *r = vf_unhex(a[2], NULL, 1), *s = vf_unhex(a[3], NULL, 1);
      snprintf(tokens[ntok], sizeof tokens[0], "h%d", ntok);
      onion_handler *h = onion_handler_auth_pam(r, s, onion_handler_new((void *)inside, tokens[ntok], NULL));
      ntok++;
      onion_url_add_handler(urls, m, h);
      free(m);
      free(r);
      free(s);
    } else if (strcmp(a[0], "REQ") == 0)
      do_req(a[1] ? a[1] : "");
    else if (strcmp(a[0], "END") == 0) {
      teardown();
      fprintf(vf_out, "BAL heap=%ld fds=%d pam=%d\n", vf_live_allocs - base, vf_count_fds() - fds, pam_open_handles);
      fprintf(vf_out, "ENDCASE\n");
    } else
      return 96;
  }
  fprintf(vf_out, "DONE\n");
  fclose(vf_out);
  free(line);
  return 0;
}

/*
 * C++ bindings driver: histories of Dict operations, and the same server made through the C++ and the C API.
 *
 *   CASE id / END
 *   D op args...                  an operation on dictionary slots; answers "R <line> ..."
 *   SPEC kind hexa. code          a handler; its program follows in OP lines
 *   OP name hex. hex. ...         for the last SPEC
 *   KEY hex                       key every dump asks for
 *   SRV root lp order eh          make both servers
 *   URL                           new url (number 1, 2...; 0 is the root)
 *   MOVEURL u                     the url goes on in a move-constructed object, the original is dropped at the end
 *   ADD u hexpattern via spec     via: fn method make raw sub cfn chandler bridge
 *   NEST u hexpattern child
 *   REQ hex                       on both; "@@SID<j>@@" is the session got in request j
 */
#include "vf.h"
#include <atomic>
#include <chrono>
#include <thread>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include <exceptions.hpp>
#include <mime.hpp>
#include <onion.hpp>
#include <dict.hpp>
#include <url.hpp>
#include <request.hpp>
#include <response.hpp>
#include <handler.hpp>
#include <extrahandlers.hpp>
#include <shortcuts.hpp>
#include <listen_point.hpp>
#include <http.hpp>
#include <https.hpp>
extern "C" {
#include <onion/log.h>
#include <onion/low.h>
#include <onion/mime.h>
#include <onion/types_internal.h>
#include <onion/shortcuts.h>
#include <onion/handlers/exportlocal.h>
}

typedef std::vector<std::string> Strs;

static void nolog(onion_log_level, const char *, int, const char *, ...) {
}

static std::string unhex(const char *s) {
  size_t l;
  char *p = vf_unhex(s, &l, 0);
  std::string r(p, l);
  free(p);
  return r;
}

static void put(const std::string & s) {
  fputc(' ', vf_out);
  vf_puthex(s.data(), s.size());
  fputc('.', vf_out);
}

/* ------------------------------------------------------------ dictionaries */
static std::map<int, std::unique_ptr<Onion::Dict>> slots;

static Onion::Dict through(Onion::Dict d) {
  return d;
}

static void dict_op(Strs & a, int line) {
  const std::string & op = a[1];
  int i = atoi(a[2].c_str());
  auto key = [&](size_t n) { return unhex(a[n].c_str()); };
  auto at = [&](size_t n) -> Onion::Dict & { return *slots.at(atoi(a[n].c_str())); };
  auto set = [&](Onion::Dict * d) { slots[i].reset(d); };
  fprintf(vf_out, "R %d", line);
  if (op == "new")
    set(new Onion::Dict());
  else if (op == "map") {
    std::map<std::string, std::string> m;
    for (size_t n = 3; n + 1 < a.size(); n += 2)
      m[key(n)] = key(n + 1);
    set(new Onion::Dict(m));
  } else if (op == "il")
    set(a.size() > 7 ? new Onion::Dict { { key(3), key(4) }, { key(5), key(6) }, { key(7), key(8) } }
        : new Onion::Dict { { key(3), key(4) }, { key(5), key(6) } });
  else if (op == "copy")
    set(new Onion::Dict(at(3)));
  else if (op == "through")
    set(new Onion::Dict(through(at(3))));
  else if (op == "vec") {
    std::vector<Onion::Dict> v;
    for (int n = 0; n < 9; n++)
      v.push_back(at(3));
    v.erase(v.begin(), v.begin() + 4);
    v.insert(v.begin(), Onion::Dict());
    std::swap(v[0], v[3]);
    set(new Onion::Dict(v[0]));
  } else if (op == "assign")
    at(2) = at(3);
  else if (op == "assignc")
    at(2) = at(3).c_handler();
  else if (op == "wrap") {      /* a reference that does not own, copied to one that does */
    Onion::Dict t(at(3).c_handler());
    set(new Onion::Dict(t));
  } else if (op == "owned")       /* takes the reference it is given */
    set(new Onion::Dict(onion_dict_dup(at(3).c_handler()), true));
  else if (op == "dup")
    set(new Onion::Dict(at(3).hard_dup()));
  else if (op == "sub")
    set(new Onion::Dict(at(3).getDict(key(4))));
  else if (op == "suba")
    at(2) = at(3).getDict(key(4));
  else if (op == "del")
    slots.erase(i);
  else if (op == "add")
    at(2).add(key(3), key(4), OD_DUP_ALL | (a[5] == "r" ? OD_REPLACE : 0));
  else if (op == "addd")
    at(2).add(key(3), at(4), OD_DUP_ALL | (a[5] == "r" ? OD_REPLACE : 0));
  else if (op == "adds") {
    onion_dict_dup(at(4).c_handler());
    at(2).add(key(3), at(4), OD_DUP_KEY | OD_FREE_VALUE | (a[5] == "r" ? OD_REPLACE : 0));
  } else if (op == "addil")
    at(2).add(key(3), { { key(4), key(5) }, { key(6), key(7) } });
  else if (op == "rem")
    at(2).remove(key(3));
  else if (op == "merge")
    at(2).merge(at(3));
  else if (op == "fromjson")
    set(new Onion::Dict(Onion::Dict::fromJSON(key(3))));
  else if (op == "lock") {
    {
      auto l = a[3] == "r" ? at(2).readLock() : at(2).writeLock();
      auto m = std::move(l);
      auto n = std::move(m);
    }
    auto l = at(2).writeLock();
  } else if (op == "excl") {    /* who else may have the lock while this one has it */
    onion_dict *d = at(2).c_handler();
    bool mine_w = a[3] == "w", his_w = a[4] == "w";
    std::atomic<bool> got(false);
    std::thread t;
    bool early;
    {
      auto l0 = mine_w ? at(2).writeLock() : at(2).readLock();
      auto l = std::move(l0);
      t = std::thread([&] {
        if (his_w)
          onion_dict_lock_write(d);
        else
          onion_dict_lock_read(d);
        got = true;
        onion_dict_unlock(d);
      });
      for (int n = 0; n < (mine_w || his_w ? 5 : 20000) && !got; n++)
        std::this_thread::sleep_for(std::chrono::milliseconds(1));
      early = got;
    }
    t.join();
    fprintf(vf_out, " %d", early);
  } else if (op == "get")
    put(at(2).get(key(3)));
  else if (op == "def")
    put(at(2).get(key(3), key(4)));
  else if (op == "has")
    fprintf(vf_out, " %d", at(2).has(key(3)));
  else if (op == "idx") {
    try {
      put(at(2)[key(3)]);
    }
    catch(const Onion::Dict::key_not_found & e) {
      fprintf(vf_out, " throws");
      put(e.what());
    }
  } else if (op == "count")
    fprintf(vf_out, " %zu", at(2).count());
  else if (op == "json")
    put(at(2).toJSON());
  else if (op == "tomap") {
    std::map<std::string, std::string> m = at(2);
    for (auto & x : m) {
      put(x.first);
      put(x.second);
    }
  } else if (op == "mimeset") {
    Onion::Mime::set(at(2));
  } else if (op == "mimeget")
    put(Onion::Mime::get(key(3)));
  else if (op == "mimeupd")
    Onion::Mime::update(key(3), key(4));
  else if (op == "mimerem")
    Onion::Mime::remove(key(3));
  else if (op == "lps") {
    Onion::HttpListenPoint h;
    Onion::ListenPoint l;
    Onion::HttpListenPoint h2(std::move(h));
    Onion::ListenPoint l2(std::move(l));
    Onion::ListenPoint l3(h2.c_handler());
  } else
    _exit(95);
  fputc('\n', vf_out);
}

/* ------------------------------------------------------------ handlers, twice */
struct Spec {
  std::string kind, a;
  int code;
  std::vector<Strs> ops;
};
static std::vector<std::unique_ptr<Spec>> specs;
static Strs keys;
static int live_handlers;

static const std::string DEF = "<none>";

static std::string mapstr(const std::map<std::string, std::string> & m) {
  std::string r;
  for (auto & x : m)
    r += x.first + "=" + x.second + "\n";
  return r;
}

static std::string dump_cpp(Onion::Request & req) {
  std::string o;
  o += std::string("method ") + req.methodName() + "\npath " + req.path() + "\nfull " + req.fullpath() + "\n";
  o += "flags " + std::to_string((int)req.flags()) + " secure " + std::to_string(req.isSecure()) + " lang " + req.languageCode() + "\n";
  o += "client " + req.clientDescription() + "\n";
  auto h = req.headers();
  auto q = req.query();
  auto p = req.post();
  auto c = req.cookies();
  auto f = req.files();
  auto s = req.session();
  const Onion::Dict * all[] = { &h, &q, &p, &c, &s };
  for (auto d : all) {
    o += std::to_string(d->count()) + " " + d->toJSON() + "\n";
    o += mapstr(Onion::Dict(*d));
  }
  o += std::to_string(f.count()) + " " + std::to_string(req.hasFiles()) + "\n";
  for (auto & k : keys) {
    o += k + ":";
    o += std::to_string(h.has(k)) + h.get(k, DEF) + "|" + req.query(k, DEF) + "|" + req.post(k, DEF) + "|" + req.cookies(k, DEF)
        + "|" + req.session(k, DEF) + "|" + std::to_string(f.has(k)) + "|" + req.query(k) + "|" + req.post(k) + "|" + req.cookies(k) + "|"
        + req.session(k) + "\n";
    try {
      o += req[k];
    }
    catch(const Onion::Dict::key_not_found & e) {
      o += "no such header";
    }
    o += "\n";
  }
  return o;
}

static std::string cs(const char *s, const std::string & def = "") {
  return s ? std::string(s) : def;
}

static void to_map(void *m, const char *k, const void *v, int flags) {
  if (!(flags & OD_DICT))
    (*(std::map<std::string, std::string> *)m)[k] = (const char *)v;
}

static std::string dump_c(onion_request * req) {
  std::string o;
  o += std::string("method ") + onion_request_get_method_name(req) + "\npath " + onion_request_get_path(req) + "\nfull " + onion_request_get_fullpath(req) + "\n";
  const char *lang = onion_request_get_language_code(req);
  o += "flags " + std::to_string((int)onion_request_get_flags(req)) + " secure " + std::to_string(onion_request_is_secure(req)) + " lang " + lang + "\n";
  onion_low_free((void *)lang);
  o += "client " + cs(onion_request_get_client_description(req)) + "\n";
  const onion_dict *h = onion_request_get_header_dict(req), *q = onion_request_get_query_dict(req), *p = onion_request_get_post_dict(req);
  const onion_dict *c = onion_request_get_cookies_dict(req), *f = onion_request_get_file_dict(req), *s = onion_request_get_session_dict(req);
  const onion_dict *all[] = { h, q, p, c, s };
  for (auto d : all) {
    onion_block *b = onion_dict_to_json((onion_dict *) d);
    o += std::to_string(onion_dict_count(d)) + " " + onion_block_data(b) + "\n";
    onion_block_free(b);
    std::map<std::string, std::string> m;
    onion_dict_preorder(d, (void *)to_map, &m);
    o += mapstr(m);
  }
  o += std::to_string(onion_dict_count(f)) + " " + std::to_string(f != NULL) + "\n";
  for (auto & ks : keys) {
    const char *k = ks.c_str();
    o += ks + ":";
    o += std::to_string(onion_dict_get(h, k) != NULL) + cs(onion_request_get_header(req, k), DEF) + "|" + cs(onion_request_get_query(req, k), DEF) + "|"
        + cs(onion_request_get_post(req, k), DEF) + "|" + cs(onion_request_get_cookie(req, k), DEF) + "|" + cs(onion_request_get_session(req, k), DEF) + "|"
        + std::to_string(onion_dict_get(f, k) != NULL) + "|" + cs(onion_request_get_query(req, k)) + "|" + cs(onion_request_get_post(req, k)) + "|"
        + cs(onion_request_get_cookie(req, k)) + "|" + cs(onion_request_get_session(req, k)) + "\n";
    o += cs(onion_dict_get(h, k), "no such header");
    o += "\n";
  }
  return o;
}

static void tmpl(onion_dict * d, onion_response * r) {
  onion_block *b = onion_dict_to_json(d);
  onion_response_write(r, onion_block_data(b), onion_block_size(b));
  onion_block_free(b);
}

struct Unrelated {
  std::string s;
};

static onion_connection_status run_cpp(Spec * sp, Onion::Request & req, Onion::Response & res) {
  for (auto & o : sp->ops) {
    const std::string & n = o[0];
    if (n == "W")
      res.write(o[1].data(), o[1].size());
    else if (n == "S")
      res << o[1];
    else if (n == "P")
      for (char ch : o[1])
        res.put(ch);
    else if (n == "N")
      res << atoi(o[1].c_str()) << ' ' << 1.5 << std::endl << std::flush;
    else if (n == "H")
      res.setHeader(o[1], o[2]);
    else if (n == "L")
      res.setLength(atoi(o[1].c_str()));
    else if (n == "C")
      res.setCode(atoi(o[1].c_str()));
    else if (n == "K")
      res.addCookie(o[1], o[2], atoi(o[3].c_str()), o[4], o[5], atoi(o[6].c_str()));
    else if (n == "WH")
      res.writeHeaders();
    else if (n == "DUMP")
      res << dump_cpp(req);
    else if (n == "SET")
      req.session().add(o[1], o[2], OD_DUP_ALL | OD_REPLACE);
    else if (n == "UNSET")
      req.session().remove(o[1]);
    else if (n == "NOSES")
      req.removeSession();
    else if (n == "T") {
      Onion::Dict d { { o[1], o[2] }, { "k", "v" } };
      Onion::render_to_response(tmpl, d, res);
    }
  }
  const std::string & k = sp->kind;
  if (k == "http")
    throw Onion::HttpException(sp->a, (onion_response_codes) sp->code);
  if (k == "http500")
    throw Onion::HttpException(sp->a);
  if (k == "ierror")
    throw Onion::HttpInternalError(sp->a);
  if (k == "notfound")
    throw Onion::HttpNotFound(sp->a);
  if (k == "redirect")
    throw Onion::HttpRedirect(sp->a);
  if (k == "sredirect")
    return Onion::redirect(sp->a, req, res);
  if (k == "std")
    throw std::runtime_error(sp->a);
  if (k == "key")
    res << req["No-Such-Header-Here"];
  if (k == "int")
    throw sp->code;
  if (k == "unrelated")
    throw Unrelated { sp->a };
  if (k == "status")
    return (onion_connection_status) sp->code;
  return OCS_PROCESSED;
}

static onion_connection_status run_c(void *p, onion_request * req, onion_response * res) {
  Spec *sp = (Spec *) p;
  for (auto & o : sp->ops) {
    const std::string & n = o[0];
    if (n == "W" || n == "S" || n == "P") {
      if (n == "P")
        for (char ch : o[1])
          onion_response_write(res, &ch, 1);
      else
        onion_response_write(res, o[1].data(), o[1].size());
    } else if (n == "N") {
      std::string s = std::to_string(atoi(o[1].c_str())) + " 1.5\n";
      onion_response_write(res, s.data(), s.size());
    } else if (n == "H")
      onion_response_set_header(res, o[1].c_str(), o[2].c_str());
    else if (n == "L")
      onion_response_set_length(res, atoi(o[1].c_str()));
    else if (n == "C")
      onion_response_set_code(res, atoi(o[1].c_str()));
    else if (n == "K")
      onion_response_add_cookie(res, o[1].c_str(), o[2].c_str(), atoi(o[3].c_str()), o[4].empty()? NULL : o[4].c_str(), o[5].empty()? NULL : o[5].c_str(), atoi(o[6].c_str()));
    else if (n == "WH")
      onion_response_write_headers(res);
    else if (n == "DUMP") {
      std::string s = dump_c(req);
      onion_response_write(res, s.data(), s.size());
    } else if (n == "SET")
      onion_dict_add(onion_request_get_session_dict(req), o[1].c_str(), o[2].c_str(), OD_DUP_ALL | OD_REPLACE);
    else if (n == "UNSET")
      onion_dict_remove(onion_request_get_session_dict(req), o[1].c_str());
    else if (n == "NOSES")
      onion_request_session_free(req);
    else if (n == "T") {
      onion_dict *d = onion_dict_new();
      onion_dict_add(d, o[1].c_str(), o[2].c_str(), OD_DUP_ALL);
      onion_dict_add(d, "k", "v", OD_DUP_ALL);
      tmpl(d, res);
      onion_dict_free(d);
    }
  }
  const std::string & k = sp->kind;
  if (k == "http")
    return onion_shortcut_response(sp->a.c_str(), sp->code, req, res);
  if (k == "http500" || k == "ierror")
    return onion_shortcut_response(sp->a.c_str(), HTTP_INTERNAL_ERROR, req, res);
  if (k == "notfound")
    return onion_shortcut_response(sp->a.c_str(), HTTP_NOT_FOUND, req, res);
  if (k == "redirect" || k == "sredirect")
    return onion_shortcut_redirect(sp->a.c_str(), req, res);
  if (k == "std" || k == "key" || k == "int" || k == "unrelated")
    return OCS_INTERNAL_ERROR;
  if (k == "status")
    return (onion_connection_status) sp->code;
  return OCS_PROCESSED;
}

static onion_connection_status plain_c(void *, onion_request * req, onion_response * res) {
  std::string s = "plain\n" + dump_c(req);
  onion_response_write(res, s.data(), s.size());
  return OCS_PROCESSED;
}

struct Obj {
  Spec *sp;
  onion_connection_status go(Onion::Request & q, Onion::Response & s) {
    return run_cpp(sp, q, s);
  }
};
struct Sub : public Onion::HandlerBase {
  Spec *sp;
  std::string tag;
  Sub(Spec * s) : sp(s), tag("a handler with something to release, longer than a short string") {
    live_handlers++;
  }
  ~Sub() {
    live_handlers--;
  }
  onion_connection_status operator() (Onion::Request & q, Onion::Response & s) {
    return run_cpp(sp, q, s);
  }
};

static int file_c(void *p, onion_request * req, onion_response * res) {
  return onion_shortcut_response_file(((Spec *) p)->a.c_str(), req, res);
}
static int iredir_c(void *p, onion_request * req, onion_response * res) {
  return onion_shortcut_internal_redirect(((Spec *) p)->a.c_str(), req, res);
}
static int redir_c(void *p, onion_request * req, onion_response * res) {
  return onion_shortcut_redirect(((Spec *) p)->a.c_str(), req, res);
}

/* ------------------------------------------------------------ transport */
static const char *in;
static size_t inlen, inpos;
static std::string *outb;

static ssize_t m_read(onion_request *, char *data, size_t len) {
  size_t l = inlen - inpos;
  if (l > len)
    l = len;
  memcpy(data, in + inpos, l);
  inpos += l;
  return l;
}
static ssize_t m_write(onion_request *, const char *data, size_t len) {
  outb->append(data, len);
  return len;
}
static void m_close(onion_request *) {
}
static int m_init(onion_request * req) {
  req->connection.fd = -1;
  return 0;
}
static void m_listen(onion_listen_point *) {
}
static void m_stop(onion_listen_point *) {
}

static void mock(onion_listen_point * lp) {
  lp->request_init = m_init;
  lp->read = m_read;
  lp->write = m_write;
  lp->close = m_close;
  lp->listen = m_listen;
  lp->listen_stop = m_stop;
}

struct Both {
  /* C++ */
  std::unique_ptr<Onion::Onion> o;
  std::vector<std::unique_ptr<Onion::Url>> urls, old;
  std::vector<std::unique_ptr<Obj>> objs;
  onion_listen_point *lpp = NULL, *lpc = NULL;
  /* C */
  onion *c = NULL;
  std::vector<onion_url *> curls;
  std::map<int, bool> nested;
  int order = 0;
  Strs sidp, sidc;
  std::unique_ptr<Spec> eh;
};
static std::unique_ptr<Both> B;

static void make(int root, int lpk, int order, int eh) {
  B.reset(new Both());
  B->order = order;
  B->o.reset(new Onion::Onion(O_ONE_LOOP));
  B->c = onion_new(O_ONE_LOOP);
  if (lpk == 0) {
    Onion::HttpListenPoint lp;
    mock(B->lpp = lp.c_handler());
    B->o->addListenPoint("localhost", "8080", std::move(lp));
  } else if (lpk == 1) {
    Onion::ListenPoint lp;
    onion_listen_point *http = onion_http_new();
    lp.c_handler()->read_ready = http->read_ready;
    onion_listen_point_free(http);
    mock(B->lpp = lp.c_handler());
    B->o->addListenPoint("localhost", "8080", std::move(lp));
  } else {
    Onion::HttpListenPoint lp0;
    Onion::HttpListenPoint lp(std::move(lp0));
    mock(B->lpp = lp.c_handler());
    B->o->addListenPoint("localhost", "8080", std::move(lp));
  }
  onion_listen_point *lc = B->lpc = onion_http_new();
  mock(lc);
  onion_add_listen_point(B->c, "localhost", "8080", lc);
  Onion::Onion & o = *B->o;
  if (root == 0) {
    B->urls.emplace_back(new Onion::Url(o));
    B->curls.push_back(onion_root_url(B->c));
  } else if (root == 1) {
    Onion::Url first(&o);
    B->urls.emplace_back(new Onion::Url(std::move(first)));
    B->curls.push_back(onion_root_url(B->c));
  } else {
    B->urls.emplace_back(new Onion::Url());
    B->curls.push_back(onion_url_new());
    Onion::Url & u = *B->urls[0];
    if (root == 2)
      o.setRootHandler(std::move(u));
    else if (root == 3)
      o.setRootHandler(Onion::Handler::make<Onion::HandlerFunction>([&u](Onion::Request & q, Onion::Response & s) {
          return u(q, s);
        }));
    else {
      Onion::Url never;
      never.add("x", std::string("never"));
      o.setRootHandler(std::move(u));
    }
    onion_set_root_handler(B->c, onion_url_to_handler(B->curls[0]));
  }
  if (eh) {
    B->eh.reset(new Spec());
    B->eh->kind = "prog";
    B->eh->ops.push_back({ "H", "X-Error", "handled" });
    B->eh->ops.push_back({ "S", "error page" });
    Spec *s = B->eh.get();
    o.setInternalErrorHandler(Onion::Handler::make<Onion::HandlerFunction>([s](Onion::Request & q, Onion::Response & r) {
        return run_cpp(s, q, r);
      }));
    onion_set_internal_error_handler(B->c, onion_handler_new(run_c, s, NULL));
  }
}

static void add(int u, const std::string & pat, const std::string & via, Spec * s) {
  Onion::Url & x = *B->urls[u];
  onion_url *c = B->curls[u];
  onion_handler *h = NULL;
  if (s->kind == "static") {
    x.add(pat, s->a, s->code);
    onion_url_add_static(c, pat.c_str(), s->a.c_str(), s->code);
    return;
  }
  if (s->kind == "file") {
    x.add(pat, Onion::StaticHandler(s->a));
    h = onion_handler_new((onion_handler_handler) file_c, s, NULL);
  } else if (s->kind == "iredir") {
    x.add(pat, Onion::InternalRedirectHandler(s->a));
    h = onion_handler_new((onion_handler_handler) iredir_c, s, NULL);
  } else if (s->kind == "redir") {
    x.add(pat, Onion::RedirectHandler(s->a));
    h = onion_handler_new((onion_handler_handler) redir_c, s, NULL);
  } else if (s->kind == "dir") {
    x.add(pat, Onion::ExportLocal(s->a));
    h = onion_handler_export_local_new(s->a.c_str());
  } else if (via == "cfn") {
    x.add(pat, (onion_handler_handler) plain_c);
    h = onion_handler_new(plain_c, NULL, NULL);
  } else {
    auto fn =[s](Onion::Request & q, Onion::Response & r) {
      return run_cpp(s, q, r);
    };
    h = onion_handler_new(run_c, s, NULL);
    if (via == "fn")
      x.add(pat, fn);
    else if (via == "method") {
      B->objs.emplace_back(new Obj { s });
      x.add(pat, B->objs.back().get(), &Obj::go);
    } else if (via == "make")
      x.add(pat, Onion::Handler::make<Onion::HandlerFunction>(fn));
    else if (via == "raw")
      x.add(pat, Onion::Handler(new Onion::HandlerFunction(fn)));
    else if (via == "sub")
      x.add(pat, Onion::Handler::make<Sub>(s));
    else if (via == "chandler") {
      /* the caller keeps a C handler that could not be added */
      onion_handler *ch = onion_handler_new(run_c, s, NULL);
      if (pat[0] == '^' && pat.find('(') != std::string::npos && pat.find(')') == std::string::npos)
        onion_handler_free(ch);
      else
        x.add(pat, ch);
    } else if (via == "bridge")
      x.add(pat, Onion::onion_handler_c_to_cpp(onion_handler_new(run_c, s, NULL)));
    else
      _exit(94);
  }
  if (onion_url_add_handler(c, pat.c_str(), h) != 0)
    onion_handler_free(h);
}

/* the same session names in both servers */
static uint32_t rnd;
extern "C" void __wrap_onion_random_generate(void *data, size_t size) {
  for (size_t i = 0; i < size; i++)
    ((unsigned char *)data)[i] = (rnd = rnd * 1103515245 + 12345) >> 16;
}

/* and the same dates */
extern "C" time_t __wrap_time(time_t * t) {
  if (t)
    *t = 1790000000;
  return 1790000000;
}

static void ask(const std::string & raw, onion_listen_point * lp, Strs & sids, const char *tag) {
  std::string d, out;
  for (size_t i = 0; i < raw.size();) {
    int j, k = 0;
    if (raw.compare(i, 5, "@@SID") == 0 && sscanf(raw.c_str() + i, "@@SID%d@@%n", &j, &k) == 1 && k > 0) {
      d += j < (int)sids.size()? sids[j] : "none";
      i += k;
    } else
      d += raw[i++];
  }
  char *e = (char *)malloc(d.size() ? d.size() : 1);
  memcpy(e, d.data(), d.size());
  in = e;
  inlen = d.size();
  inpos = 0;
  outb = &out;
  rnd = 77 + sids.size();
  onion_request *r = onion_request_new(lp);
  int st = 0;
  while (st >= 0 && inpos < inlen)
    st = lp->read_ready(r);
  onion_request_free(r);
  free(e);
  std::string sid;
  if (getenv("VF_SHOW"))
    fprintf(stderr, "%s %s\n", tag, out.c_str());
  size_t p = out.find("Set-Cookie: sessionid=");
  if (p != std::string::npos)
    sid = out.substr(p + 22, out.find_first_of("; \r\n", p + 22) - p - 22);
  sids.push_back(sid);
  fprintf(vf_out, "%s %d", tag, st);
  put(out);
  fputc('\n', vf_out);
}

static void drop(void) {
  slots.clear();
  onion_mime_set(NULL);
  if (B) {
    onion_free(B->c);
    for (size_t i = 1; i < B->curls.size(); i++)
      if (!B->nested[i])
        onion_url_free(B->curls[i]);
    switch (B->order) {
    case 0:
      B->o.reset();
      B->urls.clear();
      B->old.clear();
      break;
    case 1:
      B->urls.clear();
      B->old.clear();
      B->o.reset();
      break;
    case 2:
      B->old.clear();
      while (B->urls.size())
        B->urls.pop_back();
      B->o.reset();
      break;
    default:
      B->old.clear();
      B->o.reset();
      while (B->urls.size())
        B->urls.pop_back();
    }
    B.reset();
  }
  specs.clear();
  specs.shrink_to_fit();
  keys.clear();
  keys.shrink_to_fit();
}

int main(int argc, char **argv) {
  FILE *f = fopen(argv[1], "r");
  vf_out = fopen(argv[2], "w");
  if (!f || !vf_out)
    return 97;
  setvbuf(vf_out, NULL, _IOLBF, 1 << 16);
  setenv("ONION_LOG", "noinfo nodebug", 1);
  onion_log = nolog;
  vf_heap_init();
  VF_TAG_INSTALL();
  char *line = NULL;
  size_t cap = 0;
  ssize_t ll;
  long base = 0;
  int fds = 0, no = 0;
  {                             /* what is made once is made here */
    make(0, 0, 0, 0);
    specs.emplace_back(new Spec { "std", "x", 0 });
    specs.back()->ops.push_back({ "SET", "a", "b" });
    specs.back()->ops.push_back({ "K", "a", "b", "10", "", "", "0" });
    add(0, "^", "fn", specs[0].get());
    ask("GET / HTTP/1.1\r\nCookie: sessionid=x\r\n\r\n", B->lpp, B->sidp, "WARM");
    onion_free(B->c);
    B.reset();
    specs.emplace_back(new Spec { "dir", "/proc/self/task", 0 });       /* user names: libc loads its databases */
    make(0, 0, 0, 0);
    add(0, "^", "fn", specs[1].get());
    ask("GET / HTTP/1.1\r\n\r\n", B->lpp, B->sidp, "WARM");
    drop();
  }
  while ((ll = getline(&line, &cap, f)) > 0) {
    line[strcspn(line, "\n")] = 0;
    if (strncmp(line, "CASE ", 5) == 0) {
      fprintf(vf_out, "%s\n", line);
      base = vf_live_allocs;
#ifdef VF_HEAPTRACE
      vf_tr_on = 1;
#endif
      fds = vf_count_fds();
      no = 0;
      continue;
    }
    {
      Strs a;
      char *sv = NULL;
      for (char *t = strtok_r(line, " ", &sv); t; t = strtok_r(NULL, " ", &sv))
        a.push_back(t);
      if (a.empty())
        continue;
      const std::string & k = a[0];
      if (k == "D")
        dict_op(a, no++);
      else if (k == "KEY")
        keys.push_back(unhex(a[1].c_str()));
      else if (k == "SPEC")
        specs.emplace_back(new Spec { a[1], unhex(a[2].c_str()), atoi(a[3].c_str()) });
      else if (k == "OP") {
        Strs o;
        o.push_back(a[1]);
        for (size_t i = 2; i < a.size(); i++)
          o.push_back(unhex(a[i].c_str()));
        specs.back()->ops.push_back(o);
      } else if (k == "SRV")
        make(atoi(a[1].c_str()), atoi(a[2].c_str()), atoi(a[3].c_str()), atoi(a[4].c_str()));
      else if (k == "URL") {
        B->urls.emplace_back(new Onion::Url());
        B->curls.push_back(onion_url_new());
      } else if (k == "MOVEURL") {
        int u = atoi(a[1].c_str());
        std::unique_ptr<Onion::Url> n(new Onion::Url(std::move(*B->urls[u])));
        B->old.push_back(std::move(B->urls[u]));
        B->urls[u] = std::move(n);
      } else if (k == "ADD")
        add(atoi(a[1].c_str()), unhex(a[2].c_str()), a[3], specs[atoi(a[4].c_str())].get());
      else if (k == "LIMIT") {
        long n = atol(a[2].c_str());
        if (a[1] == "post") {
          B->o->setMaxPostSize(n);
          onion_set_max_post_size(B->c, n);
        } else if (a[1] == "file") {
          B->o->setMaxFileSize(n);
          onion_set_max_file_size(B->c, n);
        } else if (a[1] == "timeout") {
          B->o->setTimeout(n);
          onion_set_timeout(B->c, n);
        } else {
          B->o->setMaxThreads(n);
          onion_set_max_threads(B->c, n);
        }
      } else if (k == "NEST") {
        int u = atoi(a[1].c_str()), ch = atoi(a[3].c_str());
        std::string pat = unhex(a[2].c_str());
        B->urls[u]->add(pat, std::move(*B->urls[ch]));
        /* in C the parent owns it */
        B->nested[ch] = true;
        onion_url_add_url(B->curls[u], pat.c_str(), B->curls[ch]);
      } else if (k == "REQ") {
        std::string raw = unhex(a[1].c_str());
        ask(raw, B->lpc, B->sidc, "OUTC");
        ask(raw, B->lpp, B->sidp, "OUTP");
      } else if (k == "END") {
      } else
        return 96;
    }
    if (strncmp(line, "END", 3) == 0) {
      drop();
#ifdef VF_HEAPTRACE
      if (vf_live_allocs != base)
        vf_tr_dump();
#endif
      fprintf(vf_out, "BAL heap=%ld fds=%d handlers=%d\n", vf_live_allocs - base, vf_count_fds() - fds, live_handlers);
      fprintf(vf_out, "ENDCASE\n");
    }
  }
  fprintf(vf_out, "DONE\n");
  fclose(vf_out);
  free(line);
  return 0;
}

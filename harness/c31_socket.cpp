// C31: a socket of the page passes on what is sent and what comes, each once and in order
#include "vf.hpp"
#include <boost/hana.hpp>
#include <nbdl/endpoint_handler.hpp>
#include <nbdl/endpoint_open.hpp>
#include <nbdl/endpoint_send_close.hpp>
#include <nbdl/endpoint_send_message.hpp>
#include <nbdl/js.hpp>
#include <nbdl/websocket_api/client_endpoint.hpp>
#include <nbdl/websocket_api/json_payload.hpp>
#include <emscripten/val.h>
#include <memory>
#include <queue>
#include <string>
#include <vector>

namespace hana = boost::hana;
namespace event = nbdl::endpoint_event;
using ev = emscripten::val;
using bytes = std::vector<unsigned char>;
using json = nbdl::websocket_api::json_payload;

std::string c31_other_unit();

namespace
{
  void setup()
  {
    static bool once = false;
    if (!once)
    {
      once = true;
      auto& page = vf::browser::page::get();
      using namespace nbdl::websocket_api::detail;
      auto at = [](auto const& a) { return reinterpret_cast<void*>(static_cast<std::uintptr_t>(a.at(0).num)); };
      page.export_function("__nbdl_endpoint_ready", [at](auto const& a) { _nbdl_endpoint_ready(at(a)); return 0; });
      page.export_function("__nbdl_endpoint_message", [at](auto const& a) { _nbdl_endpoint_message(at(a)); return 0; });
      page.export_function("__nbdl_endpoint_close", [at](auto const& a) { _nbdl_endpoint_close(at(a)); return 0; });
      page.export_function("__nbdl_endpoint_value_handle", [at](auto const& a) { return _nbdl_endpoint_value_handle(at(a)); });
    }
    nbdl::js::init();
    ev::eval("vf.reset()");
  }
  // any JSON value, as text
  std::string quoted(vf::Src& s)
  {
    std::string r = "\"";
    for (std::size_t n = s.upto(s.chance(10) ? 40 : 4); n-- > 0;) r += s.pick<std::string>({"a", "B", "0", " ", "\\\"", "\\\\", "\\n", "\xc3\xa9", "\xf0\x9f\x98\x80", "\\u0000", "{", "null"});
    return r + "\"";
  }
  std::string any_json(vf::Src& s, int depth = 0)
  {
    switch (s.choose(depth < 3 ? 8 : 6))
    {
      case 0: return s.pick<std::string>({"null", "true", "false"});
      case 1: return s.pick<std::string>({"0", "-1", "1.5", "1e+300", "9007199254740991"});
      case 2: case 3: return quoted(s);
      case 4: return "[]";
      case 5: return "{}";
      case 6: { std::string r = "["; for (std::size_t n = 1 + s.upto(2), i = 0; i < n; i++) r += (i ? "," : "") + any_json(s, depth + 1); return r + "]"; }
      default: return "{\"k\":" + any_json(s, depth + 1) + ",\"a b\":" + any_json(s, depth + 1) + "}";
    }
  }
  std::string raw(bytes const& b) { return std::string(b.begin(), b.end()); }
  std::string to_utf8(std::string const& latin1)
  {
    std::string r;
    for (unsigned char c : latin1) if (c < 128) r += static_cast<char>(c); else { r += static_cast<char>(0xc0 | c >> 6); r += static_cast<char>(0x80 | (c & 63)); }
    return r;
  }
  std::string any_bytes(vf::Src& s)
  {
    std::string r;
    switch (s.choose(8))
    {
      case 0: return "";
      case 1: { for (std::size_t n = 1 + s.upto(3); n-- > 0;) r += std::string(s.pick({125u, 126u, 300u, 2000u}), static_cast<char>(s.upto(255))); return r; }
      default: for (std::size_t n = 1 + s.upto(20); n-- > 0;) r += s.chance(50) ? static_cast<char>(s.upto(255)) : s.pick({'\0', 'a', '\x80', '\xff', '\n'}); return r;
    }
  }
  std::string hex(std::string const& x)
  {
    std::string r = std::to_string(x.size()) + " bytes:";
    char t[4];
    for (unsigned char c : x) { std::snprintf(t, sizeof t, " %02x", c); r += t; }
    return r;
  }

  // a payload as text, for comparisons
  std::string show(json const& p) { return ev::eval("return JSON.stringify(a)", ev(p)).as<std::string>(); }
  std::string show(bytes const& b) { return hex(raw(b)); }

  // what is done in an endpoint's handlers
  struct plan { bool greet = false, echo = false, close_on_message = false; };
  struct conn
  {
    int socket = 0;
    int state = 0;                       // 0 connecting, 1 open, 2 closing, 3 closed
    plan p{};
    std::vector<std::string> log{}, want{};          // what the handler saw
    std::vector<std::string> sent{};                 // what the socket must have sent
    int closes = 0;
    virtual ~conn() = default;
    virtual void send(vf::Src&) = 0;
    virtual void receive(vf::Src&) = 0;
    virtual void close() = 0;
  };
  template <typename Payload> void fill(Payload&, std::string const&);
  template <> void fill<json>(json& p, std::string const& text) { ev::eval("Module.NBDL_DETAIL_JS_SET(a, JSON.parse(b))", nbdl::js::get_handle(p), text); }
  template <> void fill<bytes>(bytes& p, std::string const& text) { p.assign(text.begin(), text.end()); p.shrink_to_fit(); }
  template <typename Payload> constexpr bool is_json = std::is_same_v<Payload, json>;
  // how the socket shows what was sent
  template <typename Payload> std::string on_wire(std::string const& content)
  { return is_json<Payload> ? "s" + content : "b" + content; }
  std::string normal(std::string const& text) { return ev::eval("return JSON.stringify(JSON.parse(a))", text).as<std::string>(); }

  template <typename Payload> auto handlers(conn* me)
  {
    return nbdl::endpoint_handler(
      event::on_ready([me](auto& self)
      {
        me->log.push_back("ready");
        if (me->p.greet) { Payload p{}; fill(p, is_json<Payload> ? "\"hello\"" : "hello"); nbdl::endpoint_send_message(self, p); }
      }),
      event::on_message([me](auto& self, auto const& payload)
      {
        me->log.push_back(show(payload));
        if (me->p.echo) self.send_message(payload);
        if (me->p.close_on_message) nbdl::endpoint_send_close(self);
        // and the payload is still there
        me->log.push_back(show(payload));
      }),
      event::on_close([me](auto&, auto&&...) { me->log.push_back("close"); }));
  }
  template <typename Payload> auto open_socket(conn* me, std::string const& url)
  { return nbdl::endpoint_open(nbdl::websocket_api::client_endpoint{url, {"token"}, {"origin"}}, std::queue<Payload>{}, handlers<Payload>(me)); }
  template <typename Payload> struct conn_of : conn
  {
    using endpoint = decltype(open_socket<Payload>(nullptr, std::string()));
    endpoint e;
    conn_of(std::string const& url) : e(open_socket<Payload>(this, url)) { }

    void send(vf::Src& s) override
    {
      auto content = is_json<Payload> ? normal(any_json(s)) : any_bytes(s);
      s.note("send", is_json<Payload> ? content : hex(content));
      Payload p{};
      fill(p, content);
      auto before = show(p);
      if (s.boolean()) e.send_message(p); else nbdl::endpoint_send_message(e, p);
      s.equal(show(p), before, "what was sent, afterwards");
      if (state == 1) sent.push_back(on_wire<Payload>(content));
    }
    void arrived(std::string const& seen, std::string const& content)
    {
      want.push_back(seen);
      if (p.echo && state == 1) sent.push_back(on_wire<Payload>(content));
      if (p.close_on_message) { closes++; if (state < 2) state = 2; }
      want.push_back(seen);
    }
    void receive(vf::Src& s) override
    {
      if constexpr (is_json<Payload>)
      {
        if (s.chance(15))
        {
          // what is no JSON text is not handed on
          bool binary = s.boolean();
          auto junk = binary ? std::string("\"x\"") : s.pick<std::string>({"", "{", "[1,]", "nul", "'a'", "1 2"});
          s.note("receive junk", junk);
          try { ev::eval(binary ? "vf.sockets[a].onBytes(b)" : "vf.sockets[a].fire('message', { data: b })", socket, junk); } catch (vf::browser::js_error const&) { }
          return;
        }
        auto text = any_json(s);
        s.note("receive", text);
        auto n = normal(text);
        arrived(n, n);
        ev::eval("vf.sockets[a].fire('message', { data: b })", socket, text);
      }
      else
      {
        auto content = any_bytes(s);
        if (s.chance(60))
        {
          s.note("receive", hex(content));
          arrived(hex(content), content);
          // the bytes travel as text of one character each
          ev::eval("vf.sockets[a].onBytes(b)", socket, to_utf8(content));
        }
        else
        {
          auto text = s.boolean() ? to_utf8(content) : std::string("\xe2\x82\xac \xf0\x9f\x98\x80");
          s.note("receive text", hex(text));
          arrived(hex(text), text);
          ev::eval("vf.sockets[a].fire('message', { data: b })", socket, text);
        }
      }
    }
    void close() override { if (closes & 1) e.send_close(); else nbdl::endpoint_send_close(e); }
  };
  constexpr char sent_js[] = "return vf.sockets[a].sent.length ? vf.sockets[a].sent[b] : ''";
}

VF_PROP(sessions, 8000, 200000)
{
  setup();
  int before = ev::eval("return vf.registered()").as<int>();
  {
    std::vector<std::unique_ptr<conn>> conns;
    auto look = [&](char const* when)
    {
      for (std::size_t i = 0; i < conns.size(); i++)
      {
        auto& c = *conns[i];
        auto list = [](auto const& v) { std::string r; for (auto& x : v) r += x + "; "; return r; };
        s.equal(list(c.log), list(c.want), when, ": what endpoint ", i, " was told");
        s.equal(ev::eval("return vf.sockets[a].sent.length", c.socket).as<int>(), static_cast<int>(c.sent.size()), when, ": messages that endpoint ", i, " sent");
        for (std::size_t j = 0; j < c.sent.size(); j++)
        {
          auto got = ev::eval(sent_js, c.socket, static_cast<int>(j)).as<std::string>();
          auto want = c.sent[j][0] == 'b' ? to_utf8(c.sent[j]) : c.sent[j];
          s.check(got == want, when, ": message ", j, " of endpoint ", i, " was sent as ", hex(got), " instead of ", hex(want));
        }
        s.equal(ev::eval("return vf.sockets[a].closes", c.socket).as<int>(), c.closes, when, ": closes of endpoint ", i);
      }
    };
    for (std::size_t n = 1 + s.upto(2); n-- > 0;)
    {
      auto url = s.pick<std::string>({"ws://127.0.0.1:8080", "wss://host/a/path?q=1", "ws://h/\xc3\xa9", "ws://h"});
      bool is_json = s.boolean();
      s.note(is_json ? "json" : "bytes", "to", url);
      std::unique_ptr<conn> c;
      if (is_json) c = std::make_unique<conn_of<json>>(url); else c = std::make_unique<conn_of<bytes>>(url);
      c->socket = static_cast<int>(conns.size());
      c->p = {s.chance(40), s.chance(30), s.chance(10)};
      s.equal(ev::eval("return vf.sockets.length").as<int>(), c->socket + 1, "sockets");
      s.equal(ev::eval("return vf.sockets[a].url", c->socket).as<std::string>(), url, "the address of a socket");
      conns.push_back(std::move(c));
    }
    int messages = 0;
    for (std::size_t steps = 2 + s.upto(12); steps-- > 0;)
    {
      auto i = s.choose(conns.size());
      auto& c = *conns[i];
      s.note("at", i);
      switch (c.state)
      {
        case 0:
          if (s.chance(85))
          {
            s.note("opens");
            c.state = 1;
            c.want.push_back("ready");
            if (c.p.greet) c.sent.push_back(dynamic_cast<conn_of<json>*>(&c) ? "s\"hello\"" : "bhello");
            ev::eval("vf.sockets[a].fire('open')", c.socket);
          }
          else
          {
            s.note("fails");
            c.state = 3;
            c.want.push_back("close");
            ev::eval("vf.sockets[a].fire('error'); vf.sockets[a].fire('close', { code: 1006 })", c.socket);
          }
          break;
        case 1: case 2:
          if (auto what = s.choose(10); what < 4) { c.receive(s); messages++; }
          else if (what < 8) { c.send(s); messages++; }
          else if (what == 8) { s.note("close"); c.close(); c.closes++; c.state = 2; }
          else { s.note("closes"); c.state = 3; c.want.push_back("close"); ev::eval("vf.sockets[a].fire('close', { code: b })", c.socket, s.pick({1000, 1001, 1006, 4000})); }
          break;
        default: break;
      }
      look("after that");
    }
    if (messages > 1) s.nontrivial();
  }
  s.equal(ev::eval("return vf.registered()").as<int>(), before, "registered values in the end");
}

// what an endpoint is opened with is the caller's, and can open another
VF_PROP(opened_again, 1500, 30000)
{
  setup();
  std::vector<std::string> log;
  std::string name = std::string(s.upto(40), 'n') + "!", url = "ws://host/" + std::string(s.upto(40), 'u') + "/";
  s.note(name, url);
  s.nontrivial();
  auto h = nbdl::endpoint_handler(
    event::on_ready([&log, name](auto&) { log.push_back(name + " ready"); }),
    event::on_message([&log, name](auto&, auto const& p) { log.push_back(name + " " + show(p)); }),
    event::on_close([&log, name](auto&, auto&&...) { log.push_back(name + " close"); }));
  nbdl::websocket_api::client_endpoint info{url, {"token"}, {"origin"}};
  std::queue<bytes> q;
  q.push(bytes(30, 'q'));
  auto first = [&] { if (s.boolean()) return nbdl::endpoint_open(info, q, h); else return nbdl::endpoint_open(std::as_const(info), std::as_const(q), std::as_const(h)); };
  {
    auto e1 = first();
    auto e2 = first();
    auto e3 = nbdl::endpoint_open(std::move(info), std::move(q), std::move(h));
    for (int i = 0; i < 3; i++)
    {
      s.equal(ev::eval("return vf.sockets[a].url", i).as<std::string>(), url, "the address of socket ", i);
      log.clear();
      ev::eval("vf.sockets[a].fire('open')", i);
      ev::eval("vf.sockets[a].onBytes(b)", i, std::string("xy"));
      ev::eval("vf.sockets[a].fire('close', { code: 1000 })", i);
      s.equal(log == std::vector<std::string>{name + " ready", name + " " + show(bytes{'x', 'y'}), name + " close"}, true, "what the handler of endpoint ", i, " was told");
    }
  }
}

// two units of a program may use the endpoint
VF_PROP(units, 1, 1)
{
  setup();
  s.equal(c31_other_unit(), std::string("ws://other"), "the socket of another unit");
  s.nontrivial();
}

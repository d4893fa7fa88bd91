// C16: a WebSocket session delivers in order and closes exactly once
#include "vf.hpp"
#include "net.hpp"
#include <boost/hana.hpp>
#include <nbdl/async_enqueue.hpp>
#include <nbdl/auth_token.hpp>
#include <nbdl/endpoint_handler.hpp>
#include <nbdl/endpoint_open.hpp>
#include <nbdl/endpoint_send_close.hpp>
#include <nbdl/endpoint_send_message.hpp>
#include <nbdl/websocket/client_endpoint.hpp>
#include <nbdl/websocket/server_endpoint.hpp>
#include <functional>
#include <memory>
#include <queue>
#include <string>
#include <vector>

namespace hana = boost::hana;
namespace event = nbdl::websocket::event;

namespace
{
  struct side
  {
    std::string name;
    std::vector<std::string> log, sent;
    std::function<void(std::string)> send;
    std::function<void()> close, start, stop, drop;
    std::function<void()> closing = [] { };                 // called when this side closes
    std::weak_ptr<void> alive;
    std::vector<std::string> first{};                       // what is queued before the connection is there
    bool ready = false, started = false, closed = false, stopped = false, dropped = false, start_when_ready = false, close_when_ready = false;
    std::string after_stop;
    int nested = 0;
    std::string token;
    void say(std::string x)
    {
      if (stopped) after_stop += x + " ";
      log.push_back(std::move(x));
    }
    int count(char const* what) const { int n = 0; for (auto& x : log) n += x == what; return n; }
  };

  // what a side does about a message is told by the message
  template <typename Self> void answer(side& me, Self& self, std::string const& m)
  {
    if (m.rfind("echo", 0) == 0 && !me.dropped && !me.count("error"))
    {
      std::string reply = "re:" + m;
      me.sent.push_back(reply);
      nbdl::endpoint_send_message(self, reply);
    }
    if (m.rfind("twice", 0) == 0 && !me.count("error"))
      for (auto reply : {"1:" + m, "2:" + m}) { me.sent.push_back(reply); nbdl::endpoint_send_message(self, std::string(reply)); }
    if (m.rfind("close", 0) == 0 && !me.count("error")) { me.closed = true; nbdl::endpoint_send_close(self); me.closing(); }
    if (m.rfind("stop", 0) == 0) { me.stopped = true; self.stop(); }
  }

  // handlers that are named stay with the caller
  struct on_message_fn
  {
    side* me;
    std::shared_ptr<int> kept;
    template <typename Self> void operator()(Self& self, std::string const& m) const { me->say("message " + m); answer(*me, self, m); }
  };
  auto handlers(side& me)
  {
    on_message_fn fn{&me, std::make_shared<int>(1)};
    auto to_message = event::on_message = fn;
    auto made = nbdl::endpoint_handler(
      event::on_ready = [&me](auto& self, auto const& ...token)
      {
        me.say("ready");
        me.ready = true;
        ((me.token = token.value), ...);
        if (me.close_when_ready) { me.closed = true; nbdl::endpoint_send_close(self); me.closing(); }
        if (me.start_when_ready) { me.started = true; self.start_messaging(); }
      }
    , to_message
    , event::on_close = [&me](auto&) { me.say("close"); }
    , event::on_bad_request = [&me](auto&, auto const& ...) { me.say("bad request"); }
    , event::on<std::error_code> = [&me](auto&, auto const&) { me.say("error"); }
    );
    if (!fn.kept || !hana::second(to_message).kept) throw vf::Fail{"a handler of the caller was taken away"};
    return made;
  }

  template <typename P> void adopt(side& me, P p)
  {
    auto box = std::make_shared<P>(std::move(p));
    me.alive = *box;
    me.send = [&me, box, n = 0](std::string m) mutable
    {
      me.sent.push_back(m);
      if (n++ + m.size() & 1) nbdl::endpoint_send_message(*box, m); else nbdl::endpoint_send_message(**box, m);
    };
    // the endpoint, or the pointer to it that was handed out
    me.close = [&me, box, n = 0]() mutable
    {
      me.closed = true;
      if (n++ + me.sent.size() & 1) nbdl::endpoint_send_close(*box); else nbdl::endpoint_send_close(**box);
      me.closing();
    };
    me.start = [&me, box] { me.started = true; (*box)->start_messaging(); };
    me.stop = [&me, box] { me.stopped = true; (*box)->stop(); };
    me.drop = [&me, box] { me.dropped = true; box->reset(); };
  }
  // the queue and the handler stay with the caller
  template <typename Info> void open(side& me, Info&& info)
  {
    auto h = handlers(me);
    std::queue<std::string> queue;
    for (auto& m : me.first) { queue.push(m); me.sent.push_back(m); }
    adopt(me, nbdl::endpoint_open(std::forward<Info>(info), queue, h));
    if (!h[hana::type_c<nbdl::endpoint_event::message_t>].kept) throw vf::Fail{"the handler of the caller was taken away"};
    for (auto& m : me.first) { if (queue.empty() || queue.front() != m) throw vf::Fail{"the queue of the caller has changed"}; queue.pop(); }
  }
  void open_server(boost::asio::io_context& io, net::fd f, side& me)
  { open(me, nbdl::websocket::server_endpoint{net::adopt(io, std::move(f))}); }
  void open_client(boost::asio::io_context& io, net::fd f, side& me, std::string token)
  {
    auto socket = net::adopt(io, std::move(f));
    open(me, nbdl::websocket::client_endpoint_text{socket, {token}, {}});
  }

  // carries what one end writes to the other end, as much at a time as it is told to
  struct wire
  {
    net::fd* from;
    net::fd* to;
    std::string all, waiting;
    std::size_t delivered = 0;
    bool cut = false, eof_passed = false;
    std::size_t cap = static_cast<std::size_t>(-1);         // the messages that may still arrive by it
    // takes what was written so far
    void drain() { if (!cut) for (;;) { auto piece = from->read(65536); if (piece.empty()) return; all += piece; waiting += piece; } }
    std::size_t carry(std::size_t n)
    {
      if (cut) return 0;
      auto piece = from->read(n);
      all += piece;
      waiting += piece;
      std::size_t k = to->write(std::string_view(waiting).substr(0, n));
      waiting.erase(0, k);
      delivered += k;
      if (from->eof && waiting.empty() && !eof_passed) { eof_passed = true; to->done_writing(); return 1; }
      return k + piece.size();
    }
  };

  struct traffic { std::vector<std::string> messages; int closes = 0; bool partial = false, junk_after_close = false; std::string problem; };
  traffic decode(std::string w, int opcode)
  {
    traffic t;
    auto e = w.find("\r\n\r\n");
    if (e == w.npos) return t;
    w.erase(0, e + 4);
    net::frame f;
    std::string m;
    bool inside = false;
    while (!w.empty())
    {
      if (t.closes) { t.junk_after_close = true; return t; }
      if (!net::take_frame(w, f)) { t.partial = true; return t; }
      if (f.opcode == 8)
      {
        t.closes++;
        if (inside) t.problem = "a message is interrupted by a close";
        // RFC 6455 5.5.1: empty, or a status code and a reason
        auto const& p = f.payload;
        int code = p.size() < 2 ? 0 : static_cast<unsigned char>(p[0]) * 256 + static_cast<unsigned char>(p[1]);
        if (!p.empty() && (code < 1000 || code > 4999)) t.problem = "a close frame with the body " + vf::show(p);
        continue;
      }
      if (f.opcode != (inside ? 0 : opcode)) t.problem = "opcode " + std::to_string(f.opcode);
      m += f.payload;
      inside = !f.fin;
      if (f.fin) { t.messages.push_back("message " + m); m.clear(); }
    }
    t.partial = inside;
    return t;
  }
  std::string brief(std::vector<std::string> const& v)
  {
    std::string r;
    for (auto& x : v) r += (x.size() > 40 ? x.substr(0, 40) + ".." + std::to_string(x.size()) : x) + "|";
    return r;
  }
}

VF_PROP(sessions, 60000, 2000000)
{
  boost::asio::io_context io;
  int buffer = s.boolean() ? 0 : 4096;
  auto [a, a_raw] = net::raw_pair(buffer);
  auto [b, b_raw] = net::raw_pair(buffer);
  side server{"server"}, client{"client"};
  wire up{&b_raw, &a_raw}, down{&a_raw, &b_raw};           // client to server, server to client
  server.start_when_ready = s.chance(70);
  client.start_when_ready = s.chance(70);
  server.close_when_ready = s.chance(3);
  client.close_when_ready = s.chance(3);
  if (s.chance(15)) for (auto* x : {&server, &client}) for (std::size_t n = s.upto(3); n-- > 0;) x->first.push_back("first" + std::to_string(n) + s.bulk(s.upto(300)));
  std::string token = s.text_of("abc0=", 10);
  bool may_cut = s.chance(30), may_stop = s.chance(15), may_close = s.chance(60), may_drop = s.chance(40);
  bool cut = false;
  auto poll = [&](bool all) { io.restart(); return all ? io.poll() : io.poll_one(); };
  auto compare_order = [&](side& x, side& y)
  {
    // what arrived is a prefix of what was sent, close comes once and last
    std::size_t n = 0;
    bool closed = false;
    for (auto& e : x.log)
    {
      if (closed) s.fail(x.name, " is told ", e.substr(0, 40), " after the close");
      if (e.rfind("message ", 0) == 0)
      {
        s.check(n < y.sent.size(), x.name, " got a message that was never sent: ", e.substr(0, 60));
        s.check(e == "message " + y.sent[n], x.name, " got ", e.substr(0, 60), " instead of ", y.sent[n].substr(0, 60));
        n++;
      }
      closed = e == "close";
    }
    s.equal(x.after_stop, "", x.name, " is told after being stopped");
    s.check(x.count("ready") <= 1, "ready twice");
  };
  // messages whose sending begins after a close don't arrive: at most one can be under way with nothing of it on the wire
  bool limit = s.boolean();
  auto bound = [&](wire& w, int opcode)
  {
    if (!limit || w.cap != static_cast<std::size_t>(-1)) return;
    w.drain();
    w.cap = decode(w.all, opcode).messages.size() + 1;
  };
  server.closing = [&] { bound(down, 2); };
  client.closing = [&] { bound(up, 1); };
  // a close frame that has arrived and was read
  auto heard = [&](wire& w, side& reader, wire& answers, int opcode, int answer_opcode)
  {
    if (limit && reader.started && w.waiting.empty() && decode(w.all, opcode).closes) bound(answers, answer_opcode);
  };
  auto settled = [&] { heard(down, client, up, 2, 1); heard(up, server, down, 1, 2); };
  {
    open_server(io, std::move(a), server);
    open_client(io, std::move(b), client, token);
    std::size_t steps = 10 + s.upto(60);
    int serial = 0;
    for (std::size_t i = 0; i < steps; i++)
    {
      side& x = s.boolean() ? server : client;
      switch (s.choose(16))
      {
        case 0: case 1: case 2:
        {
          if (x.dropped || x.count("error")) break;     // writing after a failed write is for the socket to answer, or not
          std::string m = s.chance(20) ? s.pick({"echo", "echo", "twice"}) : may_close && s.chance(3) ? "close" : may_stop && s.chance(4) ? "stop" : "m";
          m += std::to_string(serial++);
          if (s.chance(40)) m += s.bulk(s.chance(30) ? 125 * s.upto(3) : s.upto(s.chance(15) ? 20000 : 300));
          if (s.chance(3)) m.clear();
          s.note(x.name, "send", m.substr(0, 6), m.size());
          x.send(m);
          break;
        }
        case 3:
          // an endpoint that is started is not started again
          if (x.ready && (!x.started || s.chance(20)) && !x.dropped) { s.note(x.name, "start"); x.start(); }
          break;
        case 4:
          if (may_close && s.chance(25) && !x.dropped && x.ready && !x.count("error")) { s.note(x.name, "close"); x.close(); }
          break;
        case 5:
          if (may_stop && s.chance(10) && x.started && !x.dropped) { s.note(x.name, "stop"); x.stop(); }
          break;
        case 6:
          if (may_drop && s.chance(30) && x.started && !x.dropped) { s.note(x.name, "drop"); x.drop(); }
          break;
        case 7:
          if (may_cut && s.chance(15)) { s.note("cut"); cut = up.cut = down.cut = true; a_raw.shut(); b_raw.shut(); }
          break;
        case 8: s.note("poll"); poll(true); settled(); break;
        case 9: case 10: case 11: poll(false); break;
        default: (s.boolean() ? up : down).carry(s.boolean() ? 1 + s.upto(50) : 1 + s.upto(30000));
      }
      compare_order(server, client);
      compare_order(client, server);
    }
    s.note("; then to the end");
    // everything that is still under way arrives
    for (int idle = 0; idle < 3;)
    {
      std::size_t n = poll(true);
      settled();
      n += up.carry(1 << 16) + down.carry(1 << 16);
      if (!cut) for (auto* x : {&server, &client}) if (x->ready && !x->started && !x->dropped) { x->start(); n++; }
      idle = n ? 0 : idle + 1;
    }
    compare_order(server, client);
    compare_order(client, server);
    bool stopped = server.stopped || client.stopped, closed = server.closed || client.closed;
    auto from_server = decode(down.all, 2), from_client = decode(up.all, 1);
    for (auto* t : {&from_server, &from_client})
    {
      s.equal(t->problem, "", "frames on the wire");
      s.check(!t->junk_after_close, "frames after the close frame");
      s.check(t->closes <= 1, "two close frames");
    }
    s.check(from_server.messages.size() <= down.cap, "the server began to send ", from_server.messages.size() - down.cap, " messages after the close");
    s.check(from_client.messages.size() <= up.cap, "the client began to send ", from_client.messages.size() - up.cap, " messages after the close");
    if (!cut && !stopped)
    {
      s.check(server.ready && client.ready, "the handshake did not succeed");
      s.equal(server.token, token, "auth token");
      auto check_side = [&](side& x, side& y, traffic const& sent_by_y)
      {
        std::vector<std::string> got;
        for (auto& e : x.log) if (e.rfind("message ", 0) == 0) got.push_back(e);
        s.check(!sent_by_y.partial, y.name, " left a message unfinished");
        s.check(got == sent_by_y.messages, x.name, " was told ", brief(got), " instead of ", brief(sent_by_y.messages));
        if (!closed) s.equal(got.size(), y.sent.size(), "messages that reached the ", x.name);
        s.equal(x.count("close"), int(closed), "close events at the ", x.name, ": ", brief(x.log));
        s.equal(sent_by_y.closes, int(closed), "close frames from the ", y.name);
        s.equal(x.count("error") + x.count("bad request"), 0, "errors at the ", x.name, " (", brief(x.log), ")");
      };
      check_side(server, client, from_client);
      check_side(client, server, from_server);
      if (closed) s.label("closed");
    }
    if (cut)
      for (auto* x : {&server, &client})
        if (!x->stopped && (x->started || !x->ready))
          s.check(x->count("close") + x->count("error") + x->count("bad request") > 0, "the ", x->name, " is never told that the connection is gone: ", brief(x->log));
    if (server.dropped || client.dropped) s.label("dropped");
    s.nontrivial(server.sent.size() + client.sent.size() > 1);
    for (auto* x : {&server, &client})
      if (!x->dropped) x->drop();
    up.cut = down.cut = true;
    a_raw.shut();
    b_raw.shut();
    for (int i = 0; i < 3; i++) poll(true);
    // (an asio socket never completes a write that follows a failed one, like the answer to a close)
    for (auto* x : {&server, &client}) s.check(x->alive.expired() || (x->count("error") && (server.closed || client.closed)), "the ", x->name, " outlives its connection: ", brief(x->log));
    compare_order(server, client);
    compare_order(client, server);
  }
}

// an endpoint whose peer does not speak the protocol
VF_PROP(bad_peers, 10000, 200000)
{
  boost::asio::io_context io;
  auto [a, raw] = net::raw_pair();
  side me{"endpoint"};
  me.start_when_ready = true;
  bool is_server = s.boolean();
  if (is_server) open_server(io, std::move(a), me); else open_client(io, std::move(a), me, "t");
  std::string good = is_server ? "GET / HTTP/1.1\r\nSec-WebSocket-Key: k\r\n\r\n"
    : "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: s3pPLMBiTxaQ9kYGzzhZRbK+xOo=\r\n\r\n";
  bool bad_handshake = s.boolean(), cut = false;
  std::string wire = good;
  std::string want;
  if (bad_handshake)
  {
    if (s.boolean()) { std::size_t i = s.choose(is_server ? 16 : good.size()); wire[i] = static_cast<char>(wire[i] ^ (1 + s.choose(255))); want = "bad request|"; }
    else { wire.resize(s.upto(wire.size() - 1)); cut = true; want = "error|"; }
  }
  else
  {
    want = "ready|";
    for (std::size_t n = s.upto(3); n-- > 0;)
    {
      net::frame f;
      f.fin = true;
      f.opcode = s.chance(70) ? 1 : 9 + static_cast<int>(s.choose(2));
      f.payload = s.text_of("xyz", 20);
      f.masked = is_server;
      wire += net::make_frame(f, "mask");
      if (f.opcode == 1) want += "message " + f.payload + "|";
    }
    if (s.boolean()) { wire += '\x83'; wire += '\x00'; want += "bad request|"; }
    else { cut = true; want += "error|"; }
  }
  s.note(vf::show(wire, 300), "expect", want);
  // a client may not hear frames before its request was answered: they are read from the same socket
  std::size_t pos = 0;
  bool held_back = is_server && !bad_handshake;
  while (pos < wire.size())
  {
    std::size_t end = held_back && pos < good.size() ? good.size() : wire.size();
    pos += raw.write(std::string_view(wire).substr(pos, std::min(end - pos, s.boolean() ? wire.size() : 1 + s.upto(20))));
    io.restart();
    io.poll();
    raw.read(4096);
  }
  for (int i = 0; i < 3; i++) { io.restart(); io.poll(); raw.read(4096); }
  if (cut) raw.shut();
  io.restart();
  io.poll();
  std::string got;
  for (auto& e : me.log) got += e + "|";
  s.equal(got, want, "events");
  s.nontrivial();
  raw.shut();
  me.drop();
  io.restart();
  io.poll();
  s.check(me.alive.expired(), "an endpoint outlives its connection");
}

// a peer that speaks the protocol, in its own way: fragments, pings, lengths and masks of any kind, and closes of its own
VF_PROP(other_peers, 10000, 200000)
{
  boost::asio::io_context io;
  auto [a, raw] = net::raw_pair();
  side me{"endpoint"};
  me.start_when_ready = true;
  bool is_server = s.boolean();
  if (is_server) open_server(io, std::move(a), me); else open_client(io, std::move(a), me, "t");
  std::string all, out = is_server ? "GET / HTTP/1.1\r\nSec-WebSocket-Key: k\r\n\r\n"
    : "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: s3pPLMBiTxaQ9kYGzzhZRbK+xOo=\r\n\r\n";
  auto run = [&] { for (int i = 0; i < 2; i++) { io.restart(); io.poll(); for (;;) { auto x = raw.read(65536); if (x.empty()) break; all += x; } } };
  auto pass = [&](std::size_t n) { while (n && !out.empty()) { std::size_t k = raw.write(std::string_view(out).substr(0, n)); out.erase(0, k); n -= std::min(n, k); run(); if (!k) break; } };
  std::vector<std::string> want{"ready"};
  std::string message;
  bool inside = false, peer_closed = false;
  std::size_t owed = 0;                       // own messages, all of which were sent before any close
  std::size_t steps = 2 + s.upto(20);
  pass(out.size());
  for (std::size_t i = 0; i < steps; i++)
  {
    net::frame f;
    f.fin = true;
    f.masked = s.chance(is_server ? 80 : 20);
    std::size_t what = s.choose(12);
    if (what < 5 && !peer_closed)
    {
      f.opcode = inside ? 0 : 1 + static_cast<int>(s.choose(2));
      f.fin = s.chance(60);
      f.payload = s.bulk(s.chance(10) ? s.upto(70000) : s.upto(20));
      f.length_bytes = f.payload.size() < 126 ? (s.chance(10) ? 2 : 0) : f.payload.size() < 65536 ? (s.chance(10) ? 8 : 2) : 8;
      message += f.payload;
      inside = !f.fin;
      if (f.fin) { want.push_back("message " + message); message.clear(); }
      s.note(f.fin ? "frame" : "part", f.payload.size());
      out += net::make_frame(f, (s.text_of("abcd", 4) + "mask").substr(0, 4));
    }
    else if (what < 8 && !peer_closed)
    {
      f.opcode = 9 + static_cast<int>(s.choose(2));
      f.payload = s.bulk(s.chance(10) ? 125 : s.upto(9));
      s.note(f.opcode == 9 ? "ping" : "pong");
      out += net::make_frame(f, "mask");
    }
    else if (what == 8 && s.chance(30) && !peer_closed)
    {
      f.opcode = 8;
      if (s.boolean()) f.payload = std::string("\x03\xe8", 2) + s.text_of("bye", 5);
      peer_closed = true;
      s.note("peer closes");
      out += net::make_frame(f, "mask");
    }
    else if (what == 9 && s.chance(30) && !me.closed) { pass(out.size()); if (!peer_closed) { s.note("close"); me.close(); } }
    else if (what == 10 && !me.closed) { pass(out.size()); if (!peer_closed) { s.note("send"); me.send("own " + std::to_string(i)); run(); owed++; } }
    else pass(s.boolean() ? 1 + s.upto(9) : out.size());
  }
  pass(out.size());
  run();
  // an endpoint that closed waits for the peer's close
  if (me.closed && !peer_closed)
  {
    s.check(!me.count("close"), "the close event comes before the peer's close");
    net::frame f;
    f.fin = true; f.opcode = 8;
    out += net::make_frame(f);
    peer_closed = true;
    pass(out.size());
  }
  run();
  if (peer_closed) want.push_back("close");
  s.check(me.log == want, "events ", brief(me.log), " instead of ", brief(want));
  auto t = decode(all, is_server ? 2 : 1);
  s.equal(t.problem, "", "frames on the wire");
  s.check(!t.partial && !t.junk_after_close, "frames on the wire");
  s.equal(t.closes, int(peer_closed), "close frames");
  s.equal(t.messages.size(), owed, "own messages");
  s.nontrivial(want.size() > 2);
  raw.shut();
  me.drop();
  run();
  s.check(me.alive.expired(), "an endpoint outlives its connection");
}

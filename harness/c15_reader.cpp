// C15: received WebSocket frames reassemble into exactly the sent messages
#include "vf.hpp"
#include "net.hpp"
#include <boost/hana.hpp>
#include <nbdl/catch.hpp>
#include <nbdl/run_async.hpp>
#include <nbdl/websocket/detail/message_reader.hpp>
#include <memory>
#include <string>
#include <vector>

namespace hana = boost::hana;
namespace ws = nbdl::websocket::detail;
namespace read_event = ws::read_event;

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));

namespace
{
  std::size_t largest = 0;
  void on_malloc(volatile void const*, std::size_t n) { if (n > largest) largest = n; }
  void on_free(volatile void const*) { }
  bool hooked = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);

  struct events
  {
    std::vector<std::string> log;
    bool ended = false;
  };
  template <typename C> std::string str(C const& c) { return std::string(c.begin(), c.end()); }
  std::string brief(std::string const& s)
  { return s.size() < 200 ? vf::show(s) : vf::show(s.substr(0, 40)) + "+" + std::to_string(std::hash<std::string>{}(s)) + "/" + std::to_string(s.size()); }

  auto handlers(events& e)
  {
    auto last = [&e](std::string what) { e.log.push_back(e.ended ? "AGAIN " + what : what); e.ended = true; };
    auto event = [&e](std::string what) { e.log.push_back(e.ended ? "AFTER THE END " + what : what); };
    return hana::make_map(
      hana::make_pair(read_event::message, [=](auto, auto& c) { event("message " + brief(str(c.payload))); })
    , hana::make_pair(read_event::close, [=](auto, auto& c) { last("close " + brief(str(c.payload))); })
    , hana::make_pair(read_event::ping, [=](auto, auto&) { event("ping"); })
    , hana::make_pair(read_event::pong, [=](auto, auto&) { event("pong"); })
    , hana::make_pair(read_event::bad_input, [=](auto, auto&) { last("bad input"); })
    , hana::make_pair(hana::type_c<std::error_code>, [=](auto, auto&) { last("error"); })
    );
  }

  // feeds `wire` in pieces, then ends the connection
  template <typename Payload> events feed(vf::Src& s, std::string_view wire, bool whole_end)
  {
    events e;
    boost::asio::io_context io;
    auto [a, b] = net::raw_pair();
    auto socket = net::adopt(io, std::move(a));
    auto owner = std::make_shared<int>(1);
    std::weak_ptr<int> watch = owner;
    largest = 0;
    {
      auto reader = ws::make_message_reader(hana::type_c<Payload>, socket, handlers(e));
      reader.keep_reading(std::move(owner));
      int style = static_cast<int>(s.choose(3));         // byte by byte, random pieces, all at once
      std::size_t pos = 0;
      while (pos < wire.size() && !e.ended)
      {
        std::size_t n = style == 0 && wire.size() < 600 ? 1 : style == 1 ? 1 + s.upto(std::min<std::size_t>(wire.size() - pos, 1 + s.upto(300))) : wire.size();
        std::size_t k = b.write(wire.substr(pos, n));
        pos += k;
        if (k == 0 || s.chance(60)) { io.restart(); io.poll(); }
      }
      io.restart();
      io.poll();
      s.check(!watch.expired() || e.ended, "the reader let go of its owner without an event");
      if (!e.ended)
      {
        if (whole_end) b.shut(); else b.done_writing();
        io.restart();
        io.poll();
      }
      s.check(e.ended, "no event tells that the connection has ended");
      s.check(watch.expired(), "the reader keeps its owner after the end");
      b.shut();
      io.restart();
      io.poll();
    }
    s.check(largest <= 8 * wire.size() + (1u << 20), "a peer that sent ", wire.size(), " bytes made the reader allocate ", largest, " bytes at once");
    return e;
  }

  template <typename Payload> void valid(vf::Src& s)
  {
    std::string wire;
    std::vector<std::string> want;
    std::size_t messages = 1 + s.upto(4);
    bool masks = s.boolean();
    auto key = [&] { std::string k(4, '\0'); for (auto& c : k) c = static_cast<char>(s.byte()); return k; };
    bool closed = false;
    int fragments = 0, controls = 0;
    auto control = [&]
    {
      while (s.chance(25) && !closed)
      {
        net::frame f;
        f.fin = true;
        f.opcode = s.chance(10) ? 8 : 9 + static_cast<int>(s.choose(2));
        f.masked = masks;
        f.payload = s.bulk(s.chance(30) ? 0 : s.upto(125));
        wire += net::make_frame(f, key());
        controls++;
        s.note(f.opcode == 8 ? "close" : f.opcode == 9 ? "ping" : "pong", f.payload.size(), ";");
        if (f.opcode == 8) { closed = true; want.push_back("close " + brief(f.payload)); }
        else want.push_back(f.opcode == 9 ? "ping" : "pong");
      }
    };
    for (std::size_t m = 0; m < messages && !closed; m++)
    {
      std::size_t parts = 1 + (s.boolean() ? s.upto(4) : 0);
      std::string all;
      int type = 1 + static_cast<int>(s.choose(2));
      s.note("message(");
      for (std::size_t p = 0; p < parts && !closed; p++)
      {
        control();
        if (closed) break;
        net::frame f;
        f.fin = p + 1 == parts;
        f.opcode = p ? 0 : type;
        f.masked = masks;
        std::size_t n = s.chance(2) ? 60000 + s.upto(90000) : s.chance(30) ? s.pick({0, 1, 124, 125, 126, 127, 65535, 65536}) : s.size(400);
        f.length_bytes = s.chance(20) ? (n < 65536 && s.boolean() ? 2 : 8) : 0;
        f.payload = n < 20 ? s.bytes(n) : s.bulk(n);
        if (p) fragments++;
        all += f.payload;
        s.note(f.payload.size(), f.length_bytes ? "long" : "");
        wire += net::make_frame(f, key());
      }
      s.note(")");
      if (!closed) want.push_back("message " + brief(all));
    }
    if (!closed) { control(); if (!closed) want.push_back("error"); }
    if (masks) s.note("masked");
    auto e = feed<Payload>(s, wire, s.boolean());
    for (std::size_t i = 0; i < want.size() || i < e.log.size(); i++)
    {
      s.check(i < e.log.size(), "missing event: ", i < want.size() ? want[i] : "");
      s.check(i < want.size(), "unexpected event: ", e.log[i]);
      s.equal(e.log[i], want[i], "event ", i);
    }
    s.nontrivial(fragments || controls || masks);
  }
}

VF_PROP(valid_frames, 5000, 200000)
{
  if (s.boolean()) valid<std::string>(s);
  else valid<std::vector<unsigned char>>(s);
}

// one offending frame after some good ones
VF_PROP(violations, 3000, 100000)
{
  std::string wire;
  std::vector<std::string> want;
  for (std::size_t n = s.upto(2); n-- > 0;)
  {
    net::frame f;
    f.fin = true;
    f.opcode = 2;
    f.payload = s.bulk(s.upto(40));
    f.masked = s.boolean();
    wire += net::make_frame(f, "abcd");
    want.push_back("message " + brief(f.payload));
  }
  std::string begun;
  if (s.boolean())                     // a message is under way
  {
    net::frame f;
    f.opcode = 1;
    f.payload = "begun";
    wire += net::make_frame(f);
  }
  net::frame f;
  f.masked = s.boolean();
  f.fin = true;
  std::string kind;
  bool must_be_bad = true;
  switch (s.choose(4))
  {
    case 0:
      kind = "unknown opcode";
      f.opcode = s.pick({3, 4, 5, 6, 7, 11, 12, 13, 14, 15});
      f.fin = s.boolean();
      f.payload = s.bulk(s.upto(300));
      break;
    case 1:
      kind = "oversized control frame";
      f.opcode = 8 + static_cast<int>(s.choose(3));
      f.payload = s.bulk(126 + s.upto(300));
      break;
    case 2:
      kind = "fragmented control frame";
      f.opcode = 8 + static_cast<int>(s.choose(3));
      f.fin = false;
      f.payload = s.bulk(s.upto(125));
      break;
    default:
      kind = "claims a huge length";
      f.opcode = s.boolean() ? 2 : 8 + static_cast<int>(s.choose(3));
      must_be_bad = f.opcode != 2;
  }
  s.note(kind, "opcode", f.opcode, f.masked ? "masked" : "");
  if (kind == "claims a huge length")
  {
    std::uint64_t n = s.boolean() ? (1ull << (20 + s.choose(44))) - s.upto(2) : s.integer<std::uint64_t>(1 << 20);
    s.note(n);
    wire += static_cast<char>(0x80 | f.opcode);
    wire += static_cast<char>(127 | (f.masked ? 0x80 : 0));
    for (int i = 7; i >= 0; i--) wire += static_cast<char>(n >> (8 * i));
    wire += std::string(f.masked ? 4 : 0, 'k') + s.bulk(s.upto(500));
    want.push_back(must_be_bad ? "bad input" : "error");
  }
  else
  {
    wire += net::make_frame(f, "wxyz");
    want.push_back("bad input");
  }
  wire += s.bulk(s.upto(20));
  auto e = s.boolean() ? feed<std::string>(s, wire, s.boolean()) : feed<std::vector<unsigned char>>(s, wire, s.boolean());
  s.equal(e.log.size(), want.size(), "events after ", kind);
  for (std::size_t i = 0; i < want.size(); i++) s.equal(e.log[i], want[i], "event ", i, " for ", kind);
  s.nontrivial();
}

VF_PROP(cut_anywhere, 3000, 100000)
{
  // what was complete before the cut is delivered, nothing else
  std::string wire;
  std::vector<std::pair<std::size_t, std::string>> events_at;
  for (std::size_t n = 1 + s.upto(3); n-- > 0;)
  {
    net::frame f;
    f.fin = true;
    f.opcode = s.chance(30) ? 9 + static_cast<int>(s.choose(2)) : 1;
    f.payload = s.bulk(f.opcode == 1 ? s.pick({0, 3, 126, 300}) : s.upto(10));
    f.masked = s.boolean();
    f.length_bytes = f.opcode == 1 && s.chance(20) ? 8 : 0;
    wire += net::make_frame(f, "1234");
    events_at.emplace_back(wire.size(), f.opcode == 9 ? "ping" : f.opcode == 10 ? "pong" : "message " + brief(f.payload));
  }
  std::size_t cut = s.upto(wire.size());
  s.note("cut", cut, "of", wire.size());
  auto e = feed<std::string>(s, std::string_view(wire).substr(0, cut), s.boolean());
  std::vector<std::string> want;
  for (auto& [at, what] : events_at) if (at <= cut) want.push_back(what);
  want.push_back("error");
  s.equal(e.log.size(), want.size(), "events");
  for (std::size_t i = 0; i < want.size(); i++) s.equal(e.log[i], want[i], "event ", i);
  s.nontrivial(cut != wire.size());
}

VF_PROP(any_bytes, 6000, 300000)
{
  std::string wire;
  for (std::size_t n = s.upto(8); n-- > 0;)
  {
    wire += static_cast<char>(s.chance(70) ? (s.boolean() ? 0x80 : 0) | s.pick({0, 1, 2, 8, 9, 10}) : s.byte());
    wire += static_cast<char>(s.chance(70) ? (s.boolean() ? 0x80 : 0) | s.pick({0, 1, 5, 125, 126, 127}) : s.byte());
    wire += s.boolean() ? s.bytes(12) : s.bulk(s.upto(300));
  }
  s.note(vf::show(wire));
  auto e = s.boolean() ? feed<std::string>(s, wire, s.boolean()) : feed<std::vector<unsigned char>>(s, wire, s.boolean());
  int ends = 0;
  for (auto& x : e.log) ends += x.rfind("error", 0) == 0 || x.rfind("bad", 0) == 0 || x.rfind("close", 0) == 0;
  s.equal(ends, 1, "ends of the reading");
  s.check(e.log.back().rfind("AGAIN", 0) && e.log.back().rfind("AFTER", 0), e.log.back());
  s.nontrivial(wire.size() > 2);
}

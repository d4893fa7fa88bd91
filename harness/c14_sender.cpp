// C14: sent WebSocket messages are valid frames that carry the payload
#include "vf.hpp"
#include "net.hpp"
#include <boost/hana.hpp>
#include <nbdl/catch.hpp>
#include <nbdl/pipe.hpp>
#include <nbdl/run_async.hpp>
#include <nbdl/websocket/detail/message_sender.hpp>
#include <string>
#include <vector>

namespace hana = boost::hana;
namespace ws = nbdl::websocket::detail;

namespace
{
  struct outcome { int done = 0, failed = 0; std::size_t written_when_done = 0; };

  template <typename Sender> void send_as(int opcode, auto& r, Sender& sender)
  {
    switch (opcode)
    {
      case 1: return ws::send_text(r, sender);
      case 2: return ws::send_binary(r, sender);
      case 8: return ws::send_close(r, sender);
      case 9: return ws::send_ping(r, sender);
      default: return ws::send_pong(r, sender);
    }
  }

  std::size_t some_size(vf::Src& s, std::size_t frame)
  {
    switch (s.choose(6))
    {
      case 0: return s.upto(3);
      case 1: return s.size(300);
      case 2: case 3:
      {
        // around a multiple of the frame size
        std::size_t n = frame * s.upto(frame > 1000 ? 2 : 4) + s.upto(2);
        return n ? n - 1 : 0;
      }
      case 4: return s.pick({124, 125, 126, 127, 128, 250, 251, 375, 500});
      default: return frame > 1000 || s.chance(5) ? s.upto(150000) : s.upto(700);
    }
  }

  template <typename Payload, std::size_t max> void run(vf::Src& s)
  {
    boost::asio::io_context io;
    auto [a, b] = net::raw_pair(s.boolean() ? 0 : 4096);
    auto socket = net::adopt(io, std::move(a));
    ws::message_sender<Payload, hana::size_t<max>> sender(socket);
    std::size_t count = 1 + s.upto(3);
    std::string wire;                    // received and not yet decoded
    for (std::size_t k = 0; k < count; k++)
    {
      int opcode = s.chance(75) ? 1 + s.choose(2) : 8 + s.choose(3);
      std::size_t n = opcode < 8 ? some_size(s, max) : s.chance(30) ? std::min<std::size_t>(125, max) : s.upto(std::min<std::size_t>(125, max));
      std::string text = n < 40 ? std::string() : s.bulk(n);
      while (text.size() < n) text += static_cast<char>(s.byte());
      s.note("opcode", opcode, "size", n, ";");
      sender.payload() = Payload(text.begin(), text.end());
      bool cut = k + 1 == count && s.chance(15);       // the peer goes away in the middle
      std::size_t cut_after = cut ? s.upto(n) : 0;
      outcome o;
      std::size_t got = 0;
      std::string all;
      nbdl::run_async(nbdl::pipe(
        nbdl::promise([&](auto& r) { send_as(opcode, r, sender); })
      , [&](auto& same) { o.done++; if (&same != &sender) o.failed += 100; }
      , nbdl::catch_([&](std::error_code e) { o.failed += e ? 1 : 100; })));
      bool drained = false;
      bool closed = false;
      for (int idle = 0; idle < 3;)
      {
        std::size_t ran = 0;
        for (std::size_t i = s.upto(3); i-- > 0;) { io.restart(); ran += io.poll_one(); }
        if (idle) { io.restart(); ran += io.poll(); }
        std::size_t want = s.chance(30) ? 1 + s.upto(20) : 1 + s.upto(200000);
        if (cut && got >= cut_after && !closed) { b.shut(); closed = true; }
        auto piece = closed ? std::string() : b.read(idle ? 1 << 20 : want);
        got += piece.size();
        all += piece;
        idle = ran || !piece.empty() ? 0 : idle + 1;
        if (o.done && !drained && !closed)
        {
          // nothing is left to be written once the handler was called
          drained = true;
          for (;;)
          {
            auto more = b.read(1 << 20);
            if (more.empty()) break;
            all += more;
          }
          o.written_when_done = all.size();
        }
        s.check(o.done + o.failed <= 1, "completion handlers called ", o.done, " and ", o.failed, " times");
      }
      s.equal(o.done + o.failed, 1, "completion handlers called");
      if (cut) { s.label("cut"); return; }
      s.check(o.done, "sending failed");
      s.equal(o.written_when_done, all.size(), "bytes written when the handler was called");
      std::string rest = all, joined;
      int frames = 0;
      bool fin = false;
      net::frame f;
      while (!rest.empty())
      {
        s.check(!fin, "bytes after the final frame");
        s.check(net::take_frame(rest, f), "the last frame is incomplete");
        s.equal(f.rsv, 0, "reserved bits");
        s.equal(f.opcode, frames ? 0 : opcode, "opcode of frame ", frames);
        s.check(f.payload.size() <= max, "frame of ", f.payload.size(), " bytes");
        std::size_t len = f.payload.size();
        s.equal(f.length_bytes, len < 126 ? 0 : len < 65536 ? 2 : 8, "length encoding for ", len);
        joined += f.payload;
        fin = f.fin;
        frames++;
      }
      s.check(frames > 0 && fin, "no final frame among ", frames, " frames for ", n, " bytes");
      s.check(opcode < 8 || frames == 1, "fragmented control frame");
      s.equal(joined.size(), text.size(), "payload size");
      s.check(joined == text, "payload differs");
      s.check(std::equal(text.begin(), text.end(), sender.payload().begin(), sender.payload().end(),
                         [](char x, auto y) { return x == static_cast<char>(y); }), "the payload to send was changed");
      s.nontrivial(n > 0);
    }
  }
}

VF_PROP(frames, 6000, 200000)
{
  switch (s.choose(10))
  {
    case 0: case 1: case 2: return run<std::string, 125>(s);
    case 3: return run<std::vector<unsigned char>, 125>(s);
    case 4: return run<std::string, 1>(s);
    case 5: return run<std::vector<char>, 7>(s);
    case 6: return run<std::string, 126>(s);
    case 7: return run<std::string, 65535>(s);
    case 8: return run<std::vector<unsigned char>, 65536>(s);
    default: return run<std::string, 70000>(s);
  }
}

// a frame of many bytes
VF_PROP(huge_frames, 2, 12)
{
  std::size_t n = (std::size_t(1) << (24 + s.choose(2))) + s.upto(300);
  boost::asio::io_context io;
  auto [a, b] = net::raw_pair(0);
  auto socket = net::adopt(io, std::move(a));
  ws::message_sender<std::string, hana::size_t<(std::size_t(1) << 30)>> sender(socket);
  auto text = s.bulk(n);
  sender.payload() = text;
  int done = 0, failed = 0;
  nbdl::run_async(nbdl::pipe(
    nbdl::promise([&](auto& r) { send_as(2, r, sender); })
  , [&](auto&) { done++; }
  , nbdl::catch_([&](std::error_code) { failed++; })));
  std::string all;
  for (int idle = 0; idle < 3;)
  {
    io.restart();
    std::size_t ran = io.poll();
    auto piece = b.read(1 << 20);
    all += piece;
    idle = ran || !piece.empty() ? 0 : idle + 1;
  }
  s.equal(done, 1, "completion handlers called");
  s.equal(failed, 0, "failure handlers called");
  net::frame f;
  std::string rest = all;
  s.check(net::take_frame(rest, f), "the frame of ", n, " bytes is incomplete");
  s.check(rest.empty(), "bytes after the final frame");
  s.check(f.fin && f.opcode == 2 && f.length_bytes == 8 && f.payload == text, "the frame of ", n, " bytes does not carry the payload");
  s.nontrivial();
}

namespace
{
  // says that it has many more bytes than are ever read of it
  struct endless
  {
    using value_type = char;
    char const* from = nullptr;
    std::size_t count = 0;
    char const* begin() const { return from; }
    char const* end() const { return reinterpret_cast<char const*>(reinterpret_cast<std::uintptr_t>(from) + count); }
    std::size_t size() const { return count; }
  };
}

// the first frame of payloads of any length that needs eight bytes
VF_PROP(any_length, 400, 20000)
{
  static std::string const memory = [] { std::string m(4 << 20, '\0'); for (std::size_t i = 0; i < m.size(); i++) m[i] = static_cast<char>(i * 31 + i / 251); return m; }();
  constexpr std::size_t most = std::size_t(1) << 45;
  int bits = 20 + static_cast<int>(s.choose(25));
  std::size_t n = std::size_t(1) << bits;
  switch (s.choose(3)) { case 0: n += s.upto(300); break; case 1: n -= 1 + s.upto(300); break; default: n |= s.upto(n - 1); }
  boost::asio::io_context io;
  auto [a, b] = net::raw_pair(0);
  auto socket = net::adopt(io, std::move(a));
  ws::message_sender<endless, hana::size_t<most>> sender(socket);
  sender.payload() = endless{memory.data(), n};
  s.note("size", n);
  int done = 0, failed = 0;
  nbdl::run_async(nbdl::pipe(
    nbdl::promise([&](auto& r) { send_as(2, r, sender); })
  , [&](auto&) { done++; }
  , nbdl::catch_([&](std::error_code) { failed++; })));
  io.poll();
  auto got = b.read(60000);
  b.shut();
  for (int i = 0; i < 5; i++) { io.restart(); io.poll(); }
  s.check(done + failed <= 1 && done == 0, "completion handlers called ", done, " and ", failed, " times");
  s.check(got.size() > 10, "nothing was sent");
  std::string want(1, '\x82');
  int bytes = 8;
  want += static_cast<char>(127);
  for (int i = bytes; i-- > 0;) want += static_cast<char>(n >> (8 * i));
  s.check(got.compare(0, want.size(), want) == 0, "header ", vf::show(got.substr(0, want.size())), " instead of ", vf::show(want), " for ", n, " bytes");
  s.check(memory.compare(0, got.size() - want.size(), got, want.size()) == 0, "the payload differs");
  s.nontrivial();
}

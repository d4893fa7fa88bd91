// C17: the WebSocket opening handshake computes and demands the right tokens
#include "vf.hpp"
#include "net.hpp"
#include <boost/hana.hpp>
#include <boost/uuid/detail/sha1.hpp>
#include <nbdl/catch.hpp>
#include <nbdl/run_async.hpp>
#include <nbdl/websocket/detail/parse_handshake_request.hpp>
#include <nbdl/websocket/detail/parse_handshake_response.hpp>
#include <nbdl/websocket/detail/send_handshake_request.hpp>
#include <nbdl/websocket/detail/send_handshake_response.hpp>
#include <string>
#include <vector>

namespace hana = boost::hana;
namespace ws = nbdl::websocket::detail;

namespace
{
  std::string accept_token(std::string const& key)
  {
    boost::uuids::detail::sha1 h;
    std::string all = key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11";
    h.process_bytes(all.data(), all.size());
    boost::uuids::detail::sha1::digest_type d;
    h.get_digest(d);
    std::string bytes;
    auto const* p = reinterpret_cast<unsigned char const*>(&d);
    constexpr bool words = sizeof(d[0]) == 4;
    for (unsigned i = 0; i < 20; i++)
      bytes += words ? static_cast<char>(static_cast<unsigned>(d[i / 4]) >> (24 - 8 * (i % 4))) : static_cast<char>(p[i]);
    static char const* abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string r;
    for (std::size_t i = 0; i < bytes.size(); i += 3)
    {
      unsigned v = 0;
      for (int k = 0; k < 3; k++) v = v << 8 | (i + k < bytes.size() ? static_cast<unsigned char>(bytes[i + k]) : 0);
      for (int k = 0; k < 4; k++) r += i + k <= bytes.size() ? abc[v >> (18 - 6 * k) & 63] : '=';
    }
    return r;
  }
  std::string response_for(std::string const& key)
  {
    return "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: "
           + accept_token(key) + "\r\n\r\n";
  }
  constexpr char const* client_key = "dGhlIHNhbXBsZSBub25jZQ==";

  struct outcome { int ready = 0, bad = 0, error = 0; std::string token, reply; int ends() const { return ready + bad + error; } };

  // runs the server side over a socket that delivers `wire` in pieces
  outcome serve(vf::Src& s, std::string_view wire, bool cut)
  {
    outcome o;
    boost::asio::io_context io;
    auto [a, b] = net::raw_pair();
    auto socket = net::adopt(io, std::move(a));
    nbdl::run_async(hana::make_tuple(
      ws::parse_handshake_request()
    , ws::send_handshake_response()
    , [&](auto&, auto const& token) { o.ready++; o.token = token.value; }
    , nbdl::catch_([&](hana::basic_type<nbdl::websocket::event::bad_request_t>) { o.bad++; })
    , nbdl::catch_([&](std::error_code) { o.error++; })
    ), socket);
    int style = static_cast<int>(s.choose(3));
    std::size_t pos = 0;
    while (pos < wire.size())
    {
      std::size_t n = style == 0 ? 1 : style == 1 ? 1 + s.upto(40) : wire.size();
      std::size_t k = b.write(wire.substr(pos, n));
      pos += k;
      io.restart();
      std::size_t ran = s.chance(80) ? io.poll() : 0;
      if (k == 0 && ran == 0) break;
    }
    for (int i = 0; i < 3; i++) { io.restart(); io.poll(); }
    o.reply = b.read(4096);
    if (cut) s.equal(o.ready, 0, "a cut request was answered");
    if (!o.ends()) b.done_writing();
    for (int i = 0; i < 3; i++) { io.restart(); io.poll(); }
    o.reply += b.read(4096);
    s.equal(o.ends(), 1, "ends of the handshake");
    return o;
  }

  std::string cased(vf::Src& s, std::string x)
  {
    switch (s.choose(4))
    {
      case 0: break;
      case 1: for (auto& c : x) c = static_cast<char>(std::tolower(c)); break;
      case 2: for (auto& c : x) c = static_cast<char>(std::toupper(c)); break;
      default: for (auto& c : x) if (s.boolean()) c = static_cast<char>(std::isupper(c) ? std::tolower(c) : std::toupper(c));
    }
    return x;
  }
  std::string spaces(vf::Src& s) { return s.boolean() ? " " : s.text_of(" \t", 3); }
  std::string token_text(vf::Src& s, std::size_t max)
  { return s.text_of("abcXYZ019+/=-_.", max); }

  struct request
  {
    std::string key, cookies, wire;
    bool too_long = false;
  };
  request make_request(vf::Src& s)
  {
    request r;
    std::vector<std::string> lines;
    static char const* const others[] = {"Host", "Origin", "Upgrade", "Connection", "Sec-WebSocket-Version", "X", "Sec-WebSocket-Key2",
                                         "Sec-WebSocket-Ke", "Cookies2", "Cooki", "Sec-WebSocket-Extensions", "X-Cookies", ""};
    for (std::size_t n = s.upto(6); n-- > 0;)
    {
      std::string line = cased(s, others[s.choose(std::size(others))]);
      if (s.chance(85)) line += ":" + spaces(s) + s.text_of("abc:;=, \xc3\xa9\t", 30);
      else if (line.empty()) line = "junk";
      lines.push_back(line);
    }
    if (s.chance(5))
    {
      // a line around the limit of what is accepted
      std::size_t n = s.chance(70) ? 252 + s.upto(6) : 250 + s.upto(3000);
      std::string line = "Long: " + std::string(n - 6, 'l');
      r.too_long = r.too_long || n + 2 > 256;
      lines.push_back(line);
      s.note("line of", n);
    }
    if (s.chance(8)) lines.insert(lines.begin() + s.upto(lines.size()), "Pad:" + std::string(30 + s.upto(218), 'p'));
    switch (s.choose(6))
    {
      case 0: case 1: case 2: r.key = client_key; break;
      case 3: case 4: r.key = token_text(s, 40) + "k"; break;
      default: r.key = token_text(s, 220) + "k";    // a line of it still fits
    }
    lines.insert(lines.begin() + s.upto(lines.size()), cased(s, "Sec-WebSocket-Key") + ":" + spaces(s) + r.key + (s.chance(20) ? spaces(s) : ""));
    if (s.chance(70))
    {
      static char const* const names[] = {"nbdl_auth", "nbdl_aut", "nbdl_auth2", "xnbdl_auth", "a", "session"};
      for (std::size_t n = 1 + s.upto(3); n-- > 0;)
        r.cookies += (r.cookies.empty() ? "" : "; ") + std::string(names[s.choose(std::size(names))]) + "=" + token_text(s, 12);
      if (s.boolean()) r.cookies += ";";
      lines.insert(lines.begin() + s.upto(lines.size()), cased(s, s.boolean() ? "Cookies" : "Cookie") + ":" + spaces(s) + r.cookies);
    }
    if (s.chance(15))   // not a header
      lines.insert(lines.begin() + s.upto(lines.size()), cased(s, s.pick({"Sec-WebSocket-Key", "Cookie", "Cookies", "Sec-WebSocket-Key ", "Cookies;nbdl_auth=no"})));
    r.wire = "GET / HTTP/1.1\r\n";
    for (auto& l : lines) r.wire += l + "\r\n";
    r.wire += "\r\n";
    return r;
  }
  // the value of the first cookie named nbdl_auth
  std::string auth_of(std::string const& cookies)
  {
    std::size_t pos = 0;
    while (pos <= cookies.size())
    {
      std::size_t e = std::min(cookies.find(';', pos), cookies.size());
      std::string c = cookies.substr(pos, e - pos);
      c.erase(0, c.find_first_not_of(' '));
      if (c.rfind("nbdl_auth=", 0) == 0) return c.substr(10);
      pos = e + 1;
    }
    return "";
  }
}

VF_PROP(well_formed_requests, 5000, 200000)
{
  auto r = make_request(s);
  s.note(vf::show(r.wire, 600));
  auto o = serve(s, r.wire, false);
  if (r.too_long)
  {
    s.check(o.bad || o.error, "a line beyond the limit was accepted");
    return;
  }
  s.check(o.ready, "a well-formed request was rejected");
  s.equal(o.reply, response_for(r.key), "response");
  s.equal(o.token, auth_of(r.cookies), "auth token");
  s.nontrivial();
}

VF_PROP(broken_requests, 4000, 100000)
{
  auto r = make_request(s);
  std::string wire = r.wire;
  bool cut = false;
  switch (s.choose(4))
  {
    case 0:                             // another request line
    {
      std::size_t at = s.choose(16);
      char was = wire[at];
      wire[at] = static_cast<char>(s.byte());
      s.require(wire[at] != was);
      break;
    }
    case 1:                             // cut off
      wire.resize(s.upto(wire.size() - 1));
      cut = true;
      break;
    case 2:                             // no key
    {
      wire = "GET / HTTP/1.1\r\nHost: a\r\n";
      wire += s.pick({"", "Sec-WebSocket-Key\r\n", "sec-websocket-key: \r\n", "Sec-WebSocket-Key :abc\r\n", "Sec-WebSocket-Keys:abc\r\n", "Cookies\r\n", "cookie\r\n", ":\r\n"});
      wire += "\r\n";
      break;
    }
    default:                            // an endless line
      wire = "GET / HTTP/1.1\r\nSec-WebSocket-Key: " + std::string(300 + s.upto(5000), 'k');
      cut = s.boolean();
      if (!cut) wire += "\r\n\r\n";
  }
  s.note(vf::show(wire, 600));
  auto o = serve(s, wire, cut);
  s.check(!o.ready, "a broken request was accepted");
  s.equal(o.reply, "", "reply to a broken request");
  s.nontrivial();
}

VF_PROP(any_request_bytes, 4000, 200000)
{
  std::string wire = s.chance(80) ? "GET / HTTP/1.1\r\n" : "";
  static char const* const bits[] = {"\r\n", ":", "\r", "\n", "Sec-WebSocket-Key", "cookies", "Cookie", " ", ";", "nbdl_auth=", "=", "\xff\x80", "k"};
  for (std::size_t n = s.size(24); n-- > 0;)
    wire += s.chance(80) ? std::string(bits[s.choose(std::size(bits))]) : s.chance(10) ? s.bulk(s.upto(400)) : s.bytes(5);
  s.note(vf::show(wire, 600));
  auto o = serve(s, wire, false);
  s.check(!o.ready || o.reply.rfind("HTTP/1.1 101 Switching Protocols\r\n", 0) == 0, "reply");
  s.nontrivial(wire.size() > 16);
}

VF_PROP(client_request, 1500, 20000)
{
  boost::asio::io_context io;
  auto [a, b] = net::raw_pair();
  auto socket = net::adopt(io, std::move(a));
  std::string token = token_text(s, 120), origin = s.text_of("htp:/.org-09", 60);
  int sent = 0;
  {
    auto t = token;
    auto origin_copy = origin;
    nbdl::run_async(hana::make_tuple(
      ws::send_handshake_request(nbdl::websocket::origin_t{origin_copy}, nbdl::auth_token_t{t})
    , [&](auto&&) { sent++; }
    , nbdl::catch_([&](std::error_code) { sent += 100; })
    ), socket);
  }
  io.poll();
  s.equal(sent, 1, "the client's request was sent");
  std::string wire = b.read(4096);
  // the request is one that the library's server answers, and it carries the token
  auto o = serve(s, wire, false);
  s.check(o.ready, "the server rejects the client's request ", vf::show(wire, 600));
  s.equal(o.reply, response_for(client_key), "response");
  s.equal(o.token, token, "auth token");
  for (auto must : {"GET / HTTP/1.1\r\n", "\r\nHost: ", "\r\nUpgrade: websocket\r\n", "\r\nConnection: Upgrade\r\n", "\r\nSec-WebSocket-Version: 13\r\n"})
    s.check(wire.find(must) != wire.npos, "the request lacks ", must);
  s.check(wire.find("\r\nOrigin:" + origin + "\r\n") != wire.npos, "the origin is not sent");
  s.equal(wire.substr(wire.size() - 4), "\r\n\r\n", "end of the request");
  s.nontrivial();
}

VF_PROP(client_accepts_only_its_token, 4000, 100000)
{
  boost::asio::io_context io;
  auto [a, b] = net::raw_pair();
  auto socket = net::adopt(io, std::move(a));
  int ready = 0, bad = 0, error = 0;
  nbdl::run_async(hana::make_tuple(
    ws::parse_handshake_response()
  , [&](auto&&) { ready++; }
  , nbdl::catch_([&](std::error_code) { error++; })
  , nbdl::catch_([&](auto&&) { bad++; })
  ), socket);
  std::string good = response_for(client_key), wire = good;
  bool cut = false;
  switch (s.choose(5))
  {
    case 0: break;
    case 1: { std::size_t at = s.choose(wire.size()); wire[at] = static_cast<char>(s.byte()); break; }
    case 2: wire.resize(s.upto(wire.size() - 1)); cut = true; break;
    case 3: wire = response_for(token_text(s, 20)); break;
    default: wire += s.bytes(20);       // frames may follow at once
  }
  std::string rest = wire.size() > good.size() && wire.compare(0, good.size(), good) == 0 ? wire.substr(good.size()) : "";
  for (std::size_t pos = 0; pos < wire.size();)
  {
    std::size_t n = s.boolean() ? 1 + s.upto(30) : wire.size();
    pos += b.write(std::string_view(wire).substr(pos, n));
    io.restart();
    io.poll();
  }
  s.equal(ready, int(wire.compare(0, good.size(), good) == 0), "accepted");
  if (ready)
  {
    // what follows the response is left for the messages
    std::string left(rest.size() + 10, '\0');
    boost::system::error_code ec;
    socket.non_blocking(true);
    left.resize(socket.read_some(boost::asio::buffer(left), ec));
    s.equal(left, rest, "bytes after the response");
  }
  if (cut) b.shut();
  io.restart();
  io.poll();
  s.equal(ready + bad + error, 1, "ends of the handshake");
  s.note(vf::show(wire, 300));
  s.nontrivial(wire != good);
}

// a peer that is gone when it is written to
VF_PROP(peer_gone, 1500, 20000)
{
  boost::asio::io_context io;
  auto [a, b] = net::raw_pair();
  auto socket = net::adopt(io, std::move(a));
  int on = 0, error = 0, other = 0;
  auto next = [&](auto&&...) { on++; };
  auto failed = nbdl::catch_([&](std::error_code) { error++; });
  auto bad = nbdl::catch_([&](auto&&) { other++; });
  bool server = s.boolean(), stays = s.chance(20);
  s.note(server ? "server" : "client", stays ? "peer stays" : "peer goes");
  std::string wire;
  if (server) { auto r = make_request(s); s.require(!r.too_long); wire = r.wire; }
  auto go = [&]
  {
    if (server) nbdl::run_async(hana::make_tuple(ws::parse_handshake_request(), ws::send_handshake_response(), next, failed, bad), socket);
    else nbdl::run_async(hana::make_tuple(ws::send_handshake_request(nbdl::websocket::origin_t{"o"}, nbdl::auth_token_t{token_text(s, 20)}), next, failed, bad), socket);
  };
  bool begun = s.boolean();
  if (begun) { if (!server && !stays) b.shut(); go(); }
  b.write(wire);
  if (!stays) b.shut();
  if (!begun) go();
  for (int i = 0; i < 3; i++) { io.restart(); io.poll(); }
  s.equal(on, stays ? 1 : 0, "times that the handshake went on");
  s.equal(error, stays ? 0 : 1, "errors that were told");
  s.equal(other, 0, "rejections with another value");
  s.nontrivial(!stays);
}

// connected sockets without a network, and raw access to one end
#ifndef NET_HPP
#define NET_HPP
#include <boost/asio.hpp>
#include <sys/socket.h>
#include <fcntl.h>
#include <unistd.h>
#include <cerrno>
#include <string>
#include <utility>

namespace net
{
  namespace asio = boost::asio;
  using tcp = asio::ip::tcp;

  struct fd
  {
    int n = -1;
    fd() = default;
    explicit fd(int x) : n(x) { }
    fd(fd&& o) : n(std::exchange(o.n, -1)) { }
    fd& operator=(fd&& o) { std::swap(n, o.n); return *this; }
    ~fd() { shut(); }
    void shut() { if (n >= 0) ::close(std::exchange(n, -1)); }
    int release() { return std::exchange(n, -1); }

    // what can be read at once, at most max bytes; sets `eof`
    bool eof = false;
    std::string read(std::size_t max)
    {
      if (max > 65536) max = 65536;
      std::string r(max, '\0');
      ssize_t k = n < 0 || max == 0 ? -1 : ::recv(n, r.data(), max, MSG_DONTWAIT);
      if (k == 0 || (k < 0 && n >= 0 && max && errno == ECONNRESET)) eof = true;
      r.resize(k > 0 ? static_cast<std::size_t>(k) : 0);
      return r;
    }
    // writes what fits at once, returns how much that was
    std::size_t write(std::string_view s)
    {
      if (n < 0 || s.empty()) return 0;
      ssize_t k = ::send(n, s.data(), s.size(), MSG_DONTWAIT | MSG_NOSIGNAL);
      return k > 0 ? static_cast<std::size_t>(k) : 0;
    }
    void done_writing() { if (n >= 0) ::shutdown(n, SHUT_WR); }
  };

  inline std::pair<fd, fd> raw_pair(int buffer = 0)
  {
    int v[2];
    if (::socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, v)) std::abort();
    if (buffer)
      for (int x : v)
      {
        ::setsockopt(x, SOL_SOCKET, SO_SNDBUF, &buffer, sizeof buffer);
        ::setsockopt(x, SOL_SOCKET, SO_RCVBUF, &buffer, sizeof buffer);
      }
    return {fd(v[0]), fd(v[1])};
  }
  inline tcp::socket adopt(asio::io_context& io, fd x)
  {
    tcp::socket s(io);
    s.assign(tcp::v4(), x.release());
    return s;
  }

  // ---- an independent reading of RFC 6455 frames ----------------------------
  struct frame
  {
    bool fin = false;
    int rsv = 0, opcode = 0, length_bytes = 0;
    bool masked = false;
    std::string payload;
  };
  // takes one frame off the front of s; false: it is not complete
  inline bool take_frame(std::string& s, frame& f)
  {
    auto at = [&](std::size_t i) { return static_cast<unsigned char>(s[i]); };
    if (s.size() < 2) return false;
    f.fin = at(0) & 0x80;
    f.rsv = (at(0) >> 4) & 7;
    f.opcode = at(0) & 15;
    f.masked = at(1) & 0x80;
    unsigned long long n = at(1) & 127;
    std::size_t pos = 2, more = n == 126 ? 2 : n == 127 ? 8 : 0;
    f.length_bytes = static_cast<int>(more);
    if (s.size() < pos + more) return false;
    if (more) { n = 0; for (std::size_t i = 0; i < more; i++) n = n << 8 | at(pos++); }
    std::string key(4, '\0');
    if (f.masked)
    {
      if (s.size() < pos + 4) return false;
      key = s.substr(pos, 4);
      pos += 4;
    }
    if (s.size() - pos < n) return false;
    f.payload = s.substr(pos, n);
    for (std::size_t i = 0; i < f.payload.size(); i++) f.payload[i] ^= key[i % 4];
    s.erase(0, pos + n);
    return true;
  }
  inline std::string make_frame(frame const& f, std::string const& key = "")
  {
    std::string r;
    r += static_cast<char>((f.fin ? 0x80 : 0) | f.rsv << 4 | f.opcode);
    unsigned long long n = f.payload.size();
    int more = f.length_bytes ? f.length_bytes : n < 126 ? 0 : n < 65536 ? 2 : 8;
    r += static_cast<char>((f.masked ? 0x80 : 0) | (more == 0 ? n : more == 2 ? 126 : 127));
    for (int i = more - 1; i >= 0; i--) r += static_cast<char>(n >> (8 * i));
    std::string p = f.payload;
    if (f.masked)
    {
      r += key;
      for (std::size_t i = 0; i < p.size(); i++) p[i] ^= key[i % 4];
    }
    return r + p;
  }
}
#endif

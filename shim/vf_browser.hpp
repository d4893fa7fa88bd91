// Runs the JavaScript of programs that were written for a browser in a page
// of its own (browser.js), a process at the other end of a socket.
#ifndef VF_BROWSER_HPP
#define VF_BROWSER_HPP
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <sys/socket.h>
#include <sys/wait.h>
#include <type_traits>
#include <unistd.h>
#include <unordered_map>
#include <utility>
#include <vector>

namespace vf::browser
{
  struct js_error : std::runtime_error { using std::runtime_error::runtime_error; };
  // what a program asks for that this page does not know
  struct unsupported : std::logic_error { using std::logic_error::logic_error; };

  // a JavaScript value; objects are held by number
  struct token
  {
    enum kind_t { undefined, null, boolean, number, text, object } kind = undefined;
    double num = 0;
    std::string str;
    std::shared_ptr<std::uint32_t> id;
  };

  class page
  {
    int fd = -1;
    pid_t owner = 0, child = 0;
    std::string in;
    std::exception_ptr thrown;
    std::map<std::string, std::function<double(std::vector<token> const&)>> functions;
    std::unordered_map<void const*, int> handles;
    int next_handle = 1;

    void start()
    {
      int sv[2];
      if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv)) fail("no socket");
      pid_t p = fork();
      if (p < 0) fail("no process");
      if (p == 0)
      {
        if (sv[1] == 3) { int t = dup(sv[1]); dup2(t, 3); } else dup2(sv[1], 3);
        for (int i = 4; i < 64; i++) close(i);
        execlp("node", "node", VF_BROWSER_JS, static_cast<char*>(nullptr));
        _exit(127);
      }
      close(sv[1]);
      fd = sv[0];
      child = p;
      owner = getpid();
      in.clear();
      dead.clear();
    }
    [[noreturn]] static void fail(char const* what) { std::fprintf(stderr, "the page: %s\n", what); _exit(99); }

    void write_frame(std::string const& body)
    {
      std::string out(4, '\0');
      std::uint32_t n = static_cast<std::uint32_t>(body.size());
      std::memcpy(out.data(), &n, 4);
      out += body;
      std::size_t at = 0;
      while (at < out.size())
      {
        ssize_t k = ::send(fd, out.data() + at, out.size() - at, MSG_NOSIGNAL);
        if (k <= 0) { if (k < 0 && errno == EINTR) continue; fail("gone"); }
        at += static_cast<std::size_t>(k);
      }
    }
    std::string read_exactly(std::size_t n)
    {
      while (in.size() < n)
      {
        char b[65536];
        ssize_t k = ::read(fd, b, sizeof b);
        if (k <= 0) { if (k < 0 && errno == EINTR) continue; fail("gone"); }
        in.append(b, static_cast<std::size_t>(k));
      }
      auto r = in.substr(0, n);
      in.erase(0, n);
      return r;
    }
    std::string read_frame()
    {
      auto h = read_exactly(4);
      std::uint32_t n;
      std::memcpy(&n, h.data(), 4);
      return read_exactly(n);
    }

    public:
    std::vector<std::uint32_t> dead;
    bool alive = true;

    static page& get() { static page* p = new page; return *p; }

    static void put(std::string& o, token const& t)
    {
      auto u32 = [&](std::uint32_t n) { o.append(reinterpret_cast<char*>(&n), 4); };
      switch (t.kind)
      {
        case token::undefined: o += 'u'; break;
        case token::null: o += 'n'; break;
        case token::boolean: o += t.num ? 't' : 'f'; break;
        case token::number: o += 'd'; o.append(reinterpret_cast<char const*>(&t.num), 8); break;
        case token::text: o += 's'; u32(static_cast<std::uint32_t>(t.str.size())); o += t.str; break;
        case token::object: o += 'o'; u32(*t.id); break;
      }
    }
    token take(std::string const& f, std::size_t& at)
    {
      token t;
      auto u32 = [&] { std::uint32_t n; std::memcpy(&n, f.data() + at, 4); at += 4; return n; };
      switch (f[at++])
      {
        case 'u': break;
        case 'n': t.kind = token::null; break;
        case 't': t.kind = token::boolean; t.num = 1; break;
        case 'f': t.kind = token::boolean; break;
        case 'd': t.kind = token::number; std::memcpy(&t.num, f.data() + at, 8); at += 8; break;
        case 's': { t.kind = token::text; auto n = u32(); t.str = f.substr(at, n); at += n; break; }
        case 'o':
          t.kind = token::object;
          t.id.reset(new std::uint32_t(u32()), [](std::uint32_t* p) { get().dead.push_back(*p); delete p; });
          break;
        default: fail("bad value");
      }
      return t;
    }

    // one command and its answer; what the page asks meanwhile is answered
    token command(std::string const& body)
    {
      if (fd < 0 || owner != getpid()) start();
      if (!dead.empty())
      {
        std::string d = "D";
        d.append(reinterpret_cast<char*>(dead.data()), dead.size() * 4);
        dead.clear();
        write_frame(d);
      }
      write_frame(body);
      for (;;)
      {
        auto f = read_frame();
        std::size_t at = 1;
        switch (f[0])
        {
          case 'R': return take(f, at);
          case 'E':
          {
            bool const ours = take(f, at).num;
            auto what = take(f, at).str;
            if (ours && thrown) std::rethrow_exception(std::exchange(thrown, nullptr));
            throw js_error(what);
          }
          case 'Q': answer(f); break;
          default: fail("bad answer");
        }
      }
    }

    void answer(std::string const& f)
    {
      std::size_t at = 2;
      std::vector<token> a;
      while (at < f.size()) a.push_back(take(f, at));
      std::string out;
      auto bytes = [&](char const* p, std::size_t n)
      {
        std::uint32_t k = static_cast<std::uint32_t>(n);
        out = "Bs";
        out.append(reinterpret_cast<char*>(&k), 4);
        out.append(p, n);
      };
      auto pointer = [&](std::size_t i) { return reinterpret_cast<char*>(static_cast<std::uintptr_t>(a.at(i).num)); };
      try
      {
        switch (f[1])
        {
          case 'm': { std::vector<char> v(pointer(0), pointer(0) + static_cast<std::size_t>(a.at(1).num)); bytes(v.data(), v.size()); break; }
          case 't':
          {
            // up to the first NUL or as many as asked for
            std::string v;
            auto* p = pointer(0);
            if (p) for (double n = a.at(1).num; n != 0 && *p; n--, p++) v += *p;
            bytes(v.data(), v.size());
            break;
          }
          case 'w':
          {
            auto* p = pointer(0);
            for (char c : a.at(1).str) *p++ = c;
            out = "R";
            put(out, token{});
            break;
          }
          case 'c':
          {
            auto fn = functions.find(a.at(0).str);
            if (fn == functions.end()) throw unsupported("no function " + a.at(0).str);
            a.erase(a.begin());
            token r;
            r.kind = token::number;
            r.num = fn->second(a);
            out = "R";
            put(out, r);
            break;
          }
          default: fail("bad question");
        }
      }
      catch (...)
      {
        thrown = std::current_exception();
        out = "X";
        put(out, token{});
      }
      write_frame(out);
    }

    // a function of the program that its JavaScript may call
    void export_function(std::string name, std::function<double(std::vector<token> const&)> f) { functions[name] = std::move(f); }

    // small numbers for addresses, as an int is too small for one here
    int handle(void const* p)
    {
      auto [i, fresh] = handles.try_emplace(p, next_handle);
      if (fresh) next_handle++;
      return i->second;
    }
  };

  template <typename T> double to_number(T const& x)
  {
    if constexpr(std::is_pointer_v<T>) return static_cast<double>(reinterpret_cast<std::uintptr_t>(x));
    else if constexpr(std::is_enum_v<T>) return static_cast<double>(static_cast<std::underlying_type_t<T>>(x));
    // integers arrive as the signed words that they are passed in; sizes are words too
    else if constexpr(std::is_integral_v<T> && sizeof(T) <= 4) return static_cast<double>(static_cast<std::int32_t>(x));
    else return static_cast<double>(x);
  }
  inline double asm_call(char const* code, std::vector<double> const& args)
  {
    std::string body = "A";
    token k;
    k.kind = token::number;
    k.num = static_cast<double>(reinterpret_cast<std::uintptr_t>(code));
    page::put(body, k);
    k.kind = token::text;
    k.str = code;
    page::put(body, k);
    for (double a : args) { token t; t.kind = token::number; t.num = a; page::put(body, t); }
    auto r = page::get().command(body);
    return r.kind == token::number || r.kind == token::boolean ? r.num : r.kind == token::text ? std::strtod(r.str.c_str(), nullptr) : 0;
  }
  // a result that is given as an int is a 32 bit word
  inline int to_int(double x)
  {
    if (!std::isfinite(x)) return 0;
    double m = std::fmod(std::trunc(x), 4294967296.0);
    if (m < 0) m += 4294967296.0;
    return static_cast<int>(static_cast<std::uint32_t>(m));
  }
  struct caller
  {
    char const* code;
    template <typename ...A> double operator()(A const& ...a) const { return asm_call(code, {to_number(a)...}); }
    double operator()() const { return asm_call(code, {}); }
  };
}
#endif

// vf - a small property-based testing engine.
//
// A test case is a finite sequence of bounded choices.  Generators draw
// choices from a `vf::Src`; the engine records them, so that every case can be
// replayed, enumerated, shrunk (on the choice sequence, so every generator
// shrinks) and driven by a coverage-guided fuzzer.
//
// Cases run in worker processes.  Choices are recorded in memory shared with
// the parent, so a case that crashes, aborts under a sanitizer or hangs is
// known exactly and is shrunk like any other failure.
#ifndef VF_HPP
#define VF_HPP

#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <limits>
#include <iterator>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

namespace vf
{
  struct Reject { };
  struct Fail { std::string msg; };

  struct Choice { std::uint64_t value; std::uint64_t bound; };

  struct Rng
  {
    std::uint64_t s;
    explicit Rng(std::uint64_t seed) : s(seed) { }
    std::uint64_t next()
    {
      std::uint64_t z = (s += 0x9e3779b97f4a7c15ull);
      z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
      z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
      return z ^ (z >> 31);
    }
  };

  // memory shared between a worker and its parent
  struct Shared
  {
    static constexpr std::size_t max_choices = 1 << 16;
    volatile std::uint64_t count;
    volatile std::uint32_t case_kind;    // index of the running property
    volatile std::uint32_t done;
    char notes[4096];
    volatile std::uint32_t notes_len;
    volatile std::uint32_t msg_len;
    char msg[4096];
    volatile std::uint64_t progress;
    Choice choices[max_choices];
  };

  class Src
  {
    enum mode_t { random, replay, bytes_mode } mode;
    Rng rng;
    std::vector<Choice> const* rep = nullptr;
    std::size_t pos = 0;
    unsigned char const* data = nullptr;
    std::size_t data_size = 0;
    Shared* sh = nullptr;
    std::string desc;
    bool desc_on = true;

  public:
    std::vector<Choice> rec;
    bool is_nontrivial = false;
    bool thorough = false;
    std::vector<std::string> labels;
    std::vector<std::string> known_hits;
    std::vector<std::string> const* known_keys = nullptr;

    explicit Src(std::uint64_t seed, Shared* sh_ = nullptr)
      : mode(random), rng(seed), sh(sh_) { begin(); }
    explicit Src(std::vector<Choice> const& r, Shared* sh_ = nullptr)
      : mode(replay), rng(0), rep(&r), sh(sh_) { begin(); }
    Src(unsigned char const* d, std::size_t n)
      : mode(bytes_mode), rng(0), data(d), data_size(n) { begin(); }

    void attach(Shared* x) { sh = x; begin(); }
    void begin()
    {
      if (sh) { sh->count = 0; sh->notes_len = 0; sh->msg_len = 0; }
    }

    // a value in [0, bound)
    std::uint64_t choose(std::uint64_t bound)
    {
      std::uint64_t v = 0;
      if (rec.size() >= Shared::max_choices)
        throw Reject{};
      if (bound == 1) { v = 0; pos += mode == replay; }
      else if (mode == random)
      {
        v = rng.next();
        if (bound) v %= bound;
      }
      else if (mode == replay)
      {
        v = pos < rep->size() ? (*rep)[pos].value : 0;
        if (bound && v >= bound) v = bound - 1;
        pos++;
      }
      else
      {
        std::uint64_t need = bound ? bound - 1 : ~0ull;
        int shift = 0;
        while (need)
        {
          if (pos < data_size) v |= std::uint64_t(data[pos++]) << shift;
          shift += 8;
          need >>= 8;
        }
        if (bound) v %= bound;
      }
      rec.push_back({v, bound});
      if (sh)
      {
        sh->choices[rec.size() - 1] = {v, bound};
        sh->count = rec.size();
      }
      return v;
    }

    // ---- generators -----------------------------------------------------
    bool chance(unsigned percent) { return choose(100) >= 100 - percent; }
    bool boolean() { return choose(2); }
    std::int64_t range(std::int64_t lo, std::int64_t hi)
    { return lo + static_cast<std::int64_t>(choose(static_cast<std::uint64_t>(hi - lo) + 1)); }
    std::size_t upto(std::size_t n) { return choose(n + 1); }
    std::uint64_t u64() { return choose(0); }

    // geometric-ish size with a bias to small sizes; bounded by max
    std::size_t size(std::size_t max)
    {
      switch (choose(6))
      {
        case 0: return upto(max < 3 ? max : 3);
        case 1: case 2: return upto(max < 8 ? max : 8);
        case 3: return upto(max < 24 ? max : 24);
        default: return upto(max);
      }
    }

    template <typename T>
    T pick(std::initializer_list<T> xs) { return *(xs.begin() + choose(xs.size())); }
    template <typename C>
    auto const& pick_from(C const& xs) { return *(std::next(xs.begin(), choose(xs.size()))); }

    // integers that favour boundaries
    template <typename T>
    T integer(T lo = std::numeric_limits<T>::min(), T hi = std::numeric_limits<T>::max())
    {
      using W = __int128;
      W const l = lo, h = hi;
      auto clamp = [&](W x) { return static_cast<T>(x < l ? l : x > h ? h : x); };
      switch (choose(5))
      {
        case 0: return clamp(W(choose(16)));
        case 1: return clamp(-W(choose(16)));
        case 2:
        {
          // near a power of two
          W p = W(1) << choose(64);
          W d = W(choose(5)) - 2;
          return clamp(boolean() ? p + d : -p + d);
        }
        case 3: return choose(2) ? hi : lo;
        default:
        {
          unsigned __int128 span = static_cast<unsigned __int128>(h - l) + 1;
          if (span > ~0ull) return static_cast<T>(l + W(choose(0)));
          return static_cast<T>(l + W(choose(static_cast<std::uint64_t>(span))));
        }
      }
    }

    unsigned char byte()
    {
      switch (choose(4))
      {
        case 0: return static_cast<unsigned char>("\x00\xff\x7f\x80\x01 aZ"[choose(8)]);
        case 1: return static_cast<unsigned char>('a' + choose(26));
        default: return static_cast<unsigned char>(choose(256));
      }
    }

    std::string bytes(std::size_t max)
    {
      std::string r;
      std::size_t n = size(max);
      for (std::size_t i = 0; i < n; i++) r += static_cast<char>(byte());
      return r;
    }

    std::string text_of(std::string_view alphabet, std::size_t max)
    {
      std::string r;
      std::size_t n = size(max);
      for (std::size_t i = 0; i < n; i++) r += alphabet[choose(alphabet.size())];
      return r;
    }

    // n pseudo random bytes for the price of one choice
    std::string bulk(std::size_t n)
    {
      Rng g(choose(1 << 16) * 7919 + n);
      std::string r(n, '\0');
      for (auto& c : r) c = static_cast<char>(g.next() >> 17);
      return r;
    }

    // ---- observation ----------------------------------------------------
    template <typename ...T>
    void note(T const& ...xs)
    {
      if (desc.size() > 3000) return;
      std::ostringstream o;
      (o << ... << xs);
      desc += o.str();
      desc += ' ';
      if (sh)
      {
        std::size_t n = desc.size() < sizeof(sh->notes) - 1 ? desc.size() : sizeof(sh->notes) - 1;
        std::memcpy(sh->notes, desc.data(), n);
        sh->notes_len = static_cast<std::uint32_t>(n);
      }
    }
    std::string const& description() const { return desc; }
    void nontrivial(bool b = true) { is_nontrivial = is_nontrivial || b; }
    void label(std::string s) { labels.push_back(std::move(s)); }

    template <typename ...T>
    [[noreturn]] void fail(T const& ...xs)
    {
      std::ostringstream o;
      (o << ... << xs);
      throw Fail{o.str()};
    }
    template <typename ...T>
    void check(bool ok, T const& ...xs) { if (!ok) fail(xs...); }

    // a failure that the committed known-findings file may list under `key`
    template <typename ...T>
    void check_known(char const* key, bool ok, T const& ...xs)
    {
      if (ok) return;
      if (known_keys)
        for (auto const& k : *known_keys)
          if (k == key) { known_hits.push_back(k); throw Reject{}; }
      fail("[", key, "] ", xs...);
    }

    template <typename A, typename B, typename ...T>
    void equal(A const& a, B const& b, T const& ...xs)
    {
      if (!(a == b))
      {
        std::ostringstream o;
        (o << ... << xs);
        if constexpr(requires { o << a << b; })
          o << " (got " << a << ", expected " << b << ")";
        throw Fail{o.str()};
      }
    }
    void require(bool ok) { if (!ok) throw Reject{}; }
  };

  inline std::string show(std::string_view s, std::size_t max = 120)
  {
    std::string r = "\"";
    for (std::size_t i = 0; i < s.size() && i < max; i++)
    {
      unsigned char c = static_cast<unsigned char>(s[i]);
      if (c >= 32 && c < 127 && c != '"' && c != '\\') r += s[i];
      else { char b[8]; std::snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    }
    r += s.size() > max ? "\"..(" + std::to_string(s.size()) + ")" : "\"";
    return r;
  }

  using PropFn = void (*)(Src&);
  struct Prop
  {
    char const* name;
    PropFn fn;
    long quick;       // number of random cases in the quick tier; <0: enumerate exhaustively (at most -quick cases)
    long thorough;
  };
  std::vector<Prop>& registry();
  struct Register { Register(Prop p) { registry().push_back(p); } };

  // allocation balance (counts live allocations of this process)
  long live_allocations();
}

#define VF_PROP(NAME, QUICK, THOROUGH)                                        \
  static void vf_prop_##NAME(vf::Src&);                                       \
  static vf::Register vf_reg_##NAME({#NAME, vf_prop_##NAME, QUICK, THOROUGH});\
  static void vf_prop_##NAME([[maybe_unused]] vf::Src& s)

#endif

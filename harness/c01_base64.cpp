#include "vf.hpp"
#include <nbdl/util/base64_encode.hpp>
#include <nbdl/util/base64_decode.hpp>
#include <array>
#include <memory>
#include <optional>
#include <string>
#include <utility>
#include <vector>

namespace
{
  using nbdl::util::base64_encode;
  using nbdl::util::base64_decode;

  // independent reference (bit string based)
  std::string ref_encode(std::string const& s)
  {
    std::string bits;
    for (unsigned char c : s)
      for (int i = 7; i >= 0; i--) bits += ((c >> i) & 1) ? '1' : '0';
    std::string out;
    std::string const al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    for (std::size_t i = 0; i < bits.size(); i += 6)
    {
      std::string six = bits.substr(i, 6);
      while (six.size() < 6) six += '0';
      int v = 0;
      for (char b : six) v = v * 2 + (b - '0');
      out += al[v];
    }
    while (out.size() % 4) out += '=';
    return out;
  }

  std::optional<std::string> ref_decode(std::string const& t)
  {
    std::string const al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    if (t.size() % 4) return {};
    std::size_t end = t.size();
    int pad = 0;
    while (end && t[end - 1] == '=' && pad < 3) { end--; pad++; }
    if (pad > 2) return {};
    std::string bits;
    for (std::size_t i = 0; i < end; i++)
    {
      auto p = al.find(t[i]);
      if (t[i] == '\0' || p == al.npos) return {};
      for (int b = 5; b >= 0; b--) bits += ((p >> b) & 1) ? '1' : '0';
    }
    std::string out;
    for (std::size_t i = 0; i + 8 <= bits.size(); i += 8)
    {
      int v = 0;
      for (std::size_t j = 0; j < 8; j++) v = v * 2 + (bits[i + j] - '0');
      out += static_cast<char>(v);
    }
    return out;
  }

  // heap copies of the exact size, so that the address sanitizer sees over-reads
  template <typename C> C exact(std::string const& s) { C c(s.begin(), s.end()); c.shrink_to_fit(); return c; }

  // a span-like contiguous byte container over exactly-sized heap memory
  template <std::size_t N>
  void array_case(vf::Src& s, std::string const& plain, std::string const& text)
  {
    auto out = std::make_unique<std::array<unsigned char, N>>();
    out->fill(0xA5);
    bool ok = base64_decode(text, *out);
    s.equal(ok, plain.size() == N, "array<", N, "> target: success for decoded size ", plain.size());
    if (ok) s.check(std::string(out->begin(), out->end()) == plain, "array target content");
    if (plain.size() == N)
    {
      auto in = std::make_unique<std::array<unsigned char, N>>();
      std::copy(plain.begin(), plain.end(), in->begin());
      s.equal(base64_encode(*in), text, "encode array");
      if constexpr(N > 0)
      {
        auto inc = std::make_unique<std::array<char, N>>();
        std::copy(plain.begin(), plain.end(), inc->begin());
        s.equal(base64_encode(*inc), text, "encode array of char");
      }
    }
  }

  template <std::size_t ...I>
  void arrays(vf::Src& s, std::string const& p, std::string const& t, std::size_t n, std::index_sequence<I...>)
  { ((I == n ? array_case<I>(s, p, t) : void()), ...); }

  void round_trip_of(vf::Src& s, std::string const& p)
  {
    std::string want = ref_encode(p);
    std::string got = base64_encode(exact<std::vector<unsigned char>>(p));
    s.equal(got, want, "encode vector<unsigned char>");
    s.equal(base64_encode(exact<std::vector<char>>(p)), want, "encode vector<char>");
    s.equal(base64_encode(p), want, "encode string");

    auto back = base64_decode(want);
    s.check(std::string(back.begin(), back.end()) == p, "decode(encode(x)) == x");
    auto back2 = base64_decode(exact<std::vector<unsigned char>>(want));
    s.check(std::string(back2.begin(), back2.end()) == p, "decode from a byte vector");
    std::string o1 = s.bytes(4);
    s.check(base64_decode(want, o1) && o1 == p, "decode into a string");
    std::vector<unsigned char> o2(s.upto(5), 9);
    s.check(base64_decode(want, o2) && std::string(o2.begin(), o2.end()) == p, "decode into a vector");
    std::vector<char> o3;
    s.check(base64_decode(exact<std::vector<char>>(want), o3) && std::string(o3.begin(), o3.end()) == p, "decode into vector<char>");
  }
}

VF_PROP(round_trip, 40000, 1500000)
{
  std::string p = s.bytes(70);
  s.note("bytes=", vf::show(p));
  s.nontrivial(!p.empty());
  s.label("len%3=" + std::to_string(p.size() % 3));
  round_trip_of(s, p);
}

VF_PROP(round_trip_long, 600, 20000)
{
  std::string p = s.bulk(s.upto(5000));
  s.note("long size=", p.size());
  s.nontrivial(!p.empty());
  round_trip_of(s, p);
}

// sizes at which narrower lengths wrap
VF_PROP(round_trip_large, 60, 1500)
{
  std::size_t n = s.pick<std::size_t>({255, 256, 1023, 4096, 32767, 49151, 49152, 65535, 65536, 98303, 98304, 131072, 200000, 262144}) + s.upto(4);
  std::string p = s.bulk(n);
  s.note("large size=", p.size());
  s.nontrivial();
  round_trip_of(s, p);
  // and a text with one byte that is not of the alphabet, anywhere
  std::string t = ref_encode(p);
  std::size_t at = s.choose(t.size());
  t[at] = s.pick({'-', '_', ' ', '\0', '\x80', '='});
  auto want = ref_decode(t);
  std::string o;
  s.equal(base64_decode(t, o), want.has_value(), "decode a large text with one byte changed at ", at);
}

// more bytes than an int has bits for
VF_PROP(round_trip_huge, 1, 2)
{
  std::size_t n = (std::size_t(1) << (s.thorough ? 29 + 2 * s.choose(2) : 29)) + s.upto(1000);
  s.note("huge size=", n);
  s.nontrivial();
  std::vector<unsigned char> v(n);
  unsigned const f = 2654435761u + 2 * s.upto(1000);
  for (std::size_t i = 0; i < n; i++) v[i] = static_cast<unsigned char>((i * f) >> 20);
  std::string t = base64_encode(v);
  s.equal(t.size(), (n + 2) / 3 * 4, "size of the text");
  for (int k = 0; k < 2000; k++)
  {
    // whole quanta, the first and the last among them
    std::size_t q = k == 0 ? 0 : k == 1 ? (n - 1) / 3 : s.choose(n / 3);
    std::string part(v.begin() + 3 * q, v.begin() + std::min(n, 3 * q + 3));
    s.equal(t.substr(4 * q, 4), ref_encode(part), "quantum ", q);
  }
  std::vector<unsigned char> o;
  s.check(base64_decode(t, o), "decode the text of ", n, " bytes");
  s.check(o == v, "decode(encode(x)) == x");
}

// every string of up to two bytes, exhaustively over interesting bytes, and all 1-byte strings
VF_PROP(all_short, -70000, -70000)
{
  std::string p;
  std::size_t n = s.choose(3);
  for (std::size_t i = 0; i < n; i++) p += static_cast<char>(s.choose(256));
  s.note("short=", vf::show(p));
  s.nontrivial(n > 0);
  std::string want = ref_encode(p);
  s.equal(base64_encode(p), want, "encode");
  auto back = base64_decode(want);
  s.check(std::string(back.begin(), back.end()) == p, "decode");
}

VF_PROP(fixed_size_target, 20000, 600000)
{
  std::string p = s.bytes(12);
  if (p.size() > 12) p.resize(12);
  std::size_t n = s.chance(60) ? p.size() : s.upto(12);
  s.note("bytes=", vf::show(p), "target size ", n);
  s.nontrivial();
  arrays(s, p, ref_encode(p), n, std::make_index_sequence<13>{});
}

static void decode_text(vf::Src& s, std::string const& t)
{
  s.note("text=", vf::show(t));
  s.nontrivial(!t.empty());
  auto want = ref_decode(t);
  s.label(want ? "well-formed" : "malformed");
  std::string o;
  bool ok = base64_decode(t, o);
  s.equal(ok, want.has_value(), "decode into string: verdict on the text");
  if (ok) s.check(o == *want, "decoded content");
  std::vector<unsigned char> v;
  ok = base64_decode(exact<std::vector<unsigned char>>(t), v);
  s.equal(ok, want.has_value(), "decode into vector: verdict on the text");
  if (ok) s.check(std::string(v.begin(), v.end()) == *want, "decoded content");
  auto r = base64_decode(exact<std::string>(t));
  s.check(std::string(r.begin(), r.end()) == want.value_or(""), "returned vector");
  std::array<unsigned char, 3> a3{};
  s.equal(base64_decode(t, a3), want && want->size() == 3, "array<3> target verdict");
  std::array<unsigned char, 0> a0{};
  s.equal(base64_decode(t, a0), want && want->size() == 0, "array<0> target verdict");
}

VF_PROP(decode_any_text, 40000, 1500000)
{
  std::string t;
  switch (s.choose(4))
  {
    case 0: t = s.bytes(20); break;
    case 1: t = s.text_of("AQgwZz09+/=-_ ", 16); break;
    case 2: // alphabet with trailing padding
      t = s.text_of("ABab+/09xyZ", 18);
      t += std::string(s.upto(4), '=');
      break;
    default: // mutate a valid text
    {
      t = ref_encode(s.bytes(12));
      std::size_t k = 1 + s.choose(2);
      for (std::size_t i = 0; i < k && !t.empty(); i++)
      {
        std::size_t at = s.choose(t.size());
        switch (s.choose(4))
        {
          case 0: t.erase(at, 1); break;
          case 1: t.insert(at, 1, static_cast<char>(s.byte())); break;
          case 2: t[at] = static_cast<char>(s.byte()); break;
          default: t[at] = '='; break;
        }
      }
    }
  }
  decode_text(s, t);
}

// exhaustive: every text over a small alphabet up to length 6
VF_PROP(decode_all_small, -60000, -2200000)
{
  std::string t;
  std::size_t n = s.choose(s.thorough ? 9 : 7);
  for (std::size_t i = 0; i < n; i++) t += "A=/-z\xff"[s.choose(s.thorough ? 5 : 6)];
  decode_text(s, t);
}

// every byte at every position of a quantum, exhaustively
VF_PROP(decode_every_byte, -30000, -30000)
{
  std::string t = s.choose(2) ? "QUJDREVG" : "QUJDREU=";
  t[s.choose(t.size())] = static_cast<char>(s.choose(256));
  decode_text(s, t);
}

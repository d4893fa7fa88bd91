// Types bound to JSON, their generators, equality and an independent schema
// validator over Json::Value.
#pragma once
#include "vf.hpp"
#include <nbdl/binder/jsoncpp.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/string.hpp>
#include <nbdl/uid.hpp>
#include <nbdl/variant.hpp>
#include <array>
#include <boost/hana.hpp>
#include <cmath>
#include <deque>
#include <list>
#include <optional>
#include <set>
#include <string>
#include <vector>

namespace jt
{
  namespace hana = boost::hana;
  enum color : unsigned { red, green, blue };
  enum mood : unsigned { calm = 0, odd = 7, huge = 4000000000u };

  enum tide : int { low = -5, flat = 0, spring = 2000000000 };
  enum tiny : unsigned char { t_0, t_1, t_200 = 200, t_255 = 255 };
  enum small : signed char { s_min = -128, s_m1 = -1, s_max = 127 };
  enum wide : long { w_min = -5000000000, w_0 = 0, w_max = 9000000000 };
  enum onoff : bool { off, on };
  enum plain { p_neg = -3, p_0, p_1 = 1000 };

  struct none { };
  struct one { double x; };
  using dict_in = decltype(hana::make_map(hana::make_pair(BOOST_HANA_STRING("t"), true), hana::make_pair(BOOST_HANA_STRING("x y"), std::vector<int>())));
  using dict_t = decltype(hana::make_map(hana::make_pair(BOOST_HANA_STRING("n"), 0), hana::make_pair(BOOST_HANA_STRING("in"), dict_in()),
                                         hana::make_pair(BOOST_HANA_STRING("s"), nbdl::string())));
  using nest_t = nbdl::variant<nbdl::optional<int>, std::vector<nbdl::string>, hana::tuple<int, double>, nbdl::variant<bool, int>>;
  struct misc
  {
    dict_t dict;
    std::vector<bool> flags;
    std::set<int> uniq;
    std::list<char> chars;
    std::vector<std::array<unsigned char, 3>> bufs;
    std::vector<std::string> blobs;
    std::array<signed char, 2> sc2;
    nest_t nest;
    std::vector<nest_t> nests;
    hana::tuple<hana::tuple<int, int>, nbdl::string> tt;
    hana::tuple<> nil;
    one o;
    std::vector<one> ones;
    tide td; tiny ty; small sm; wide wd; onoff oo;
    std::vector<tide> tides;
  };
  struct leaf
  {
    int i; unsigned int u; double d; nbdl::string s; bool b; char c;
  };
  struct inner
  {
    leaf l;
    std::vector<int> xs;
    nbdl::variant<int, nbdl::string, leaf, none, std::vector<unsigned int>> v;
  };
  struct doc
  {
    inner in;
    std::vector<inner> many;
    std::list<nbdl::string> names;
    std::vector<std::vector<unsigned int>> grid;
    std::vector<unsigned char> buf;
    std::string cbuf;
    std::array<unsigned char, 4> fixed;
    nbdl::uid id;
    nbdl::optional<leaf> maybe;
    hana::tuple<int, nbdl::string, std::vector<int>> seq;
    hana::tuple<double> single;
    color col;
    mood md;
    none nothing;
    std::deque<nbdl::variant<double, bool>> vars;
  };
}

namespace nbdl
{
  NBDL_EMPTY(jt::none);
  NBDL_ENTITY(jt::one, x);
  NBDL_ENTITY(jt::misc, dict, flags, uniq, chars, bufs, blobs, sc2, nest, nests, tt, nil, o, ones, td, ty, sm, wd, oo, tides);
  NBDL_ENTITY(jt::leaf, i, u, d, s, b, c);
  NBDL_ENTITY(jt::inner, l, xs, v);
  NBDL_ENTITY(jt::doc, in, many, names, grid, buf, cbuf, fixed, id, maybe, seq, single, col, md, nothing, vars);
}

namespace jt
{
  // ---- equality (plain C++, independent of the library) ----------------
  inline bool eq(int a, int b) { return a == b; }
  inline bool eq(unsigned a, unsigned b) { return a == b; }
  inline bool eq(bool a, bool b) { return a == b; }
  inline bool eq(char a, char b) { return a == b; }
  inline bool eq(double a, double b) { return a == b && std::signbit(a) == std::signbit(b); }
  inline bool eq(nbdl::string const& a, nbdl::string const& b) { return static_cast<std::string const&>(a) == b; }
  inline bool eq(std::string const& a, std::string const& b) { return a == b; }
  inline bool eq(std::vector<unsigned char> const& a, std::vector<unsigned char> const& b) { return a == b; }
  inline bool eq(std::array<unsigned char, 4> const& a, std::array<unsigned char, 4> const& b) { return a == b; }
  inline bool eq(nbdl::uid const& a, nbdl::uid const& b) { return std::equal(a.begin(), a.end(), b.begin()); }
  inline bool eq(none, none) { return true; }
  inline bool eq(nbdl::unresolved, nbdl::unresolved) { return true; }
  inline bool eq(nbdl::nothing, nbdl::nothing) { return true; }
  inline bool eq(color a, color b) { return a == b; }
  inline bool eq(mood a, mood b) { return a == b; }
  inline bool eq(plain a, plain b) { return a == b; }
  bool eq(one const& a, one const& b);
  bool eq(hana::tuple<int, double> const& a, hana::tuple<int, double> const& b);
  bool eq(leaf const& a, leaf const& b);
  bool eq(inner const& a, inner const& b);
  template <typename D, typename ...T>
  bool eq(nbdl::detail::variant<D, T...> const& a, nbdl::detail::variant<D, T...> const& b);
  template <typename T> bool eqc(T const& a, T const& b);
  template <typename T> bool eq(std::vector<T> const& a, std::vector<T> const& b) { return eqc(a, b); }
  template <typename T> bool eq(std::list<T> const& a, std::list<T> const& b) { return eqc(a, b); }
  template <typename T> bool eq(std::deque<T> const& a, std::deque<T> const& b) { return eqc(a, b); }
  template <typename T> bool eqc(T const& a, T const& b)
  {
    if (a.size() != b.size()) return false;
    auto j = b.begin();
    for (auto const& x : a) if (!eq(x, *j++)) return false;
    return true;
  }
  inline bool eq(leaf const& a, leaf const& b)
  { return eq(a.i, b.i) && eq(a.u, b.u) && eq(a.d, b.d) && eq(a.s, b.s) && eq(a.b, b.b) && eq(a.c, b.c); }
  template <typename D, typename ...T>
  bool eq(nbdl::detail::variant<D, T...> const& a, nbdl::detail::variant<D, T...> const& b)
  {
    if (a.get_type_id() != b.get_type_id()) return false;
    bool r = false;
    a.match([&](auto const& x)
    {
      b.match([&](auto const& y)
      {
        if constexpr(std::is_same_v<decltype(x), decltype(y)>) r = eq(x, y);
      });
    });
    return r;
  }
  inline bool eq(inner const& a, inner const& b) { return eq(a.l, b.l) && eq(a.xs, b.xs) && eq(a.v, b.v); }
  inline bool eq(doc const& a, doc const& b)
  {
    namespace hana = boost::hana;
    using hana::at_c;
    return eq(a.in, b.in) && eq(a.many, b.many) && eq(a.names, b.names) && eq(a.grid, b.grid) && eq(a.buf, b.buf)
      && eq(a.cbuf, b.cbuf) && eq(a.fixed, b.fixed) && eq(a.id, b.id) && eq(a.maybe, b.maybe)
      && eq(at_c<0>(a.seq), at_c<0>(b.seq)) && eq(at_c<1>(a.seq), at_c<1>(b.seq)) && eq(at_c<2>(a.seq), at_c<2>(b.seq))
      && eq(at_c<0>(a.single), at_c<0>(b.single)) && eq(a.col, b.col) && eq(a.md, b.md) && eq(a.vars, b.vars);
  }

  inline bool eq(one const& a, one const& b) { return eq(a.x, b.x); }
  inline bool eq(dict_t const& a, dict_t const& b)
  {
    using namespace hana::literals;
    auto const& p = a[BOOST_HANA_STRING("in")];
    auto const& q = b[BOOST_HANA_STRING("in")];
    return eq(a[BOOST_HANA_STRING("n")], b[BOOST_HANA_STRING("n")]) && eq(a[BOOST_HANA_STRING("s")], b[BOOST_HANA_STRING("s")])
      && eq(p[BOOST_HANA_STRING("t")], q[BOOST_HANA_STRING("t")]) && eqc(p[BOOST_HANA_STRING("x y")], q[BOOST_HANA_STRING("x y")]);
  }
  inline bool eq(hana::tuple<int, double> const& a, hana::tuple<int, double> const& b)
  { return eq(hana::at_c<0>(a), hana::at_c<0>(b)) && eq(hana::at_c<1>(a), hana::at_c<1>(b)); }
  inline bool eq(misc const& a, misc const& b)
  {
    using hana::at_c;
    return eq(a.dict, b.dict) && a.flags == b.flags && a.uniq == b.uniq && a.chars == b.chars && a.bufs == b.bufs && a.blobs == b.blobs
      && a.sc2 == b.sc2 && eq(a.nest, b.nest) && eq(a.nests, b.nests)
      && eq(at_c<0>(at_c<0>(a.tt)), at_c<0>(at_c<0>(b.tt))) && eq(at_c<1>(at_c<0>(a.tt)), at_c<1>(at_c<0>(b.tt))) && eq(at_c<1>(a.tt), at_c<1>(b.tt))
      && eq(a.o, b.o) && eq(a.ones, b.ones) && a.td == b.td && a.ty == b.ty && a.sm == b.sm && a.wd == b.wd && a.oo == b.oo
      && a.tides == b.tides;
  }

  // ---- generators --------------------------------------------------------
  inline void put_utf8(std::string& r, std::uint32_t c)
  {
    if (c < 0x80) r += static_cast<char>(c);
    else if (c < 0x800) { r += static_cast<char>(0xC0 | (c >> 6)); r += static_cast<char>(0x80 | (c & 63)); }
    else if (c < 0x10000)
    { r += static_cast<char>(0xE0 | (c >> 12)); r += static_cast<char>(0x80 | ((c >> 6) & 63)); r += static_cast<char>(0x80 | (c & 63)); }
    else
    {
      r += static_cast<char>(0xF0 | (c >> 18)); r += static_cast<char>(0x80 | ((c >> 12) & 63));
      r += static_cast<char>(0x80 | ((c >> 6) & 63)); r += static_cast<char>(0x80 | (c & 63));
    }
  }
  inline std::string unicode(vf::Src& s, std::size_t max = 10)
  {
    std::string r;
    std::size_t n = s.size(max);
    for (std::size_t i = 0; i < n; i++)
      switch (s.choose(6))
      {
        case 0: case 1: r += static_cast<char>('a' + s.choose(26)); break;
        case 2: r += "\"\\/\b\f\n\r\t{}[]:, \0\x1f\x7f"[s.choose(18)]; break;
        case 3: r += static_cast<char>(s.choose(128)); break;
        case 4: put_utf8(r, static_cast<std::uint32_t>(0x80 + s.choose(0xD800 - 0x80))); break;
        default:
          put_utf8(r, s.boolean() ? static_cast<std::uint32_t>(0xE000 + s.choose(0xFFFD - 0xE000))
                                  : static_cast<std::uint32_t>(0x10000 + s.choose(0x100000)));
      }
    return r;
  }
  inline double real(vf::Src& s)
  {
    switch (s.choose(5))
    {
      case 0: return static_cast<double>(s.range(-20, 20));
      case 1: return static_cast<double>(s.range(-100000, 100000)) / 1000.0;
      case 2: return s.pick({0.0, -0.0, 0.1, 1e300, -1e300, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308,
                             9007199254740993.0, 18446744073709551616.0, 1e-10, 123456789012345680.0, 4294967296.0, -2147483649.0});
      default:
      {
        std::uint64_t bits = s.u64();
        double d;
        std::memcpy(&d, &bits, sizeof d);
        return std::isfinite(d) ? d : 1.5;
      }
    }
  }
  template <typename C, typename F> void fill(vf::Src& s, C& c, std::size_t max, F f)
  { std::size_t n = s.chance(25) ? 0 : s.upto(max); for (std::size_t i = 0; i < n; i++) c.insert(c.end(), f()); }

  inline leaf gen_leaf(vf::Src& s)
  {
    leaf l{};
    l.i = s.integer<int>();
    l.u = s.integer<unsigned>();
    l.d = real(s);
    l.s = nbdl::string(unicode(s));
    l.b = s.boolean();
    l.c = static_cast<char>(s.byte());
    return l;
  }
  inline inner gen_inner(vf::Src& s)
  {
    inner r{};
    r.l = gen_leaf(s);
    fill(s, r.xs, 5, [&] { return s.integer<int>(); });
    switch (s.choose(6))
    {
      case 0: break;
      case 1: r.v = s.integer<int>(); break;
      case 2: r.v = nbdl::string(unicode(s)); break;
      case 3: r.v = gen_leaf(s); break;
      case 4: r.v = none{}; break;
      default: { std::vector<unsigned int> x; fill(s, x, 3, [&] { return s.integer<unsigned>(); }); r.v = x; }
    }
    return r;
  }
  inline doc gen_doc(vf::Src& s)
  {
    doc d{};
    d.in = gen_inner(s);
    fill(s, d.many, 3, [&] { return gen_inner(s); });
    fill(s, d.names, 4, [&] { return nbdl::string(unicode(s)); });
    fill(s, d.grid, 3, [&] { std::vector<unsigned int> r; fill(s, r, 3, [&] { return s.integer<unsigned>(); }); return r; });
    auto b = s.bytes(20);
    d.buf.assign(b.begin(), b.end());
    d.cbuf = s.bytes(20);
    for (auto& x : d.fixed) x = s.byte();
    for (auto& x : d.id) x = s.byte();
    if (s.boolean()) d.maybe = gen_leaf(s); else d.maybe = nbdl::nothing{};
    hana::at_c<0>(d.seq) = s.integer<int>();
    hana::at_c<1>(d.seq) = nbdl::string(unicode(s));
    fill(s, hana::at_c<2>(d.seq), 4, [&] { return s.integer<int>(); });
    hana::at_c<0>(d.single) = real(s);
    d.col = static_cast<color>(s.choose(3));
    d.md = s.pick({calm, odd, huge});
    fill(s, d.vars, 4, [&]
    {
      nbdl::variant<double, bool> v;
      switch (s.choose(3)) { case 0: break; case 1: v = real(s); break; default: v = s.boolean(); }
      return v;
    });
    return d;
  }

  inline nest_t gen_nest(vf::Src& s)
  {
    nest_t v;
    switch (s.choose(8))
    {
      case 0: break;
      case 1: v = nbdl::optional<int>(s.integer<int>()); break;
      case 2: v = nbdl::optional<int>(); break;
      case 3: { std::vector<nbdl::string> x; fill(s, x, 3, [&] { return nbdl::string(unicode(s)); }); v = x; break; }
      case 4: v = hana::tuple<int, double>(s.integer<int>(), real(s)); break;
      case 5: v = nbdl::variant<bool, int>(s.boolean()); break;
      case 6: v = nbdl::variant<bool, int>(s.integer<int>()); break;
      default: v = nbdl::variant<bool, int>(); break;
    }
    return v;
  }
  inline misc gen_misc(vf::Src& s)
  {
    misc m{};
    m.dict[BOOST_HANA_STRING("n")] = s.integer<int>();
    m.dict[BOOST_HANA_STRING("s")] = nbdl::string(unicode(s));
    m.dict[BOOST_HANA_STRING("in")][BOOST_HANA_STRING("t")] = s.boolean();
    fill(s, m.dict[BOOST_HANA_STRING("in")][BOOST_HANA_STRING("x y")], 3, [&] { return s.integer<int>(); });
    fill(s, m.flags, 6, [&] { return s.boolean(); });
    fill(s, m.uniq, 6, [&] { return s.integer<int>(); });
    fill(s, m.chars, 4, [&] { return static_cast<char>(s.byte()); });
    fill(s, m.bufs, 3, [&] { return std::array<unsigned char, 3>{s.byte(), s.byte(), s.byte()}; });
    fill(s, m.blobs, 3, [&] { return s.bytes(8); });
    for (auto& x : m.sc2) x = static_cast<signed char>(s.byte());
    m.nest = gen_nest(s);
    fill(s, m.nests, 3, [&] { return gen_nest(s); });
    hana::at_c<0>(hana::at_c<0>(m.tt)) = s.integer<int>();
    hana::at_c<1>(hana::at_c<0>(m.tt)) = s.integer<int>();
    hana::at_c<1>(m.tt) = nbdl::string(unicode(s));
    m.o.x = real(s);
    fill(s, m.ones, 3, [&] { return one{real(s)}; });
    m.td = s.boolean() ? static_cast<tide>(s.integer<int>()) : s.pick({low, flat, spring});
    m.ty = static_cast<tiny>(s.byte());
    m.sm = static_cast<small>(static_cast<signed char>(s.byte()));
    m.wd = s.boolean() ? static_cast<wide>(s.integer<std::int64_t>()) : s.pick({w_min, w_0, w_max});
    m.oo = s.boolean() ? on : off;
    fill(s, m.tides, 3, [&] { return s.pick({low, flat, spring}); });
    return m;
  }

  // ---- a model of the accepted documents ---------------------------------
  // canon(json, schema): the document the library must write for the value it
  // reads, or nothing when the document must be rejected.
  using J = Json::Value;
  using O = std::optional<J>;
  struct member;
  struct schema
  {
    enum kind_t { integer, unsig, real, boolean, chr, str, buffer, fixed, array, object, tuple, variant, empty, en, ranged, set } kind;
    std::size_t n = 0;                                            // fixed size
    std::vector<member> members;                                  // object; tuple and variant use the second only
    std::int64_t lo = 0, hi = 0;                                  // ranged
  };
  struct member { std::string first; schema second; };
  O canon(J const& j, schema const& c);

  inline bool b64_ok(std::string const& t, std::string& out)
  {
    std::string const al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    if (t.size() % 4) return false;
    std::size_t e = t.size();
    int pad = 0;
    while (e && t[e - 1] == '=') { e--; pad++; }
    if (pad > 2) return false;
    unsigned acc = 0, bits = 0;
    for (std::size_t i = 0; i < e; i++)
    {
      auto p = t[i] ? al.find(t[i]) : al.npos;
      if (p == al.npos) return false;
      acc = (acc << 6) | static_cast<unsigned>(p);
      bits += 6;
      if (bits >= 8) { bits -= 8; out += static_cast<char>((acc >> bits) & 255); }
    }
    return true;
  }
  inline std::string b64(std::string const& s)
  {
    std::string const al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string r;
    unsigned acc = 0, bits = 0;
    for (unsigned char c : s)
    {
      acc = (acc << 8) | c; bits += 8;
      while (bits >= 6) { bits -= 6; r += al[(acc >> bits) & 63]; }
    }
    if (bits) r += al[(acc << (6 - bits)) & 63];
    while (r.size() % 4) r += '=';
    return r;
  }
  inline O canon(J const& j, schema const& c)
  {
    switch (c.kind)
    {
      case schema::integer: case schema::chr:
        if (!j.isIntegral() || !j.isInt()) return {};
        if (c.kind == schema::chr && (j.asInt() < -128 || j.asInt() > 127)) return {};
        return J(j.asInt());
      case schema::unsig: case schema::en:
        if (!j.isIntegral() || !j.isUInt()) return {};
        return J(j.asUInt());
      case schema::ranged:
        if (!j.isIntegral() || !j.isInt64() || j.asInt64() < c.lo || j.asInt64() > c.hi) return {};
        return J(static_cast<Json::Int64>(j.asInt64()));
      case schema::set:
      {
        if (!j.isArray()) return {};
        std::set<int> u;
        for (auto const& x : j) { if (!x.isIntegral() || !x.isInt()) return {}; u.insert(x.asInt()); }
        J r(Json::arrayValue);
        for (int x : u) r.append(x);
        return r;
      }
      case schema::real: if (!j.isNumeric()) return {}; return J(j.asDouble());
      case schema::boolean: if (!j.isBool()) return {}; return J(j.asBool());
      case schema::str: if (!j.isString()) return {}; return J(j.asString());
      case schema::buffer: case schema::fixed:
      {
        std::string out;
        if (!j.isString() || !b64_ok(j.asString(), out)) return {};
        if (c.kind == schema::fixed && out.size() != c.n) return {};
        return J(b64(out));
      }
      case schema::array:
      {
        if (!j.isArray()) return {};
        J r(Json::arrayValue);
        for (auto const& x : j) { auto y = canon(x, c.members[0].second); if (!y) return {}; r.append(*y); }
        return r;
      }
      case schema::object:
      {
        if (!j.isObject()) return {};
        J r(Json::objectValue);
        for (auto const& m : c.members)
        {
          auto y = canon(j.isMember(m.first) ? j[m.first] : J(), m.second);
          if (!y) return {};
          r[m.first] = *y;
        }
        return r;
      }
      case schema::tuple:
      {
        if (c.members.empty()) return J();
        if (c.members.size() == 1) return canon(j, c.members[0].second);
        if (!j.isArray() || j.size() != c.members.size()) return {};
        J r(Json::arrayValue);
        for (Json::ArrayIndex i = 0; i < j.size(); i++)
        { auto y = canon(j[i], c.members[i].second); if (!y) return {}; r.append(*y); }
        return r;
      }
      case schema::variant:
      {
        J id;
        bool arr = j.isArray() && j.size() == 2;
        if (arr) id = j[0u]; else id = j;
        if (!id.isIntegral() || !id.isInt()) return {};
        int k = id.asInt();
        if (k < 0 || k >= static_cast<int>(c.members.size())) return {};
        auto const& alt = c.members[static_cast<std::size_t>(k)].second;
        if ((alt.kind == schema::empty) == arr) return {};
        if (!arr) return J(k);
        auto y = canon(j[1u], alt);
        if (!y) return {};
        J r(Json::arrayValue);
        r.append(k); r.append(*y);
        return r;
      }
      case schema::empty: return J();
    }
    return {};
  }

  inline schema sc(schema::kind_t k, std::size_t n = 0) { return {k, n, {}}; }
  inline schema sarr(schema e) { return {schema::array, 0, {{"", e}}}; }
  inline schema leaf_schema()
  {
    return {schema::object, 0, {{"i", sc(schema::integer)}, {"u", sc(schema::unsig)}, {"d", sc(schema::real)},
      {"s", sc(schema::str)}, {"b", sc(schema::boolean)}, {"c", sc(schema::chr)}}};
  }
  inline schema inner_schema()
  {
    return {schema::object, 0, {{"l", leaf_schema()}, {"xs", sarr(sc(schema::integer))},
      {"v", {schema::variant, 0, {{"", sc(schema::empty)}, {"", sc(schema::integer)}, {"", sc(schema::str)},
        {"", leaf_schema()}, {"", sc(schema::empty)}, {"", sarr(sc(schema::unsig))}}}}}};
  }
  inline schema doc_schema()
  {
    return {schema::object, 0, {
      {"in", inner_schema()}, {"many", sarr(inner_schema())}, {"names", sarr(sc(schema::str))},
      {"grid", sarr(sarr(sc(schema::unsig)))}, {"buf", sc(schema::buffer)}, {"cbuf", sc(schema::buffer)},
      {"fixed", sc(schema::fixed, 4)}, {"id", sc(schema::fixed, 16)},
      {"maybe", {schema::variant, 0, {{"", sc(schema::empty)}, {"", leaf_schema()}}}},
      {"seq", {schema::tuple, 0, {{"", sc(schema::integer)}, {"", sc(schema::str)}, {"", sarr(sc(schema::integer))}}}},
      {"single", sc(schema::real)}, {"col", sc(schema::en)}, {"md", sc(schema::en)}, {"nothing", sc(schema::empty)},
      {"vars", sarr({schema::variant, 0, {{"", sc(schema::empty)}, {"", sc(schema::real)}, {"", sc(schema::boolean)}}})}}};
  }

  template <typename E> schema sen()
  {
    using U = std::underlying_type_t<E>;
    return {schema::ranged, 0, {}, static_cast<std::int64_t>(std::numeric_limits<U>::min()), static_cast<std::int64_t>(std::numeric_limits<U>::max())};
  }
  inline schema nest_schema()
  {
    return {schema::variant, 0, {{"", sc(schema::empty)}, {"", {schema::variant, 0, {{"", sc(schema::empty)}, {"", sc(schema::integer)}}}},
      {"", sarr(sc(schema::str))}, {"", {schema::tuple, 0, {{"", sc(schema::integer)}, {"", sc(schema::real)}}}},
      {"", {schema::variant, 0, {{"", sc(schema::empty)}, {"", sc(schema::boolean)}, {"", sc(schema::integer)}}}}}};
  }
  inline schema misc_schema()
  {
    return {schema::object, 0, {
      {"dict", {schema::object, 0, {{"n", sc(schema::integer)}, {"s", sc(schema::str)},
        {"in", {schema::object, 0, {{"t", sc(schema::boolean)}, {"x y", sarr(sc(schema::integer))}}}}}}},
      {"flags", sarr(sc(schema::boolean))}, {"uniq", sc(schema::set)}, {"chars", sarr(sc(schema::chr))}, {"bufs", sarr(sc(schema::fixed, 3))},
      {"blobs", sarr(sc(schema::buffer))}, {"sc2", sc(schema::fixed, 2)}, {"nest", nest_schema()}, {"nests", sarr(nest_schema())},
      {"tt", {schema::tuple, 0, {{"", {schema::tuple, 0, {{"", sc(schema::integer)}, {"", sc(schema::integer)}}}}, {"", sc(schema::str)}}}},
      {"nil", {schema::tuple, 0, {}}}, {"o", {schema::object, 0, {{"x", sc(schema::real)}}}}, {"ones", sarr({schema::object, 0, {{"x", sc(schema::real)}}})},
      {"td", sen<tide>()}, {"ty", sen<tiny>()}, {"sm", sen<small>()}, {"wd", sen<wide>()}, {"oo", sc(schema::boolean)},
      {"tides", sarr(sen<tide>())}}};
  }

  // kinds must match exactly in number representation when compared
  inline bool same(J const& a, J const& b)
  {
    if (a.isIntegral() && b.isIntegral() && a.isInt64() && b.isInt64()) return a.asInt64() == b.asInt64();
    if (a.isNumeric() && b.isNumeric() && !a.isBool() && !b.isBool()) return a.asDouble() == b.asDouble();
    if (a.type() != b.type()) return false;
    if (a.isArray())
    {
      if (a.size() != b.size()) return false;
      for (Json::ArrayIndex i = 0; i < a.size(); i++) if (!same(a[i], b[i])) return false;
      return true;
    }
    if (a.isObject())
    {
      if (a.size() != b.size()) return false;
      for (auto const& k : a.getMemberNames()) if (!b.isMember(k) || !same(a[k], b[k])) return false;
      return true;
    }
    return a == b;
  }
  inline bool parse(std::string const& t, J& out)
  {
    Json::CharReaderBuilder b;
    std::unique_ptr<Json::CharReader> r(b.newCharReader());
    std::string e;
    try { return r->parse(t.data(), t.data() + t.size(), &out, &e); }
    catch (std::exception const&) { return false; }
  }
  inline std::string write(J const& j)
  {
    Json::StreamWriterBuilder b;
    b["indentation"] = "";
    return Json::writeString(b, j);
  }
}

// C28: values go to JavaScript and come back, and JavaScript sees what JSON says
#include "json_types.hpp"
#include <nbdl/binder/js.hpp>
#include <nbdl/js.hpp>
#include <emscripten/val.h>

namespace js = nbdl::binder::js;
using ev = emscripten::val;
using jt::unicode;
using jt::fill;
namespace hana = boost::hana;

namespace w
{
  // JavaScript has no 64 bit integers, and the binding has no reals
  using jt::color; using jt::mood; using jt::tide; using jt::tiny; using jt::small; using jt::onoff; using jt::plain; using jt::none;
  struct leaf { int i; unsigned u; nbdl::string s; bool b; char c; };
  struct solo { nbdl::string only; };
  using dict_in = decltype(hana::make_map(hana::make_pair(BOOST_HANA_STRING("t"), true), hana::make_pair(BOOST_HANA_STRING("x y"), std::vector<int>())));
  using dict_t = decltype(hana::make_map(hana::make_pair(BOOST_HANA_STRING("n"), 0), hana::make_pair(BOOST_HANA_STRING("in"), dict_in()),
                                         hana::make_pair(BOOST_HANA_STRING("s"), nbdl::string())));
  using var_t = nbdl::variant<int, nbdl::string, leaf, none, std::vector<unsigned>, bool, solo>;
  using nest_t = nbdl::variant<nbdl::optional<int>, std::vector<nbdl::string>, hana::tuple<int, nbdl::string>, nbdl::variant<bool, int>, std::vector<unsigned char>>;
  struct inner { leaf l; std::vector<int> xs; var_t v; };
  struct doc
  {
    inner in;
    std::vector<inner> many;
    std::list<nbdl::string> names;
    std::vector<std::vector<unsigned>> grid;
    std::vector<unsigned char> buf;
    std::string cbuf;
    nbdl::uid id;
    nbdl::optional<leaf> maybe;
    hana::tuple<int, nbdl::string, std::vector<int>> seq;
    hana::tuple<unsigned> single;
    color col; mood md; tide td; tiny ty; small sm; onoff oo; plain pl;
    none nothing;
    solo so;
    std::deque<nbdl::variant<unsigned, bool>> vars;
  };
  struct misc
  {
    dict_t dict;
    std::list<char> chars;
    std::deque<bool> flags;
    std::vector<std::vector<unsigned char>> bufs;
    std::vector<std::string> blobs;
    std::vector<std::vector<nbdl::string>> texts;
    nest_t nest;
    std::vector<nest_t> nests;
    hana::tuple<hana::tuple<int, unsigned>, nbdl::string> tt;
    std::vector<hana::tuple<int, bool>> rows;
    std::vector<hana::pair<unsigned, nbdl::string>> pairs;
    std::vector<tide> tides;
    std::vector<mood> moods;
    std::vector<solo> solos;
  };
}
namespace nbdl
{
  NBDL_ENTITY(w::leaf, i, u, s, b, c);
  NBDL_ENTITY(w::solo, only);
  NBDL_ENTITY(w::inner, l, xs, v);
  NBDL_ENTITY(w::doc, in, many, names, grid, buf, cbuf, id, maybe, seq, single, col, md, td, ty, sm, oo, pl, nothing, so, vars);
  NBDL_ENTITY(w::misc, dict, chars, flags, bufs, blobs, texts, nest, nests, tt, rows, pairs, tides, moods, solos);
}

namespace w
{
  // ---- equality, by hand ----
  template <typename T> std::enable_if_t<std::is_arithmetic_v<T> || std::is_enum_v<T>, bool> same_(T a, T b) { return a == b; }
  inline bool same_(nbdl::string const& a, nbdl::string const& b) { return static_cast<std::string const&>(a) == static_cast<std::string const&>(b); }
  inline bool same_(std::string const& a, std::string const& b) { return a == b; }
  inline bool same_(nbdl::uid const& a, nbdl::uid const& b) { return std::equal(a.begin(), a.end(), b.begin()); }
  inline bool same_(none, none) { return true; }
  inline bool same_(nbdl::unresolved, nbdl::unresolved) { return true; }
  inline bool same_(nbdl::nothing, nbdl::nothing) { return true; }
  inline bool same_(leaf const& a, leaf const& b)
  { return same_(a.i, b.i) && same_(a.u, b.u) && same_(a.s, b.s) && same_(a.b, b.b) && same_(a.c, b.c); }
  inline bool same_(solo const& a, solo const& b) { return same_(a.only, b.only); }
  bool same_(inner const& a, inner const& b);
  template <typename D, typename ...T> bool same_(nbdl::detail::variant<D, T...> const& a, nbdl::detail::variant<D, T...> const& b);
  template <typename A, typename B> bool same_(hana::pair<A, B> const& a, hana::pair<A, B> const& b) { return same_(hana::first(a), hana::first(b)) && same_(hana::second(a), hana::second(b)); }
  template <typename ...T> bool same_(hana::tuple<T...> const& a, hana::tuple<T...> const& b);
  template <typename T> bool same_(std::vector<T> const& a, std::vector<T> const& b);
  template <typename T> bool samec_(T const& a, T const& b)
  {
    if (a.size() != b.size()) return false;
    auto j = b.begin();
    for (auto const& x : a) if (!same_(x, *j++)) return false;
    return true;
  }
  template <typename T> bool same_(std::vector<T> const& a, std::vector<T> const& b) { return samec_(a, b); }
  template <typename T> bool same_(std::list<T> const& a, std::list<T> const& b) { return samec_(a, b); }
  template <typename T> bool same_(std::deque<T> const& a, std::deque<T> const& b) { return samec_(a, b); }
  template <std::size_t ...i, typename T> bool samet_(std::index_sequence<i...>, T const& a, T const& b) { return (same_(hana::at_c<i>(a), hana::at_c<i>(b)) && ...); }
  template <typename ...T> bool same_(hana::tuple<T...> const& a, hana::tuple<T...> const& b) { return samet_(std::index_sequence_for<T...>{}, a, b); }
  template <typename D, typename ...T> bool same_(nbdl::detail::variant<D, T...> const& a, nbdl::detail::variant<D, T...> const& b)
  {
    if (a.get_type_id() != b.get_type_id()) return false;
    bool r = false;
    a.match([&](auto const& x)
    {
      b.match([&](auto const& y) { if constexpr(std::is_same_v<decltype(x), decltype(y)>) r = same_(x, y); });
    });
    return r;
  }
  inline bool same_(inner const& a, inner const& b) { return same_(a.l, b.l) && same_(a.xs, b.xs) && same_(a.v, b.v); }
  inline bool same_(doc const& a, doc const& b)
  {
    return same_(a.in, b.in) && same_(a.many, b.many) && same_(a.names, b.names) && same_(a.grid, b.grid) && same_(a.buf, b.buf) && same_(a.cbuf, b.cbuf)
      && same_(a.id, b.id) && same_(a.maybe, b.maybe) && same_(a.seq, b.seq) && same_(a.single, b.single) && a.col == b.col
      && a.md == b.md && a.td == b.td && a.ty == b.ty && a.sm == b.sm && a.oo == b.oo && a.pl == b.pl && same_(a.so, b.so) && same_(a.vars, b.vars);
  }
  inline bool same_(dict_t const& a, dict_t const& b)
  {
    auto const& p = a[BOOST_HANA_STRING("in")];
    auto const& q = b[BOOST_HANA_STRING("in")];
    return same_(a[BOOST_HANA_STRING("n")], b[BOOST_HANA_STRING("n")]) && same_(a[BOOST_HANA_STRING("s")], b[BOOST_HANA_STRING("s")])
      && same_(p[BOOST_HANA_STRING("t")], q[BOOST_HANA_STRING("t")]) && samec_(p[BOOST_HANA_STRING("x y")], q[BOOST_HANA_STRING("x y")]);
  }
  inline bool same_(misc const& a, misc const& b)
  {
    return same_(a.dict, b.dict) && same_(a.chars, b.chars) && same_(a.flags, b.flags) && same_(a.bufs, b.bufs) && same_(a.blobs, b.blobs) && same_(a.texts, b.texts)
      && same_(a.nest, b.nest) && same_(a.nests, b.nests) && same_(a.tt, b.tt) && same_(a.rows, b.rows) && same_(a.pairs, b.pairs) && a.tides == b.tides && a.moods == b.moods && same_(a.solos, b.solos);
  }

  // ---- generators ----
  inline nbdl::string str(vf::Src& s) { return nbdl::string(unicode(s)); }
  inline leaf gen_leaf(vf::Src& s)
  {
    leaf l{};
    l.i = s.integer<int>(); l.u = s.integer<unsigned>(); l.s = str(s); l.b = s.boolean(); l.c = static_cast<char>(s.byte());
    return l;
  }
  inline var_t gen_var(vf::Src& s)
  {
    var_t v;
    switch (s.choose(8))
    {
      case 0: break;
      case 1: v = s.integer<int>(); break;
      case 2: v = str(s); break;
      case 3: v = gen_leaf(s); break;
      case 4: v = none{}; break;
      case 5: v = s.boolean(); break;
      case 6: v = solo{str(s)}; break;
      default: { std::vector<unsigned> x; fill(s, x, 3, [&] { return s.integer<unsigned>(); }); v = x; }
    }
    return v;
  }
  inline inner gen_inner(vf::Src& s)
  {
    inner r{};
    r.l = gen_leaf(s);
    fill(s, r.xs, 5, [&] { return s.integer<int>(); });
    r.v = gen_var(s);
    return r;
  }
  inline doc gen_doc(vf::Src& s)
  {
    doc d{};
    d.in = gen_inner(s);
    fill(s, d.many, 2, [&] { return gen_inner(s); });
    fill(s, d.names, 4, [&] { return str(s); });
    fill(s, d.grid, 3, [&] { std::vector<unsigned> r; fill(s, r, 3, [&] { return s.integer<unsigned>(); }); return r; });
    auto b = s.bytes(20);
    d.buf.assign(b.begin(), b.end());
    d.cbuf = s.bytes(20);
    for (auto& x : d.id) x = s.byte();
    if (s.boolean()) d.maybe = gen_leaf(s); else d.maybe = nbdl::nothing{};
    hana::at_c<0>(d.seq) = s.integer<int>();
    hana::at_c<1>(d.seq) = str(s);
    fill(s, hana::at_c<2>(d.seq), 4, [&] { return s.integer<int>(); });
    hana::at_c<0>(d.single) = s.integer<unsigned>();
    d.col = static_cast<color>(s.choose(3));
    d.md = s.pick({jt::calm, jt::odd, jt::huge});
    d.td = s.boolean() ? static_cast<tide>(s.integer<int>()) : s.pick({jt::low, jt::flat, jt::spring});
    d.ty = static_cast<tiny>(s.byte());
    d.sm = static_cast<small>(static_cast<signed char>(s.byte()));
    d.oo = s.boolean() ? jt::on : jt::off;
    d.pl = s.pick({jt::p_neg, jt::p_0, jt::p_1});
    d.so.only = str(s);
    fill(s, d.vars, 4, [&]
    {
      nbdl::variant<unsigned, bool> v;
      switch (s.choose(3)) { case 0: break; case 1: v = s.integer<unsigned>(); break; default: v = s.boolean(); }
      return v;
    });
    return d;
  }
  inline nest_t gen_nest(vf::Src& s)
  {
    nest_t v;
    switch (s.choose(9))
    {
      case 0: break;
      case 1: v = nbdl::optional<int>(s.integer<int>()); break;
      case 2: v = nbdl::optional<int>(); break;
      case 3: { std::vector<nbdl::string> x; fill(s, x, 3, [&] { return str(s); }); v = x; break; }
      case 4: v = hana::tuple<int, nbdl::string>(s.integer<int>(), str(s)); break;
      case 5: v = nbdl::variant<bool, int>(s.boolean()); break;
      case 6: v = nbdl::variant<bool, int>(s.integer<int>()); break;
      case 7: { auto b = s.bytes(6); v = std::vector<unsigned char>(b.begin(), b.end()); break; }
      default: v = nbdl::variant<bool, int>(); break;
    }
    return v;
  }
  inline misc gen_misc(vf::Src& s)
  {
    misc m{};
    m.dict[BOOST_HANA_STRING("n")] = s.integer<int>();
    m.dict[BOOST_HANA_STRING("s")] = str(s);
    m.dict[BOOST_HANA_STRING("in")][BOOST_HANA_STRING("t")] = s.boolean();
    fill(s, m.dict[BOOST_HANA_STRING("in")][BOOST_HANA_STRING("x y")], 3, [&] { return s.integer<int>(); });
    fill(s, m.chars, 4, [&] { return static_cast<char>(s.byte()); });
    fill(s, m.flags, 4, [&] { return s.boolean(); });
    fill(s, m.bufs, 3, [&] { return std::vector<unsigned char>{s.byte(), s.byte(), s.byte()}; });
    fill(s, m.blobs, 3, [&] { return s.bytes(8); });
    fill(s, m.texts, 3, [&] { std::vector<nbdl::string> r; fill(s, r, 2, [&] { return str(s); }); return r; });
    m.nest = gen_nest(s);
    fill(s, m.nests, 3, [&] { return gen_nest(s); });
    hana::at_c<0>(hana::at_c<0>(m.tt)) = s.integer<int>();
    hana::at_c<1>(hana::at_c<0>(m.tt)) = s.integer<unsigned>();
    hana::at_c<1>(m.tt) = str(s);
    fill(s, m.rows, 3, [&] { return hana::tuple<int, bool>(s.integer<int>(), s.boolean()); });
    fill(s, m.pairs, 3, [&] { return hana::make_pair(s.integer<unsigned>(), str(s)); });
    fill(s, m.tides, 3, [&] { return s.pick({jt::low, jt::flat, jt::spring}); });
    fill(s, m.moods, 3, [&] { return s.pick({jt::calm, jt::odd, jt::huge}); });
    fill(s, m.solos, 3, [&] { return solo{str(s)}; });
    return m;
  }
}

namespace
{
  int registered() { return ev::global("vf").call<int>("registered"); }
  std::string text_of(ev const& v) { return ev::global("JSON").call<std::string>("stringify", v); }
  ev parsed(std::string const& t) { return ev::global("JSON").call<ev>("parse", ev(t)); }
  // the value at a handle
  void hold(int h, ev const& v) { ev::module_property("nbdl_detail_json_val").set(h, v); }

  // through both kinds of handles, into targets that hold something else
  template <typename Handle, typename T> void round(vf::Src& s, T const& x, T const& other)
  {
    int const before = registered();
    {
      Handle h{}, g{};
      int handle, other_handle;
      if constexpr(std::is_same_v<Handle, nbdl::js::val>) { handle = nbdl::js::get_handle(h); other_handle = nbdl::js::get_handle(g); }
      else { handle = h.handle(); other_handle = g.handle(); }
      if (s.boolean()) js::bind_to(h, other);
      js::bind_to(h, x);
      T y = other;
      js::bind_from(h, y);
      s.check(w::same_(x, y), "what JavaScript was given comes back");
      auto const t = text_of(static_cast<ev>(h));
      s.note(t.substr(0, 200));
      T z = other;
      try { nbdl::binder::jsoncpp::from_string(t, z); }
      catch (std::exception const& e) { s.check(false, "the JSON of what JavaScript was given is read: ", e.what(), " ", t); }
      s.check(w::same_(x, z), "the JSON of what JavaScript was given says the same: ", t);
      // from JSON to a value by way of JavaScript
      auto const j = nbdl::binder::jsoncpp::to_string(x);
      hold(other_handle, parsed(j));
      T v = other;
      js::bind_from(g, v);
      s.check(w::same_(x, v), "a document that JavaScript parsed is read: ", j);
      s.equal(text_of(static_cast<ev>(g)), text_of(parsed(j)), "reading changes nothing");
      // another value at another handle changes nothing of the first
      js::bind_to(g, other);
      s.equal(text_of(static_cast<ev>(h)), t, "the first value after another was given");
      js::bind_to(g, x);
      s.equal(text_of(static_cast<ev>(g)), t, "the same value at another handle");
    }
    s.equal(registered(), before, "handles left over");
  }
  template <typename T> void both(vf::Src& s, T const& x, T const& other)
  {
    nbdl::js::init();
    s.nontrivial();
    if (s.boolean()) round<nbdl::js::val>(s, x, other);
    else round<nbdl::detail::js_val>(s, x, other);
  }
}

VF_PROP(leaf_round_trip, 2400, 40000)
{
  auto x = w::gen_leaf(s);
  auto o = w::gen_leaf(s);
  both(s, x, o);
}
VF_PROP(inner_round_trip, 1200, 20000)
{
  auto x = w::gen_inner(s);
  auto o = w::gen_inner(s);
  s.label("alternative " + std::to_string(x.v.get_type_id()));
  both(s, x, o);
}
VF_PROP(document_round_trip, 400, 8000)
{
  auto x = w::gen_doc(s);
  auto o = w::gen_doc(s);
  both(s, x, o);
}
VF_PROP(misc_round_trip, 600, 12000)
{
  auto x = w::gen_misc(s);
  auto o = w::gen_misc(s);
  s.label("alternative " + std::to_string(x.nest.get_type_id()));
  both(s, x, o);
}

// C32: binding a value visits exactly its own members, in order, by name
#include "c32_bind.hpp"
#include <boost/hana/ext/std/tuple.hpp>
#include <nbdl/bind_variant.hpp>
#include <nbdl/variant.hpp>
#include <map>
#include <tuple>

std::vector<bx::entity_entry>& bx::entities() { static std::vector<entity_entry> v; return v; }

VF_PROP(entities, -6000, -120000)
{
  auto& e = bx::entities()[s.choose(bx::entities().size())];
  e.run(s, e.name);
}

namespace bx
{
  struct leaf { std::string text; };
  using some = nbdl::variant<int, std::string, inner, hollow>;
  struct none { };
  struct deep { inner a; some b; hana::tuple<int, hollow, some> c; std::vector<inner> d; none e; std::vector<some> f; hana::pair<inner, some> g; };
  struct deeper { deep x; std::string y; hana::optional<> no; hana::optional<deep> yes; std::map<std::string, some> m; };
}
namespace nbdl
{
  NBDL_EMPTY(bx::none)
  NBDL_ENTITY(bx::deep, a, b, c, d, e, f, g);
  NBDL_ENTITY(bx::deeper, x, y, no, yes, m);
}
namespace bx
{
  void gen(vf::Src& s, some& v)
  {
    switch (s.choose(4)) { case 0: { int n; gen(s, n); v = n; break; } case 1: { std::string t; gen(s, t); v = t; break; }
                           case 2: { inner i; gen(s, i); v = i; break; } default: v = hollow{}; }
  }
  void gen(vf::Src& s, deep& d)
  {
    gen(s, d.a); gen(s, d.b); gen(s, d.c[hana::size_c<0>]); gen(s, d.c[hana::size_c<2>]);
    d.d.resize(s.upto(2)); for (auto& x : d.d) gen(s, x);
    d.f.resize(s.upto(2)); for (auto& x : d.f) gen(s, x);
    gen(s, hana::first(d.g)); gen(s, hana::second(d.g));
  }
  void gen(vf::Src& s, deeper& d)
  {
    gen(s, d.x); gen(s, d.y); gen(s, *d.yes);
    for (int n = s.upto(2); n > 0; n--) { std::string k; gen(s, k); gen(s, d.m[k]); }
  }
  // what is in a value, said without binding
  using text = std::vector<std::string>;
  template <typename T> requires requires (T const& x) { show(x); }
  void said(text& r, T const& x) { r.push_back(show(x)); }
  void said(text& r, inner const& x) { r.push_back(show(x.text)); r.push_back(show(x.n)); }
  void said(text& r, some const& v)
  {
    v.match([&](int n) { r.push_back("#1"); said(r, n); }, [&](std::string const& t) { r.push_back("#2"); said(r, t); },
            [&](inner const& i) { r.push_back("#3"); said(r, i); }, [&](hollow) { r.push_back("#4"); }, [&](auto const&) { r.push_back("#0"); });
  }
  void said(text& r, deep const& d)
  {
    said(r, d.a); said(r, d.b); said(r, d.c[hana::size_c<0>]); said(r, d.c[hana::size_c<2>]);
    r.push_back("x" + show((int)d.d.size())); for (auto& x : d.d) said(r, x);
    r.push_back("x" + show((int)d.f.size())); for (auto& x : d.f) said(r, x);
    said(r, hana::first(d.g)); said(r, hana::second(d.g));
  }
  void said(text& r, deeper const& d)
  {
    said(r, d.x); said(r, d.y); said(r, *d.yes);
    r.push_back("x" + show((int)d.m.size())); for (auto& [k, v] : d.m) { said(r, k); said(r, v); }
  }
  // the same by binding
  template <typename T> concept leafy = std::is_arithmetic_v<T> || std::is_same_v<T, std::string>;
  struct reader
  {
    text& r;
    template <leafy T> void operator()(T const& x) const { r.push_back(show(x)); }
    template <nbdl::BindableSequence T> void operator()(T const& x) const { nbdl::bind_sequence(x, [&](auto const& ...y) { ((*this)(y), ...); }); }
    template <nbdl::BindableVariant T> void operator()(T const& x) const
    { nbdl::bind_variant(x, [&](int id, auto const& ...y) { r.push_back("#" + show(id)); ((*this)(y), ...); }); }
    template <typename T> void operator()(std::vector<T> const& x) const { r.push_back("x" + show((int)x.size())); for (auto& y : x) (*this)(y); }
    template <typename K, typename V> void operator()(std::map<K, V> const& x) const
    { r.push_back("x" + show((int)x.size())); for (auto& y : x) { (*this)(y.first); (*this)(y.second); } }
  };
  // and back
  struct writer
  {
    text const& r; std::size_t& at;
    std::string next() const { return at < r.size() ? r[at++] : "?"; }
    void operator()(int& x) const { x = std::stoi(next()); }
    void operator()(std::string& x) const { x = next(); x = x.substr(1, x.size() - 2); }
    template <nbdl::BindableSequence T> void operator()(T& x) const { nbdl::bind_sequence(x, [&](auto& ...y) { ((*this)(y), ...); }); }
    template <nbdl::BindableVariant T> void operator()(T& x) const
    { nbdl::bind_variant(std::stoi(next().substr(1)), x, [&](int, auto& ...y) { ((*this)(y), ...); }); }
    template <typename T> void operator()(std::vector<T>& x) const { x.clear(); x.resize(std::stoi(next().substr(1))); for (auto& y : x) (*this)(y); }
    template <typename K, typename V> void operator()(std::map<K, V>& x) const
    { x.clear(); for (int n = std::stoi(next().substr(1)); n > 0; n--) { K k; (*this)(k); (*this)(x[k]); } }
  };
}

// whole trees: what a binder is shown is what the value holds, and enough to make an equal one
VF_PROP(trees, 4000, 100000)
{
  using namespace bx;
  deeper d{.yes = hana::just(deep{})}, e{.yes = hana::just(deep{})};
  gen(s, d);
  gen(s, e);
  text want, got, again;
  said(want, d);
  reader{got}(std::as_const(d));
  auto line = [](text const& t) { std::string r; for (auto& x : t) r += x + " "; return r; };
  s.note(line(want));
  s.equal(line(got), line(want), "what is bound");
  std::size_t at = 0;
  writer{want, at}(e);
  s.equal(at, want.size(), "what the target takes");
  said(again, e);
  s.equal(line(again), line(want), "what is made of it");
  got.clear();
  reader{got}(std::as_const(d));
  s.equal(line(got), line(want), "what is bound afterwards");
  if (want.size() > 20) s.nontrivial();
}

// a binder that gives up what it holds when it is called as one that was given away
namespace bx
{
  template <typename F> struct greedy
  {
    F f; std::string mine;
    template <typename ...X> auto operator()(X&& ...x) const& { return f(x...); }
    template <typename ...X> auto operator()(X&& ...x) && { std::string taken = std::move(mine); return f(x...); }
  };
}

// values that are no entities
VF_PROP(others, 6000, 150000)
{
  using namespace bx;
  int n; bool b; std::string t; inner i; std::vector<int> v; std::unique_ptr<int> p;
  gen(s, n); gen(s, b); gen(s, t); gen(s, i); gen(s, v); gen(s, p);
  s.note(n, b, t, i.text, i.n, v.size());
  std::string const mark(40, 'm');
  auto check = [&](char const* what, auto& x, std::vector<slot> const& parts)
  {
    std::vector<slot> want;
    for (auto& y : parts) if (!y.empty) want.push_back(y);
    int calls = 0;
    auto f = [&, mine = mark](auto&& ...y)
    {
      calls++;
      s.equal(mine, mark, what, ": what the binder holds");
      std::vector<slot> got{slot_of("", y)...};
      s.equal(got.size(), want.size(), what, ": members");
      for (std::size_t k = 0; k < got.size(); k++)
      {
        s.check(got[k].at == want[k].at, what, ": member ", k, " is another");
        s.equal(got[k].text, want[k].text, what, ": member ", k);
      }
      return mark + std::to_string(sizeof...(y));
    };
    for (int k = 0; k < 2; k++)
    {
      s.equal(nbdl::bind_sequence(x, f), mark + std::to_string(want.size()), what, ": what binding gives back");
      s.equal(nbdl::bind_sequence(std::as_const(x), std::as_const(f)), mark + std::to_string(want.size()), what, ": what binding gives back");
      nbdl::bind_sequence(x, [](auto&& ...y) { static_assert((as_given<false, decltype(y)> && ...), "members of a value"); });
      nbdl::bind_sequence(std::as_const(x), [](auto&& ...y) { static_assert((as_given<true, decltype(y)> && ...), "members of a constant"); });
    }
    s.equal(calls, 4, what, ": calls of the binder");
    if (want.empty()) return;
    std::size_t k = s.choose(want.size());
    nbdl::bind_sequence(x, [&](auto& ...y) { std::size_t j = 0; ((j++ == k ? touch(y) : void()), ...); });
    nbdl::bind_sequence(std::as_const(x), [&](auto const& ...y)
    {
      std::size_t j = 0;
      ((s.check((show(y) == want[j].text) == (j != k), what, ": member ", j, j == k ? " has not changed" : " has changed"), j++), ...);
    });
  };
  auto h = hana::make_tuple(n, hollow{}, t, i, hollow{}, v, b, std::move(p));
  auto at = [&](auto k) { return slot_of("", hana::at(h, k)); };
  check("tuple", h, {at(hana::size_c<0>), at(hana::size_c<1>), at(hana::size_c<2>), at(hana::size_c<3>), at(hana::size_c<4>), at(hana::size_c<5>), at(hana::size_c<6>), at(hana::size_c<7>)});
  auto none = hana::make_tuple();
  check("empty tuple", none, {});
  auto hollows = hana::make_tuple(hollow{}, hollower{});
  check("tuple of nothing much", hollows, {});
  auto pair = hana::make_pair(t, i);
  check("pair", pair, {slot_of("", hana::first(pair)), slot_of("", hana::second(pair))});
  auto half = hana::make_pair(hollow{}, v);
  check("pair of which half is empty", half, {slot_of("", hana::second(half))});
  auto std_pair = std::make_pair(n, v);
  check("std::pair", std_pair, {slot_of("", std_pair.first), slot_of("", std_pair.second)});
  auto const_pair = std::pair<std::string const, int>(t, n);
  nbdl::bind_sequence(const_pair, [&](auto& x, auto& y) { s.check((void*)&x == &const_pair.first && (void*)&y == &const_pair.second, "members of a pair with a constant"); });
  auto std_tuple = std::make_tuple(v, hollow{}, t, n);
  check("std::tuple", std_tuple, {slot_of("", std::get<0>(std_tuple)), slot_of("", std::get<1>(std_tuple)), slot_of("", std::get<2>(std_tuple)), slot_of("", std::get<3>(std_tuple))});
  auto just = hana::just(i);
  check("optional", just, {slot_of("", *just)});
  auto nothing = hana::nothing;
  check("empty optional", nothing, {});
  struct none bare;
  check("entity of no members", bare, {});
  int characters = 0;
  nbdl::bind_sequence(BOOST_HANA_STRING("abc"), [&](auto&& ...c) { characters = 10 + sizeof...(c); });
  s.equal(characters, 10, "members of a text that is a type");
  // values given away keep their members during the binding
  auto given = nbdl::bind_sequence(hana::make_tuple(t, hollow{}, i), [&](auto&& x, auto&& y) { return show(x) + show(y); });
  s.equal(given, show(t) + show(i), "members of a tuple that is given away");
  // maps
  auto m = hana::make_map(hana::make_pair(BOOST_HANA_STRING("one"), t), hana::make_pair(BOOST_HANA_STRING("two"), n), hana::make_pair(BOOST_HANA_STRING("hollow"), hollow{}));
  std::map<std::string, std::string> want{{"one", show(t)}, {"two", show(n)}, {"hollow", "{}"}};
  auto look = [&](auto& m, char const* what)
  {
    std::map<std::string, std::string> got;
    int calls = 0, members = 0, own = 0;
    auto f = [&, mine = mark](auto&& ...pair)
    {
      calls++;
      s.equal(mine, mark, what, ": what the binder holds");
      ((got[hana::to<char const*>(hana::first(pair))] = show(hana::second(pair).get()), members++), ...);
      ((own += (void const*)&hana::second(pair).get() == &m[hana::first(pair)]), ...);
      return 5;
    };
    s.equal(nbdl::bind_map(m, f), 5, what, ": what binding gives back");
    s.equal(nbdl::bind_map(m, std::as_const(f)), 5, what, ": what binding gives back");
    s.equal(calls, 2, what, ": calls of the binder");
    s.equal(members, 6, what, ": members");
    s.equal(own, 6, what, ": members that are its own");
    for (auto& [k, x] : want) s.equal(got[k], x, what, ": ", k);
  };
  greedy own{[](auto&& ...x) { return (int)sizeof...(x); }, mark};
  s.equal(nbdl::bind_map(m, own), 3, "members of a map");
  s.equal(nbdl::bind_map(i, own), 2, "members of an entity");
  s.equal(nbdl::bind_sequence(h, own), 6, "members of a tuple");
  s.equal(nbdl::bind_sequence(i, own), 2, "members of an entity");
  s.equal(own.mine, mark, "what the caller's binder holds");
  look(m, "map");
  nbdl::bind_map(m, [](auto&& ...x) { static_assert((as_given<false, decltype(hana::second(x).get())> && ...), "members of a map"); });
  nbdl::bind_map(std::as_const(m), [](auto&& ...x) { static_assert((as_given<true, decltype(hana::second(x).get())> && ...), "members of a constant map"); });
  look(std::as_const(m), "constant map");
  nbdl::bind_map(m, [&](auto&& ...pair) { (touch(hana::second(pair).get()), ...); });
  touch(t); touch(n);
  want = {{"one", show(t)}, {"two", show(n)}, {"hollow", "{}"}};
  look(m, "map after a change");
  if (v.size() && t.size()) s.nontrivial();
}

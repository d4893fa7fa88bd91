#include "vf.hpp"
#include "held.hpp"
#include <boost/hana.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/delta.hpp>
#include <array>
#include <climits>
#include <cmath>
#include <string>
#include <tuple>
#include <vector>

namespace hana = boost::hana;

namespace dt
{
  struct person { std::string first; std::string last; int age; };
  struct one { int x; };
  using var = nbdl::variant<int, std::string>;
  struct rich { person who; std::vector<int> v; bool b; var alt; double d; };
  struct wide { int a, b, c, d, e, f, g, h, i; };
}
namespace nbdl
{
  NBDL_ENTITY(dt::person, first, last, age);
  NBDL_ENTITY(dt::one, x);
  NBDL_ENTITY(dt::rich, who, v, b, alt, d);
  NBDL_ENTITY(dt::wide, a, b, c, d, e, f, g, h, i);
}

namespace dt
{
  using tup = hana::tuple<int, std::string, bool>;

  inline auto parts(person& p) { return std::tie(p.first, p.last, p.age); }
  inline auto parts(one& p) { return std::tie(p.x); }
  inline auto parts(rich& p) { return std::tie(p.who, p.v, p.b, p.alt, p.d); }
  inline auto parts(wide& p) { return std::tie(p.a, p.b, p.c, p.d, p.e, p.f, p.g, p.h, p.i); }
  inline auto parts(tup& p) { return std::tie(hana::at_c<0>(p), hana::at_c<1>(p), hana::at_c<2>(p)); }

  inline bool eq(person const& a, person const& b) { return a.first == b.first && a.last == b.last && a.age == b.age; }
  inline bool eq(var const& a, var const& b)
  {
    if (vf::held_index(a) != vf::held_index(b)) return false;
    if (auto* p = vf::held_if<int>(a)) return *p == *vf::held_if<int>(b);
    if (auto* p = vf::held_if<std::string>(a)) return *p == *vf::held_if<std::string>(b);
    return true;
  }
  template <typename T> bool eq(T const& a, T const& b) { return a == b; }

  void gen(vf::Src& s, int& x) { x = s.chance(80) ? s.pick({0, 1, 2, -1}) : s.pick({256, 65536, 65537, INT_MAX, INT_MIN}); }
  void gen(vf::Src& s, bool& x) { x = s.boolean(); }
  void gen(vf::Src& s, double& x)
  {
    x = s.pick({0.0, 1.5, -2.0, std::nextafter(1.5, 2.0), -0.0, 1e-300, -1e-300, 1e300, 0.3, 0.1 + 0.2, HUGE_VAL});
  }
  void gen(vf::Src& s, std::string& x)
  {
    x = s.text_of("ab", 2);
    if (s.chance(20))
      switch (s.choose(4))
      {
        case 0: x += '\0'; break;                                        // the end is not a NUL
        case 1: x = std::string("a\0", 2) + x; break;
        case 2: x = std::string(40, 'l') + x; break;                     // owns memory
        default: for (auto& c : x) c = static_cast<char>(c - 'a' + 'A');
      }
  }
  void gen(vf::Src& s, std::vector<int>& x) { x.clear(); std::size_t n = s.upto(2); while (n--) { int i; gen(s, i); x.push_back(i); } }
  void gen(vf::Src& s, var& x) { switch (s.choose(3)) { case 0: x = var{}; break; case 1: { int i; gen(s, i); x = var(i); break; } default: { std::string t; gen(s, t); x = var(t); } } }
  void gen(vf::Src& s, person& p) { gen(s, p.first); gen(s, p.last); gen(s, p.age); }

  template <typename T> T make(vf::Src& s)
  {
    T x{};
    std::apply([&](auto& ...m) { (gen(s, m), ...); }, parts(x));
    return x;
  }
  // a copy with some members changed
  template <typename T> T vary(vf::Src& s, T x)
  {
    std::apply([&](auto& ...m) { ((s.boolean() ? gen(s, m) : void()), ...); }, parts(x));
    return x;
  }
  template <typename T> bool same(T a, T b)
  {
    auto pa = parts(a); auto pb = parts(b);
    return [&]<std::size_t ...I>(std::index_sequence<I...>)
    { return (eq(std::get<I>(pa), std::get<I>(pb)) && ...); }(std::make_index_sequence<std::tuple_size_v<decltype(pa)>>{});
  }
  template <typename T> constexpr std::size_t arity = std::tuple_size_v<decltype(parts(std::declval<T&>()))>;

  // which members does a delta change
  template <typename D> std::vector<bool> changed(D const& d)
  {
    std::vector<bool> r;
    nbdl::bind_sequence(d, [&](auto const& ...opt)
    {
      ((opt.match([&](nbdl::nothing) { r.push_back(false); }, [&](auto const&) { r.push_back(true); })), ...);
    });
    return r;
  }
  template <typename T> std::vector<bool> differs(T a, T b)
  {
    auto pa = parts(a); auto pb = parts(b);
    return [&]<std::size_t ...I>(std::index_sequence<I...>)
    { return std::vector<bool>{!eq(std::get<I>(pa), std::get<I>(pb))...}; }(std::make_index_sequence<arity<T>>{});
  }
  // model of applying: members of `mask` are taken from x
  template <typename T> T take(T target, T x, std::vector<bool> const& mask)
  {
    auto pt = parts(target); auto px = parts(x);
    [&]<std::size_t ...I>(std::index_sequence<I...>)
    { ((mask[I] ? void(std::get<I>(pt) = std::get<I>(px)) : void()), ...); }(std::make_index_sequence<arity<T>>{});
    return target;
  }
  std::string show(std::vector<bool> const& v) { std::string r; for (bool b : v) r += b ? 'x' : '-'; return r; }

  template <typename T> void two_values(vf::Src& s)
  {
    T a = make<T>(s), b = s.boolean() ? vary(s, a) : make<T>(s);
    auto diff = differs(a, b);
    bool any = false;
    for (bool x : diff) any = any || x;
    s.note("members that differ: ", show(diff));
    s.nontrivial(any);
    s.label(any ? "different" : "equal");

    T a0 = a, b0 = b;
    auto d = nbdl::make_delta<nbdl::delta_tag>(a, b);
    s.check(same(a, a0) && same(b, b0), "making a delta changed its arguments");
    s.check(changed(d) == diff, "the delta changes ", show(changed(d)), " where ", show(diff), " differ");
    T t = b;
    s.equal(nbdl::apply_delta(d, t), any, "change reported");
    s.check(same(t, a), "the delta applied to the second value is not the first");
    s.equal(nbdl::apply_delta(d, t), false, "change reported the second time");
    s.check(same(t, a), "applying again changed the value");

    // to an unrelated third value: exactly the marked members are taken over
    T c = make<T>(s), c0 = c;
    T want = take(c, a, diff);
    bool change = !same(want, c);
    s.equal(nbdl::apply_delta(d, c), change, "change reported on a third value");
    s.check(same(c, want), "members outside of the delta were touched, or members inside were not");
    (void)c0;

    // full delta
    auto full = nbdl::make_delta<nbdl::delta_tag>(a);
    s.check(changed(full) == std::vector<bool>(arity<T>, true), "a delta of one value holds every member");
    T e = make<T>(s);
    bool ch = !same(e, a);
    s.equal(nbdl::apply_delta(full, e), ch, "change reported by the full delta");
    s.check(same(e, a), "the full delta makes the value");

    // default constructed delta: nothing
    decltype(full) nothing{};
    T f = b;
    s.equal(nbdl::apply_delta(nothing, f), false, "change reported by an empty delta");
    s.check(same(f, b), "an empty delta changed the value");
    s.check(changed(nothing) == std::vector<bool>(arity<T>, false), "a new delta is empty");
    // a delta is a value
    auto copy = d;
    T g = b;
    nbdl::apply_delta(copy, g);
    s.check(same(g, a), "a copied delta differs");
    auto moved = std::move(copy);
    T h = b;
    nbdl::apply_delta(moved, h);
    s.check(same(h, a), "a moved delta differs");
  }

  // sequences: merging deltas equals applying them in turn, in every grouping
  template <typename T> void sequences(vf::Src& s)
  {
    using D = nbdl::delta<T>;
    std::size_t n = 2 + s.upto(4);
    T base = make<T>(s);
    std::vector<D> ds;
    std::vector<std::pair<T, std::vector<bool>>> model;
    for (std::size_t i = 0; i < n; i++)
    {
      T x = make<T>(s), y = s.boolean() ? vary(s, x) : make<T>(s);
      if (s.chance(15)) { ds.push_back(nbdl::make_delta<nbdl::delta_tag>(x)); model.emplace_back(x, std::vector<bool>(arity<T>, true)); }
      else { ds.push_back(nbdl::make_delta<nbdl::delta_tag>(x, y)); model.emplace_back(x, differs(x, y)); }
      s.note(show(model.back().second));
    }
    s.nontrivial();
    T want = base;
    for (auto& [x, m] : model) want = take(want, x, m);
    T one = base;
    for (auto& d : ds) nbdl::apply_delta(d, one);
    s.check(same(one, want), "deltas applied in turn");

    // left fold into the first
    D acc = ds[0];
    std::vector<bool> mask = model[0].second;
    T held = model[0].first;
    for (std::size_t i = 1; i < n; i++)
    {
      bool r = nbdl::apply_delta(ds[i], acc);
      T next = take(held, model[i].first, model[i].second);
      bool any = !same(next, held);
      held = next;
      for (std::size_t k = 0; k < mask.size(); k++) { any = any || (model[i].second[k] && !mask[k]); mask[k] = mask[k] || model[i].second[k]; }
      s.equal(r, any, "change reported when merging");
      s.check(changed(acc) == mask, "merged delta marks ", show(changed(acc)), " instead of ", show(mask));
    }
    T two = base;
    bool did = nbdl::apply_delta(acc, two);
    s.check(same(two, want), "merged deltas differ from applying them in turn");
    s.equal(did, !same(base, want), "change reported by the merged delta");

    // merge the tail first, then into the head
    D tail = ds[1];
    for (std::size_t i = 2; i < n; i++) nbdl::apply_delta(ds[i], tail);
    D head = ds[0];
    nbdl::apply_delta(tail, head);
    T three = base;
    nbdl::apply_delta(head, three);
    s.check(same(three, want), "merging is not associative");
    // into an empty delta: a copy
    D zero{};
    nbdl::apply_delta(acc, zero);
    s.check(changed(zero) == changed(acc), "merging into an empty delta");
    T four = base;
    nbdl::apply_delta(zero, four);
    s.check(same(four, want), "merging into an empty delta loses changes");
  }
}

VF_PROP(two_person, 20000, 500000) { dt::two_values<dt::person>(s); }
VF_PROP(two_one, 4000, 50000) { dt::two_values<dt::one>(s); }
VF_PROP(two_rich, 20000, 500000) { dt::two_values<dt::rich>(s); }
VF_PROP(two_wide, 20000, 500000) { dt::two_values<dt::wide>(s); }
VF_PROP(two_tuple, 20000, 500000) { dt::two_values<dt::tup>(s); }
VF_PROP(sequence_person, 10000, 300000) { dt::sequences<dt::person>(s); }
VF_PROP(sequence_rich, 10000, 300000) { dt::sequences<dt::rich>(s); }
VF_PROP(sequence_wide, 10000, 300000) { dt::sequences<dt::wide>(s); }
VF_PROP(sequence_tuple, 10000, 300000) { dt::sequences<dt::tup>(s); }

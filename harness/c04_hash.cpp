#include "vf.hpp"
#include "held.hpp"
#include <boost/hana.hpp>
#include <nbdl/binder/hash.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/string.hpp>
#include <nbdl/key.hpp>
#include <nbdl/uid.hpp>
#include <nbdl/variant.hpp>
#include <algorithm>
#include <array>
#include <list>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace hana = boost::hana;

namespace
{
  struct flat { int a; std::string s; unsigned long long n; bool b; };
  struct deep { flat f; std::vector<int> v; int z; nbdl::string t; };
  struct tag_a { }; struct tag_b { };
  using var = nbdl::variant<int, std::string, flat, tag_a, tag_b>;
  struct with_var { int i; var v; };
  enum class color : unsigned char { red, green, blue = 200 };
  struct none { };
  struct misc { double d; char c; short h; color e; float f; none o; std::vector<double> w; std::array<int, 3> arr; std::vector<bool> bits; };
  struct core_ { int a; char b; }; struct mid { core_ x; core_ y; }; struct outer { mid p; none o; mid q; long long n; };
  using tup = hana::tuple<int, std::string, flat>;
  using key_path = hana::tuple<hana::string<'x'>, int, std::string>;
}
namespace nbdl
{
  NBDL_ENTITY(flat, a, s, n, b);
  NBDL_ENTITY(deep, f, v, z, t);
  NBDL_ENTITY(with_var, i, v);
  NBDL_EMPTY(none);
  NBDL_ENTITY(misc, d, c, h, e, f, o, w, arr, bits);
  NBDL_ENTITY(core_, a, b);
  NBDL_ENTITY(mid, x, y);
  NBDL_ENTITY(outer, p, o, q, n);
}

namespace
{
  // canonical text: two values are the same iff their texts are
  std::string str(int x) { return "i" + std::to_string(x) + ";"; }
  std::string str(std::string const& x) { return "s" + std::to_string(x.size()) + ":" + x + ";"; }
  std::string str(flat const& x) { return "{" + str(x.a) + str(x.s) + std::to_string(x.n) + (x.b ? "t" : "f") + "}"; }
  std::string str(std::vector<int> const& x) { std::string r = "["; for (int i : x) r += str(i); return r + "]"; }
  std::string str(deep const& x) { return "D" + str(x.f) + str(x.v) + str(x.z) + str(static_cast<std::string const&>(x.t)); }
  std::string str(var const& x)
  {
    std::string r = "V" + std::to_string(vf::held_index(x));
    if (auto* p = vf::held_if<int>(x)) r += str(*p);
    if (auto* p = vf::held_if<std::string>(x)) r += str(*p);
    if (auto* p = vf::held_if<flat>(x)) r += str(*p);
    return r;
  }
  std::string str(with_var const& x) { return "W" + str(x.i) + str(x.v); }
  std::string str(double x) { char b[40]; std::snprintf(b, sizeof b, "%.17g;", x == 0 ? 0. : x); return b; }
  std::string str(misc const& x)
  {
    std::string r = "M" + str(x.d) + str(int(x.c)) + str(int(x.h)) + str(int(x.e)) + str(double(x.f)) + std::to_string(x.w.size()) + ":";
    for (double d : x.w) r += str(d);
    for (int i : x.arr) r += str(i);
    for (bool b : x.bits) r += b ? "t" : "f";
    return r;
  }
  std::string str(core_ const& x) { return str(x.a) + str(int(x.b)); }
  std::string str(outer const& x) { return "O" + str(x.p.x) + str(x.p.y) + str(x.q.x) + str(x.q.y) + std::to_string(x.n); }
  std::string str(tup const& x) { return "T" + str(hana::at_c<0>(x)) + str(hana::at_c<1>(x)) + str(hana::at_c<2>(x)); }
  std::string str(key_path const& x) { return "K" + str(hana::at_c<1>(x)) + str(hana::at_c<2>(x)); }
  std::string str(nbdl::uid const& x) { return std::string(x.begin(), x.end()); }

  // small domains so that equal values meet
  int small(vf::Src& s) { return s.pick({0, 1, 2, -1, 7, 1 << 20}); }
  std::string word(vf::Src& s) { return s.text_of(std::string_view("ab\0", 3), 3); }
  void gen(vf::Src& s, flat& x) { x.a = small(s); x.s = word(s); x.n = s.pick({0ull, 1ull, ~0ull, 1ull << 32}); x.b = s.boolean(); }
  void gen(vf::Src& s, deep& x) { gen(s, x.f); x.v.clear(); std::size_t n = s.upto(3); while (n--) x.v.push_back(small(s)); x.z = small(s); x.t = nbdl::string(word(s)); }
  void gen(vf::Src& s, var& x)
  {
    switch (s.choose(6))
    {
      case 0: x = var{}; break;
      case 1: x = var(small(s)); break;
      case 2: x = var(word(s)); break;
      case 3: { flat f; gen(s, f); x = var(f); break; }
      case 4: x = var(tag_a{}); break;
      default: x = var(tag_b{});
    }
  }
  void gen(vf::Src& s, with_var& x) { x.i = small(s); gen(s, x.v); }
  double real(vf::Src& s) { return s.pick({0., -0., 1., -1., 1.0000000000000002, 5e-324, 1e308, .1}); }
  void gen(vf::Src& s, misc& x)
  {
    x.d = real(s); x.c = s.pick({'\0', 'a', '\x80', '\xff'}); x.h = s.pick<short>({0, 1, -1, 32767}); x.e = s.pick({color::red, color::green, color::blue});
    x.f = s.pick({0.f, -0.f, 1.f, 1.5f}); x.w.clear(); x.bits.clear();
    for (std::size_t n = s.upto(2); n--;) x.w.push_back(real(s));
    for (int& i : x.arr) i = small(s);
    for (std::size_t n = s.upto(3); n--;) x.bits.push_back(s.boolean());
  }
  void gen(vf::Src& s, core_& x) { x.a = small(s); x.b = s.pick({'\0', 'a', '\xff'}); }
  void gen(vf::Src& s, outer& x) { gen(s, x.p.x); gen(s, x.p.y); gen(s, x.q.x); gen(s, x.q.y); x.n = s.pick({0ll, 1ll, -1ll, 1ll << 40}); }
  void gen(vf::Src& s, tup& x) { hana::at_c<0>(x) = small(s); hana::at_c<1>(x) = word(s); gen(s, hana::at_c<2>(x)); }
  void gen(vf::Src& s, key_path& x) { hana::at_c<1>(x) = small(s); hana::at_c<2>(x) = word(s); }
  void gen(vf::Src& s, nbdl::uid& x) { x = nbdl::uid{}; for (auto& b : x) b = 0; std::size_t n = s.upto(2); while (n--) x[s.choose(16)] = s.byte(); }
  void gen(vf::Src& s, std::vector<int>& x) { x.clear(); std::size_t n = s.upto(4); while (n--) x.push_back(small(s)); }
  void gen(vf::Src& s, std::string& x) { x = word(s); }

  // an equal value that is made of other bytes
  template <typename T> void disguise(T&) { }
  void disguise(double& x) { if (x == 0) x = -x; }
  void disguise(misc& x) { disguise(x.d); if (x.f == 0) x.f = -x.f; for (double& d : x.w) disguise(d); }

  template <typename T>
  void pair_laws(vf::Src& s)
  {
    T a{}, b{};
    gen(s, a);
    if (s.chance(50)) { b = a; if (s.boolean()) disguise(b); } else gen(s, b);
    bool same = str(a) == str(b);
    s.note(vf::show(str(a)), same ? "==" : "!=", vf::show(str(b)));
    s.nontrivial();
    s.label(same ? "equal pair" : "unequal pair");
    s.equal(static_cast<bool>(hana::equal(a, b)), same, "equality of ", str(a), " and ", str(b));
    s.equal(static_cast<bool>(hana::equal(b, a)), same, "equality is symmetric");
    auto ha = nbdl::binder::hash(a), hb = nbdl::binder::hash(b);
    s.check(ha == nbdl::binder::hash(a), "hashing again gives another result");
    T copy = a;
    s.check(ha == nbdl::binder::hash(copy), "the hash of a copy differs");
    s.check(static_cast<bool>(hana::equal(a, copy)), "a copy is not equal");
    if (same) s.equal(ha, hb, "equal values with different hashes");
  }

  template <typename T>
  void map_history(vf::Src& s, std::size_t max_ops = 40)
  {
    std::unordered_map<T, int, nbdl::binder::hash_fn, hana::equal_t> m;
    std::map<std::string, std::pair<T, int>> model;
    std::size_t n = 1 + s.upto(max_ops - 1);
    s.nontrivial(n > 1);
    for (std::size_t i = 0; i < n; i++)
    {
      T k{};
      if (!model.empty() && s.chance(40)) { auto it = model.begin(); std::advance(it, s.choose(model.size())); k = it->second.first; }
      else gen(s, k);
      auto t = str(k);
      switch (s.choose(4))
      {
        case 0: case 1: { int v = static_cast<int>(s.upto(99)); m[k] = v; model.insert_or_assign(t, std::make_pair(k, v)); break; }
        case 2: s.equal(m.erase(k), model.erase(t), "erase of ", t); break;
        default: m.rehash(s.upto(64));
      }
      if (i < 6) s.note(vf::show(t, 40));
      s.equal(m.size(), model.size(), "number of keys");
      auto it = m.find(k);
      auto im = model.find(t);
      s.equal(it != m.end(), im != model.end(), "key present ", t);
      if (im != model.end()) s.equal(it->second, im->second.second, "value of ", t);
    }
    for (auto const& [t, kv] : model)
    {
      auto it = m.find(kv.first);
      s.check(it != m.end() && it->second == kv.second, "final look-up of ", t);
    }
  }

  // changing one part changes the hash, except for rare collisions: over several
  // independent base values at least one hash must change
  template <typename T, typename F>
  void sensitive(vf::Src& s, char const* what, F change)
  {
    int changed = 0;
    for (int i = 0; i < 6; i++)
    {
      T a{};
      gen(s, a);
      T b = a;
      change(b);
      s.check(!static_cast<bool>(hana::equal(a, b)), "values that differ in ", what, " are equal: ", str(a), " ", str(b));
      if (nbdl::binder::hash(a) != nbdl::binder::hash(b)) changed++;
    }
    s.check(changed > 0, "the hash never depends on ", what);
  }
}

VF_PROP(pairs_flat, 20000, 500000) { pair_laws<flat>(s); }
VF_PROP(pairs_deep, 20000, 500000) { pair_laws<deep>(s); }
VF_PROP(pairs_variant, 20000, 500000) { pair_laws<var>(s); }
VF_PROP(pairs_entity_with_variant, 20000, 500000) { pair_laws<with_var>(s); }
VF_PROP(pairs_tuple, 20000, 500000) { pair_laws<tup>(s); }
VF_PROP(pairs_path, 20000, 500000) { pair_laws<key_path>(s); }
VF_PROP(pairs_uid, 20000, 500000)
{
  pair_laws<nbdl::uid>(s);
  nbdl::uid a, b; gen(s, a); gen(s, b);
  s.equal(a == b, str(a) == str(b), "uid ==");
  s.equal(a != b, str(a) != str(b), "uid !=");
  if (a == b) s.equal(std::hash<nbdl::uid>{}(a), std::hash<nbdl::uid>{}(b), "std::hash of equal uids");
  nbdl::uid x = a, y = b;
  using std::swap;
  swap(x, y);
  s.check(x == b && y == a, "swap exchanges uids");
  s.check(x.size() == 16 && std::distance(x.begin(), x.end()) == 16 && std::equal(x.begin(), x.end(), x.data()), "uid is a buffer of 16 bytes");
}
// typed keys are equal exactly when what they hold is
VF_PROP(typed_keys, 10000, 200000)
{
  nbdl::uid a, b; gen(s, a); gen(s, b);
  using K = nbdl::unique_key<flat>;
  K x{a}, y{b}, z = x;
  s.equal(x == y, str(a) == str(b), "== of unique keys");
  s.check(x == z && x == x, "a key is not equal to its copy");
  z = y;
  s.check(z == y && str(x.value) == str(a) && str(z.value) == str(b), "an assigned key holds another value");
  using N = nbdl::key<flat>;
  std::uint32_t n = s.boolean() ? static_cast<std::uint32_t>(s.upto(4)) : 0xffffffffu - static_cast<std::uint32_t>(s.upto(4)), m = s.boolean() ? n : n ^ (1u << s.choose(32));
  N p{n}, q{m};
  s.equal(p == q, n == m, "== of keys");
  s.equal(p.value, n, "the value of a key");
  using T = nbdl::key<flat, std::string>;
  std::string t = s.text_of("ab", 20), u = s.boolean() ? t : s.text_of("ab", 20);
  T tk{t}, uk{std::as_const(u)};
  s.equal(tk == uk, t == u, "== of text keys");
  s.check(tk.value == t && uk.value == u, "a text key holds another text");
  s.nontrivial(n > 4 || !t.empty());
}
VF_PROP(pairs_container, 20000, 500000) { pair_laws<std::vector<int>>(s); pair_laws<std::string>(s); }

VF_PROP(pairs_misc, 20000, 500000) { pair_laws<misc>(s); }
VF_PROP(pairs_nested, 20000, 500000) { pair_laws<outer>(s); }

// long containers and strings, changed in one place
namespace
{
  template <typename C, typename Same> void long_ones(vf::Src& s, char const* what, C const& plain, Same same)
  {
    std::size_t n = s.pick({9, 17, 33, 65, 129, 257, 1025, 5000}) + s.upto(7);
    s.note(what, n);
    int changed = 0, moved = 0, longer = 0;
    for (int k = 0; k < 4; k++)
    {
      C a = plain;
      auto pattern = s.u64();
      for (std::size_t i = 0; i < n; i++) a.push_back(static_cast<typename C::value_type>('a' + (pattern >> (i % 61) & 7)));
      C b = a;
      s.check(nbdl::binder::hash(same(a)) == nbdl::binder::hash(same(b)), "a copied ", what, " of ", n, " has another hash");
      std::size_t at = s.chance(40) ? n - 1 : s.upto(n - 1);
      auto& x = *std::next(b.begin(), static_cast<std::ptrdiff_t>(at));
      x = static_cast<typename C::value_type>(x + 1 + s.upto(9));
      s.check(!static_cast<bool>(hana::equal(same(a), same(b))), "changed ", what, "s are equal");
      changed += nbdl::binder::hash(same(a)) != nbdl::binder::hash(same(b));
      C c = a;
      auto i = std::next(c.begin(), static_cast<std::ptrdiff_t>(n - 2)), j = std::next(i);
      *j = static_cast<typename C::value_type>(*i + 1);
      C d = c;
      std::iter_swap(std::next(d.begin(), static_cast<std::ptrdiff_t>(n - 2)), std::next(d.begin(), static_cast<std::ptrdiff_t>(n - 1)));
      moved += nbdl::binder::hash(same(c)) != nbdl::binder::hash(same(d));
      C e = a;
      e.push_back(e.back());
      longer += nbdl::binder::hash(same(a)) != nbdl::binder::hash(same(e));
    }
    s.check(changed > 0, "the hash of a ", what, " of ", n, " does not depend on every part");
    s.check(moved > 0, "the hash of a ", what, " of ", n, " does not depend on the order");
    s.check(longer > 0, "the hash of a ", what, " of ", n, " does not depend on the length");
    s.nontrivial();
  }
}
VF_PROP(long_values, 1600, 20000)
{
  auto id = [](auto const& x) -> auto const& { return x; };
  switch (s.choose(6))
  {
    case 0: return long_ones(s, "vector", std::vector<int>{}, id);
    case 1: return long_ones(s, "string", std::string{}, id);
    case 2: return long_ones(s, "list", std::list<short>{}, id);
    case 3: return long_ones(s, "vector of bytes", std::vector<unsigned char>{}, id);
    case 4: return long_ones(s, "member", std::string{}, [](auto const& x) { return flat{1, x, 2, false}; });
    default: return long_ones(s, "container member", std::vector<int>{}, [](auto const& x) { return deep{flat{}, x, 3, {}}; });
  }
}

VF_PROP(history_misc, 1500, 80000) { map_history<misc>(s); }
VF_PROP(history_flat, 2500, 80000) { map_history<flat>(s); }
VF_PROP(history_deep, 2500, 80000) { map_history<deep>(s); }
VF_PROP(history_variant, 2500, 80000) { map_history<var>(s); }
VF_PROP(history_path, 2500, 80000) { map_history<key_path>(s); }
VF_PROP(history_uid, 2500, 80000) { map_history<nbdl::uid>(s); }
VF_PROP(history_tuple, 1500, 80000) { map_history<tup>(s); }

VF_PROP(every_part_counts, 4000, 100000)
{
  s.nontrivial();
  s.note("sensitivity");
  int d = static_cast<int>(s.range(1, 1000));
  std::string w = std::string(1 + s.choose(3), static_cast<char>('c' + s.choose(20)));
  sensitive<flat>(s, "a", [&](flat& x) { x.a += d; });
  sensitive<flat>(s, "s", [&](flat& x) { x.s += w; });
  sensitive<flat>(s, "n", [&](flat& x) { x.n ^= 1ull << (d % 60); });
  sensitive<flat>(s, "b", [&](flat& x) { x.b = !x.b; });
  sensitive<deep>(s, "f.a", [&](deep& x) { x.f.a -= d; });
  sensitive<deep>(s, "f.b", [&](deep& x) { x.f.b = !x.f.b; });
  sensitive<deep>(s, "v (one more)", [&](deep& x) { x.v.push_back(d); });
  sensitive<deep>(s, "v (order)", [&](deep& x) { x.v.insert(x.v.begin(), d); x.v.push_back(-d); auto y = x; });
  sensitive<deep>(s, "z", [&](deep& x) { x.z += d; });
  sensitive<deep>(s, "t", [&](deep& x) { x.t = nbdl::string(static_cast<std::string const&>(x.t) + w); });
  sensitive<tup>(s, "element 0", [&](tup& x) { hana::at_c<0>(x) += d; });
  sensitive<tup>(s, "element 1", [&](tup& x) { hana::at_c<1>(x) += w; });
  sensitive<tup>(s, "element 2", [&](tup& x) { hana::at_c<2>(x).a += d; });
  sensitive<key_path>(s, "path element 1", [&](key_path& x) { hana::at_c<1>(x) += d; });
  sensitive<key_path>(s, "path element 2", [&](key_path& x) { hana::at_c<2>(x) += w; });
  sensitive<nbdl::uid>(s, "one byte", [&](nbdl::uid& x) { x[static_cast<std::size_t>(d) % 16] ^= static_cast<unsigned char>(1 + d % 255); });
  sensitive<misc>(s, "d", [&](misc& x) { x.d = x.d == 7 ? 8 : 7; });
  sensitive<misc>(s, "c", [&](misc& x) { x.c = static_cast<char>(x.c ^ (1 + d % 255)); });
  sensitive<misc>(s, "h", [&](misc& x) { x.h = static_cast<short>(x.h ^ (1 << d % 16)); });
  sensitive<misc>(s, "e", [&](misc& x) { x.e = x.e == color::red ? color::blue : color::red; });
  sensitive<misc>(s, "f", [&](misc& x) { x.f = x.f == 7 ? 8 : 7; });
  sensitive<misc>(s, "w", [&](misc& x) { x.w.push_back(d); });
  sensitive<misc>(s, "arr", [&](misc& x) { x.arr[static_cast<std::size_t>(d) % 3] += d; });
  sensitive<misc>(s, "bits", [&](misc& x) { x.bits.push_back(true); });
  sensitive<outer>(s, "p.x.a", [&](outer& x) { x.p.x.a += d; });
  sensitive<outer>(s, "p.y.b", [&](outer& x) { x.p.y.b = static_cast<char>(x.p.y.b ^ (1 + d % 255)); });
  sensitive<outer>(s, "q.y.a", [&](outer& x) { x.q.y.a += d; });
  sensitive<outer>(s, "n", [&](outer& x) { x.n += d; });
  sensitive<with_var>(s, "the variant's value", [&](with_var& x) { if (auto* p = vf::held_if<int>(x.v)) *p += d; else x.v = var(4242); });
  sensitive<var>(s, "the alternative", [&](var& x) { if (vf::held_index(x) == 4) x = var(tag_b{}); else x = var(tag_a{}); });

  // alternatives with the same value but another type
  using twin = nbdl::variant<int, tag_a, tag_b, unsigned>;
  int diff = 0;
  for (int i = 0; i < 5; i++)
  {
    int v = static_cast<int>(s.range(0, 1000));
    twin p(v), q(static_cast<unsigned>(v));
    s.check(!static_cast<bool>(hana::equal(p, q)), "different alternatives are equal");
    diff += nbdl::binder::hash(p) != nbdl::binder::hash(q);
  }
  s.check(diff > 0, "the hash never depends on the alternative");
  // order of two unequal elements
  diff = 0;
  for (int i = 0; i < 5; i++)
  {
    int a = static_cast<int>(s.range(0, 1000)), b = a + 1 + static_cast<int>(s.range(0, 1000));
    std::vector<int> x{a, b}, y{b, a};
    s.check(!static_cast<bool>(hana::equal(x, y)), "reordered containers are equal");
    diff += nbdl::binder::hash(x) != nbdl::binder::hash(y);
  }
  s.check(diff > 0, "the hash never depends on the order");
}

// hash quality over many distinct keys of one shape: collisions stay rare
VF_PROP(spread, 60, 1000)
{
  s.nontrivial();
  int base = static_cast<int>(s.range(-100000, 100000));
  s.note("base=", base);
  std::unordered_set<std::size_t> seen;
  std::size_t n = 0;
  for (int i = 0; i < 40; i++)
    for (int j = 0; j < 40; j++)
    {
      tup t{base + i, std::string("w") + std::to_string(j), flat{j * 3, "q", static_cast<unsigned long long>(i), false}};
      seen.insert(nbdl::binder::hash(t));
      n++;
    }
  s.check(seen.size() * 10 >= n * 9, "only ", seen.size(), " different hashes for ", n, " different keys");
}

VF_PROP(generated_uids_are_distinct, 40, 400)
{
  auto gen1 = nbdl::make_uid_generator();
  auto gen2 = nbdl::make_uid_generator();
  std::unordered_set<nbdl::uid> seen;
  std::size_t n = 500 + s.upto(1500);
  s.note("uids=", 2 * n);
  s.nontrivial();
  std::array<std::set<unsigned char>, 16> per_byte;
  for (std::size_t i = 0; i < n; i++)
  {
    for (auto* g : {&gen1, &gen2})
    {
      auto u = (*g)();
      s.check(seen.insert(u).second, "a uid came twice within ", 2 * n);
      for (std::size_t k = 0; k < 16; k++) per_byte[k].insert(u[k]);
    }
  }
  for (auto& b : per_byte) s.check(b.size() > 50, "a byte of generated uids hardly varies");
}

// ids of many generators
VF_PROP(generators_are_distinct, 1, 1)
{
  std::unordered_set<nbdl::uid> seen;
  std::size_t n = 2000;
  s.nontrivial();
  for (std::size_t i = 0; i < n; i++)
  {
    auto g = nbdl::make_uid_generator();
    s.check(seen.insert(g()).second && seen.insert(g()).second, "two generators of ", n, " gave the same id");
  }
}

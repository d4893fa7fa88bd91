// C10: a variant always shows exactly one alternative, the last assigned
#include "vf.hpp"
#include "held.hpp"
#include <boost/hana.hpp>
#include <mpdef/list.hpp>
#include <nbdl/apply_action.hpp>
#include <nbdl/bind_variant.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/match.hpp>
#include <nbdl/tags.hpp>
#include <nbdl/variant.hpp>
#include <nbdl/variant_holder.hpp>
#include <cstring>
#include <functional>
#include <limits>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace hana = boost::hana;

namespace t
{
  // knows its own address and counts its copies
  template <int id> struct tracked
  {
    static std::set<void const*>& alive() { static std::set<void const*> a; return a; }
    std::string v;
    tracked() : v("default " + std::string(30, 'd')) { alive().insert(this); }
    explicit tracked(std::string x) : v(std::move(x)) { alive().insert(this); }
    tracked(tracked const& o) : v(o.value()) { alive().insert(this); }
    tracked(tracked&& o) : v(std::move(o.checked().v)) { alive().insert(this); }
    tracked& operator=(tracked const& o) { checked(); v = o.value(); return *this; }
    tracked& operator=(tracked&& o) { checked(); v = std::move(o.checked().v); return *this; }
    ~tracked() { checked(); alive().erase(this); }
    tracked& checked() { if (!alive().count(this)) __builtin_trap(); return *this; }
    std::string const& value() const { if (!alive().count(this)) __builtin_trap(); return v; }
    friend bool operator==(tracked const& a, tracked const& b) { return a.value() == b.value(); }
  };
  using obj = tracked<1>;
  using own = tracked<2>;
  struct mark { };
  struct pair_ { int a; std::string b; friend bool operator==(pair_ const&, pair_ const&) = default; };
}

namespace t
{
  enum class grade : unsigned char { low, high };
  using V = nbdl::variant<int, double, std::string, obj, mark, std::vector<obj>, own, pair_, bool, char, grade>;
  enum { UNRESOLVED, INT, DOUBLE, STRING, OBJ, MARK, VEC, OWN, PAIR, BOOL, CHAR, GRADE, KINDS };

  std::string show(nbdl::unresolved const&) { return "unresolved"; }
  std::string show(nbdl::nothing const&) { return "nothing"; }
  std::string show(bool x) { return x ? "true" : "false"; }
  std::string show(char x) { return std::string("char ") + x; }
  std::string show(grade x) { return x == grade::high ? "high" : "low"; }
  std::string show(int x) { return "int " + std::to_string(x); }
  std::string show(double x) { return "double " + std::to_string(x); }
  std::string show(std::string const& x) { return "string " + x; }
  std::string show(obj const& x) { return "obj " + x.value(); }
  std::string show(own const& x) { return "own " + x.value(); }
  std::string show(mark const&) { return "mark"; }
  std::string show(std::vector<obj> const& x) { std::string r = "vec"; for (auto& e : x) r += " " + e.value(); return r; }
  std::string show(pair_ const& x) { return "pair " + std::to_string(x.a) + " " + x.b; }

  struct model
  {
    int kind = UNRESOLVED;
    std::string text = "unresolved";
    std::size_t objs = 0, owns = 0;
    bool moved = false;         // a moved-from value is unspecified, its kind is not
  };
  template <typename T> model of(int kind, T const& x)
  {
    model m{kind, show(x)};
    if constexpr (std::is_same_v<T, obj>) m.objs = 1;
    if constexpr (std::is_same_v<T, own>) m.owns = 1;
    if constexpr (std::is_same_v<T, std::vector<obj>>) m.objs = x.size();
    return m;
  }
}
using namespace t;

static std::string word(vf::Src& s)
{
  std::string r = s.text_of("ab", 4);
  if (s.boolean()) r += std::string(40, 'x');      // not a short string
  return r;
}
// a value of some alternative, handed to f
template <typename F> static void some_value(vf::Src& s, F f)
{
  switch (s.choose(KINDS))
  {
    case UNRESOLVED: return f(nbdl::unresolved{}, of(UNRESOLVED, nbdl::unresolved{}));
    case INT: { int x = static_cast<int>(s.range(-2, 2)); return f(x, of(INT, x)); }
    case DOUBLE: { double x = s.range(-2, 2) / 2.0; return f(x, of(DOUBLE, x)); }
    case STRING: { std::string x = word(s); return f(x, of(STRING, x)); }
    case OBJ: { obj x(word(s)); return f(x, of(OBJ, x)); }
    case MARK: return f(mark{}, of(MARK, mark{}));
    case VEC: { std::vector<obj> x; std::size_t n = s.upto(3); while (n--) x.emplace_back(word(s)); return f(x, of(VEC, x)); }
    case OWN: { own x(word(s)); return f(x, of(OWN, x)); }
    case BOOL: { bool x = s.boolean(); return f(x, of(BOOL, x)); }
    case CHAR: { char x = s.boolean() ? 'p' : 'q'; return f(x, of(CHAR, x)); }
    case GRADE: { grade x = s.boolean() ? grade::high : grade::low; return f(x, of(GRADE, x)); }
    default: { pair_ x{static_cast<int>(s.upto(2)), word(s)}; return f(x, of(PAIR, x)); }
  }
}

template <typename T> static constexpr int kind_of = -1;
template <> constexpr int kind_of<nbdl::unresolved> = UNRESOLVED;
template <> constexpr int kind_of<int> = INT;
template <> constexpr int kind_of<double> = DOUBLE;
template <> constexpr int kind_of<std::string> = STRING;
template <> constexpr int kind_of<obj> = OBJ;
template <> constexpr int kind_of<mark> = MARK;
template <> constexpr int kind_of<std::vector<obj>> = VEC;
template <> constexpr int kind_of<own> = OWN;
template <> constexpr int kind_of<pair_> = PAIR;
template <> constexpr int kind_of<bool> = BOOL;
template <> constexpr int kind_of<char> = CHAR;
template <> constexpr int kind_of<grade> = GRADE;

template <typename T> static void when(vf::Src& s, V& v, model const& w, char const* name)
{
  int n = 0;
  std::string got;
  nbdl::match(v, nbdl::match_when<T>([&](auto const& x) { n++; got = show(x); }));
  s.equal(n, int(w.kind == kind_of<T>), "match_when<", name, "> calls");
  if (n && !w.moved) s.equal(got, w.text, "match_when<", name, ">");
  n = 0;
  nbdl::match_when<T>(v, [&](auto const&) { n++; });
  s.equal(n, int(w.kind == kind_of<T>), "match_when<", name, ">(store, f) calls");
  n = 0;
  nbdl::match(static_cast<V const&>(v), 5, nbdl::match_when<T>([&](T const& x) { n++; got = show(x); }));
  s.equal(n, int(w.kind == kind_of<T>), "match_when<", name, "> with a key, const");
  s.equal(v.is<T>(), w.kind == kind_of<T>, "is<", name, ">");
}

static void audit(vf::Src& s, V& v, model const& w, char const* who)
{
  s.equal(v.get_type_id(), w.kind, who, ": type id");
  // every way to look visits once, the held alternative
  int n = 0;
  // the visitor stays with the caller
  auto see = [&, mark = std::string(40, 'm')](auto const& x)
  {
    n++;
    s.equal(mark, std::string(40, 'm'), who, ": what the visitor holds");
    s.equal(kind_of<std::decay_t<decltype(x)>>, w.kind, who, ": visited alternative");
    if (!w.moved) s.equal(show(x), w.text, who, ": visited value");
  };
  v.match(see);
  static_cast<V const&>(v).match(see);
  nbdl::match(v, see);
  nbdl::match(static_cast<V const&>(v), see);
  nbdl::match(v, 17, see);
  nbdl::match(static_cast<V const&>(v), std::string("key"), see);
  s.equal(n, 6, who, ": visits");
  n = 0;
  int id = -1;
  // the binder stays with the caller
  auto bind = [&, mark = std::string(40, 'm')](int type_id, auto const& ...x)
  {
    s.equal(mark, std::string(40, 'm'), who, ": what the binder holds");
    n++;
    id = type_id;
    (see(x), ...);
    n -= sizeof...(x);
    // values without content are not bound
    s.equal(sizeof...(x), std::size_t(w.kind != UNRESOLVED && w.kind != MARK), who, ": bound values");
  };
  nbdl::bind_variant(v, bind);
  nbdl::bind_variant(v, std::as_const(bind));
  s.equal(n, 2, who, ": bind_variant calls");
  n = 0;
  nbdl::bind_variant(v, std::move(bind));
  s.equal(n, 1, who, ": bind_variant calls");
  s.equal(id, w.kind, who, ": bound type id");
}

// first accepting branch
static void branches(vf::Src& s, V& v, model const& w)
{
  if (w.moved) return;
  std::string got = "none";
  int n = 0;
  auto hit = [&](std::string x) { n++; got = x; };
  v.match([&](std::string const& x) { hit("1 " + show(x)); }, [&](obj const& x) { hit("2 " + show(x)); },
          [&](int x) { hit("3 " + show(x)); }, [&](auto const& x) { hit("4 " + show(x)); }, [&](own const& x) { hit("5"); });
  std::string want = w.kind == STRING ? "1 " : w.kind == OBJ ? "2 " : (w.kind == INT || w.kind == DOUBLE || w.kind == BOOL || w.kind == CHAR) ? "3 " : "4 ";
  std::string text = w.text;
  if (w.kind == DOUBLE) { int x = 0; v.match([&](double d) { x = static_cast<int>(d); }, nbdl::noop); text = "int " + std::to_string(x); }
  if (w.kind == BOOL) text = w.text == "true" ? "int 1" : "int 0";
  if (w.kind == CHAR) text = "int " + std::to_string(int(w.text[5]));
  s.equal(got, want + text, "first accepting branch");
  s.equal(n, 1, "branches run");
  n = 0;
  got = "none";
  nbdl::match(v, hana::overload_linearly([&](nbdl::unresolved) { hit("u"); }, [&](mark) { hit("m"); }, nbdl::noop, [&](auto const&) { hit("late"); }));
  s.equal(got, std::string(w.kind == UNRESOLVED ? "u" : w.kind == MARK ? "m" : "none"), "branch before the catch-all");
  n = 0;
  got = "none";
  nbdl::match(v, nbdl::mapped_overload(
    hana::make_map(hana::make_pair(hana::type_c<int>, [&](auto const& x) { hit("mapped " + show(x)); })
                 , hana::make_pair(hana::type_c<obj>, [&](auto const& x) { hit("mapped " + show(x)); })
                 , hana::make_pair(hana::type_c<mark>, [&](auto const& x) { hit("mapped " + show(x)); }))
  , [&](auto const& x) { hit("otherwise " + show(x)); }));
  s.equal(n, 1, "mapped branches run");
  s.equal(got, (w.kind == INT || w.kind == OBJ || w.kind == MARK ? "mapped " : "otherwise ") + w.text, "mapped branch");
}

VF_PROP(histories, 6000, 150000)
{
  long obj0 = obj::alive().size(), own0 = own::alive().size();
  s.equal(obj0 + own0, 0l, "objects alive before the case");
  {
    std::vector<V> v(3);
    model w[3];
    std::size_t steps = 1 + s.size(20);
    int changes = 0;
    for (std::size_t step = 0; step < steps; step++)
    {
      std::size_t i = s.choose(3), j = s.choose(3);
      switch (s.choose(14))
      {
        case 0: some_value(s, [&](auto x, model m) { s.note("assign", i, m.text); v[i] = x; w[i] = m; }); changes++; break;
        case 1: some_value(s, [&](auto x, model m) { s.note("move in", i, m.text); v[i] = std::move(x); w[i] = m; }); changes++; break;
        case 2: s.note("copy", i, "<-", j); v[i] = v[j]; w[i] = w[j]; break;
        case 3:
          s.note("move", i, "<-", j);
          if (i == j) break;
          v[i] = std::move(v[j]);
          w[i] = w[j];
          w[j].moved = true;
          // what a moved-from vector holds is up to the library below
          if (w[j].kind == VEC) { v[j] = std::vector<obj>{}; w[j] = of(VEC, std::vector<obj>{}); }
          break;
        case 4: s.note("construct", i); some_value(s, [&](auto x, model m) { V n(x); v[i] = n; w[i] = m; }); changes++; break;
        case 5: { s.note("self", i); V& a = v[i]; v[i] = a; break; }
        case 6: s.note("swap", i, j); std::swap(v[i], v[j]); std::swap(w[i], w[j]); break;
        case 7: some_value(s, [&](auto x, model m) { s.note("action", i, m.text); nbdl::apply_action(v[i], x); w[i] = m; }); changes++; break;
        case 8:
        {
          // change it in place
          s.note("mutate", i);
          v[i].match([&](obj& x) { x.v = "changed"; w[i] = of(OBJ, x); }, [&](std::string& x) { x += "!"; w[i] = of(STRING, x); },
                     [&](std::vector<obj>& x) { x.emplace_back("pushed"); w[i] = of(VEC, x); },
                     [&](int& x) { x = 7; w[i] = of(INT, x); }, nbdl::noop);
          break;
        }
        case 9:
        {
          // in place through nbdl::match
          s.note("mutate2", i);
          nbdl::match(v[i], nbdl::match_when<own>([&](own& x) { x.v = "changed too"; w[i] = of(OWN, x); }));
          nbdl::match(v[i], 0, hana::overload_linearly([&](pair_& x) { x.a++; w[i] = of(PAIR, x); }, nbdl::noop));
          break;
        }
        case 10:
        {
          // as a reader does: by type id
          int id = static_cast<int>(s.range(-2, KINDS + 1));
          s.note("bind", i, id);
          int n = 0;
          std::string text = word(s);
          auto bind = [&, text](int given, auto& ...x)
          {
            n++;
            s.equal(given, id, "the type id handed to the binder");
            auto put = [&](auto& x)
            {
              using X = std::decay_t<decltype(x)>;
              // whatever the variant held before is gone
              s.equal(show(x), show(X{}), "the value handed to the binder");
              if constexpr (std::is_same_v<X, int>) x = 3;
              else if constexpr (std::is_same_v<X, double>) x = 1.5;
              else if constexpr (std::is_same_v<X, std::string>) x = text;
              else if constexpr (std::is_same_v<X, obj> || std::is_same_v<X, own>) x.v = text;
              else if constexpr (std::is_same_v<X, std::vector<obj>>) x.emplace_back(text);
              else if constexpr (std::is_same_v<X, bool>) x = true;
              else if constexpr (std::is_same_v<X, char>) x = 'z';
              else if constexpr (std::is_same_v<X, grade>) x = grade::high;
              else x = pair_{4, text};
              w[i] = of(kind_of<X>, x);
            };
            (put(x), ...);
            if constexpr (sizeof...(x) == 0) { s.check(id == UNRESOLVED || id == MARK, "nothing to bind"); w[i] = id == MARK ? of(MARK, mark{}) : of(UNRESOLVED, nbdl::unresolved{}); }
          };
          if (s.boolean())
          {
            // the binder stays with the caller
            nbdl::bind_variant(id, v[i], bind);
            s.equal(n, int(id >= 0 && id < KINDS), "bind by type id");
            n = 0;
          }
          nbdl::bind_variant(id, v[i], std::move(bind));
          s.equal(n, int(id >= 0 && id < KINDS), "bind by type id");
          if (id >= 0 && id < KINDS && (id == kind_of<std::string> || id == kind_of<own>))
            s.equal(w[i].text, id == kind_of<own> ? of(OWN, own{text}).text : of(kind_of<std::string>, text).text, "what was bound");
          if (n) changes++;
          break;
        }
        case 11: { s.note("temporary", i); V n(v[i]); V m(std::move(n)); v[j] = std::move(m); w[j] = w[i]; break; }
        case 12: s.note("default", i); v[i] = V{}; w[i] = model{}; break;
        default:
        {
          if (w[i].moved || w[j].moved) break;
          s.note("compare", i, j);
          bool same = w[i].kind == w[j].kind && w[i].text == w[j].text;
          s.equal(static_cast<bool>(hana::equal(v[i], v[j])), same, "equality of ", w[i].text, " and ", w[j].text);
          s.equal(static_cast<bool>(hana::not_equal(v[i], v[j])), !same, "inequality");
        }
      }
      std::size_t objs = 0, owns = 0;
      for (std::size_t k = 0; k < 3; k++)
      {
        audit(s, v[k], w[k], k == i ? "the touched variant" : "another variant");
        objs += w[k].objs;
        owns += w[k].owns;
      }
      branches(s, v[i], w[i]);
      when<nbdl::unresolved>(s, v[i], w[i], "unresolved");
      when<int>(s, v[i], w[i], "int");
      when<double>(s, v[i], w[i], "double");
      when<std::string>(s, v[i], w[i], "string");
      when<obj>(s, v[i], w[i], "obj");
      when<mark>(s, v[i], w[i], "mark");
      when<own>(s, v[i], w[i], "own");
      when<pair_>(s, v[i], w[i], "pair");
      when<bool>(s, v[i], w[i], "bool");
      when<char>(s, v[i], w[i], "char");
      when<grade>(s, v[i], w[i], "grade");
      s.equal(obj::alive().size(), objs, "live objects");
      s.equal(own::alive().size(), owns, "live owned objects");
    }
    s.nontrivial(changes >= 2);
  }
  s.equal(obj::alive().size() + own::alive().size(), std::size_t(0), "objects alive after the variants are gone");
}

// a type that is no alternative is never matched and never held
VF_PROP(foreign_types, 500, 5000)
{
  s.nontrivial();
  some_value(s, [&](auto x, model)
  {
    V v(x);
    int n = 0;
    nbdl::match(v, nbdl::match_when<float>([&](auto const&) { n++; }));
    nbdl::match(v, nbdl::match_when<V>([&](auto const&) { n++; }));
    nbdl::match(v, nbdl::match_when<void>([&](auto const&) { n++; }));
    s.equal(n, 0, "match_when for a type that is no alternative");
  });
}

// optionals and variants in variants
VF_PROP(optionals, 4000, 60000)
{
  s.nontrivial();
  using O = nbdl::optional<obj>;
  {
    bool c = s.boolean();
    obj x(word(s));
    s.note(c, x.v);
    O o = nbdl::make_optional_if(c, x);
    s.equal(o.get_type_id(), int(c), "make_optional_if");
    std::string got;
    int n = 0;
    nbdl::match(o, hana::overload_linearly([&](nbdl::nothing) { n++; got = "nothing"; }, [&](obj const& y) { n++; got = show(y); }));
    s.equal(got, c ? show(x) : std::string("nothing"), "make_optional_if shows");
    s.equal(n, 1, "visits");
    auto p = nbdl::make_optional(x);
    s.equal(p.get_type_id(), 1, "make_optional");
    s.equal(static_cast<bool>(hana::equal(o, p)), c, "equality of optionals");
    // nested: matching reaches the innermost value
    using N = nbdl::optional<O>;
    bool outer = s.boolean();
    N q = nbdl::make_optional_if(outer, o);
    got = "";
    n = 0;
    auto f = hana::overload_linearly([&](nbdl::nothing) { n++; got = "nothing"; }, [&](obj const& y) { n++; got = show(y); }, [&](auto const&) { n++; got = "?"; });
    nbdl::match(q, f);
    s.equal(got, outer && c ? show(x) : std::string("nothing"), "nested optional shows");
    nbdl::match(q, 0, f);
    s.equal(n, 2, "visits of a nested optional");
    N r = nbdl::make_optional_if(s.boolean(), nbdl::make_optional_if(s.boolean(), obj(word(s))));
    auto text = [](N const& z) { std::string t = std::to_string(z.get_type_id()); z.match([&](auto const& i) { if constexpr (std::is_same_v<std::decay_t<decltype(i)>, O>) { t += std::to_string(i.get_type_id()); i.match([&](obj const& y) { t += y.v; }, nbdl::noop); } }); return t; };
    s.equal(static_cast<bool>(hana::equal(q, r)), text(q) == text(r), "equality of nested optionals");
    // a variant with variants among other alternatives
    using W = nbdl::variant<int, std::string, O, nbdl::variant<int, own>>;
    auto make = [&]() -> W
    {
      switch (s.choose(6))
      {
        case 0: return W(static_cast<int>(s.upto(1)));
        case 1: return W(word(s));
        case 2: return W(nbdl::make_optional_if(s.boolean(), obj(word(s))));
        case 3: return W(nbdl::variant<int, own>(static_cast<int>(s.upto(1))));
        case 4: return W(nbdl::variant<int, own>(own(word(s))));
        default: return W();
      }
    };
    auto deep = [](W const& z)
    {
      std::string t = std::to_string(z.get_type_id()) + ":";
      z.match([&](auto const& i) { if constexpr (requires { i.get_type_id(); }) t += std::to_string(i.get_type_id()); });
      int n = 0;
      nbdl::match(z, [&](auto const& y) { n++; t += show(y); });
      return t + (n == 1 ? "" : " visits " + std::to_string(n));
    };
    W a = make(), b = make(), d = a;
    s.note(deep(a), deep(b));
    s.equal(deep(d), deep(a), "a copy of a nested variant");
    s.equal(static_cast<bool>(hana::equal(a, b)), deep(a) == deep(b), "equality of nested variants");
    s.check(static_cast<bool>(hana::equal(a, d)), "a copy is equal");
    b = a;
    s.check(static_cast<bool>(hana::equal(a, b)), "an assigned copy is equal");
  }
  s.equal(obj::alive().size() + own::alive().size(), std::size_t(0), "objects alive afterwards");
}

// alternatives that can only be moved
VF_PROP(move_only, 2000, 30000)
{
  {
    using M = nbdl::variant<int, std::unique_ptr<obj>>;
    M a, b;
    std::string wa = "unresolved", wb = "unresolved";
    std::size_t steps = 1 + s.size(10);
    s.nontrivial(steps > 1);
    auto text = [&](M& m)
    {
      std::string r;
      m.match([&](nbdl::unresolved) { r = "unresolved"; }, [&](int x) { r = show(x); }, [&](std::unique_ptr<obj> const& p) { r = p ? show(*p) : "empty"; });
      return r;
    };
    while (steps--)
    {
      switch (s.choose(4))
      {
        case 0: { auto w = word(s); a = M(std::make_unique<obj>(w)); wa = "obj " + w; break; }
        case 1: a = M(5); wa = "int 5"; break;
        case 2: b = std::move(a); wb = wa; if (wa.substr(0, 3) == "obj") wa = "empty"; break;
        default: std::swap(a, b); std::swap(wa, wb);
      }
      s.note(wa, "|", wb);
      s.equal(text(a), wa, "move-only variant");
      s.equal(text(b), wb, "other move-only variant");
      s.equal(obj::alive().size(), std::size_t((wa[0] == 'o') + (wb[0] == 'o')), "live objects");
    }
  }
  s.equal(obj::alive().size(), std::size_t(0), "objects alive afterwards");
}

// a holder shows the index and the value of the same alternative
VF_PROP(holders, 3000, 60000)
{
  {
    using H = nbdl::variant_holder<nbdl::unresolved, int, std::string, obj, mark>;
    std::vector<H> h(2);
    int kind[2] = {0, 0};
    std::string text[2] = {"unresolved", "unresolved"};
    std::size_t steps = 1 + s.size(12);
    s.nontrivial(steps > 1);
    while (steps--)
    {
      std::size_t i = s.choose(2);
      switch (s.choose(7))
      {
        case 0: { int x = static_cast<int>(s.upto(3)); h[i].value = x; kind[i] = 1; text[i] = show(x); break; }
        case 1: { auto x = word(s); h[i].value = x; kind[i] = 2; text[i] = show(x); break; }
        case 2: { obj x(word(s)); h[i] = H(x); kind[i] = 3; text[i] = show(x); break; }
        case 3: h[i].value = mark{}; kind[i] = 4; text[i] = "mark"; break;
        case 4: h[i] = h[1 - i]; kind[i] = kind[1 - i]; text[i] = text[1 - i]; break;
        case 5:
        {
          int id = static_cast<int>(s.range(-2, 6)), n = 0;
          nbdl::bind_variant(id, h[i], [&](int given, auto& ...x)
          {
            n++;
            s.equal(given, id, "type id");
            auto put = [&](auto& x)
            {
              using X = std::decay_t<decltype(x)>;
              s.equal(show(x), show(X{}), "the value handed to the binder");
              if constexpr (std::is_same_v<X, int>) x = 9;
              else if constexpr (std::is_same_v<X, std::string>) x = "bound";
              else x.v = "bound";
              text[i] = show(x);
            };
            (put(x), ...);
            kind[i] = id;
            if (sizeof...(x) == 0) text[i] = id == 4 ? "mark" : "unresolved";
          });
          s.equal(n, int(id >= 0 && id < 5), "bind by type id");
          break;
        }
        default: nbdl::match(h[i], nbdl::variant_value, hana::overload_linearly([&](std::string& x) { x += "+"; text[i] = show(x); }, nbdl::noop));
      }
      std::size_t objs = 0;
      for (std::size_t k = 0; k < 2; k++)
      {
        int n = 0;
        nbdl::match(h[k], nbdl::variant_index, [&](auto id) { n++; s.equal(int(id), kind[k], "variant_index"); });
        nbdl::match(h[k], nbdl::variant_value, [&](auto const& x) { n++; s.equal(show(x), text[k], "variant_value"); });
        nbdl::match(static_cast<H const&>(h[k]), nbdl::variant_value, [&](auto const& x) { n++; s.equal(show(x), text[k], "variant_value of a const holder"); });
        nbdl::bind_variant(h[k], [&](int id, auto const& ...x) { n++; s.equal(id, kind[k], "bound id"); (s.equal(show(x), text[k], "bound value"), ...); });
        s.equal(n, 4, "visits");
        objs += kind[k] == 3;
      }
      s.equal(obj::alive().size(), objs, "live objects");
    }
  }
  s.equal(obj::alive().size(), std::size_t(0), "objects alive afterwards");
}

// equality is that of the alternatives: not of their bytes
namespace t
{
  struct padded { char c; int n; friend bool operator==(padded const& a, padded const& b) { return a.c == b.c && a.n == b.n; } };
  struct loose { int key; int note; friend bool operator==(loose const& a, loose const& b) { return a.key == b.key; } };
  struct empty_but_equal { };
}
template <typename T> static T dirty(vf::Src& s)
{
  T x;
  std::memset(static_cast<void*>(&x), static_cast<int>(s.upto(255)), sizeof x);
  return x;
}
VF_PROP(equalities, 4000, 80000)
{
  using Q = nbdl::variant<float, double, long double, padded, loose, std::vector<double>, empty_but_equal, std::string, unsigned char>;
  double const reals[] = {0.0, -0.0, 1.0, 1.0 + std::numeric_limits<double>::epsilon(), std::numeric_limits<double>::infinity(),
                          std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::denorm_min(), 16777216.0, 16777217.0};
  auto real = [&] { return reals[s.choose(std::size(reals))]; };
  using eq = std::function<bool(Q const&)>;
  // a value, and what says whether another variant equals it
  auto make = [&](int kind) -> std::pair<Q, eq>
  {
    auto same = [](auto x) -> eq { using X = decltype(x); return [x](Q const& o) { bool r = false; if (auto* p = vf::held_if<X>(o)) r = *p == x; return r; }; };
    switch (kind)
    {
      case 0: { float x = static_cast<float>(real()); return {Q(x), same(x)}; }
      case 1: { double x = real(); return {Q(x), same(x)}; }
      case 2: { long double x = real(); return {Q(x), same(x)}; }
      case 3: { padded x = dirty<padded>(s); x.c = static_cast<char>('a' + s.upto(1)); x.n = static_cast<int>(s.upto(1)); return {Q(x), same(x)}; }
      case 4: { loose x{static_cast<int>(s.upto(1)), static_cast<int>(s.upto(2))}; return {Q(x), same(x)}; }
      case 5: { std::vector<double> x; for (std::size_t n = s.upto(2); n-- > 0;) x.push_back(real()); return {Q(x), same(x)}; }
      case 6: return {Q(empty_but_equal{}), [](Q const& o) { return o.get_type_id() == 7; }};
      case 7: { std::string x = s.pick({"", "a", "b"}); if (s.boolean()) x += '\0'; if (s.boolean()) x += "c"; return {Q(x), same(x)}; }
      case 8: { unsigned char x = static_cast<unsigned char>(s.pick({0, 1, 127, 128, 255})); return {Q(x), same(x)}; }
      default: return {Q(), [](Q const& o) { return o.get_type_id() == 0; }};
    }
  };
  int k = static_cast<int>(s.choose(10));
  auto [a, is_a] = make(k);
  auto [b, is_b] = make(s.chance(80) ? k : static_cast<int>(s.choose(10)));
  s.note("kinds", a.get_type_id(), b.get_type_id());
  s.nontrivial(a.get_type_id() == b.get_type_id());
  s.equal(is_a(b), is_b(a), "the oracle is symmetric");
  s.equal(static_cast<bool>(hana::equal(a, b)), is_a(b), "equality is that of the values");
  s.equal(static_cast<bool>(hana::equal(b, a)), is_a(b), "equality the other way round");
  s.equal(static_cast<bool>(hana::not_equal(a, b)), !is_a(b), "inequality is that of the values");
  Q c = a;
  s.equal(static_cast<bool>(hana::equal(a, c)), is_a(a), "equality with a copy");
  s.equal(static_cast<bool>(hana::equal(a, a)), is_a(a), "equality with itself");
}

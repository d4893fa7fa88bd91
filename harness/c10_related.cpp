// C10: alternatives that are related to, or convert to, one another
#include "vf.hpp"
#include <boost/hana.hpp>
#include <nbdl/bind_variant.hpp>
#include <nbdl/match.hpp>
#include <nbdl/tags.hpp>
#include <nbdl/variant.hpp>
#include <memory>
#include <string>
#include <string_view>

namespace hana = boost::hana;
namespace rl
{
  struct base { int n = 0; friend bool operator==(base const& a, base const& b) { return a.n == b.n; } };
  struct derived : base { int m = 0; derived() = default; explicit derived(int x) : base{x}, m(x + 1) { } };
  struct lowest : derived { std::string t; lowest() = default; explicit lowest(int x) : derived(x), t(std::to_string(x)) { } };
  struct number { int n = 0; operator int() const { return n; } friend bool operator==(number const& a, number const& b) { return a.n == b.n; } };
  struct id { int n = 0; id() = default; explicit id(int x) : n(x) { } friend bool operator==(id const& a, id const& b) { return a.n == b.n; } };
  enum old_enum { zero, one, two };
  enum class new_enum : unsigned char { zero, one, two };
  using any = nbdl::variant<base, derived, int, number, id, lowest, long, unsigned char, old_enum, new_enum, std::string, std::string_view, std::shared_ptr<base>, std::shared_ptr<derived>>;
  template <typename T> T make(int n)
  {
    if constexpr (std::is_same_v<T, base>) return base{n};
    else if constexpr (std::is_same_v<T, derived> || std::is_same_v<T, lowest>) return T(n);
    else if constexpr (std::is_same_v<T, number>) return number{n};
    else if constexpr (std::is_same_v<T, id>) return id(n);
    else if constexpr (std::is_enum_v<T> || std::is_arithmetic_v<T>) return static_cast<T>(n % 3);
    else if constexpr (std::is_same_v<T, std::string>) return std::string(static_cast<std::size_t>(n) + 1, 's');
    else if constexpr (std::is_same_v<T, std::string_view>) return std::string_view("view of something").substr(0, static_cast<std::size_t>(n) % 8);
    else return std::make_shared<typename T::element_type>(make<typename T::element_type>(n));
  }
  template <typename T> std::string tell(T const& x)
  {
    if constexpr (std::is_same_v<T, nbdl::unresolved>) return "nothing";
    else if constexpr (std::is_same_v<T, base>) return "base " + std::to_string(x.n);
    else if constexpr (std::is_same_v<T, derived>) return "derived " + std::to_string(x.n) + " " + std::to_string(x.m);
    else if constexpr (std::is_same_v<T, lowest>) return "lowest " + std::to_string(x.n) + " " + std::to_string(x.m) + " " + x.t;
    else if constexpr (std::is_same_v<T, number>) return "number " + std::to_string(x.n);
    else if constexpr (std::is_same_v<T, id>) return "id " + std::to_string(x.n);
    else if constexpr (std::is_same_v<T, int>) return "int " + std::to_string(x);
    else if constexpr (std::is_same_v<T, long>) return "long " + std::to_string(x);
    else if constexpr (std::is_same_v<T, unsigned char>) return "byte " + std::to_string(x);
    else if constexpr (std::is_same_v<T, old_enum>) return "old " + std::to_string(x);
    else if constexpr (std::is_same_v<T, new_enum>) return "new " + std::to_string(static_cast<int>(x));
    else if constexpr (std::is_same_v<T, std::string>) return "text " + x;
    else if constexpr (std::is_same_v<T, std::string_view>) return "view " + std::string(x);
    else if constexpr (std::is_same_v<T, std::shared_ptr<base>>) return "to base " + (x ? tell(*x) : std::string());
    else if constexpr (std::is_same_v<T, std::shared_ptr<derived>>) return "to derived " + (x ? tell(*x) : std::string());
    else return "something else";
  }
  template <typename F, typename ...T> void nth(std::size_t i, F&& f, nbdl::detail::variant<nbdl::unresolved, T...> const*)
  { std::size_t k = 0; ((k++ == i ? (f(hana::type_c<T>), 0) : 0), ...); }
  constexpr std::size_t KINDS = 14;
}
using namespace rl;

VF_PROP(related_alternatives, 6000, 150000)
{
  any v[2];
  std::string model[2] = {"nothing", "nothing"};
  int kind[2] = {0, 0};
  std::size_t steps = 1 + s.size(8);
  s.nontrivial(steps > 1);
  while (steps--)
  {
    std::size_t i = s.choose(2);
    if (s.chance(15)) { s.note("copy"); v[i] = v[1 - i]; model[i] = model[1 - i]; kind[i] = kind[1 - i]; }
    else
      nth(s.choose(KINDS), [&](auto type)
      {
        using T = typename decltype(type)::type;
        T x = make<T>(static_cast<int>(s.upto(4)));
        s.note(i, tell(x));
        model[i] = tell(x);
        switch (s.choose(4))
        {
          case 0: v[i] = x; break;
          case 1: v[i] = std::as_const(x); break;
          case 2: v[i] = T(x); break;
          default: { any fresh(x); v[i] = std::move(fresh); }
        }
        s.equal(tell(x), model[i], "the value that was assigned is the caller's");
        s.check(v[i].template is<T>(), "the alternative is the one of the value's own type");
        kind[i] = v[i].get_type_id();
      }, static_cast<any*>(nullptr));
    for (int k = 0; k < 2; k++)
    {
      int calls = 0;
      std::string seen;
      nbdl::match(v[k], [&](auto const& x) { calls++; seen = tell(x); });
      s.equal(calls, 1, "visits");
      s.equal(seen, model[k], "what is shown");
      calls = 0;
      v[k].match([&](auto& x) { calls++; seen = tell(x); });
      s.equal(calls, 1, "visits");
      s.equal(seen, model[k], "what is shown to be changed");
      // looking for one type finds just that
      std::size_t found = 0, alternatives = 0;
      for (std::size_t a = 0; a < KINDS; a++) nth(a, [&](auto type)
      {
        using T = typename decltype(type)::type;
        alternatives += v[k].template is<T>();
        nbdl::match_when<T>(v[k], [&](T const& x) { found++; s.equal(tell(x), model[k], "what is found by type"); });
        nbdl::match(std::as_const(v[k]), nbdl::match_when<T>([&](T const& x) { found++; s.equal(tell(x), model[k], "what is found by type in a constant"); }));
      }, static_cast<any*>(nullptr));
      s.equal(found, std::size_t(kind[k] ? 2 : 0), "finds");
      s.equal(alternatives, std::size_t(kind[k] ? 1 : 0), "alternatives it says it is");
      // by type id
      std::string bound;
      nbdl::bind_variant(v[k], [&](int got, auto const& ...x) { s.equal(got, kind[k], "type id"); ((bound = tell(x)), ...); });
      if (kind[k]) s.equal(bound, model[k], "what is bound");
    }
    if (kind[0] != kind[1]) s.check(!hana::equal(v[0], v[1]), "different alternatives are not equal, whatever they convert to");
  }
}

// the first function that takes an alternative, of those given, is the one that is called
VF_PROP(in_order_of_functions, 3000, 60000)
{
  using V = nbdl::variant<base, derived, int, number, std::string>;
  std::size_t which = s.choose(5);
  int n = static_cast<int>(s.upto(5));
  V v;
  s.nontrivial();
  std::string want;
  switch (which)
  {
    case 0: v = base{n}; break;
    case 1: v = derived(n); break;
    case 2: v = n; break;
    case 3: v = number{n}; break;
    default: v = std::string("t");
  }
  s.note(which, n);
  std::string got; int calls = 0;
  auto say = [&](char const* x) { calls++; got = x; };
  auto judge = [&](char const* w0, char const* w1, char const* w2, char const* w3, char const* w4, char const* how)
  {
    s.equal(calls, 1, how, ": calls");
    s.equal(got, std::string(which == 0 ? w0 : which == 1 ? w1 : which == 2 ? w2 : which == 3 ? w3 : w4), how);
    calls = 0; got.clear();
  };
  v.match([&](derived const&) { say("derived"); }, [&](base const&) { say("base"); }, [&](auto const&) { say("other"); });
  judge("base", "derived", "other", "other", "other", "derived before base");
  v.match([&](base const&) { say("base"); }, [&](derived const&) { say("derived"); }, [&](auto const&) { say("other"); });
  judge("base", "base", "other", "other", "other", "base before derived");
  v.match([&](int) { say("int"); }, [&](number const&) { say("number"); }, [&](auto const&) { say("other"); });
  judge("other", "other", "int", "int", "other", "int before what converts to it");
  nbdl::match(v, hana::overload_linearly([&](number const&) { say("number"); }, [&](int) { say("int"); }, [&](auto const&) { say("other"); }));
  judge("other", "other", "int", "number", "other", "a number before int");
  std::as_const(v).match([&](auto const&) { say("any"); }, [&](int) { say("int"); });
  judge("any", "any", "any", "any", "any", "anything first");
}

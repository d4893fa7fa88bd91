// C23: what generated argument lists (gen/small.py) are passed to, and the models
#ifndef C23_SMALL_HPP
#define C23_SMALL_HPP
#include "vf.hpp"
#include <boost/hana.hpp>
#include <boost/hana/ext/std/array.hpp>
#include <mpdef/list.hpp>
#include <nbdl/detail/filter_empties.hpp>
#include <nbdl/detail/match_if.hpp>
#include <nbdl/detail/params_view.hpp>
#include <nbdl/detail/string_concat.hpp>
#include <nbdl/pipe.hpp>
#include <nbdl/run_sync.hpp>
#include <functional>
#include <memory>
#include <string>
#include <vector>

namespace hana = boost::hana;
using namespace hana::literals;

namespace sm
{
  struct thing { std::string text; std::unique_ptr<int> owned; explicit thing(std::string t) : text(std::move(t)), owned(new int(static_cast<int>(text.size()))) {} };
  struct nil { };
  struct nil2 { int f() const { return 1; } };

  inline std::string word(vf::Src& s, bool nul)
  {
    std::string r;
    for (std::size_t n = s.chance(15) ? s.upto(300) : s.upto(5); n-- > 0;)
    {
      char c = s.chance(80) ? s.pick({'a', 'b', ' ', '0'}) : static_cast<char>(s.upto(255));
      r += c || nul ? c : 'n';
    }
    return r;
  }

  struct run
  {
    vf::Src& s;
    int id;

    // ---- concatenation ----
    template <typename Strings> void concat(Strings const& strings, std::string const& want)
    {
      auto got = nbdl::detail::string_concat(strings);
      static_assert(std::is_same_v<decltype(got), std::string>);
      s.note(want.size());
      s.check(got == want, "concatenation of case ", id, " has ", got.size(), " characters of ", want.size());
      if (want.size()) s.nontrivial();
    }

    // ---- first match ----
    static inline std::vector<int> asked;
    static inline void const* looked_at = nullptr;
    struct pred { char kind; int k; };    // t: always, f: never, g: at least k, m: multiple of k
    static bool holds(pred const& p, int v) { return p.kind == 't' || (p.kind == 'g' && v >= p.k) || (p.kind == 'm' && v % p.k == 0); }
    template <typename List> void first(List list, std::vector<pred> const& preds)
    {
      int const value = static_cast<int>(s.upto(12));
      s.note("value", value);
      int want = 0;
      std::vector<int> ask;
      while (true)
      {
        auto& p = preds[static_cast<std::size_t>(want)];
        if (p.kind != 't' && p.kind != 'f') ask.push_back(want);
        if (holds(p, value)) break;
        want++;
      }
      asked.clear(); looked_at = nullptr;
      s.equal(nbdl::detail::match_if(list, value), want, "the first match of case ", id);
      s.check(asked == ask, "the predicates of case ", id, " are asked in order up to the first match");
      s.check(ask.empty() || looked_at == &value, "a predicate of case ", id, " is asked about a copy");
      s.equal(nbdl::detail::match_if(list, int(value)), want, "the first match of case ", id);
      int calls = 0, got = -1;
      asked.clear();
      nbdl::run_sync(nbdl::pipe(nbdl::detail::match_if_promise(list), [&](auto index) { calls++; got = static_cast<int>(decltype(index)::value); }), value);
      s.equal(calls, 1, "matches of case ", id);
      s.equal(got, want, "the first match of case ", id);
      s.check(asked == ask, "the predicates of case ", id, " are asked in order up to the first match");
      if (preds.size() > 1) s.nontrivial();
    }

    // ---- without empties ----
    template <typename ...X> void filter(std::vector<void const*> const& want, X&& ...x)
    {
      std::vector<void const*> got;
      int calls = 0;
      auto f = [&](auto& ...y) -> int& { calls++; got = {static_cast<void const*>(std::addressof(y))...}; return calls; };
      nbdl::detail::filter_empties_fn<decltype(f)> g{f};
      decltype(auto) r = std::as_const(g)(std::forward<X>(x)...);
      static_assert(std::is_same_v<decltype(r), int&>);
      s.check(&r == &calls, "the result of case ", id, " is a copy");
      s.equal(calls, 1, "calls of case ", id);
      s.check(got == want, "case ", id, " is called with ", got.size(), " of ", want.size(), " arguments, or others");
      auto sizes = [](auto& ...y) { return hana::tuple_c<std::size_t, sizeof(y)...>; };
      nbdl::detail::filter_empties_fn<decltype(sizes)> h{sizes};
      s.equal(hana::unpack(h(std::forward<X>(x)...), [](auto ...n) { return sizeof...(n); }), want.size(), "arguments of case ", id);
      if (want.size()) s.nontrivial();
    }

    // ---- views ----
    struct item { void const* at; std::string type; };
    template <typename T> static item one(std::reference_wrapper<T const> r) { return {std::addressof(r.get()), typeid(T).name()}; }
    template <typename T> static item one(T const&) { return {nullptr, typeid(T).name()}; }
    template <typename T> static std::string name() { return typeid(T).name(); }
    template <typename View> void view(View const& v, std::vector<item> const& want)
    {
      auto look = [&](auto const& w, char const* how)
      {
        std::vector<item> got;
        int calls = 0;
        hana::unpack(w, [&](auto const& ...x) { calls++; got = {one(x)...}; });
        s.equal(calls, 1, how, " of case ", id, " is shown");
        s.equal(got.size(), want.size(), how, " of case ", id, " size");
        for (std::size_t i = 0; i < want.size(); i++)
        {
          s.check(got[i].at == want[i].at, how, " of case ", id, " shows another object as parameter ", i);
          s.equal(got[i].type, want[i].type, how, " of case ", id, " parameter ", i);
        }
      };
      look(v, "a view");
      auto copy = v;
      look(copy, "a copied view");
      auto moved = std::move(copy);
      look(moved, "a moved view");
      if (want.size() > 1) s.nontrivial();
    }
  };
  template <int pos, int k> struct ge { bool operator()(int const& v) const { run::asked.push_back(pos); run::looked_at = &v; return v >= k; } };
  template <int pos, int k> struct mul { int operator()(int const& v) const { run::asked.push_back(pos); run::looked_at = &v; return v % k == 0 ? 2 : 0; } };
  struct never { constexpr hana::false_ operator()(int const&) const { return {}; } };
  struct always { constexpr hana::true_ operator()(int const&) const { return {}; } };

  using fn = void (*)(run&);
  std::vector<fn>& cases(int kind);
  struct add { add(int kind, fn f) { cases(kind).push_back(f); } };
  constexpr auto ap = nbdl::detail::params_view_append;
  constexpr auto co = nbdl::detail::params_view_concat;
  constexpr auto none = nbdl::detail::make_params_view;
}
using namespace sm;
#endif

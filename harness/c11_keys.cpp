// C11: the keys of a lookup reach the stores as they are, and stay with the caller
#include "vf.hpp"
#include <boost/hana.hpp>
#include <mpdef/list.hpp>
#include <nbdl/get.hpp>
#include <nbdl/get_path.hpp>
#include <nbdl/match.hpp>
#include <nbdl/match_path.hpp>
#include <nbdl/store_compose.hpp>
#include <nbdl/store_range.hpp>
#include <nbdl/variant.hpp>
#include <nbdl/context_store.hpp>
#include <nbdl/ext/std/unordered_map.hpp>
#include <functional>
#include <string>
#include <unordered_map>
#include <vector>

namespace hana = boost::hana;
namespace kk
{
  // a store that keeps each key it is asked for, and leads to the next one
  struct keeper { struct hana_tag { }; std::vector<std::string>* asked; int depth; };
  struct state { struct hana_tag { }; std::vector<std::string>* asked; int value; };
  struct side { }; struct row { };
  struct value { int n; };
}
namespace nbdl
{
  template <> struct match_impl<kk::keeper::hana_tag>
  {
    template <typename S, typename K, typename F> static void apply(S&& s, K&& k, F&& f)
    {
      std::string mine = std::forward<K>(k);
      s.asked->push_back(std::to_string(s.depth) + mine);
      // a visitor that is given away becomes the store's own
      if constexpr (!std::is_lvalue_reference_v<F>)
      {
        auto own = std::move(f);
        if (mine[0] == 'v') own(kk::value{s.depth});
        else own(kk::keeper{s.asked, s.depth + 1});
      }
      else if (mine[0] == 'v') std::forward<F>(f)(kk::value{s.depth});
      else std::forward<F>(f)(kk::keeper{s.asked, s.depth + 1});
    }
  };
  template <> struct get_impl<kk::state::hana_tag>
  {
    template <typename S> static kk::state apply(S&& s) { return s; }
    template <typename S, typename K> static auto apply(S&& s, K&& k)
    { std::string mine = std::forward<K>(k); s.asked->push_back(mine); return kk::state{s.asked, s.value + 1}; }
  };
}

VF_PROP(keys, 6000, 150000)
{
  using namespace kk;
  auto key = [&] { return std::string(s.chance(25) ? "v" : "k") + s.text_of("abc", 2) + (s.chance(60) ? std::string(40, 'x') : ""); };
  std::vector<std::string> asked, want;
  int reached = -1, calls = 0;
  // the visitor stays with the caller, too
  std::string const all_of_it(40, 'm');
  auto look = [&, mark = all_of_it]<typename T>(T const& t) { calls++; s.equal(mark, all_of_it, "what the visitor holds"); if constexpr (std::is_same_v<T, kk::value>) reached = t.n; else if constexpr (std::is_same_v<T, keeper>) reached = 100 + t.depth; else reached = -2; };
  keeper top{&asked, 0};
  std::string a = key(), b = key(), c = key();
  std::string const a0 = a, b0 = b, c0 = c;
  s.note(a, b, c);
  // through a path of three keys
  int want_reached = 103;
  if (a[0] == 'v') { want = {"0" + a}; want_reached = 0; }
  else if (b[0] == 'v') { want = {"0" + a, "1" + b}; want_reached = 1; }
  else { want = {"0" + a, "1" + b, "2" + c}; if (c[0] == 'v') want_reached = 2; }
  auto path = hana::make_tuple(a, b, c);
  auto const path0 = path;
  auto again = [&](char const* how, auto f)
  {
    asked.clear(); reached = -1; calls = 0;
    f();
    std::string x, y;
    for (auto& k : asked) x += k + " ";
    for (auto& k : want) y += k + " ";
    s.equal(x, y, how, ": the keys that stores are asked for");
    s.equal(calls, 1, how, ": visits");
    s.equal(reached, want_reached, how, ": what is reached");
    s.check(a == a0 && b == b0 && c == c0, how, ": a key of the caller has changed");
    s.check(path == path0, how, ": the path of the caller has changed");
  };
  for (int n = 0; n < 2; n++)
  {
    again("match_path", [&] { nbdl::match_path(top, path, look); });
    again("match_path of a const path", [&] { nbdl::match_path(std::as_const(top), path0, look); });
    again("match_path of a path that is given away", [&] { auto p = path; nbdl::match_path(top, std::move(p), look); });
    again("match_path of a wrapper", [&] { nbdl::match_path(std::ref(top), path, look); });
    again("match_path of a path of references", [&] { nbdl::match_path(top, hana::tuple<std::string const&, std::string const&, std::string const&>(a, b, c), look); });
    auto composed = nbdl::store_compose(side{}, 5, top);
    again("match_path of a composite", [&] { nbdl::match_path(composed, path, look); });
  }
  // one key
  want = {"0" + a}; want_reached = a[0] == 'v' ? 0 : 101;
  std::vector<int> xs{7};
  auto composed = nbdl::store_compose(side{}, 5, top);
  auto range = nbdl::store_range(row{}, xs, top);
  for (int n = 0; n < 2; n++)
  {
    again("match", [&] { nbdl::match(top, a, look); });
    again("match with a visitor that is given away", [&] { auto mine = look; nbdl::match(top, a, std::move(mine)); });
    again("match with a const key", [&] { nbdl::match(top, std::as_const(a), look); });
    again("match with a key that is given away", [&] { nbdl::match(top, std::string(a), look); });
    again("match of a wrapper", [&] { nbdl::match(std::ref(top), a, look); });
    again("match of a composite", [&] { nbdl::match(composed, a, look); });
    nbdl::variant<side, keeper> held(top);
    again("match of a variant", [&] { nbdl::match(held, a, look); });
    again("match of a const variant", [&] { nbdl::match(std::as_const(held), std::as_const(a), look); });
    auto both = nbdl::store_compose(side{}, 5, held);
    again("match of a composed variant", [&] { nbdl::match(both, a, look); });
    again("match in a row", [&] { auto itr = range.begin(); nbdl::match(itr, a, look); });
    if (want_reached == 0) again("match_when", [&] { nbdl::match_when<kk::value>(top, a, look); });
    else again("match_when", [&] { nbdl::match_when<keeper>(top, a, look); });
  }
  // the empty path
  want = {}; want_reached = 100;
  for (int n = 0; n < 2; n++)
  {

    again("the empty path of a wrapper", [&] { struct plain { keeper k; } v{top}; auto f = [&, mark = all_of_it](plain const& x) { calls++; reached = 100 + x.k.depth; s.equal(mark, all_of_it, "what the visitor holds"); };
                                               nbdl::match_path(v, hana::make_tuple(), f); calls--; nbdl::match_path(v, hana::make_tuple(), f); });
    auto held = nbdl::variant<side, keeper>(top);
    auto f = [&, mark = all_of_it]<typename T>(T const& x) { calls++; if constexpr (std::is_same_v<T, keeper>) reached = 100 + x.depth; s.equal(mark, all_of_it, "what the visitor holds"); };
    again("match_when of a variant", [&] { nbdl::match_when<keeper>(held, f); calls--; nbdl::match_when<keeper>(std::as_const(held), f); nbdl::match_when<side>(held, f); });
    again("the empty path of a variant", [&] { nbdl::match_path(held, hana::make_tuple(), f); calls--; nbdl::match_path(std::as_const(held), hana::make_tuple(), f); });
  }
  // states
  state st{&asked, 0};
  want = {a, b, c}; want_reached = 3;
  auto count = [&, mark = all_of_it](state const& x) { calls++; s.equal(mark, all_of_it, "what the visitor holds"); reached = x.value; };
  again("get_path", [&] { count(nbdl::get_path(st, path)); });
  again("get_path of a const path", [&] { count(nbdl::get_path(std::as_const(st), path0)); });
  again("match_path of a state", [&] { nbdl::match_path(st, path, count); });
  want = {a}; want_reached = 1;
  again("get", [&] { count(nbdl::get(st, a)); });
  again("get of a wrapper", [&] { count(nbdl::get(std::ref(st), a)); });
  again("match of a state", [&] { nbdl::match(st, a, count); });
  if (a0.size() > 10 || b0.size() > 10) s.nontrivial();
}

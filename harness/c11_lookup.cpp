// C11: looking up a path reaches exactly the addressed value
#include "vf.hpp"
#include "held.hpp"
#include <boost/hana.hpp>
#include <mpdef/list.hpp>
#include <nbdl/apply_action.hpp>
#include <nbdl/context_store.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/ext/std/unordered_map.hpp>
#include <nbdl/get.hpp>
#include <nbdl/get_path.hpp>
#include <nbdl/match.hpp>
#include <nbdl/match_path.hpp>
#include <nbdl/store_compose.hpp>
#include <nbdl/store_range.hpp>
#include <nbdl/strong_alias.hpp>
#include <nbdl/tags.hpp>
#include <nbdl/variant.hpp>
#include <list>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

namespace hana = boost::hana;
using namespace hana::literals;

namespace t
{
  // values are only ever reached, never copied: a copy knows that it is one
  struct text
  {
    std::string v;
    bool copy = false;
    text() = default;
    text(std::string x) : v(std::move(x)) { }
    text(text const& o) : v(o.v), copy(true) { }
    text(text&&) = default;
    text& operator=(text const&) = default;
    text& operator=(text&&) = default;
  };
  struct tag_a { int n; };
  struct tag_b { std::string s; };
  struct person { std::string first, last; int age; };
  using maybe_person = nbdl::optional<person>;
  // small and trivially copyable: nothing but its address tells a copy
  struct spot { int x, y; };
  using maybe_spot = nbdl::variant<spot, int, char>;
  using mixed = nbdl::variant<int, person, std::string>;
  struct team
  {
    person lead;
    std::unordered_map<int, person> members;
    maybe_person deputy;
    hana::tuple<tag_a, tag_b> tags;
  };
  struct world
  {
    person owner;
    team home;
    std::unordered_map<std::string, team> teams;
    std::unordered_map<int, mixed> bag;
    std::unordered_map<int, std::string> names;
    std::unordered_map<int, std::unordered_map<int, int>> grid;
    nbdl::optional<nbdl::optional<team>> deep;
    hana::pair<tag_b, person> duo;
    mixed any;
    std::vector<person> list;
    spot here;
    std::unordered_map<int, spot> spots;
    std::unordered_map<int, maybe_spot> maybes;
  };
}
namespace nbdl
{
  NBDL_ENTITY(t::person, first, last, age);
  NBDL_ENTITY(t::team, lead, members, deputy, tags);
  NBDL_ENTITY(t::world, owner, home, teams, bag, names, grid, deep, duo, any, list, here, spots, maybes);
  NBDL_ENTITY(t::spot, x, y);
}
using namespace t;

constexpr auto first_ = "first"_s; constexpr auto last_ = "last"_s; constexpr auto age_ = "age"_s;
constexpr auto lead_ = "lead"_s; constexpr auto members_ = "members"_s; constexpr auto deputy_ = "deputy"_s; constexpr auto tags_ = "tags"_s;
constexpr auto owner_ = "owner"_s; constexpr auto home_ = "home"_s; constexpr auto teams_ = "teams"_s; constexpr auto bag_ = "bag"_s;
constexpr auto names_ = "names"_s; constexpr auto grid_ = "grid"_s; constexpr auto deep_ = "deep"_s; constexpr auto duo_ = "duo"_s;
constexpr auto here_ = "here"_s; constexpr auto spots_ = "spots"_s; constexpr auto maybes_ = "maybes"_s; constexpr auto x_ = "x"_s; constexpr auto y_ = "y"_s;
constexpr auto any_ = "any"_s; constexpr auto list_ = "list"_s;

static std::string word(vf::Src& s) { return s.text_of("abc", 3) + (s.boolean() ? std::string(30, 'z') : ""); }
static person gen_person(vf::Src& s) { return {word(s), word(s), static_cast<int>(s.upto(99))}; }
static mixed gen_mixed(vf::Src& s)
{
  switch (s.choose(4))
  {
    case 0: return mixed(static_cast<int>(s.upto(9)));
    case 1: return mixed(gen_person(s));
    case 2: return mixed(word(s));
    default: return mixed();
  }
}
static spot gen_spot(vf::Src& s) { return {static_cast<int>(s.upto(3)), static_cast<int>(s.upto(3))}; }
static maybe_spot gen_maybe_spot(vf::Src& s)
{
  switch (s.choose(4))
  {
    case 0: return maybe_spot(static_cast<int>(s.upto(3)));
    case 1: return maybe_spot(static_cast<char>('a' + s.upto(3)));
    case 2: return maybe_spot();
    default: return maybe_spot(gen_spot(s));
  }
}
static team gen_team(vf::Src& s)
{
  team x{gen_person(s), {}, s.boolean() ? maybe_person(gen_person(s)) : maybe_person(), hana::make_tuple(tag_a{static_cast<int>(s.upto(9))}, tag_b{word(s)})};
  std::size_t n = s.upto(3);
  while (n--) x.members[static_cast<int>(s.upto(3))] = gen_person(s);
  return x;
}
static void gen_world(vf::Src& s, world& w)
{
  w.owner = gen_person(s);
  w.home = gen_team(s);
  std::size_t n = s.upto(2);
  while (n--) w.teams[s.text_of("ab", 1)] = gen_team(s);
  n = s.upto(3);
  while (n--) w.bag[static_cast<int>(s.upto(3))] = gen_mixed(s);
  n = s.upto(3);
  while (n--) w.names[static_cast<int>(s.upto(3))] = word(s);
  n = s.upto(3);
  while (n--) { auto& row = w.grid[static_cast<int>(s.upto(2))]; if (s.boolean()) row[static_cast<int>(s.upto(2))] = static_cast<int>(s.upto(99)); }
  if (s.boolean()) w.deep = s.boolean() ? nbdl::optional<team>(gen_team(s)) : nbdl::optional<team>();
  w.duo = hana::make_pair(tag_b{word(s)}, gen_person(s));
  w.any = gen_mixed(s);
  n = s.upto(3);
  while (n--) w.list.push_back(gen_person(s));
  w.here = gen_spot(s);
  n = s.upto(3);
  while (n--) w.spots[static_cast<int>(s.upto(3))] = gen_spot(s);
  n = s.upto(3);
  while (n--) w.maybes[static_cast<int>(s.upto(3))] = gen_maybe_spot(s);
}

// ---- what a visit showed -----------------------------------------------------
struct seen { int calls = 0; void const* at = nullptr; std::string type; bool is_const = false, is_lvalue = false; };
template <typename T> std::string type_text()
{
  std::string p = __PRETTY_FUNCTION__;
  return p.substr(p.find("T = ") + 4);
}
struct probe
{
  seen* out;
  // a wrapped reference stands for the object that it refers to
  template <typename X> void operator()(std::reference_wrapper<X> x) const { (*this)(x.get()); }
  template <typename X> void operator()(X&& x) const
  {
    out->calls++;
    out->at = std::addressof(x);
    out->type = type_text<std::decay_t<X>>();
    out->is_const = std::is_const_v<std::remove_reference_t<X>>;
    out->is_lvalue = std::is_lvalue_reference_v<X>;
  }
};

// what direct access gives: an object, or one of the values that say there is none
struct want { void const* at = nullptr; std::string type; };
template <typename T> want object(T const& x) { return {std::addressof(x), type_text<T>()}; }
template <typename T> want none() { return {nullptr, type_text<T>()}; }
static want of(maybe_spot const& m)
{
  want r;
  vf::visit_held<void>(m, [&](auto const& x) { r = object(x); });
  return r;
}
static want of(mixed const& m)
{
  want r;
  vf::visit_held<void>(m, [&](auto const& x) { r = object(x); });
  return r;
}
template <typename O> static want of(nbdl::detail::variant<nbdl::nothing, O> const& m)
{
  want r;
  vf::visit_held<void>(m, [&](auto const& x) { if constexpr (requires { x.get_type_id(); }) r = of(x); else r = object(x); });
  return r;
}

static void judge(vf::Src& s, seen const& got, want const& w, bool is_const, char const* how)
{
  s.equal(got.calls, 1, how, ": visits");
  s.equal(got.type, w.type, how, ": type of the value");
  if (w.at)
  {
    s.equal(got.at, w.at, how, ": the very object");
    s.check(got.is_lvalue, how, ": reached by reference");
    s.equal(got.is_const, is_const, how, ": constness");
  }
}

// one path through match_path (with and without wrapping) and, where it has one key, match
template <typename W, typename Path>
static void reach(vf::Src& s, W& w, Path const& path, want const& expected)
{
  constexpr bool is_const = std::is_const_v<W>;
  s.label(expected.at ? "object" : "none");
  {
    seen got;
    nbdl::match_path(w, path, probe{&got});
    judge(s, got, expected, is_const, "match_path");
  }
  {
    seen got;
    auto p = path;
    nbdl::match_path(std::ref(w), std::move(p), probe{&got});
    judge(s, got, expected, is_const, "match_path of a reference wrapper");
  }
  {
    // overloads: the first accepting is called
    seen got, other;
    nbdl::match_path(w, path, [&](nbdl::not_in_set const& x) { probe{&got}(x); }, probe{&got}, [&](auto&&...) { other.calls++; });
    s.equal(got.calls, 1, "match_path with overloads: visits");
    s.equal(other.calls, 0, "match_path with overloads: later ones");
    s.equal(got.type, expected.type, "match_path with overloads");
  }
  if constexpr (decltype(hana::length(path))::value == 1)
  {
    seen got;
    nbdl::match(w, hana::front(path), probe{&got});
    // match itself does not look into the value that it reaches
    s.equal(got.calls, 1, "match: visits");
  }
}
template <typename W, typename Path> static void both(vf::Src& s, W& w, Path const& path, want const& expected)
{
  s.note(expected.type);
  reach(s, w, path, expected);
  reach(s, static_cast<W const&>(w), path, expected);
}

template <typename P> static void person_paths(vf::Src& s, world& w, P const& parent, person const* p, want const& instead)
{
  switch (s.choose(4))
  {
    case 0: return both(s, w, hana::append(parent, first_), p ? object(p->first) : instead);
    case 1: return both(s, w, hana::append(parent, last_), p ? object(p->last) : instead);
    case 2: return both(s, w, hana::append(parent, age_), p ? object(p->age) : instead);
    default: return both(s, w, parent, p ? object(*p) : instead);
  }
}
static person const* held(maybe_person const& m) { return vf::held_if<person>(m); }
static person const* held(mixed const& m) { return vf::held_if<person>(m); }

template <typename P> static void team_paths(vf::Src& s, world& w, P const& parent, team const* x, want const& instead)
{
  switch (s.choose(7))
  {
    case 0: return person_paths(s, w, hana::append(parent, lead_), x ? &x->lead : nullptr, instead);
    case 1:
    {
      int k = static_cast<int>(s.upto(4));
      auto itr = x ? x->members.find(k) : decltype(x->members.end()){};
      bool there = x && itr != x->members.end();
      return person_paths(s, w, hana::append(hana::append(parent, members_), k), there ? &itr->second : nullptr, x ? none<nbdl::not_in_set>() : instead);
    }
    case 2: return person_paths(s, w, hana::append(parent, deputy_), x ? held(x->deputy) : nullptr, x ? of(x->deputy) : instead);
    case 3: return both(s, w, hana::append(hana::append(parent, tags_), hana::type_c<tag_a>), x ? object(hana::at_c<0>(x->tags)) : instead);
    case 4: return both(s, w, hana::append(hana::append(parent, tags_), hana::type_c<tag_b>), x ? object(hana::at_c<1>(x->tags)) : instead);
    case 5: return both(s, w, hana::append(parent, members_), x ? object(x->members) : instead);
    default: return both(s, w, parent, x ? object(*x) : instead);
  }
}

VF_PROP(paths, 9000, 300000)
{
  world w;
  gen_world(s, w);
  s.nontrivial();
  constexpr auto here = hana::make_tuple();
  auto spot_paths = [&](auto const& parent, spot const* p, want const& instead)
  {
    switch (s.choose(3))
    {
      case 0: return both(s, w, hana::append(parent, x_), p ? object(p->x) : instead);
      case 1: return both(s, w, hana::append(parent, y_), p ? object(p->y) : instead);
      default: return both(s, w, parent, p ? object(*p) : instead);
    }
  };
  switch (s.choose(14))
  {
    case 11: return spot_paths(hana::make_tuple(here_), &w.here, {});
    case 12:
    {
      int k = static_cast<int>(s.upto(4));
      auto itr = w.spots.find(k);
      return spot_paths(hana::make_tuple(spots_, k), itr == w.spots.end() ? nullptr : &itr->second, none<nbdl::not_in_set>());
    }
    case 13:
    {
      int k = static_cast<int>(s.upto(4));
      auto itr = w.maybes.find(k);
      if (itr == w.maybes.end()) return spot_paths(hana::make_tuple(maybes_, k), nullptr, none<nbdl::not_in_set>());
      return spot_paths(hana::make_tuple(maybes_, k), vf::held_if<spot>(static_cast<maybe_spot const&>(itr->second)), of(itr->second));
    }
    case 0: return person_paths(s, w, hana::make_tuple(owner_), &w.owner, {});
    case 1: return team_paths(s, w, hana::make_tuple(home_), &w.home, {});
    case 2:
    {
      std::string k = s.text_of("ab", 1);
      auto itr = w.teams.find(k);
      return team_paths(s, w, hana::make_tuple(teams_, k), itr == w.teams.end() ? nullptr : &itr->second, none<nbdl::not_in_set>());
    }
    case 3:
    {
      int k = static_cast<int>(s.upto(4));
      auto itr = w.bag.find(k);
      if (itr == w.bag.end()) return person_paths(s, w, hana::make_tuple(bag_, k), nullptr, none<nbdl::not_in_set>());
      return person_paths(s, w, hana::make_tuple(bag_, k), held(itr->second), of(itr->second));
    }
    case 4:
    {
      int k = static_cast<int>(s.upto(4));
      auto itr = w.names.find(k);
      return both(s, w, hana::make_tuple(names_, k), itr == w.names.end() ? none<nbdl::not_in_set>() : object(itr->second));
    }
    case 5:
    {
      int k = static_cast<int>(s.upto(3)), l = static_cast<int>(s.upto(3));
      auto row = w.grid.find(k);
      if (row == w.grid.end()) return both(s, w, hana::make_tuple(grid_, k, l), none<nbdl::not_in_set>());
      if (s.boolean()) return both(s, w, hana::make_tuple(grid_, k), object(row->second));
      auto cell = row->second.find(l);
      return both(s, w, hana::make_tuple(grid_, k, l), cell == row->second.end() ? none<nbdl::not_in_set>() : object(cell->second));
    }
    case 6:
    {
      want instead = of(w.deep);
      team const* x = nullptr;
      if (auto const* o = vf::held_if<nbdl::optional<team>>(static_cast<nbdl::optional<nbdl::optional<team>> const&>(w.deep))) x = vf::held_if<team>(*o);
      return team_paths(s, w, hana::make_tuple(deep_), x, instead);
    }
    case 7:
      if (s.boolean()) return both(s, w, hana::make_tuple(duo_, hana::first), object(hana::first(w.duo)));
      return person_paths(s, w, hana::make_tuple(duo_, hana::second), &hana::second(w.duo), {});
    case 8: return person_paths(s, w, hana::make_tuple(any_), held(w.any), of(w.any));
    case 9: return both(s, w, hana::make_tuple(list_), object(w.list));
    default: return both(s, w, here, object(w));
  }
}

// ---- get: the object itself, with its constness --------------------------------
template <typename T, typename R> static void is_object(vf::Src& s, R&& got, T& expected, char const* how)
{
  s.check(std::is_same_v<R, T&>, how, ": reference of the right constness");
  s.equal(static_cast<void const*>(std::addressof(got)), static_cast<void const*>(std::addressof(expected)), how, ": the very object");
}
VF_PROP(getting, 3000, 60000)
{
  world w;
  gen_world(s, w);
  s.nontrivial();
  world const& c = w;
  is_object<std::string>(s, nbdl::get(nbdl::get(w, owner_), first_), w.owner.first, "get");
  is_object<std::string const>(s, nbdl::get(nbdl::get(c, owner_), first_), c.owner.first, "get const");
  is_object<std::string>(s, nbdl::get_path(w, hana::make_tuple(home_, lead_, last_)), w.home.lead.last, "get_path");
  is_object<int const>(s, nbdl::get_path(c, hana::make_tuple(home_, lead_, age_)), c.home.lead.age, "get_path const");
  is_object<tag_b>(s, nbdl::get_path(w, hana::make_tuple(home_, tags_, hana::type_c<tag_b>)), hana::at_c<1>(w.home.tags), "get_path through a tuple");
  is_object<tag_a const>(s, nbdl::get_path(c, hana::make_tuple(home_, tags_, hana::type_c<tag_a>)), hana::at_c<0>(c.home.tags), "get_path through a const tuple");
  is_object<person>(s, nbdl::get(nbdl::get(w, duo_), hana::second), hana::second(w.duo), "get of a pair");
  is_object<tag_b const>(s, nbdl::get(nbdl::get(c, duo_), hana::first), hana::first(c.duo), "get of a const pair");
  is_object<int>(s, nbdl::get_path(std::ref(w), hana::make_tuple(owner_, age_)), w.owner.age, "get_path of a reference wrapper");
  is_object<int const>(s, nbdl::get_path(std::cref(w), hana::make_tuple(owner_, age_)), c.owner.age, "get_path of a const reference wrapper");
  is_object<world>(s, nbdl::get_path(w, hana::make_tuple()), w, "get_path of nothing");
  // members by name and by pointer are the same
  is_object<std::string>(s, nbdl::get_member<NBDL_MEMBER(&person::last)>(w.owner), w.owner.last, "get_member");
  is_object<std::string const>(s, nbdl::get_member<std::decay_t<decltype(last_)>>(c.owner), c.owner.last, "get_member by name");

  is_object<person>(s, nbdl::get(std::ref(w.owner)), w.owner, "get of a reference wrapper");
  is_object<person const>(s, nbdl::get(std::cref(w.owner)), c.owner, "get of a const reference wrapper");
  is_object<std::string>(s, nbdl::get(std::ref(w.owner), last_), w.owner.last, "get of a member of a reference wrapper");
  {
    // what a context holds is there for every path that leads to it
    auto kept = nbdl::make_store<nbdl::context_store<person>>(hana::type_c<void>, hana::type_c<void>);
    kept.store = w.owner;
    auto const& ckept = kept;
    auto id = hana::make_tuple(s.upto(9));
    is_object<person>(s, nbdl::get(kept, id), kept.store, "get of a kept entity");
    is_object<person const>(s, nbdl::get(ckept, id), kept.store, "get of a const kept entity");
    is_object<std::string>(s, nbdl::get_path(kept, hana::make_tuple(id, first_)), kept.store.first, "get_path into a kept entity");
    is_object<int const>(s, nbdl::get_path(ckept, hana::make_tuple(id, age_)), kept.store.age, "get_path into a const kept entity");
    int calls = 0;
    nbdl::match(kept, id, [&](auto&& x) { calls++; is_object<person>(s, x, kept.store, "match of a kept entity"); });
    nbdl::match(ckept, id, [&](auto&& x) { calls++; is_object<person const>(s, x, kept.store, "match of a const kept entity"); });
    nbdl::match_path(kept, hana::make_tuple(id, last_), [&](auto&& x) { calls++; is_object<std::string>(s, x, kept.store.last, "match_path into a kept entity"); });
    s.equal(calls, 3, "calls for a kept entity");
    s.equal(kept.store.first, w.owner.first, "a kept entity after it was got");
  }

  // a member of what is given away is given away
  s.check(std::is_same_v<decltype(nbdl::get(std::move(w.owner), last_)), std::string&&>, "get of an rvalue");
  s.check(std::is_same_v<decltype(nbdl::get_member<NBDL_MEMBER(&person::last)>(std::move(w.owner))), std::string&&>, "get_member of an rvalue");
  s.check(std::is_same_v<decltype(nbdl::get_member<std::decay_t<decltype(last_)>>(std::move(w.owner))), std::string&&>, "get_member of an rvalue by name");

  auto map = hana::make_map(hana::make_pair(hana::type_c<tag_a>, tag_a{1}), hana::make_pair("in"_s, hana::make_map(hana::make_pair(first_, text(word(s))), hana::make_pair(hana::int_c<3>, 5))));
  auto const& cmap = map;
  is_object<text>(s, nbdl::get_path(map, hana::make_tuple("in"_s, first_)), map["in"_s][first_], "get_path through maps");
  is_object<text const>(s, nbdl::get_path(cmap, hana::make_tuple("in"_s, first_)), cmap["in"_s][first_], "get_path through const maps");
  is_object<int>(s, nbdl::get_path(map, hana::make_tuple("in"_s, hana::int_c<3>)), map["in"_s][hana::int_c<3>], "get_path through maps by number");
  is_object<tag_a>(s, nbdl::get(map, hana::type_c<tag_a>), map[hana::type_c<tag_a>], "get of a map by type");
}

// ---- composed stores -----------------------------------------------------------
struct k1 { }; struct k2 { }; struct k3 { };
VF_PROP(composed, 4000, 100000)
{
  s.nontrivial();
  person base = gen_person(s);
  std::string v1 = word(s);
  person v2 = gen_person(s);
  mixed v3 = gen_mixed(s);
  std::unordered_map<int, std::string> v4;
  std::size_t n = s.upto(3);
  while (n--) v4[static_cast<int>(s.upto(2))] = word(s);
  int shadowed = 1, top = 2;

  auto store = nbdl::store_compose(k1{}, v1, nbdl::store_compose(k2{}, std::ref(v2), nbdl::store_compose(k3{}, v3,
               nbdl::store_compose(first_, v4, base))));
  auto& L1 = store.left; auto& L2 = L1.left; auto& L3 = L2.left;
  using S = decltype(store);

  // every key of every layer, of a mutable and of a const store
  auto all = [&]<typename C>(C& c)
  {
    constexpr bool k = std::is_const_v<C>;
    auto at = [&](auto key, want const& w, bool is_const, char const* how)
    {
      seen got, again;
      nbdl::match(c, key, probe{&got});
      judge(s, got, w, is_const, how);
      nbdl::match_path(c, hana::make_tuple(key), probe{&again});
      judge(s, again, w, is_const, how);
    };
    at(k1{}, object(store.right), k, "outermost key");
    at(k2{}, object(v2), false, "key of a referenced value");
    at(k3{}, of(L2.right), k, "key of a variant");
    at(first_, object(L3.right), k, "key that hides the key of the base");
    at(last_, object(L3.left.last), k, "key of the base");
    at(age_, object(L3.left.age), k, "another key of the base");
    // deeper than one key
    int key = static_cast<int>(s.upto(3));
    seen got;
    nbdl::match_path(c, hana::make_tuple(first_, key), probe{&got});
    auto itr = L3.right.find(key);
    judge(s, got, itr == L3.right.end() ? none<nbdl::not_in_set>() : object(itr->second), k, "path through a composed map");
    seen deeper;
    nbdl::match_path(c, hana::make_tuple(k2{}, last_), probe{&deeper});
    judge(s, deeper, object(v2.last), false, "path through a referenced value");
    seen alt;
    person const* p = held(L2.right);
    nbdl::match_path(c, hana::make_tuple(k3{}, age_), probe{&alt});
    judge(s, alt, p ? object(p->age) : of(L2.right), k, "path through a variant");
  };
  all(store);
  all(static_cast<S const&>(store));

  // composing with a key that is there already shows the later value, and the earlier one is kept
  auto twice = nbdl::store_compose(k1{}, top, nbdl::store_compose(k1{}, shadowed, base));
  seen got;
  nbdl::match(twice, k1{}, probe{&got});
  judge(s, got, object(twice.right), false, "the later value of a key");
  s.equal(twice.left.right, shadowed, "the hidden value");
  // composing copied the values: the originals are not shown
  s.check(static_cast<void const*>(&store.right) != static_cast<void const*>(&v1), "a composed value is a copy unless it is referenced");
}

// keys that convert to, derive from or equal one another are different keys all the same
struct ka { }; struct kb : ka { }; struct kc : kb { operator k1() const { return {}; } };
static bool same(spot const& a, spot const& b) { return a.x == b.x && a.y == b.y; }
template <typename T> bool same(T const& a, T const& b) { return a == b; }
template <typename T, typename U> bool same(T const&, U const&) { return false; }
VF_PROP(related_keys, 1500, 40000)
{
  s.nontrivial();
  auto map = hana::make_map(hana::make_pair(hana::int_c<9>, gen_spot(s)));
  int a = static_cast<int>(s.upto(9));
  spot b = gen_spot(s);
  maybe_spot c = gen_maybe_spot(s);
  std::string d = word(s);
  long e = static_cast<long>(s.upto(9));
  char f = 'f';
  auto store = nbdl::store_compose(ka{}, a, nbdl::store_compose(k1{}, d, nbdl::store_compose(kb{}, b, nbdl::store_compose(kc{}, c,
               nbdl::store_compose(hana::int_c<1>, e, nbdl::store_compose(hana::long_c<1>, f, map))))));
  auto all = [&](auto& x)
  {
    constexpr bool k = std::is_const_v<std::remove_reference_t<decltype(x)>>;
    auto at = [&](auto key, auto const& value, char const* how)
    {
      int calls = 0;
      nbdl::match(x, key, [&](auto& v)
      {
        calls++;
        s.check(std::is_const_v<std::remove_reference_t<decltype(v)>> == k, how, ": constness");
        s.check(same(v, value), how, ": value");
        auto const* p = reinterpret_cast<char const*>(std::addressof(v));
        s.check(p >= reinterpret_cast<char const*>(&x) && p < reinterpret_cast<char const*>(&x + 1), how, ": the object in the store");
      });
      s.equal(calls, 1, how, ": visits");
    };
    at(ka{}, a, "base key");
    at(kb{}, b, "derived key");
    at(k1{}, d, "key that another converts to");
    at(hana::int_c<1>, e, "number");
    at(hana::long_c<1>, f, "equal number of another type");
    at(hana::int_c<9>, map[hana::int_c<9>], "key of the store below");
    seen got;
    nbdl::match(x, kc{}, probe{&got});
    auto const& held = store.left.left.left.right;
    judge(s, got, of(held), k, "key that derives from and converts to others");
  };
  all(store);
  all(static_cast<decltype(store) const&>(store));
}

// actions on a composed store change exactly the addressed value
VF_PROP(composed_actions, 4000, 100000)
{
  std::string r2 = word(s);
  auto map = hana::make_map(hana::make_pair("base"_s, word(s)));
  auto store = nbdl::store_compose(k1{}, word(s), nbdl::store_compose(k2{}, std::ref(r2), nbdl::store_compose(k3{}, nbdl::variant<int, std::string>(word(s)), map)));
  std::string m1 = store.right, m2 = r2, m3, m4 = map["base"_s];
  store.left.left.right.match([&](std::string const& x) { m3 = x; }, nbdl::noop);
  std::string const outside = m4;
  std::size_t steps = 1 + s.size(8);
  s.nontrivial(steps > 1);
  auto grow = [](std::string const& t) { return [t](auto& x) { x += t; }; };
  while (steps--)
  {
    std::string t = s.text_of("xyz", 2);
    switch (s.choose(7))
    {
      case 0: s.note("k1+", t); nbdl::apply_action(store, nbdl::store_composite_action(k1{}, grow(t))); m1 += t; break;
      case 1: s.note("k2+", t); nbdl::apply_action(store, nbdl::store_composite_action(k2{}, grow(t))); m2 += t; break;
      case 2: s.note("k1=", t); nbdl::apply_action(store, nbdl::store_composite_action(k1{}, t)); m1 = t; break;
      case 3: s.note("k2=", t); nbdl::apply_action(store, nbdl::store_composite_action(k2{}, [t](std::string& x) { x = t; })); m2 = t; break;
      case 4: s.note("k3=", t); nbdl::apply_action(store, nbdl::store_composite_action(k3{}, t)); m3 = t; break;
      case 5: s.note("base+", t); nbdl::apply_action(store, [&](auto& x) { x["base"_s] += t; }); m4 += t; break;
      default: { s.note("k3 number"); int n = static_cast<int>(s.upto(9)); nbdl::apply_action(store, nbdl::store_composite_action(k3{}, n)); m3 = "#" + std::to_string(n); break; }
    }
    int calls = 0;
    nbdl::match(store, k1{}, [&](auto const& x) { calls++; s.equal(x, m1, "value of k1"); });
    nbdl::match(store, k2{}, [&](std::string const& x) { calls++; s.equal(x, m2, "value of k2"); });
    nbdl::match(store, k3{}, hana::overload_linearly([&](std::string const& x) { calls++; s.equal(x, m3, "value of k3"); }, [&](int x) { calls++; s.equal("#" + std::to_string(x), m3, "value of k3"); }, nbdl::noop));
    nbdl::match(store, "base"_s, [&](auto const& x) { calls++; s.equal(x, m4, "value of the base"); });
    s.equal(calls, 4, "visits");
    s.equal(r2, m2, "a referenced value is changed in place");
    s.equal(map["base"_s], outside, "the store that was composed is a copy");
  }
}

// ---- ranges --------------------------------------------------------------------
struct item_key { };
VF_PROP(ranges, 4000, 100000)
{
  person base = gen_person(s);
  std::vector<person> xs;
  std::list<mixed> ys;
  std::size_t n = s.upto(6);
  while (n--) xs.push_back(gen_person(s));
  n = s.upto(6);
  while (n--) ys.push_back(gen_mixed(s));
  s.nontrivial(xs.size() + ys.size() > 1);
  s.note(xs.size(), ys.size());
  {
    auto range = nbdl::store_range(item_key{}, xs, std::ref(base));
    std::size_t i = 0;
    for (auto& it : range)
    {
      s.check(i < xs.size(), "no more elements than there are");
      seen got, rest, deep;
      nbdl::match(it, item_key{}, probe{&got});
      judge(s, got, object(xs[i]), false, "element of a range");
      nbdl::match_path(it, hana::make_tuple(item_key{}, last_), probe{&deep});
      judge(s, deep, object(xs[i].last), false, "path into an element");
      nbdl::match(it, last_, probe{&rest});
      judge(s, rest, object(base.last), false, "the store around the range");
      // an action changes the element, and nothing else
      if (s.chance(30))
      {
        auto before = xs[i].first;
        nbdl::apply_action(it, nbdl::store_iterator_action<person>{person{before + "!", "x", 5}});
        s.equal(xs[i].first, before + "!", "an action on an element");
      }
      i++;
    }
    s.equal(i, xs.size(), "every element is visited");
    auto const again = nbdl::store_range(item_key{}, xs, base);
    i = 0;
    for (auto it = again.begin(); it != again.end(); ++it)
    {
      seen got, rest;
      nbdl::match(*it, item_key{}, probe{&got});
      judge(s, got, object(xs[i]), false, "element of a const range");
      nbdl::match(*it, age_, [&](int x) { rest.calls++; s.equal(x, base.age, "the copied store around the range"); });
      s.equal(rest.calls, 1, "visits");
      s.check(!(it == again.end()), "an element is not the end");
      i++;
    }
    s.equal(i, xs.size(), "every element is visited again");
  }
  {
    auto range = nbdl::store_range(item_key{}, ys, std::ref(base));
    auto itr = ys.begin();
    for (auto& it : range)
    {
      s.check(itr != ys.end(), "no more elements than there are");
      seen got;
      nbdl::match(it, item_key{}, probe{&got});
      judge(s, got, of(*itr), false, "element of a range of variants");
      ++itr;
    }
    s.check(itr == ys.end(), "every variant is visited");
  }
  auto small = [&](auto& zs, auto expected)
  {
    using Z = std::remove_reference_t<decltype(zs)>;
    auto range = nbdl::store_range(item_key{}, zs, std::ref(base));
    auto itr = zs.begin();
    for (auto& it : range)
    {
      s.check(itr != zs.end(), "no more elements than there are");
      seen got, x;
      nbdl::match(it, item_key{}, probe{&got});
      judge(s, got, expected(*itr), std::is_const_v<Z>, "small element of a range");
      nbdl::match_path(it, hana::make_tuple(item_key{}, y_), probe{&x});
      spot const* p = nullptr;
      if constexpr (std::is_same_v<std::decay_t<decltype(*itr)>, spot>) p = &*itr;
      else p = vf::held_if<spot>(static_cast<maybe_spot const&>(*itr));
      judge(s, x, p ? object(p->y) : expected(*itr), std::is_const_v<Z>, "member of a small element of a range");
      ++itr;
    }
    s.check(itr == zs.end(), "every small element is visited");
  };
  {
    std::vector<spot> zs;
    std::list<maybe_spot> ms;
    n = s.upto(4);
    while (n--) zs.push_back(gen_spot(s)), ms.push_back(gen_maybe_spot(s));
    auto whole = [](spot const& x) { return object(x); };
    auto held_in = [](maybe_spot const& x) { return of(x); };
    small(zs, whole);
    small(ms, held_in);
    small(static_cast<std::vector<spot> const&>(zs), whole);
    small(static_cast<std::list<maybe_spot> const&>(ms), held_in);
  }
  {
    // const containers
    std::vector<person> const& cx = xs;
    auto range = nbdl::store_range(item_key{}, cx, std::cref(base));
    std::size_t i = 0;
    for (auto& it : range)
    {
      seen got, rest;
      nbdl::match(it, item_key{}, probe{&got});
      judge(s, got, object(xs[i++]), true, "element of a range of a const container");
      nbdl::match(it, first_, probe{&rest});
      judge(s, rest, object(base.first), true, "a const store around the range");
    }
    s.equal(i, xs.size(), "every element is visited");
  }
}

// ---- aliases -------------------------------------------------------------------
using alias_map = nbdl::strong_alias<std::unordered_map<int, std::string>>;
using alias_person = nbdl::strong_alias<person>;
VF_PROP(aliases, 2000, 40000)
{
  s.nontrivial();
  std::unordered_map<int, std::string> m;
  std::size_t n = s.upto(3);
  while (n--) m[static_cast<int>(s.upto(2))] = word(s);
  alias_map a(m);
  auto& in = a.nbdl_get_strong_alias_value();
  int k = static_cast<int>(s.upto(3));
  auto itr = in.find(k);
  seen got;
  nbdl::match(a, k, probe{&got});
  judge(s, got, itr == in.end() ? none<nbdl::not_in_set>() : object(itr->second), false, "key of an aliased map");
  alias_map const& ca = a;
  seen cgot;
  nbdl::match(ca, k, probe{&cgot});
  judge(s, cgot, itr == in.end() ? none<nbdl::not_in_set>() : object(itr->second), true, "key of a const aliased map");
  seen path;
  nbdl::match_path(a, hana::make_tuple(k), probe{&path});
  judge(s, path, itr == in.end() ? none<nbdl::not_in_set>() : object(itr->second), false, "path of an aliased map");

  alias_person p(gen_person(s));
  auto& pin = p.nbdl_get_strong_alias_value();
  is_object<std::string>(s, nbdl::get(p, last_), pin.last, "get of an aliased entity");
  seen member;
  nbdl::match(p, age_, probe{&member});
  judge(s, member, object(pin.age), false, "member of an aliased entity");
  alias_person const& cp = p;
  is_object<std::string const>(s, nbdl::get(cp, first_), pin.first, "get of a const aliased entity");
  is_object<alias_person>(s, nbdl::get(p), p, "get of an alias by itself");
  is_object<int>(s, nbdl::get_path(p, hana::make_tuple(age_)), pin.age, "get_path into an aliased entity");

  // an alias of one of several is matched as that one
  using alias_either = nbdl::strong_alias<nbdl::variant<person, std::string>>;
  alias_either either{nbdl::variant<person, std::string>(pin.last)};
  bool const other_one = s.boolean();
  if (other_one) either.nbdl_get_strong_alias_value() = nbdl::variant<person, std::string>(pin);
  int seen_as = 0;
  void const* where = nullptr;
  auto look = [&](auto&& x)
  {
    using X = std::decay_t<decltype(x)>;
    seen_as += std::is_same_v<X, std::string> ? 1 : std::is_same_v<X, person> ? 2 : 100;
    where = &x;
  };
  void const* there = nullptr;
  nbdl::match(either.nbdl_get_strong_alias_value(), [&](auto&& x) { there = &x; });
  nbdl::match(either, look);
  s.check(where == there, "the alternative of an alias is another object");
  nbdl::match(std::as_const(either), look);
  s.check(where == there, "the alternative of a const alias is another object");
  s.equal(seen_as, other_one ? 4 : 2, "the alternative of an alias");

  // a copy of an alias is another store, and what is moved from one is in the other
  alias_map b(a);
  auto& bin = b.nbdl_get_strong_alias_value();
  auto before = in;
  bin[k] = "changed " + word(s);
  s.check(in == before, "an alias changed with its copy");
  s.check(bin.at(k) != (before.count(k) ? before.at(k) : std::string()), "the copy of an alias kept what it was given");
  auto now = bin;
  alias_map c(std::move(b));
  s.check(c.nbdl_get_strong_alias_value() == now, "what is moved is not what was there");
  alias_map const d(ca);
  s.check(d.nbdl_get_strong_alias_value() == before, "the copy of a const alias");
  alias_map const e(in.begin(), in.end());
  s.check(e.nbdl_get_strong_alias_value() == before, "an alias made of a range");
  // what a context stands for is one store
  using in_t = std::unordered_map<int, std::string>;
  nbdl::context_alias<in_t> ctx(before);
  nbdl::context_alias<in_t, false> fixed(before.begin(), before.end());
  s.check(!std::is_copy_constructible_v<decltype(fixed)> && !std::is_move_constructible_v<decltype(fixed)>, "a context that may not be moved is moved");
  auto& held = fixed.nbdl_get_context_alias_value();
  held[k] += "more";
  is_object<in_t const>(s, std::as_const(fixed).nbdl_get_context_alias_value(), held, "the store of a const context");
  seen in_ctx;
  nbdl::match(fixed.nbdl_get_context_alias_value(), k, probe{&in_ctx});
  judge(s, in_ctx, object(held.at(k)), false, "key of the store of a context");
  auto other = ctx;
  other.nbdl_get_context_alias_value()[k] += "more";
  s.check(ctx.nbdl_get_context_alias_value() == before && other.nbdl_get_context_alias_value() == held, "the stores of a context and of its copy");
  nbdl::strong_alias<std::string> t(k, 'x');
  s.equal(t.nbdl_get_strong_alias_value(), std::string(k, 'x'), "an alias made of two arguments");
  t = pin.first.c_str();
  s.equal(t.nbdl_get_strong_alias_value(), pin.first, "an alias that is assigned to");
}

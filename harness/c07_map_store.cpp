#include "vf.hpp"
#include <boost/hana.hpp>
#include <nbdl/map_store.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/match.hpp>
#include <nbdl/apply_message.hpp>
#include <map>
#include <optional>
#include <string>
#include <vector>

namespace hana = boost::hana;
namespace message = nbdl::message;

namespace ms
{
  struct key1 { int value; };
  struct key2 { std::string value; };
  struct item { int n; std::string text; };
  struct fake_uid { int value; };
}
namespace nbdl
{
  NBDL_ENTITY(ms::key1, value);
  NBDL_ENTITY(ms::key2, value);
  NBDL_ENTITY(ms::item, n, text);
  NBDL_ENTITY(ms::fake_uid, value);
}

namespace ms
{
  std::string show(item const& x) { return "item:" + std::to_string(x.n) + ":" + x.text; }
  std::string show(std::string const& x) { return "text:" + x; }
  std::string show(int x) { return "int:" + std::to_string(x); }

  template <typename T> T make(vf::Src& s);
  template <> item make<item>(vf::Src& s) { return {static_cast<int>(s.choose(4)), s.text_of("ab", 2)}; }
  template <> std::string make<std::string>(vf::Src& s) { return s.text_of("ab", 3); }
  template <> int make<int>(vf::Src& s) { return static_cast<int>(s.choose(5)); }

  struct pair_key
  {
    using type = hana::tuple<key1, key2>;
    static type gen(vf::Src& s) { return type(key1{static_cast<int>(s.choose(3))}, key2{s.text_of("xy", 2)}); }
    static std::string show(type const& k) { return std::to_string(hana::at_c<0>(k).value) + "/" + hana::at_c<1>(k).value; }
    static auto create_path(type const& k) { return message::make_create_path<key2>(hana::make_tuple(hana::at_c<0>(k))); }
  };
  struct entity_key
  {
    using type = hana::tuple<key1>;
    static type gen(vf::Src& s) { return type(key1{static_cast<int>(s.choose(4)) - 1}); }
    static std::string show(type const& k) { return std::to_string(hana::at_c<0>(k).value); }
    static auto create_path(type const&) { return message::make_create_path<key1>(hana::make_tuple()); }
  };
  struct int_key
  {
    using type = int;
    static type gen(vf::Src& s) { return static_cast<int>(s.choose(4)); }
    static std::string show(type k) { return std::to_string(k); }
    static auto create_path(type) { return message::make_create_path<int>(hana::make_tuple()); }
  };

  enum { absent_by_tag = 0 };

  // what a look-up shows, as text; the visitor must run exactly once
  template <typename Store, typename K>
  std::string look(vf::Src& s, Store& st, K const& k)
  {
    int calls = 0;
    std::string r;
    nbdl::match(st, k, [&](auto const& v)
    {
      using V = std::decay_t<decltype(v)>;
      calls++;
      if constexpr (std::is_same_v<V, nbdl::not_in_set> || std::is_same_v<V, nbdl::trigger_read>) r = "absent";
      else if constexpr (std::is_same_v<V, nbdl::unresolved>) r = "unresolved";
      else if constexpr (std::is_same_v<V, nbdl::not_found>) r = "not found";
      else r = ms::show(v);
    });
    s.equal(calls, 1, "visitor calls");
    return r;
  }

  template <typename Key, typename Store, typename Value, bool Holds_tags>
  void history(vf::Src& s)
  {
    using K = typename Key::type;
    Store st{};
    std::map<std::string, std::string> model;
    std::map<std::string, K> keys;
    std::size_t n = 1 + s.size(30);
    std::size_t changes = 0;
    for (std::size_t i = 0; i < n; i++)
    {
      K k = Key::gen(s);
      std::string ks = Key::show(k);
      keys.emplace(ks, k);
      auto before = model.count(ks) ? model[ks] : std::string("absent");
      auto want = before;
      bool reported = false;
      bool must_report_false = false;
      auto set = [&](std::string v) { model[ks] = v; want = v; };
      auto with_uid = [&](auto&& f) { if (s.boolean()) f(message::no_uid); else f(fake_uid{static_cast<int>(i)}); };
      switch (s.choose(9))
      {
        case 0: // requests change nothing until they are answered
        {
          Value v = make<Value>(s);
          s.note("up-update", ks, ms::show(v));
          with_uid([&](auto u) { reported = nbdl::apply_message(st, message::make_upstream_update(k, u, v)); });
          must_report_false = true;
          break;
        }
        case 1:
          s.note("up-delete", ks);
          with_uid([&](auto u) { reported = nbdl::apply_message(st, message::make_upstream_delete(k, u)); });
          must_report_false = true;
          break;
        case 2:
        {
          Value v = make<Value>(s);
          s.note("up-create", ks);
          with_uid([&](auto u) { reported = nbdl::apply_message(st, message::make_upstream_create(Key::create_path(k), u, v)); });
          must_report_false = true;
          break;
        }
        case 3:
          if constexpr (Holds_tags)
          {
            s.note("up-read", ks);
            with_uid([&](auto u) { reported = nbdl::apply_message(st, message::make_upstream_read(k, u)); });
            if (before == "absent") set("unresolved");
            must_report_false = true;
          }
          break;
        case 4:
        {
          Value v = make<Value>(s);
          s.note("down-create", ks, ms::show(v));
          with_uid([&](auto u) { reported = nbdl::apply_message(st, message::make_downstream_create(k, u, v, s.boolean())); });
          set(ms::show(v));
          break;
        }
        case 5:
        {
          Value v = make<Value>(s);
          s.note("down-update", ks, ms::show(v));
          bool confirmed = s.boolean();
          with_uid([&](auto u)
          {
            if (s.boolean()) reported = nbdl::apply_message(st, message::make_downstream_update(k, u, v, hana::true_c));
            else reported = nbdl::apply_message(st, message::make_downstream_update(k, u, v, confirmed));
          });
          set(ms::show(v));
          break;
        }
        case 6:
          if constexpr (Holds_tags)
          {
            if (s.chance(30))
            {
              s.note("down-read", ks, "not found");
              with_uid([&](auto u) { reported = nbdl::apply_message(st, message::make_downstream_read(k, u, nbdl::not_found{})); });
              if (before == "absent" || before == "unresolved") set("not found");
            }
            else
            {
              Value v = make<Value>(s);
              s.note("down-read", ks, ms::show(v));
              with_uid([&](auto u) { reported = nbdl::apply_message(st, message::make_downstream_read(k, u, v)); });
              if (before == "absent" || before == "unresolved") set(ms::show(v));
            }
            if (want == before) must_report_false = true;
          }
          break;
        case 7:
          s.note("down-delete", ks);
          with_uid([&](auto u)
          {
            if (s.boolean()) reported = nbdl::apply_message(st, message::make_downstream_delete(k, u, hana::true_c));
            else reported = nbdl::apply_message(st, message::make_downstream_delete(k, u, s.boolean()));
          });
          model.erase(ks);
          want = "absent";
          break;
        default:
        {
          // a copy is independent
          Store copy = st;
          Value v = make<Value>(s);
          nbdl::apply_message(copy, message::make_downstream_update(k, message::no_uid, v, true));
          s.equal(look(s, copy, k), ms::show(v), "copied store");
          must_report_false = true;
          break;
        }
      }
      bool changed = want != before && !(before == "absent" && want == "unresolved");
      if (changed) { changes++; s.check(reported, "key ", ks, " went from ", before, " to ", want, " but no change was reported"); }
      if (must_report_false) s.check(!reported, "a change of key ", ks, " was reported, it shows ", before, " as before");
      s.equal(look(s, st, k), want, "value at " + ks);
      for (auto const& [os, ok] : keys)
        s.equal(look(s, st, ok), model.count(os) ? model[os] : std::string("absent"), "value at " + os + " after a message for " + ks);
      s.equal(st.map.size(), model.size(), "number of held keys");
      // the typed look-up agrees
      int hit = 0;
      nbdl::match_when<Value>(st, k, [&](Value const& v) { hit++; s.equal(ms::show(v), want, "typed look-up"); });
      s.equal(hit, (want == "absent" || want == "unresolved" || want == "not found") ? 0 : 1, "typed look-up calls");
      Store const& cst = st;
      (void)cst;
    }
    s.nontrivial(changes >= 2);
    if (model.size() >= 3) s.label("three or more keys");
  }
}

VF_PROP(pair_keys, 15000, 400000)
{ using namespace ms; history<pair_key, nbdl::map_store<pair_key::type, item>, item, true>(s); }
VF_PROP(entity_keys, 12000, 300000)
{ using namespace ms; history<entity_key, nbdl::map_store<entity_key::type, std::string>, std::string, true>(s); }
VF_PROP(int_keys, 12000, 300000)
{ using namespace ms; history<int_key, nbdl::map_store<int, std::string>, std::string, true>(s); }
VF_PROP(plain_values, 12000, 300000)
{ using namespace ms; history<int_key, nbdl::basic_map_store<int, int>, int, false>(s); }
VF_PROP(plain_entities, 12000, 300000)
{ using namespace ms; history<pair_key, nbdl::basic_map_store<pair_key::type, item>, item, false>(s); }

// the tag that stands for "not here" is the one the store was declared with
VF_PROP(absent_tag, 200, 2000)
{
  using namespace ms;
  nbdl::map_store<int, int> st{};
  nbdl::basic_map_store<int, int> plain{};
  int k = static_cast<int>(s.choose(5)), other = k + 1 + static_cast<int>(s.choose(5));
  s.nontrivial();
  nbdl::apply_message(plain, message::make_downstream_update(other, message::no_uid, 1, true));
  nbdl::apply_message(st, message::make_downstream_update(other, message::no_uid, 1, true));
  bool not_in_set = false, trigger = false;
  nbdl::match(plain, k, [&](auto const& v) { not_in_set = std::is_same_v<std::decay_t<decltype(v)>, nbdl::not_in_set>; });
  s.check(not_in_set, "a plain map store shows not_in_set for a key it does not hold");
  nbdl::match(st, k, [&](auto const& v) { trigger = std::is_same_v<std::decay_t<decltype(v)>, nbdl::trigger_read>; });
  s.check_known("absent-tag", trigger, "map_store is declared to show trigger_read for a key it does not hold, but shows something else");
}

// many keys, through any number of rehashes
VF_PROP(many_keys, 120, 4000)
{
  using namespace ms;
  std::size_t n = s.choose(3) ? 30 + s.upto(200) : 300 + s.upto(3000);
  int stride = s.pick({1, 2, 64, 97, 1024, 65536, -1});
  std::uint64_t g = 1 + s.choose(1u << 16);
  auto rnd = [&](std::uint64_t m) { g = g * 6364136223846793005ull + 1442695040888963407ull; return (g >> 33) % m; };
  s.note("steps", n, "stride", stride);
  s.nontrivial();
  nbdl::map_store<int, std::string> st{};
  std::map<int, std::string> model;
  std::size_t range = 1 + n / 2;
  auto shown = [&](int k)
  {
    std::string r = "?";
    nbdl::match(st, k, [&](auto const& v)
    {
      if constexpr (std::is_same_v<std::decay_t<decltype(v)>, std::string>) r = "=" + v;
      else if constexpr (std::is_same_v<std::decay_t<decltype(v)>, nbdl::unresolved>) r = "unresolved";
      else if constexpr (std::is_same_v<std::decay_t<decltype(v)>, nbdl::not_found>) r = "not found";
      else r = "absent";
    });
    return r;
  };
  auto expected = [&](int k) { auto i = model.find(k); return i == model.end() ? std::string("absent") : i->second; };
  for (std::size_t i = 0; i < n; i++)
  {
    int k = static_cast<int>(rnd(range)) * stride;
    std::string v = std::to_string(rnd(1000)) + (rnd(3) ? "" : std::string(40, 'v'));
    std::string before = expected(k);
    bool r = false;
    switch (rnd(8))
    {
      case 0: r = nbdl::apply_message(st, message::make_downstream_delete(k, message::no_uid, true)); model.erase(k); break;
      case 1: nbdl::apply_message(st, message::make_upstream_read(k, message::no_uid)); if (before == "absent") model[k] = "unresolved"; break;
      case 2:
        r = nbdl::apply_message(st, message::make_downstream_read(k, message::no_uid, v));
        if (before == "absent" || before == "unresolved") model[k] = "=" + v;
        break;
      default: r = nbdl::apply_message(st, message::make_downstream_update(k, message::no_uid, v, true)); model[k] = "=" + v;
    }
    if (before != expected(k) && expected(k) != "unresolved") s.check(r, "key ", k, " went from ", before, " to ", expected(k), " but no change was reported");
    s.equal(shown(k), expected(k), "value at " + std::to_string(k));
    int other = static_cast<int>(rnd(range)) * stride;
    s.equal(shown(other), expected(other), "value at another key");
  }
  s.equal(st.map.size(), model.size(), "number of held keys");
  for (std::size_t i = 0; i < range; i++) s.equal(shown(static_cast<int>(i) * stride), expected(static_cast<int>(i) * stride), "value at the end");
  auto copy = st;
  nbdl::apply_message(copy, message::make_downstream_update(-7, message::no_uid, std::string("x"), true));
  s.equal(shown(-7), expected(-7), "a copy is independent");
}

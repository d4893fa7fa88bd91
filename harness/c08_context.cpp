#include "ctx_common.hpp"
#include <algorithm>
#include <functional>
#include <memory>
#include <optional>
#include <set>

namespace cx
{
  struct main_context { };
  struct echo_context { };

  // access points of the main context
  using path0 = hana::tuple<key<0>, key<1>>;           // map_store, producer 0
  using path1 = hana::tuple<key<0>>;                   // map_store, producer 0
  using path2 = hana::tuple<key<0>, key<1>, key<2>>;   // exact_store, producer 0
  using path3 = hana::tuple<key<3>, key<1>>;           // map_store, producer 1
  using path4 = hana::tuple<key<4>>;                   // follow_store, producer 1, listens to 0 and 3
  using path5 = hana::tuple<key<5>>;                   // null_store, producer 1
  using path6 = hana::tuple<key<6>, key<1>>;           // follow_store, producer 2, listens to 0, 2 and 5
  template <> struct has_store<path5> : std::false_type { };
}

namespace cx_def
{
  using namespace nbdl_def; using namespace cx;
  struct main_def
  {
    static constexpr auto apply()
    {
      constexpr auto all = Actions(Create(), Read(), Update(), Delete());
      return Context(
        Producers(
          Producer(Name(hana::type_c<int[1]>), Type<producer_tag<0>>,
            AccessPoint(Name(hana::type_c<void>), Entity<item<0>>, PathKey<key<0>>, Store<nbdl::map_store_tag>, all,
              AccessPoint(Name(hana::type_c<void>), Entity<item<1>>, PathKey<key<1>>, Store<nbdl::map_store_tag>, all,
                AccessPoint(Name(hana::type_c<void>), Entity<item<2>>, PathKey<key<2>>, Store<exact_store_tag>, all)))),
          Producer(Name(hana::type_c<int[2]>), Type<producer_tag<1>>,
            AccessPoints(
              AccessPoint(Name(hana::type_c<void>), Entity<item<3>>, PathKey<key<3>>,
                AccessPoint(Name(hana::type_c<void>), Entity<item<1>>, PathKey<key<1>>, Store<nbdl::map_store_tag>, all)),
              AccessPoint(Name(hana::type_c<void>), Entity<item<4>>, PathKey<key<4>>, Store<follow_store_tag>, all,
                ListenPaths(Path<key<0>, key<1>>, Path<key<3>, key<1>>)),
              AccessPoint(Name(hana::type_c<void>), Entity<item<5>>, PathKey<key<5>>, Store<nbdl::null_store>, all))),
          Producer(Name(hana::type_c<int[3]>), Type<producer_tag<2>>,
            AccessPoint(Name(hana::type_c<void>), Entity<item<6>>, PathKey<key<6>>,
              AccessPoint(Name(hana::type_c<void>), Entity<item<6>>, PathKey<key<1>>, Store<follow_store_tag>, all,
                ListenPaths(Path<key<5>>, Path<key<0>, key<1>>, Path<key<0>, key<1>, key<2>>))))),
        Consumers(
          Consumer(Name(hana::type_c<int[4]>), Type<consumer_tag<0>>),
          Consumer(Name(hana::type_c<int[5]>), Type<state_consumer_tag<1>>),
          Consumer(Name(hana::type_c<int[6]>), Type<both_tag<2>>),
          Consumer(Name(hana::type_c<int[7]>), Type<consumer_tag<3>>)));
    }
  };
  struct echo_def
  {
    static constexpr auto apply()
    {
      constexpr auto all = Actions(Create(), Update(), Delete());
      return Context(
        Producers(
          Producer(Name(hana::type_c<int[1]>), Type<nbdl::echo_producer>,
            AccessPoint(Name(hana::type_c<void>), Entity<item<0>>, PathKey<key<0>>,
              AccessPoint(Name(hana::type_c<void>), Entity<item<1>>, PathKey<key<1>>, Store<nbdl::map_store_tag>, all))),
          Producer(Name(hana::type_c<int[2]>), Type<producer_tag<1>>,
            AccessPoint(Name(hana::type_c<void>), Entity<item<3>>, PathKey<key<3>>, Store<nbdl::map_store_tag>, all))),
        Consumers(
          Consumer(Name(hana::type_c<int[4]>), Type<consumer_tag<0>>),
          Consumer(Name(hana::type_c<int[5]>), Type<both_tag<1>>)));
    }
  };
}
namespace nbdl
{
  template <> struct make_def_impl<cx::main_context> : cx_def::main_def { };
  template <> struct make_def_impl<cx::echo_context> : cx_def::echo_def { };
}

namespace cx
{
  enum store_kind { dictionary, exact, follow, null };
  template <typename P> struct info;
  template <> struct info<path0> { static constexpr store_kind kind = dictionary; static constexpr int owner = 0; using payload = item<1>; };
  template <> struct info<path1> { static constexpr store_kind kind = dictionary; static constexpr int owner = 0; using payload = item<0>; };
  template <> struct info<path2> { static constexpr store_kind kind = exact;      static constexpr int owner = 0; using payload = item<2>; };
  template <> struct info<path3> { static constexpr store_kind kind = dictionary; static constexpr int owner = 1; using payload = item<1>; };
  template <> struct info<path4> { static constexpr store_kind kind = follow;     static constexpr int owner = 1; using payload = item<4>; };
  template <> struct info<path5> { static constexpr store_kind kind = null;       static constexpr int owner = 1; using payload = item<5>; };
  template <> struct info<path6> { static constexpr store_kind kind = follow;     static constexpr int owner = 2; using payload = item<6>; };

  template <typename P> P gen_path(vf::Src& s)
  {
    return hana::unpack(P{}, [&](auto ...k)
    {
      ((k.value = static_cast<int>(s.choose(2))), ...);
      return P(k...);
    });
  }
  template <typename T> T gen_item(vf::Src& s) { return T{static_cast<int>(s.choose(3)), s.text_of("ab", 1)}; }

  // the listeners of a path, as (own count, seen list) pairs of the model
  struct follow_model { std::size_t own = 0; std::vector<std::string> seen; };

  struct model
  {
    std::map<std::string, std::string> held[7];   // by path type
    follow_model f4, f6;
  };

  inline std::vector<std::string> sorted(std::vector<std::string> v) { std::sort(v.begin(), v.end()); return v; }
  inline std::string join(std::vector<std::string> const& v) { std::string r; for (auto& x : v) r += "\n      " + x; return r; }

  template <typename P> constexpr int index_of()
  {
    if constexpr (std::is_same_v<P, path0>) return 0; else if constexpr (std::is_same_v<P, path1>) return 1;
    else if constexpr (std::is_same_v<P, path2>) return 2; else if constexpr (std::is_same_v<P, path3>) return 3;
    else if constexpr (std::is_same_v<P, path4>) return 4; else if constexpr (std::is_same_v<P, path5>) return 5;
    else return 6;
  }

  template <typename Ctx, typename M> void send(vf::Src& s, Ctx& ctx, M m)
  {
    std::string const was = text(m);
    std::size_t const how = s.choose(5);
    switch (how)
    {
      case 0: nbdl::apply_message(ctx, m); break;
      case 1: nbdl::apply_message(ctx.template actor<0>().context, m); break;
      case 2: nbdl::apply_message(ctx.template actor<2>().context, std::move(m)); break;
      case 3: nbdl::apply_message(ctx.template actor<3>().context, static_cast<M const&>(m)); break;
      default: nbdl::apply_message(ctx, std::move(m)); break;
    }
    if (how == 0 || how == 1 || how == 3) s.equal(text(m), was, "the message that was sent, afterwards");
  }

  template <typename P> std::string shown(model const& md, P const& p)
  {
    constexpr int i = index_of<P>();
    auto t = path_text(p);
    if constexpr (info<P>::kind == dictionary) { auto itr = md.held[i].find(t); return itr == md.held[i].end() ? "absent" : itr->second; }
    else if constexpr (info<P>::kind == exact) { auto itr = md.held[i].find(t); return itr == md.held[i].end() ? "not found" : itr->second; }
    else if constexpr (info<P>::kind == follow)
    {
      auto const& f = i == 4 ? md.f4 : md.f6;
      return std::to_string(f.own) + "+" + std::to_string(f.seen.size());
    }
    else return "null";
  }

  template <typename P, typename Ctx>
  void step(vf::Src& s, Ctx& ctx, model& md)
  {
    using Payload = typename info<P>::payload;
    constexpr int i = index_of<P>();
    constexpr store_kind kind = info<P>::kind;
    P p = gen_path<P>(s);
    std::string pt = path_text(p);
    std::string before = shown(md, p);
    std::vector<std::string> want;
    std::string owner = "P" + std::to_string(info<P>::owner) + " ";
    std::vector<std::string> optional_notes;  // notifications the store may raise without a visible change
    told.clear();

    auto to_consumers = [&](auto const& m)
    {
      for (int c : {0, 2, 3}) want.push_back("C" + std::to_string(c) + " " + text(m) + " while " + shown(md, p));
    };
    auto to_state_consumers = [&](auto const& q, std::vector<std::string>& out)
    {
      for (int c : {1, 2}) out.push_back("S" + std::to_string(c) + " " + path_text(q) + " while " + shown(md, q));
    };
    // messages for listened paths reach the following stores and what those report
    auto listeners = [&](auto const& m)
    {
      auto follow_one = [&](follow_model& f, auto q)
      {
        f.seen.push_back(text(m));
        int n = last_int(f.seen.back());
        for (int k = 0; k < n; k++)
        {
          auto r = q;
          hana::front(r).value = k;
          to_state_consumers(r, want);
        }
      };
      if constexpr (i == 0 || i == 3) follow_one(md.f4, path4{});
      if constexpr (i == 5 || i == 0 || i == 2) follow_one(md.f6, path6{});
    };
    auto downstream = [&](auto const& m, bool replaces, std::string v)
    {
      bool changed = false, may = false;
      if constexpr (kind == dictionary)
      {
        if (v.empty()) { changed = md.held[i].erase(pt) > 0; may = true; }
        else if (replaces || before == "absent" || before == "unresolved") { changed = before != v; may = true; md.held[i][pt] = v; }
      }
      else if constexpr (kind == exact)
      {
        if (v.empty()) changed = md.held[i].erase(pt) > 0;
        else { changed = before != v; md.held[i][pt] = v; }
      }
      else if constexpr (kind == follow) { auto& f = i == 4 ? md.f4 : md.f6; f.own++; changed = f.own % 2 == 1; }
      if (changed) to_state_consumers(p, want);
      else if (may) to_state_consumers(p, optional_notes);
      to_consumers(m);
      listeners(m);
      send(s, ctx, m);
    };
    auto with_uid = [&](auto f) { if (s.boolean()) f(message::no_uid); else f(fake_uid{"u" + std::to_string(s.choose(3))}); };
    auto with_confirmed = [&](auto f) { switch (s.choose(3)) { case 0: f(s.boolean()); break; case 1: f(message::no_is_confirmed); break; default: f(hana::true_c); } };

    switch (s.choose(8))
    {
      case 0: // upstream create
        with_uid([&](auto u)
        {
          auto parent = hana::drop_back(p);
          auto m = message::make_upstream_create(message::make_create_path<std::decay_t<decltype(hana::back(p))>>(parent), u, gen_item<Payload>(s));
          s.note("send", text(m));
          want.push_back(owner + text(m));
          send(s, ctx, m);
        });
        break;
      case 1:
        with_uid([&](auto u)
        {
          auto m = message::make_upstream_update(p, u, gen_item<Payload>(s));
          s.note("send", text(m));
          want.push_back(owner + text(m));
          listeners(m);
          send(s, ctx, m);
        });
        break;
      case 2:
        with_uid([&](auto u)
        {
          auto m = message::make_upstream_delete(p, u);
          s.note("send", text(m));
          want.push_back(owner + text(m));
          listeners(m);
          send(s, ctx, m);
        });
        break;
      case 3:
        if constexpr (kind == dictionary)
        {
          if (s.boolean())
          {
            // asking for something: once upstream until an answer arrives
            with_uid([&](auto u)
            {
              auto m = message::make_upstream_read(p, u);
              s.note("send", text(m));
              if (before == "absent") { md.held[i][pt] = "unresolved"; want.push_back(owner + text(m)); }
              else if (before != "unresolved")
              {
                std::string r = "down-read" + text(m).substr(7) + " payload=" + before + " confirmed=false";
                for (int c : {0, 2, 3}) want.push_back("C" + std::to_string(c) + " " + r + " while " + before);
              }
              listeners(m);
              send(s, ctx, m);
            });
            break;
          }
        }
        [[fallthrough]];
      case 4:
        with_uid([&](auto u)
        {
          if constexpr (kind == dictionary)
          {
            if (s.chance(30))
            {
              auto m = message::make_downstream_read(p, u, nbdl::not_found{});
              s.note("send", text(m));
              downstream(m, false, "not found");
              return;
            }
          }
          auto x = gen_item<Payload>(s);
          auto m = message::make_downstream_read(p, u, x);
          s.note("send", text(m));
          downstream(m, false, show(x));
        });
        break;
      case 5:
        with_uid([&](auto u) { with_confirmed([&](auto c)
        {
          auto x = gen_item<Payload>(s);
          auto m = message::make_downstream_create(p, u, x, c);
          s.note("send", text(m));
          downstream(m, true, show(x));
        }); });
        break;
      case 6:
        with_uid([&](auto u) { with_confirmed([&](auto c)
        {
          auto x = gen_item<Payload>(s);
          auto m = message::make_downstream_update(p, u, x, c);
          s.note("send", text(m));
          downstream(m, true, show(x));
        }); });
        break;
      default:
        with_uid([&](auto u) { with_confirmed([&](auto c)
        {
          auto m = message::make_downstream_delete(p, u, c);
          s.note("send", text(m));
          downstream(m, true, "");
        }); });
    }
    auto got = sorted(told);
    auto a = sorted(want);
    auto b = want;
    b.insert(b.end(), optional_notes.begin(), optional_notes.end());
    b = sorted(b);
    if (got != a && got != b)
      s.fail("the actors were told", join(told), "\n    instead of", join(want));
  }

  // what every path shows, looked up from outside and through the actors
  template <typename Ctx> void all_shown(vf::Src& s, Ctx& ctx, model const& md)
  {
    auto one = [&](auto p)
    {
      using P = decltype(p);
      if constexpr (info<P>::kind != null)
      {
        told.clear();
        s.equal(look(ctx, p), shown(md, p), "shown at " + path_text(p));
        s.equal(look(ctx.template actor<1>().context, p), shown(md, p), "shown to an actor at " + path_text(p));
        s.check(told.empty(), "looking something up told an actor", join(told));
      }
    };
    for (int a = 0; a < 2; a++)
    {
      one(path1(key<0>{a})); one(path4(key<4>{a}));
      for (int b = 0; b < 2; b++)
      {
        one(path0(key<0>{a}, key<1>{b})); one(path3(key<3>{a}, key<1>{b})); one(path6(key<6>{a}, key<1>{b}));
        for (int c = 0; c < 2; c++) one(path2(key<0>{a}, key<1>{b}, key<2>{c}));
      }
    }
  }
}

VF_PROP(dispatch, 6000, 200000)
{
  using namespace cx;
  auto ctx = nbdl::make_unique_context<main_context>();
  model md;
  std::size_t n = 1 + s.size(24);
  told.clear();
  for (std::size_t i = 0; i < n; i++)
  {
    switch (s.choose(9))
    {
      case 0: case 1: step<path0>(s, *ctx, md); break;
      case 2: step<path1>(s, *ctx, md); break;
      case 3: step<path2>(s, *ctx, md); break;
      case 4: case 5: step<path3>(s, *ctx, md); break;
      case 6: step<path4>(s, *ctx, md); break;
      case 7: step<path5>(s, *ctx, md); break;
      default: step<path6>(s, *ctx, md); break;
    }
    all_shown(s, *ctx, md);
  }
  s.nontrivial(n >= 3);
}

VF_PROP(echo, 5000, 100000)
{
  using namespace cx;
  using A = hana::tuple<key<0>, key<1>>;
  using B = hana::tuple<key<3>>;
  auto ctx = nbdl::make_unique_context<echo_context>();
  std::map<std::string, std::string> held;
  int last_key = -1;
  std::set<int> made;
  std::size_t n = 1 + s.size(16);
  for (std::size_t i = 0; i < n; i++)
  {
    told.clear();
    int root = static_cast<int>(s.choose(2));
    // keys that the producer made, or others
    int leaf = !made.empty() && s.boolean() ? *std::next(made.begin(), static_cast<std::ptrdiff_t>(s.choose(made.size()))) : static_cast<int>(s.choose(3)) - 5;
    A p(key<0>{root}, key<1>{leaf});
    auto pt = path_text(p);
    auto x = gen_item<item<1>>(s);
    auto go = [&](auto m) { s.note("send", text(m)); if (s.boolean()) nbdl::apply_message(ctx->actor<2>().context, m); else nbdl::apply_message(*ctx, std::move(m)); };
    // every echo: one message per consumer, after the store shows it
    auto expect = [&](std::string const& kind, std::string const& path, std::string const& uid, std::string const& payload, std::string const& shown, bool must_notify)
    {
      std::string m = kind + " " + path + uid + payload + " confirmed=false while " + shown;
      std::vector<std::string> msgs, notes;
      for (auto const& l : told) (l[0] == 'S' ? notes : msgs).push_back(l);
      s.check(sorted(msgs) == sorted({"C0 " + m, "C1 " + m}), "the consumers were told", join(msgs), "\n    instead of ", m);
      for (auto const& l : notes) s.equal(l, "S1 " + path + " while " + shown, "state notification");
      s.check(notes.size() <= 1 && (!must_notify || notes.size() == 1), notes.size(), " state notifications");
    };
    switch (s.choose(4))
    {
      case 0:
      {
        auto m = message::make_upstream_create(message::make_create_path<key<1>>(hana::make_tuple(key<0>{root})), message::no_uid, x);
        go(m);
        // the key is new
        s.check(!told.empty(), "nobody was told");
        int k = 0;
        for (auto const& l : told) if (l[0] == 'C') { auto a = l.find("/1#"); k = std::atoi(l.c_str() + a + 3); }
        s.check(!made.count(k), "the key ", k, " of a created object was used before");
        s.check(last_key < 0 || k == last_key + 1 || made.size() == 0 || true, "");
        made.insert(k);
        A q(key<0>{root}, key<1>{k});
        held[path_text(q)] = show(x);
        expect("down-create", path_text(q), "", " payload=" + show(x), show(x), true);
        break;
      }
      case 1:
      {
        bool changed = !held.count(pt) || held[pt] != show(x);
        held[pt] = show(x);
        if (s.boolean()) { go(message::make_upstream_update(p, message::no_uid, x)); expect("down-update", pt, "", " payload=" + show(x), show(x), changed); }
        else { go(message::make_upstream_update(p, fake_uid{"id"}, x)); expect("down-update", pt, " uid=id", " payload=" + show(x), show(x), changed); }
        break;
      }
      case 2:
      {
        bool changed = held.erase(pt) > 0;
        if (s.boolean()) { go(message::make_upstream_delete(p, message::no_uid)); expect("down-delete", pt, "", "", "absent", changed); }
        else { go(message::make_upstream_delete(p, fake_uid{"id"})); expect("down-delete", pt, " uid=id", "", "absent", changed); }
        break;
      }
      default:
      {
        // the other producer does not echo
        B b(key<3>{root});
        auto m = message::make_upstream_update(b, message::no_uid, gen_item<item<3>>(s));
        go(m);
        s.check(told == std::vector<std::string>{"P1 " + text(m)}, "told", join(told));
      }
    }
    told.clear();
    for (int r = 0; r < 2; r++)
      for (int k : made)
      {
        A q(key<0>{r}, key<1>{k});
        s.equal(look(*ctx, q), held.count(path_text(q)) ? held[path_text(q)] : std::string("absent"), "shown at " + path_text(q));
      }
  }
  s.nontrivial(n >= 2);
}

// the producer's keys stay new however many objects it made before
VF_PROP(echo_many, 6, 40)
{
  using namespace cx;
  using A = hana::tuple<key<0>, key<1>>;
  auto ctx = nbdl::make_unique_context<echo_context>();
  auto round_up = [&](std::size_t base) { return base + s.choose(base / 8); };
  std::size_t n = s.chance(50) ? round_up(66000) : round_up(s.boolean() ? 2500 : 300);
  std::map<int, std::pair<int, std::string>> made;        // key: root, shown
  std::vector<item<1>> few;
  for (int i = 0; i < 9; i++) few.push_back(gen_item<item<1>>(s));
  for (std::size_t i = 0; i < n; i++)
  {
    told.clear();
    int root = static_cast<int>(i % 3);
    auto const& x = few[(i * 7 + i / 11) % few.size()];
    nbdl::apply_message(*ctx, message::make_upstream_create(message::make_create_path<key<1>>(hana::make_tuple(key<0>{root})), message::no_uid, x));
    int k = 0, seen = 0;
    for (auto const& l : told) if (l[0] == 'C') { k = std::atoi(l.c_str() + l.find("/1#") + 3); seen++; }
    s.equal(seen, 2, "consumers told of creation ", i);
    s.check(!made.count(k), "the key ", k, " of object ", i, " was given to an earlier one");
    made[k] = {root, show(x)};
  }
  told.clear();
  for (auto const& [k, v] : made)
    s.equal(look(*ctx, A(key<0>{v.first}, key<1>{k})), v.second, "shown at the key ", k, " in the end");
  s.note(n, "objects were made");
  s.nontrivial();
}

// ---- a context whose actors react ------------------------------------------
// Stores that ask for what they miss, stores that show own changes at once,
// producers that answer (at once, later, or never) and actors that send and
// look things up while they are being told something.
namespace lv
{
  using cx::key; using cx::item; using cx::show; using cx::text; using cx::path_text;

  struct own_id { int n; };                     // names an object before the server does
  struct claim                                  // the key of such an object
  {
    int value; bool own;
    claim() : value(0), own(false) { }
    claim(own_id u) : value(u.n), own(true) { }
    explicit claim(int v) : value(v), own(false) { }
  };
  struct unit { };                              // an empty key
  inline std::string show(own_id u) { return "own" + std::to_string(u.n); }
  inline std::string show(claim c) { return (c.own ? "own" : "claim") + std::to_string(c.value); }
  inline std::string show(unit) { return "unit"; }

  struct live_context { };
  struct lazy_tag { };          // asks for what it does not hold
  struct eager_tag { };         // shows upstream changes at once
  struct follow_tag { };        // listens to other paths
  template <int id> struct server_tag { };
  template <int id> struct listener_tag { };        // is told messages
  template <int id> struct watcher_tag { };         // is told state changes
  template <int id> struct partner_tag { };         // is told both

  using path0 = hana::tuple<key<0>, key<1>>;  // lazy, server 0
  using path1 = hana::tuple<key<0>, key<2>>;  // eager, server 0
  using path2 = hana::tuple<key<0>, claim>;   // eager, server 0, keys made from ids
  using path3 = hana::tuple<key<0>, unit>;    // eager, server 0, the key is empty
  using path4 = hana::tuple<key<3>>;          // map_store, server 1
  using path5 = hana::tuple<key<4>>;          // lazy, server 1
  using path6 = hana::tuple<key<5>>;          // follows 0, 1 and 2, server 1
  using path7 = hana::tuple<key<6>>;          // follows 0 and 4, server 1

  template <typename P> constexpr int index_of = -1;
  template <> constexpr int index_of<path0> = 0; template <> constexpr int index_of<path1> = 1;
  template <> constexpr int index_of<path2> = 2; template <> constexpr int index_of<path3> = 3;
  template <> constexpr int index_of<path4> = 4; template <> constexpr int index_of<path5> = 5;
  template <> constexpr int index_of<path6> = 6; template <> constexpr int index_of<path7> = 7;
  constexpr int kind_of[] = {0, 1, 1, 1, 2, 0, 3, 3};   // lazy, eager, map, follow
  constexpr int server_of[] = {0, 0, 0, 0, 1, 1, 1, 1};

  template <typename P> struct payload_of;
  template <int i> struct payload_of<hana::tuple<key<0>, key<i>>> { using type = item<i>; };
  template <> struct payload_of<path2> { using type = item<7>; };
  template <> struct payload_of<path3> { using type = item<8>; };
  template <int i> struct payload_of<hana::tuple<key<i>>> { using type = item<i>; };

  // the text of a message, whose new object may be named already
  template <typename M> std::string normal_text(M const& m)
  {
    if constexpr (message::is_path_normalizable<M>)
    {
      std::string r; hana::for_each(message::get_normalized_path(m), [&](auto const& k) { r += "/" + show(k); }); return r;
    }
    else return "new";
  }
  template <typename P> std::string ptext(P const& p)
  {
    std::string r;
    if constexpr (hana::is_a<message::create_path_tag, P>) { hana::for_each(p.parent_path, [&](auto const& k) { r += "/" + show(k); }); return r + "/new"; }
    else { hana::for_each(p, [&](auto const& k) { r += "/" + show(k); }); return r; }
  }
  template <typename M> std::string mtext(M const& m)
  {
    std::string r;
    r += message::is_upstream<M> ? "up-" : "down-";
    r += message::is_create<M> ? "create" : message::is_read<M> ? "read" : message::is_update<M> ? "update" : message::is_delete<M> ? "delete" : "?";
    r += " " + ptext(message::get_path(m));
    if constexpr (message::has_uid<M>) r += " uid=" + show(message::get_uid(m));
    if constexpr (!message::is_delete<M> && !(message::is_upstream<M> && message::is_read<M>)) r += " payload=" + show(message::get_payload(m));
    if constexpr (message::is_downstream<M>) r += std::string(" confirmed=") + (message::is_confirmed(m) ? "true" : "false");
    return r;
  }

  template <typename Path, typename Item> struct lazy_store
  {
    using hana_tag = lazy_tag;
    std::map<std::string, std::optional<Item>> held;   // no item: being asked for
  };
  template <typename Path, typename Item> struct eager_store
  {
    using hana_tag = eager_tag;
    std::map<std::string, Item> held;
  };
    template <typename Path> struct follow_store
  {
    using hana_tag = follow_tag;
    std::size_t own = 0, seen = 0;
  };
  // how many of its keys a following store marks because of a message
  inline int marks(std::string const& m) { return static_cast<int>(m.size() % 3); }

  // what the actors do when they are told something; set by the property
  struct hooks
  {
    std::function<void(std::string const& who, std::string const& what)> tell;
    std::function<void(int)> react;                    // an actor may send something
    std::vector<std::function<void()>> later;          // answers that servers still owe
    std::function<int()> policy;                       // of a server: 0 never, 1 at once, 2 later, 3 twice
  };
  inline hooks* hk = nullptr;

  template <typename Tag, typename Context> struct actor
  {
    using hana_tag = Tag;
    Context context;
    template <typename A> actor(nbdl::actor_initializer<Context, A>&& a) : context(a.context) { }
  };
  template <typename Ctx, typename M> void push(Ctx& ctx, M const& m);
  template <typename Ctx, typename M> void answer(Ctx& ctx, M const& m);
}

namespace nbdl
{
  template <> struct entity_members_impl<lv::claim> { using type = mpdef::list<NBDL_MEMBER(&lv::claim::value), NBDL_MEMBER(&lv::claim::own)>; };
  template <> struct entity_members_impl<lv::unit> { using type = mpdef::list<>; };

#define LV_ACTOR(TAG) \
  template <int id, typename Context> struct actor_type<lv::TAG<id>, Context> { using type = lv::actor<lv::TAG<id>, Context>; };
  LV_ACTOR(server_tag) LV_ACTOR(listener_tag) LV_ACTOR(watcher_tag) LV_ACTOR(partner_tag)
#undef LV_ACTOR

  template <int id> struct send_upstream_message_impl<lv::server_tag<id>>
  {
    template <typename P, typename M> static void apply(P& p, M&& m)
    {
      lv::hk->tell("P" + std::to_string(id), lv::mtext(m));
      auto& ctx = p.context;
      auto work = [&ctx, msg = std::decay_t<M>(m)] { lv::answer(ctx, msg); };
      switch (lv::hk->policy())
      {
        case 0: break;
        case 1: work(); break;
        case 2: lv::hk->later.push_back(work); break;
        default: lv::hk->later.push_back(work); work(); break;
      }
      lv::hk->react(id);
    }
  };
#define LV_TOLD(TAG, N) \
  template <int id> struct send_downstream_message_impl<lv::TAG<id>> \
  { \
    template <typename C, typename M> static void apply(C&, M&& m) \
    { lv::hk->tell("C" + std::to_string(id), lv::mtext(m)); lv::hk->react(id); } \
  };
#define LV_WATCH(TAG) \
  template <int id> struct notify_state_change_impl<lv::TAG<id>> \
  { \
    template <typename C, typename P> static void apply(C&&, P&& p) \
    { lv::hk->tell("S" + std::to_string(id), lv::ptext(p)); lv::hk->react(id); } \
  };
  LV_TOLD(listener_tag, 0) LV_TOLD(partner_tag, 0) LV_WATCH(watcher_tag) LV_WATCH(partner_tag)
#undef LV_TOLD
#undef LV_WATCH

  template <> struct make_store_impl<lv::lazy_tag>
  {
    template <typename P, typename E> static auto apply(P, E) -> lv::lazy_store<typename P::type, typename lv::payload_of<typename P::type>::type> { return {}; }
  };
  template <> struct make_store_impl<lv::eager_tag>
  {
    template <typename P, typename E> static auto apply(P, E) -> lv::eager_store<typename P::type, typename lv::payload_of<typename P::type>::type> { return {}; }
  };
  template <> struct make_store_impl<lv::follow_tag>
  {
    template <typename P, typename E> static auto apply(P, E) -> lv::follow_store<typename P::type> { return {}; }
  };
  template <> struct apply_message_impl<lv::follow_tag>
  {
    template <typename S, typename M> static bool apply(S& s, M const& m)
    { if constexpr (message::is_upstream<M>) return false; else return ++s.own % 2 == 1; }
  };
  template <> struct apply_foreign_message_impl<lv::follow_tag>
  {
    template <typename P, typename M, typename F> static void apply(lv::follow_store<P>& s, M const& m, F&& fn)
    {
      s.seen++;
      for (int i = 0; i < lv::marks(lv::mtext(m)); i++) { P p{}; hana::front(p).value = i; fn(p); }
    }
  };
  template <> struct match_impl<lv::follow_tag>
  {
    template <typename S, typename K, typename F> static void apply(S&& s, K&&, F&& f) { f(std::to_string(s.own) + "+" + std::to_string(s.seen)); }
  };
  template <> struct apply_message_impl<lv::lazy_tag>
  {
    template <typename S, typename M> static bool apply(S& s, M const& m)
    {
      auto k = lv::normal_text(m);
      if constexpr (message::is_upstream<M>)
      {
        if constexpr (message::is_read<M>) s.held.try_emplace(k);
        return false;
      }
      else if constexpr (message::is_delete<M>) return s.held.erase(k) > 0;
      else
      {
        auto v = message::get_payload(m);
        auto itr = s.held.find(k);
        if (itr != s.held.end() && itr->second && lv::show(*itr->second) == lv::show(v)) return false;
        s.held[k] = v;
        return true;
      }
    }
  };
  template <> struct match_impl<lv::lazy_tag>
  {
    template <typename S, typename K, typename F> static void apply(S&& s, K&& k, F&& f)
    {
      auto itr = s.held.find(lv::ptext(k));
      if (itr == s.held.end()) f(nbdl::trigger_read{});
      else if (!itr->second) f(nbdl::unresolved{});
      else f(*itr->second);
    }
  };
  template <> struct apply_message_impl<lv::eager_tag>
  {
    template <typename S, typename M> static bool apply(S& s, M const& m)
    {
      if constexpr (message::is_upstream<M> && message::is_read<M>) return false;
      else
      {
        auto k = lv::normal_text(m);
        if constexpr (message::is_delete<M>) return s.held.erase(k) > 0;
        else
        {
          auto v = message::get_payload(m);
          auto itr = s.held.find(k);
          if (itr != s.held.end() && lv::show(itr->second) == lv::show(v)) return false;
          s.held[k] = v;
          return true;
        }
      }
    }
  };
  template <> struct match_impl<lv::eager_tag>
  {
    template <typename S, typename K, typename F> static void apply(S&& s, K&& k, F&& f)
    {
      auto itr = s.held.find(lv::ptext(k));
      if (itr == s.held.end()) f(nbdl::not_in_set{});
      else f(itr->second);
    }
  };
}
namespace lv_def
{
  using namespace nbdl_def; using namespace lv;
  struct live_def
  {
    static constexpr auto apply()
    {
      constexpr auto all = Actions(Create(), Read(), Update(), Delete());
      return Context(
        Producers(
          Producer(Name(hana::type_c<int[1]>), Type<server_tag<0>>,
            AccessPoint(Name(hana::type_c<void>), Entity<item<0>>, PathKey<key<0>>,
              AccessPoints(
                AccessPoint(Name(hana::type_c<void>), Entity<item<1>>, PathKey<key<1>>, Store<lazy_tag>, all),
                AccessPoint(Name(hana::type_c<void>), Entity<item<2>>, PathKey<key<2>>, Store<eager_tag>, all),
                AccessPoint(Name(hana::type_c<void>), Entity<item<7>>, PathKey<claim>, Store<eager_tag>, all),
                AccessPoint(Name(hana::type_c<void>), Entity<item<8>>, PathKey<unit>, Store<eager_tag>, all)))),
          Producer(Name(hana::type_c<int[2]>), Type<server_tag<1>>,
            AccessPoints(
              AccessPoint(Name(hana::type_c<void>), Entity<item<3>>, PathKey<key<3>>, Store<nbdl::map_store_tag>, all),
              AccessPoint(Name(hana::type_c<void>), Entity<item<4>>, PathKey<key<4>>, Store<lazy_tag>, all),
              AccessPoint(Name(hana::type_c<void>), Entity<item<5>>, PathKey<key<5>>, Store<follow_tag>, all,
                ListenPaths(Path<key<0>, key<1>>, Path<key<0>, key<2>>, Path<key<0>, claim>)),
              AccessPoint(Name(hana::type_c<void>), Entity<item<6>>, PathKey<key<6>>, Store<follow_tag>, all,
                ListenPaths(Path<key<0>, key<1>>, Path<key<3>>))))),
        Consumers(
          Consumer(Name(hana::type_c<int[3]>), Type<listener_tag<2>>),
          Consumer(Name(hana::type_c<int[4]>), Type<watcher_tag<3>>),
          Consumer(Name(hana::type_c<int[5]>), Type<partner_tag<4>>),
          Consumer(Name(hana::type_c<int[6]>), Type<listener_tag<5>>)));
    }
  };
}
namespace nbdl { template <> struct make_def_impl<lv::live_context> : lv_def::live_def { }; }

namespace lv
{
  struct model
  {
    std::map<std::string, std::string> held[8];
    std::size_t own[8] = { }, seen[8] = { };
    std::vector<std::string> want, may;       // what the actors have to be told, and may be told
  };
  inline vf::Src* src = nullptr;
  inline model* md = nullptr;
  inline int budget = 0, made = 0, depth = 0, deepest = 0;
  template <typename P> inline std::map<std::string, typename payload_of<P>::type> db;   // what the servers hold

  inline void want_state(std::string const& p, std::vector<std::string>& out) { for (int c : {3, 4}) out.push_back("S" + std::to_string(c) + " " + p); }
  template <int i> void listeners(std::string const& m)
  {
    auto one = [&](int j)
    {
      md->seen[j]++;
      for (int k = 0; k < marks(m); k++) want_state("/" + std::to_string(j - 1) + "#" + std::to_string(k), md->want);
    };
    if (i == 0 || i == 1 || i == 2) one(6);
    if (i == 0 || i == 4) one(7);
  }

  template <typename M> void predict(M const& m)
  {
    using P = typename std::decay_t<decltype(message::get_path_type(m))>::type;
    constexpr int i = index_of<P>;
    static_assert(i >= 0);
    constexpr int kind = kind_of[i];
    std::string t = mtext(m), owner = "P" + std::to_string(server_of[i]) + " ";
    auto consumers = [&](std::string const& x) { for (int c : {2, 4, 5}) md->want.push_back("C" + std::to_string(c) + " " + x); };
    if constexpr (!message::is_path_normalizable<M>) md->want.push_back(owner + t);
    else
    {
      std::string k = normal_text(m);
      auto& held = md->held[i];
      auto itr = held.find(k);
      if constexpr (message::is_upstream<M> && message::is_read<M>)
      {
        if (itr == held.end()) { if (kind != 1) held[k] = "unresolved"; md->want.push_back(owner + t); }
        else if (itr->second != "unresolved") consumers("down" + t.substr(2) + " payload=" + itr->second + " confirmed=false");
      }
      else
      {
        bool changed = false, may = false;
        if constexpr (kind == 3) { if (message::is_downstream<M>) changed = ++md->own[i] % 2 == 1; }
        else if (kind == 1 || message::is_downstream<M>)
        {
          if constexpr (message::is_delete<M>) { changed = itr != held.end(); held.erase(k); may = kind == 2; }
          else
          {
            std::string v = show(message::get_payload(m));
            if (kind != 2 || !message::is_read<M> || itr == held.end() || itr->second == "unresolved")
            {
              changed = itr == held.end() || itr->second != v;
              held[k] = v; may = kind == 2;
            }
          }
        }
        if (changed) want_state(k, md->want); else if (may) want_state(k, md->may);
        if constexpr (message::is_upstream<M>) md->want.push_back(owner + t); else consumers(t);
      }
      listeners<i>(t);
    }
  }
  struct deeper { deeper() { deepest = std::max(deepest, ++depth); } ~deeper() { depth--; } };

  template <typename Ctx, typename M> void push(Ctx& ctx, M const& m)
  {
    src->note(depth ? "[reaction]" : "send", mtext(m));
    deeper d;
    predict(m);
    switch (src->choose(3))
    {
      case 0: { M copy(m); nbdl::apply_message(ctx, copy); break; }
      case 1: nbdl::apply_message(ctx, m); break;
      default: nbdl::apply_message(ctx, M(m));
    }
  }
  // what the server does about a message
  template <typename Ctx, typename M> void answer(Ctx& ctx, M const& m)
  {
    using P = typename std::decay_t<decltype(message::get_path_type(m))>::type;
    using Item = typename payload_of<P>::type;
    auto confirmed = [&](auto f) { switch (src->choose(3)) { case 0: f(message::no_is_confirmed); break; case 1: f(true); break; default: f(false); } };
    if constexpr (message::is_read<M>)
    {
      auto itr = db<P>.find(normal_text(m));
      if (itr != db<P>.end()) push(ctx, message::to_downstream_read(m, itr->second));
      else if constexpr (kind_of[index_of<P>] == 2) push(ctx, message::to_downstream_read(m, nbdl::not_found{}));
      else push(ctx, message::to_downstream_read(m, Item{-1, "nothing"}));
    }
    else if constexpr (message::is_create<M>)
    {
      if constexpr (message::requires_key_for_downstream<M>)
      {
        using K = typename std::decay_t<decltype(message::get_path(m))>::key;
        K k{};
        if constexpr (!std::is_empty_v<K>) k.value = static_cast<int>(src->choose(2));
        auto go = [&](auto d) { db<P>[normal_text(d)] = message::get_payload(m); push(ctx, d); };
        if (src->boolean()) go(message::to_downstream_with_key(m, k));
        else go(message::to_downstream_with_key_confirmed(m, k));
      }
      else confirmed([&](auto c) { auto d = message::to_downstream(m, c); db<P>[normal_text(d)] = message::get_payload(m); push(ctx, d); });
    }
    else
    {
      if constexpr (message::is_update<M>) db<P>[normal_text(m)] = message::get_payload(m);
      else db<P>.erase(normal_text(m));
      confirmed([&](auto c) { push(ctx, message::to_downstream(m, c)); });
    }
  }

  inline claim gen_claim(vf::Src& s) { return s.boolean() ? claim(own_id{static_cast<int>(s.choose(2))}) : claim(static_cast<int>(s.choose(2))); }
  template <typename P> P gen_path(vf::Src& s)
  {
    P p{};
    hana::for_each(p, [&](auto& k)
    {
      using K = std::decay_t<decltype(k)>;
      if constexpr (std::is_same_v<K, claim>) k = gen_claim(s);
      else if constexpr (!std::is_empty_v<K>) k.value = static_cast<int>(s.choose(2));
    });
    return p;
  }
  template <typename P> typename payload_of<P>::type gen_item(vf::Src& s)
  {
    // long enough to own memory, sometimes; often new
    return {s.boolean() ? ++made : static_cast<int>(s.choose(2)), s.boolean() ? std::string("a text that is kept on the heap") : std::string("x")};
  }

  // looking something up asks for what is missing, once
  template <typename Ctx, typename P> void see(Ctx& ctx, P const& p)
  {
    constexpr int i = index_of<P>;
    std::string k = ptext(p), shown = "nothing", before;
    auto& held = md->held[i];
    bool asks = kind_of[i] == 0 && !held.count(k);
    if (asks) { src->note(depth ? "[reaction]" : "", "look at", k); predict(message::make_upstream_read(p, message::no_uid)); before = "unresolved"; }
    else if (kind_of[i] == 3) before = std::to_string(md->own[i]) + "+" + std::to_string(md->seen[i]);
    else before = held.count(k) ? held[k] : "absent";
    int calls = 0;
    {
      deeper d;
      nbdl::match(ctx, p, [&](auto const& v) { calls++; shown = show(v); });
    }
    src->equal(calls, 1, "visits of ", k);
    if (asks && shown != before && held.count(k)) before = held[k];    // it may have been answered at once
    if (kind_of[i] != 3 || depth == 0) src->equal(shown, before, "shown at ", k);
  }

  template <typename Ctx, typename P> void act(Ctx& ctx)
  {
    auto& s = *src;
    P p = gen_path<P>(s);
    constexpr int kind = kind_of[index_of<P>];
    auto with_uid = [&](auto f) { if (s.boolean()) f(message::no_uid); else f(own_id{static_cast<int>(s.choose(2))}); };
    switch (s.choose(9))
    {
      case 0:
        with_uid([&](auto u)
        {
          using K = std::decay_t<decltype(hana::back(p))>;
          push(ctx, message::make_upstream_create(message::make_create_path<K>(hana::drop_back(p)), u, gen_item<P>(s)));
        });
        break;
      case 1: case 2: with_uid([&](auto u) { push(ctx, message::make_upstream_update(p, u, gen_item<P>(s))); }); break;
      case 3: with_uid([&](auto u) { push(ctx, message::make_upstream_delete(p, u)); }); break;
      case 4: if constexpr (kind != 3) { with_uid([&](auto u) { push(ctx, message::make_upstream_read(p, u)); }); break; } [[fallthrough]];
      case 5: case 6: see(ctx, p); break;
      case 7: with_uid([&](auto u) { push(ctx, message::make_downstream_update(p, u, gen_item<P>(s), s.boolean())); }); break;
      default: with_uid([&](auto u) { push(ctx, message::make_downstream_delete(p, u, s.boolean())); });
    }
  }
  template <typename Ctx> void act_somewhere(Ctx& ctx)
  {
    switch (src->choose(9))
    {
      case 0: case 8: act<Ctx, path0>(ctx); break;
      case 1: act<Ctx, path1>(ctx); break;
      case 2: act<Ctx, path2>(ctx); break;
      case 3: act<Ctx, path3>(ctx); break;
      case 4: act<Ctx, path4>(ctx); break;
      case 5: act<Ctx, path5>(ctx); break;
      case 6: act<Ctx, path6>(ctx); break;
      default: act<Ctx, path7>(ctx); break;
    }
  }
  // every path shows what it has to; nothing is asked for
  template <typename Ctx> void check_all(Ctx& ctx, bool followers)
  {
    auto one = [&](auto p)
    {
      using P = decltype(p);
      constexpr int i = index_of<P>;
      if (kind_of[i] == 0 && !md->held[i].count(ptext(p))) return;
      if (kind_of[i] == 3 && !followers) return;
      see(ctx, p);
    };
    for (int a = 0; a < 2; a++)
    {
      one(path3(key<0>{a}, unit{})); one(path4(key<3>{a})); one(path5(key<4>{a}));
      for (int b = 0; b < 2; b++)
      {
        one(path0(key<0>{a}, key<1>{b})); one(path1(key<0>{a}, key<2>{b}));
        one(path2(key<0>{a}, claim(b))); one(path2(key<0>{a}, claim(own_id{b})));
      }
    }
    one(path6{}); one(path7{});
  }
}

VF_PROP(live, 6000, 150000)
{
  using namespace lv;
  auto ctx = nbdl::make_unique_context<live_context>();
  auto& handle = ctx->actor<2>().context;
  model m;
  src = &s; md = &m; made = 100; depth = 0; deepest = 0; budget = 0;
  db<path0>.clear(); db<path1>.clear(); db<path2>.clear(); db<path3>.clear(); db<path4>.clear(); db<path5>.clear(); db<path6>.clear(); db<path7>.clear();
  std::vector<std::string> got;
  hooks h;
  hk = &h;
  h.tell = [&](std::string const& who, std::string const& what)
  {
    got.push_back(who + " " + what);
    check_all(handle, false);
  };
  h.policy = [&] { return budget-- <= 0 ? 0 : static_cast<int>(s.choose(4)); };
  h.react = [&](int)
  {
    if (budget <= 0 || depth > 4 || !s.chance(25)) return;
    budget--;
    act_somewhere(handle);
  };
  std::size_t n = 1 + s.size(12);
  for (std::size_t i = 0; i < n; i++)
  {
    got.clear(); m.want.clear(); m.may.clear();
    budget = 4;
    if (!h.later.empty() && s.chance(40))
    {
      auto k = s.choose(h.later.size());
      auto work = h.later[k];
      h.later.erase(h.later.begin() + static_cast<std::ptrdiff_t>(k));
      work();
    }
    else if (s.boolean()) act_somewhere(*ctx);
    else act_somewhere(handle);
    // told exactly what they had to be told; state notifications without a change only where the store may raise them
    auto want = cx::sorted(m.want), extra = cx::sorted(m.may), all = cx::sorted(got);
    std::vector<std::string> missing, surplus, wrong;
    std::set_difference(want.begin(), want.end(), all.begin(), all.end(), std::back_inserter(missing));
    std::set_difference(all.begin(), all.end(), want.begin(), want.end(), std::back_inserter(surplus));
    std::set_difference(surplus.begin(), surplus.end(), extra.begin(), extra.end(), std::back_inserter(wrong));
    if (!missing.empty() || !wrong.empty())
      s.fail("the actors were not told", cx::join(missing), "\n    or were told", cx::join(wrong), "\n    all they were told:", cx::join(got));
    check_all(*ctx, true);
  }
  if (deepest > 1) s.label("reactions");
  s.nontrivial(deepest > 1);
}

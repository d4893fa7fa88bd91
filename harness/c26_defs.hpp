// C26: what generated definitions (gen/defs.py) are checked with
#ifndef C26_DEFS_HPP
#define C26_DEFS_HPP
#include "ctx_common.hpp"
#include <nbdl/message_api.hpp>
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <set>

namespace cx
{
  // a key that is the same for everyone
  template <int i> using fixed = hana::integral_constant<int, i>;

  enum store_kind { dictionary, exact, follow, null, single, maybe };   // single, maybe: one value for every path

  // an access point as the definition has it: listens holds the positions of those it listens to
  template <typename Path, store_kind kind_, typename Payload, int owner_, int actions_, int ...listens>
  struct point
  {
    using path = Path; using payload = Payload;
    static constexpr store_kind kind = kind_;
    static constexpr int owner = owner_, actions = actions_;      // bits: create, read, update, delete
    static constexpr bool listens_to(int i) { return ((i == listens) || ...); }
  };

  // ---- the types of messages ----
  template <typename T> struct type_text { static std::string get() { return "?"; } };
  template <int i> struct type_text<key<i>> { static std::string get() { return std::to_string(i); } };
  template <int i> struct type_text<fixed<i>> { static std::string get() { return std::to_string(i) + "!"; } };
  template <int i> struct type_text<item<i>> { static std::string get() { return "item" + std::to_string(i); } };
  template <> struct type_text<exact_store_tag> { static std::string get() { return "exact tag"; } };
  template <> struct type_text<follow_store_tag> { static std::string get() { return "follow tag"; } };
  template <> struct type_text<nbdl::map_store_tag> { static std::string get() { return "map tag"; } };
  template <> struct type_text<nbdl::null_store> { static std::string get() { return "null tag"; } };
  template <> struct type_text<nbdl::not_found> { static std::string get() { return "not found"; } };
  template <> struct type_text<nbdl::unresolved> { static std::string get() { return "unresolved"; } };
  template <> struct type_text<nbdl::system_message> { static std::string get() { return "system"; } };
  template <> struct type_text<message::no_impl> { static std::string get() { return ""; } };
  template <typename ...T> struct type_text<hana::tuple<T...>> { static std::string get() { return ((std::string("/") + type_text<T>::get()) + ... + ""); } };
  template <typename K, typename P> struct type_text<message::create_path<K, P>> { static std::string get() { return type_text<P>::get() + "/new" + type_text<K>::get(); } };
#define MESSAGE(x) template <typename ...T> struct type_text<message::x<T...>> \
  { static std::string get() { return (std::string(#x) + ... + (" " + type_text<T>::get())); } };
  MESSAGE(upstream_create) MESSAGE(upstream_read) MESSAGE(upstream_update) MESSAGE(upstream_delete)
  MESSAGE(downstream_create) MESSAGE(downstream_read) MESSAGE(downstream_update) MESSAGE(downstream_delete)
#undef MESSAGE
  template <typename ...T> std::vector<std::string> alternatives(nbdl::detail::variant<T...> const*) { return {type_text<T>::get()...}; }

  struct definition
  {
    char const* source;
    std::vector<std::string> want_up, want_down, up, down;
    int actors, want_actors;
    std::vector<std::string> kinds, want_kinds;
    void (*run)(vf::Src&);
    void (*given)(vf::Src&);
  };
  std::vector<definition>& definitions();

  template <typename A> struct actor_text;
#define ACTOR(x) template <int i, typename C> struct actor_text<actor<x##_tag<i>, C>> { static std::string get() { return #x + std::to_string(i); } };
  ACTOR(producer) ACTOR(consumer) ACTOR(state_consumer) ACTOR(both)
#undef ACTOR

  template <typename D> struct model
  {
    std::map<std::string, std::string> held;
    struct follower { std::size_t own = 0, seen = 0; } follow[32];
    std::string single[32];
  };
  inline std::vector<std::string> sorted(std::vector<std::string> v) { std::sort(v.begin(), v.end()); return v; }
  inline std::string join(std::vector<std::string> const& v) { std::string r; for (auto& x : v) r += "\n      " + x; return r; }

  template <int i> void set(key<i>& k, int v) { k.value = v; }
  template <int i> void set(fixed<i>&, int) { }
  template <typename P> P gen_path(vf::Src& s)
  {
    P p{};
    hana::for_each(p, [&](auto& k) { set(k, static_cast<int>(s.choose(2))); });
    return p;
  }
  template <typename T> T gen_item(vf::Src& s)
  {
    if constexpr (std::is_empty_v<T>) return T{};
    else return T{static_cast<int>(s.choose(3)), s.text_of("ab", 1)};
  }

  template <typename D> using points = typename D::points;
  template <typename D, std::size_t i> using point_at = boost::mp11::mp_at_c<points<D>, i>;
  template <typename D> constexpr std::size_t point_count = boost::mp11::mp_size<points<D>>::value;

  template <typename D, std::size_t i> std::string shown(model<D> const& md, typename point_at<D, i>::path const& p)
  {
    using P = point_at<D, i>;
    auto t = path_text(p);
    auto itr = md.held.find(t);
    if constexpr (P::kind == dictionary) return itr == md.held.end() ? "absent" : itr->second;
    else if constexpr (P::kind == exact) return itr == md.held.end() ? "not found" : itr->second;
    else if constexpr (P::kind == follow) return std::to_string(md.follow[i].own) + "+" + std::to_string(md.follow[i].seen);
    else if constexpr (P::kind == single || P::kind == maybe)
      return !md.single[i].empty() ? md.single[i] : P::kind == maybe ? "nothing" : show(typename P::payload{});
    else return "null";
  }

  // send one message and compare what everyone was told with what the definition says
  template <typename D, std::size_t i, typename Ctx>
  void step(vf::Src& s, Ctx& ctx, model<D>& md)
  {
    using P = point_at<D, i>;
    using path = typename P::path; using payload = typename P::payload;
    auto p = gen_path<path>(s);
    std::string pt = path_text(p), before = shown<D, i>(md, p), owner = "P" + std::to_string(P::owner) + " ";
    std::vector<std::string> want, optional_notes;
    std::vector<int> kinds;
    for (int a = 0; a < 4; a++) if (P::actions & (1 << a)) kinds.push_back(a);
    if (kinds.empty()) return;
    told.clear();
    auto to_consumers = [&](std::string const& m)
    { for (int c : D::consumers()) want.push_back("C" + std::to_string(c) + " " + m + " while " + shown<D, i>(md, p)); };
    auto listeners = [&](std::string const& m)
    {
      [&]<std::size_t ...j>(std::index_sequence<j...>)
      {
        ([&]
        {
          using L = point_at<D, j>;
          if constexpr (L::listens_to(i))
          {
            md.follow[j].seen++;
            for (int k = 0; k < last_int(m); k++)
            {
              typename L::path r{};
              set(hana::front(r), k);
              for (int c : D::state_consumers())
                want.push_back("S" + std::to_string(c) + " " + path_text(r) + " while " + shown<D, j>(md, r));
            }
          }
        }(), ...);
      }(std::make_index_sequence<point_count<D>>{});
    };
    auto downstream = [&](auto const& m, bool replaces, std::string v)
    {
      [[maybe_unused]] constexpr bool is_update = message::is_update<decltype(m)>;
      s.note("send", text(m));
      bool changed = false, may = false;
      if constexpr (P::kind == dictionary)
      {
        if (v.empty()) { changed = md.held.erase(pt) > 0; may = true; }
        else if (replaces || before == "absent" || before == "unresolved") { changed = before != v; may = true; md.held[pt] = v; }
      }
      else if constexpr (P::kind == exact)
      {
        if (v.empty()) changed = md.held.erase(pt) > 0;
        else { changed = before != v; md.held[pt] = v; }
      }
      else if constexpr (P::kind == follow) { changed = ++md.follow[i].own % 2 == 1; }
      else if constexpr (P::kind == single || P::kind == maybe)
      {
        if (is_update) { changed = before != v; may = true; md.single[i] = v; }
      }
      for (int c : D::state_consumers())
        if (changed || may) (changed ? want : optional_notes).push_back("S" + std::to_string(c) + " " + path_text(p) + " while " + shown<D, i>(md, p));
      to_consumers(text(m));
      listeners(text(m));
      nbdl::apply_message(ctx, m);
    };
    auto upstream = [&](auto const& m)
    {
      s.note("send", text(m));
      want.push_back(owner + text(m));
      nbdl::apply_message(ctx, m);
    };
    bool up = s.boolean();
    switch (kinds[s.choose(kinds.size())])
    {
      case 0: if constexpr (P::actions & 1)
      {
        auto x = gen_item<payload>(s);
        if (!up) { downstream(message::make_downstream_create(p, message::no_uid, x, message::no_is_confirmed), true, show(x)); break; }
        using last = std::decay_t<decltype(hana::back(p))>;
        if constexpr (std::is_empty_v<last>)
        {
          auto m = message::make_upstream_create(p, message::no_uid, x);
          listeners(text(m));
          upstream(m);
        }
        else upstream(message::make_upstream_create(message::make_create_path<last>(hana::drop_back(p)), message::no_uid, x));
      } break;
      case 1: if constexpr (P::actions & 2)
      {
        {
          if (up)
          {
            if constexpr (P::kind != null)
            {
              auto m = message::make_upstream_read(p, message::no_uid);
              s.note("send", text(m));
              if (before == "absent") { md.held[pt] = "unresolved"; want.push_back(owner + text(m)); }
              else if (before != "unresolved") to_consumers("down-read" + text(m).substr(7) + " payload=" + before + " confirmed=false");
              listeners(text(m));
              nbdl::apply_message(ctx, m);
            }
            break;
          }
          if (P::kind == dictionary && s.chance(30))
          {
            if constexpr (P::kind == dictionary) downstream(message::make_downstream_read(p, message::no_uid, nbdl::not_found{}), false, "not found");
            break;
          }
        }
        auto x = gen_item<payload>(s);
        downstream(message::make_downstream_read(p, message::no_uid, x), false, show(x));
      } break;
      case 2: if constexpr (P::actions & 4)
      {
        auto x = gen_item<payload>(s);
        if (!up) { downstream(message::make_downstream_update(p, message::no_uid, x, message::no_is_confirmed), true, show(x)); break; }
        auto m = message::make_upstream_update(p, message::no_uid, x);
        listeners(text(m));
        upstream(m);
      } break;
      case 3: if constexpr (P::actions & 8)
      {
        if (!up) { downstream(message::make_downstream_delete(p, message::no_uid, message::no_is_confirmed), true, ""); break; }
        auto m = message::make_upstream_delete(p, message::no_uid);
        listeners(text(m));
        upstream(m);
      }
    }
    auto got = sorted(told), a = sorted(want);
    auto b = want;
    b.insert(b.end(), optional_notes.begin(), optional_notes.end());
    if (got != a && got != sorted(b)) s.fail("the actors were told", join(told), "\n    instead of", join(want));
  }

  template <typename D, std::size_t i, typename Ctx> void show_one(vf::Src& s, Ctx& ctx, model<D> const& md)
  {
    using P = point_at<D, i>;
    if constexpr (P::kind != null)
    {
      auto p = gen_path<typename P::path>(s);
      told.clear();
      s.equal(look(ctx, p), shown<D, i>(md, p), "shown at " + path_text(p));
      s.check(told.empty(), "looking something up told an actor", join(told));
    }
  }

  // one message for some access point, and a look at all of them
  template <typename D, typename Ctx> void step_any(vf::Src& s, Ctx& ctx, model<D>& md)
  {
    using fn = void(*)(vf::Src&, Ctx&, model<D>&);
    static auto table = []<std::size_t ...i>(std::index_sequence<i...>)
    { return std::vector<fn>{[](vf::Src& s, auto& c, model<D>& m) { step<D, i>(s, c, m); }...}; }(std::make_index_sequence<point_count<D>>{});
    table[s.choose(table.size())](s, ctx, md);
    [&]<std::size_t ...i>(std::index_sequence<i...>) { (show_one<D, i>(s, ctx, md), ...); }(std::make_index_sequence<point_count<D>>{});
  }

  // the case that makes a context; its actors send and look while they are initialised
  template <typename D> struct running { vf::Src& s; model<D>& md; static inline running* now = nullptr; };
  template <typename Tag> requires requires { typename Tag::def; } struct on_init<Tag>
  {
    static void apply(auto& actor)
    {
      using D = typename Tag::def;
      auto* r = running<D>::now;
      if constexpr (point_count<D> > 0)
        if (r && r->s.chance(25)) { r->s.note("while", inits.back(), "is initialised"); step_any<D>(r->s, actor.context, r->md); }
    }
  };

  template <typename D> void run_one(vf::Src& s)
  {
    model<D> md;
    running<D> r{s, md};
    inits.clear();
    running<D>::now = &r;
    struct reset { ~reset() { running<D>::now = nullptr; } } at_end;
    auto ctx = s.boolean() ? nbdl::make_unique_context<typename D::tag>() : nbdl::make_context<typename D::tag>();
    running<D>::now = nullptr;
    s.equal(join(sorted(inits)), join(sorted(D::inits())), "initialised actors");
    s.check(std::is_partitioned(inits.begin(), inits.end(), [](auto& x) { return x[0] == 'p'; }), "a consumer was initialised before a producer", join(inits));
    if constexpr (point_count<D> > 0)
    {
      std::size_t n = 1 + s.size(20);
      for (std::size_t k = 0; k < n; k++) step_any<D>(s, *ctx, md);
      s.nontrivial(n >= 3 && point_count<D> > 1);
    }
  }

  template <typename Ctx, std::size_t ...i> std::vector<std::string> actor_kinds(std::index_sequence<i...>)
  { return {actor_text<std::decay_t<decltype(std::declval<Ctx&>().template actor<i>())>>::get()...}; }
  template <typename Ctx, std::size_t ...i> std::vector<std::string> actor_args(Ctx& c, std::index_sequence<i...>)
  { return {c.template actor<i>().given...}; }

  template <typename D> struct add
  {
    add(char const* source, std::vector<std::string> up, std::vector<std::string> down, std::vector<std::string> kinds)
    {
      using api = nbdl::message_api<typename D::tag>;
      using context = nbdl::context<typename D::tag>;
      definition d{source, up, down, alternatives(static_cast<typename api::upstream_variant_ const*>(nullptr)),
        alternatives(static_cast<typename api::downstream_variant_ const*>(nullptr)), 0, 0,
        actor_kinds<context>(std::make_index_sequence<D::actors>{}), kinds, run_one<D>, D::given};
      definitions().push_back(d);
    }
  };
}
namespace c26 { using namespace nbdl_def; using namespace cx; using namespace hana::literals; }
#endif

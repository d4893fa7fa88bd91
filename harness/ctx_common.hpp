// Recording actors, stores and message texts shared by the context checks.
#ifndef CTX_COMMON_HPP
#define CTX_COMMON_HPP
#include "vf.hpp"
#include <boost/hana.hpp>
#include <mpdef/list.hpp>
#include <nbdl/concept/Store.hpp>
#include <nbdl/consumer_init.hpp>
#include <nbdl/context.hpp>
#include <nbdl/context_store.hpp>
#include <nbdl/producer_init.hpp>
#include <nbdl/def/builder/context.hpp>
#include <nbdl/def/directives.hpp>
#include <nbdl/echo_producer.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/make_context.hpp>
#include <nbdl/make_def.hpp>
#include <nbdl/map_store.hpp>
#include <nbdl/message.hpp>
#include <nbdl/null_store.hpp>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace hana = boost::hana;
namespace message = nbdl::message;

namespace cx
{
  template <int i> struct key { int value; };
  template <int i> struct item { int n; std::string text; };
  struct fake_uid { std::string value; };   // no key can be made from it

  inline std::vector<std::string> told;      // everything the actors were told
  inline std::vector<std::string> inits;     // the actors that were initialised

  // what the actors of a definition do when they are initialised
  template <typename Tag> struct on_init { static void apply(auto&) { } };
}

namespace nbdl
{
  template <int i> struct entity_members_impl<cx::key<i>>
  { using type = mpdef::list<NBDL_MEMBER(&cx::key<i>::value)>; };
  template <int i> struct entity_members_impl<cx::item<i>>
  { using type = mpdef::list<NBDL_MEMBER(&cx::item<i>::n), NBDL_MEMBER(&cx::item<i>::text)>; };
}

namespace cx
{
  struct exact_store_tag { };
  struct follow_store_tag { };

  // ---- texts -----------------------------------------------------------
  template <int i> std::string show(key<i> const& k) { return std::to_string(i) + "#" + std::to_string(k.value); }
  template <int i> std::string show(item<i> const& x) { return "item" + std::to_string(i) + "(" + std::to_string(x.n) + "," + x.text + ")"; }
  inline std::string show(fake_uid const& u) { return u.value; }
  inline std::string show(message::no_impl) { return "none"; }
  inline std::string show(nbdl::not_found) { return "not found"; }
  inline std::string show(nbdl::unresolved) { return "unresolved"; }
  inline std::string show(nbdl::nothing) { return "nothing"; }
  inline std::string show(nbdl::not_in_set) { return "absent"; }
  inline std::string show(nbdl::trigger_read) { return "absent"; }
  inline std::string show(bool b) { return b ? "true" : "false"; }
  inline std::string show(int b) { return std::to_string(b); }
  inline std::string show(std::string const& b) { return b; }
  template <bool b> std::string show(std::integral_constant<bool, b>) { return b ? "true" : "false"; }
  template <int i> std::string show(hana::integral_constant<int, i>) { return std::to_string(i) + "!"; }
  inline std::string show(exact_store_tag) { return "exact tag"; }
  inline std::string show(follow_store_tag) { return "follow tag"; }
  inline std::string show(nbdl::map_store_tag) { return "map tag"; }
  inline std::string show(nbdl::null_store) { return "null tag"; }
  inline std::string show(hana::true_) { return "true"; }
  inline std::string show(hana::false_) { return "false"; }

  template <typename P> std::string path_text(P const& p)
  {
    std::string r;
    if constexpr (hana::is_a<message::create_path_tag, P>)
    {
      hana::for_each(p.parent_path, [&](auto const& k) { r += "/" + show(k); });
      using K = typename P::key;
      r += "/new";
      r += []<int i>(hana::basic_type<key<i>>) { return std::to_string(i); }(hana::type_c<K>);
    }
    else hana::for_each(p, [&](auto const& k) { r += "/" + show(k); });
    return r;
  }
  template <typename M> std::string text(M const& m)
  {
    namespace ch = message::channel; namespace ac = message::action;
    std::string r;
    r += message::is_upstream<M> ? "up-" : message::is_downstream<M> ? "down-" : "?-";
    r += message::is_create<M> ? "create" : message::is_read<M> ? "read" : message::is_update<M> ? "update" : message::is_delete<M> ? "delete" : "?";
    r += " " + path_text(message::get_path(m));
    if constexpr (message::has_uid<M>) r += " uid=" + show(message::get_uid(m));
    if constexpr (!message::is_delete<M> && !(message::is_upstream<M> && message::is_read<M>)) r += " payload=" + show(message::get_payload(m));
    if constexpr (message::is_downstream<M>) r += std::string(" confirmed=") + (message::is_confirmed(m) ? "true" : "false");
    return r;
  }

  // ---- actors ----------------------------------------------------------
  inline std::string given_text(hana::basic_type<void>) { return "nothing"; }
  inline std::string given_text(int i) { return std::to_string(i); }
  inline std::string given_text(std::string const& x) { return "text " + x; }
  inline std::string given_text(std::unique_ptr<int> const& x) { return "owned " + (x ? std::to_string(*x) : "nothing"); }

  template <int id> struct producer_tag { };
  template <int id> struct consumer_tag { };
  template <int id> struct state_consumer_tag { };
  template <int id> struct both_tag { };

  template <typename Tag, typename Context> struct actor
  {
    using hana_tag = Tag;
    Context context;
    std::string given;    // the argument it was made from
    template <typename A> actor(nbdl::actor_initializer<Context, A>&& a) : context(a.context), given(given_text(a.value)) { }
  };

  // who is given a message as its own may keep it
  template <typename M> void take(M&& m)
  {
    if constexpr (!std::is_lvalue_reference_v<M> && !std::is_const_v<std::remove_reference_t<M>>) { [[maybe_unused]] auto mine = std::move(m); }
  }

  // a null store has nothing to look up
  template <typename P> struct has_store : std::true_type { };

  template <typename Ctx, typename P> std::string look(Ctx& c, P const& p)
  {
    if constexpr (has_store<P>::value)
    {
      std::string r = "nothing";
      int calls = 0;
      nbdl::match(c, p, [&](auto const& v) { calls++; r = show(v); });
      return calls == 1 ? r : "visited " + std::to_string(calls) + " times";
    }
    else return "null";
  }
}

namespace nbdl
{
#define CX_ACTOR(TAG)                                                         \
  template <int id, typename Context>                                         \
  struct actor_type<cx::TAG<id>, Context> { using type = cx::actor<cx::TAG<id>, Context>; };
  CX_ACTOR(producer_tag) CX_ACTOR(consumer_tag) CX_ACTOR(state_consumer_tag) CX_ACTOR(both_tag)
#undef CX_ACTOR

#define CX_INIT(KIND, TAG)                                                    \
  template <int id> struct KIND##_init_impl<cx::TAG##_tag<id>>                \
  {                                                                           \
    template <typename A> static void apply(A& a)                             \
    {                                                                         \
      cx::inits.push_back(#TAG + std::to_string(id));                         \
      cx::on_init<typename decltype(a.context)::tag>::apply(a);               \
    }                                                                         \
  };
  CX_INIT(producer, producer) CX_INIT(consumer, consumer) CX_INIT(consumer, both)
#undef CX_INIT

  template <int id> struct send_upstream_message_impl<cx::producer_tag<id>>
  {
    template <typename P, typename M> static void apply(P&, M&& m)
    { cx::told.push_back("P" + std::to_string(id) + " " + cx::text(m)); cx::take(std::forward<M>(m)); }
  };
  template <int id> struct send_downstream_message_impl<cx::consumer_tag<id>>
  {
    template <typename C, typename M> static void apply(C& c, M&& m)
    { cx::told.push_back("C" + std::to_string(id) + " " + cx::text(m) + " while " + cx::look(c.context, message::get_path(m))); cx::take(std::forward<M>(m)); }
  };
  template <int id> struct send_downstream_message_impl<cx::both_tag<id>>
  {
    template <typename C, typename M> static void apply(C& c, M&& m)
    { cx::told.push_back("C" + std::to_string(id) + " " + cx::text(m) + " while " + cx::look(c.context, message::get_path(m))); cx::take(std::forward<M>(m)); }
  };
  template <int id> struct notify_state_change_impl<cx::state_consumer_tag<id>>
  {
    template <typename C, typename P> static void apply(C&& c, P&& p)
    { cx::told.push_back("S" + std::to_string(id) + " " + cx::path_text(p) + " while " + cx::look(c.context, p)); }
  };
  template <int id> struct notify_state_change_impl<cx::both_tag<id>>
  {
    template <typename C, typename P> static void apply(C&& c, P&& p)
    { cx::told.push_back("S" + std::to_string(id) + " " + cx::path_text(p) + " while " + cx::look(c.context, p)); }
  };
}

// ---- stores ------------------------------------------------------------
namespace cx
{
  // keeps one value per key and reports exactly whether it changed
  template <typename Path> struct exact_store
  {
    using hana_tag = exact_store_tag;
    std::map<std::string, std::string> held;
  };
  // follows the messages for the paths it listens to
  template <typename Path> struct follow_store
  {
    using hana_tag = follow_store_tag;
    std::vector<std::string> seen, own;
  };
  inline int last_int(std::string const& s) { return static_cast<int>(s.size() % 3); }
}
namespace nbdl
{
  template <> struct make_store_impl<cx::exact_store_tag>
  {
    template <typename P, typename E> static auto apply(P, E) -> cx::exact_store<typename P::type> { return {}; }
  };
  template <> struct make_store_impl<cx::follow_store_tag>
  {
    template <typename P, typename E> static auto apply(P, E) -> cx::follow_store<typename P::type> { return {}; }
  };
  template <> struct apply_message_impl<cx::exact_store_tag>
  {
    template <typename S, typename M> static bool apply(S& s, M&& m)
    {
      bool const changed = keep(s, m);
      cx::take(std::forward<M>(m));
      return changed;
    }
    template <typename S, typename M> static bool keep(S& s, M const& m)
    {
      auto k = cx::path_text(message::get_path(m));
      if constexpr (message::is_upstream<M>) { return false; }
      else if constexpr (message::is_delete<M>) return s.held.erase(k) > 0;
      else
      {
        auto v = cx::show(message::get_payload(m));
        if (s.held.count(k) && s.held[k] == v) return false;
        s.held[k] = v;
        return true;
      }
    }
  };
  template <> struct match_impl<cx::exact_store_tag>
  {
    template <typename S, typename K, typename F> static void apply(S&& s, K&& k, F&& f)
    {
      auto itr = s.held.find(cx::path_text(k));
      if (itr == s.held.end()) f(nbdl::not_found{});
      else f(itr->second);
    }
  };
  template <> struct apply_message_impl<cx::follow_store_tag>
  {
    template <typename S, typename M> static bool apply(S& s, M&& m)
    {
      if constexpr (message::is_upstream<std::decay_t<M>>) return false;
      else { s.own.push_back(cx::text(m)); cx::take(std::forward<M>(m)); return s.own.size() % 2 == 1; }
    }
  };
  template <> struct apply_foreign_message_impl<cx::follow_store_tag>
  {
    template <typename P> static void tell(std::vector<std::string>& seen, hana::basic_type<P>, auto& fn)
    {
      // tells about as many keys as the text length says: 0, 1 or 2
      int n = cx::last_int(seen.back());
      for (int i = 0; i < n; i++)
      {
        P p = hana::unpack(P{}, [&](auto k, auto ...ks) { if constexpr (!std::is_empty_v<decltype(k)>) k.value = i; return P(k, ks...); });
        fn(p);
      }
    }
    template <typename S, typename M, typename F> static void apply(S& s, M&& m, F&& fn)
    {
      s.seen.push_back(cx::text(m));
      cx::take(std::forward<M>(m));
      []<typename P>(cx::follow_store<P>& st, auto& f) { tell(st.seen, hana::type_c<P>, f); }(s, fn);
    }
  };
  template <> struct match_impl<cx::follow_store_tag>
  {
    template <typename S, typename K, typename F> static void apply(S&& s, K&&, F&& f)
    {
      std::string r = std::to_string(s.own.size()) + "+" + std::to_string(s.seen.size());
      f(r);
    }
  };
}
#endif

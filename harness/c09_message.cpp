// C09: messages keep channel, action, path, uid, payload intact
#include "vf.hpp"
#include <boost/hana.hpp>
#include <mpdef/list.hpp>
#include <nbdl/binder/jsoncpp.hpp>
#include <nbdl/def/builder/entity_messages.hpp>
#include <nbdl/detail/make_create_path_type.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/message.hpp>
#include <nbdl/message_api.hpp>
#include <nbdl/variant.hpp>
#include <optional>
#include <string>
#include <vector>

namespace hana = boost::hana;
namespace message = nbdl::message;

namespace t
{
  struct root { int n; };                 // a key
  struct name { std::string v; };         // a key that owns memory
  struct only { };                        // an empty key
  struct fresh { std::string v; };        // a uid
  struct thing { int a; std::string b; std::vector<int> c; };
  struct secret { std::string v; };
  using late = nbdl::variant<name, fresh>;  // a key or the uid that stands for it
}
namespace nbdl
{
  NBDL_ENTITY(t::root, n);
  NBDL_ENTITY(t::name, v);
  NBDL_ENTITY(t::fresh, v);
  NBDL_ENTITY(t::secret, v);
  NBDL_ENTITY(t::thing, a, b, c);
  template <> struct entity_members_impl<t::only> { using type = mpdef::list<>; };
}

namespace t
{
  std::string show(root const& x) { return "root" + std::to_string(x.n); }
  std::string show(name const& x) { return "name" + vf::show(x.v); }
  std::string show(only const&) { return "only"; }
  std::string show(fresh const& x) { return "fresh" + vf::show(x.v); }
  std::string show(secret const& x) { return "secret" + vf::show(x.v); }
  std::string show(thing const& x)
  {
    std::string r = "thing(" + std::to_string(x.a) + vf::show(x.b);
    for (int i : x.c) r += "," + std::to_string(i);
    return r + ")";
  }
  std::string show(late const& x)
  {
    std::string r = "?";
    nbdl::match(x, hana::overload_linearly([&](name const& n) { r = "late:" + show(n); }, [&](fresh const& f) { r = "late:" + show(f); }, [&](auto const&) { r = "late:?"; }));
    return r;
  }
  std::string show(bool b) { return b ? "yes" : "no"; }
  std::string show(hana::true_) { return "yes"; }
  std::string show(hana::false_) { return "no"; }
  std::string show(message::no_impl) { return "-"; }
  std::string show(nbdl::not_found) { return "not-found"; }

  template <typename K> constexpr char const* kind = "?";
  template <> constexpr char const* kind<root> = "root";
  template <> constexpr char const* kind<name> = "name";
  template <> constexpr char const* kind<only> = "only";
  template <> constexpr char const* kind<late> = "late";

  template <typename P> std::string path_text(P const& p)
  {
    std::string r;
    if constexpr (hana::is_a<message::create_path_tag, P>)
    {
      hana::for_each(p.parent_path, [&](auto const& k) { r += "/" + show(k); });
      return r + "/new " + kind<typename P::key>;
    }
    else hana::for_each(p, [&](auto const& k) { r += "/" + show(k); });
    return r;
  }

  // what a message was made from
  struct model
  {
    bool up; int action;                     // 0 create 1 read 2 update 3 delete
    std::string path;
    std::optional<std::string> uid, payload, priv, confirmed;
    std::optional<std::string> normal;       // the path of the object, when known
  };
}

template <typename M, typename ...> struct all_traits { };

// all that a message holds, as text
template <typename M> static std::string all_parts(M const& m)
{
  std::string r = t::path_text(message::get_path(m));
  if constexpr (message::has_uid<M>) r += " uid " + t::show(message::get_uid(m));
  if constexpr (message::has_payload<M>) r += " payload " + t::show(message::get_payload(m));
  if constexpr (message::has_private_payload<M>) r += " private " + t::show(message::get_private_payload(m));
  return r + (message::is_confirmed(m) ? " yes" : " no");
}
// everything that can be asked about a message
template <typename M>
static void ask(vf::Src& s, M const& m, t::model const& w, char const* where)
{
  auto is = [&](bool got, bool expected, char const* what) { s.equal(got, expected, where, ": ", what); };
  is(message::is_upstream<M>, w.up, "is_upstream");
  is(message::is_downstream<M>, !w.up, "is_downstream");
  is(message::is_upstream<M const&>, w.up, "is_upstream of a reference");
  is(message::is_downstream<M&&>, !w.up, "is_downstream of a reference");
  is(message::is_create<M>, w.action == 0, "is_create");
  is(message::is_read<M>, w.action == 1, "is_read");
  is(message::is_update<M>, w.action == 2, "is_update");
  is(message::is_delete<M>, w.action == 3, "is_delete");
  is(message::is_create<M&>, w.action == 0, "is_create of a reference");
  using C = std::decay_t<decltype(message::get_channel(m))>;
  is(std::is_same_v<C, message::channel::upstream>, w.up, "channel upstream");
  is(std::is_same_v<C, message::channel::downstream>, !w.up, "channel downstream");
  using A = std::decay_t<decltype(message::get_action(m))>;
  is(std::is_same_v<A, message::action::create>, w.action == 0, "action create");
  is(std::is_same_v<A, message::action::read>, w.action == 1, "action read");
  is(std::is_same_v<A, message::action::update>, w.action == 2, "action update");
  is(std::is_same_v<A, message::action::delete_>, w.action == 3, "action delete");
  using T = hana::tag_of_t<M>;
  is(std::is_same_v<T, message::upstream_create_tag>, w.up && w.action == 0, "tag upstream create");
  is(std::is_same_v<T, message::upstream_read_tag>, w.up && w.action == 1, "tag upstream read");
  is(std::is_same_v<T, message::upstream_update_tag>, w.up && w.action == 2, "tag upstream update");
  is(std::is_same_v<T, message::upstream_delete_tag>, w.up && w.action == 3, "tag upstream delete");
  is(std::is_same_v<T, message::downstream_create_tag>, !w.up && w.action == 0, "tag downstream create");
  is(std::is_same_v<T, message::downstream_read_tag>, !w.up && w.action == 1, "tag downstream read");
  is(std::is_same_v<T, message::downstream_update_tag>, !w.up && w.action == 2, "tag downstream update");
  is(std::is_same_v<T, message::downstream_delete_tag>, !w.up && w.action == 3, "tag downstream delete");

  s.equal(t::path_text(message::get_path(m)), w.path, where, ": path");
  is(message::has_uid<M>, w.uid.has_value(), "has_uid");
  if constexpr (message::has_uid<M>) s.equal(t::show(message::get_uid(m)), *w.uid, where, ": uid");
  is(message::has_payload<M>, w.payload.has_value(), "has_payload");
  if constexpr (message::has_payload<M>) s.equal(t::show(message::get_payload(m)), *w.payload, where, ": payload");
  is(message::has_private_payload<M>, w.priv.has_value(), "has_private_payload");
  if constexpr (message::has_private_payload<M>) s.equal(t::show(message::get_private_payload(m)), *w.priv, where, ": private payload");
  is(message::has_is_confirmed<M>, w.confirmed.has_value(), "has_is_confirmed");
  s.equal(std::string(message::is_confirmed(m) ? "yes" : "no"), w.confirmed.value_or("no"), where, ": is_confirmed");

  is(message::is_path_normalizable<M>, w.normal.has_value(), "is_path_normalizable");
  is(message::requires_key_for_downstream<M>, !w.normal.has_value(), "requires_key_for_downstream");
  if constexpr (message::is_path_normalizable<M>)
  {
    s.equal(t::path_text(message::get_normalized_path(m)), *w.normal, where, ": normalized path");
    is(std::is_same_v<typename decltype(message::get_path_type(m))::type, std::decay_t<decltype(message::get_normalized_path(m))>>,
      true, "path type");
  }

  // asking leaves the message of the caller as it was, and what it tells when it is given away is the same
  {
    M mine = m;
    auto same = [&](char const* what) { s.equal(all_parts(mine), all_parts(m), where, ": the caller's message after asking for ", what); };
    { auto x = message::get_path(mine); (void)x; same("its path"); }
    if constexpr (message::has_uid<M>) { auto x = message::get_uid(mine); (void)x; same("its uid"); }
    if constexpr (message::has_payload<M>) { auto x = message::get_payload(mine); (void)x; same("its payload"); }
    if constexpr (message::has_private_payload<M>) { auto x = message::get_private_payload(mine); (void)x; same("its private payload"); }
    if constexpr (message::is_path_normalizable<M>)
    {
      { auto x = message::get_normalized_path(mine); (void)x; same("its normalized path"); }
      M given = m;
      s.equal(t::path_text(message::get_normalized_path(std::move(given))), *w.normal, where, ": normalized path of a message that is given away");
    }
    { auto x = message::is_confirmed(mine); (void)x; same("its confirmation"); }
    { M given = m; s.equal(t::path_text(message::get_path(std::move(given))), w.path, where, ": path of a message that is given away"); }
    if constexpr (message::has_payload<M>) { M given = m; s.equal(t::show(message::get_payload(std::move(given))), *w.payload, where, ": payload of a message that is given away"); }
  }

  // bound as a sequence: exactly the parts it has, in order
  std::vector<std::string> parts, want{w.path};
  nbdl::bind_sequence(m, [&](auto const& path, auto const& ...xs)
  {
    parts.push_back(t::path_text(path));
    (parts.push_back(t::show(xs)), ...);
  });
  if (w.uid) want.push_back(*w.uid);
  if (w.payload && *w.payload != "not-found") want.push_back(*w.payload);   // values without content are not bound
  if (w.priv) want.push_back(*w.priv);
  if (w.confirmed) want.push_back(*w.confirmed);
  s.equal(parts == want, true, where, ": bound parts");
}

// ---- generators ------------------------------------------------------------
static std::string word(vf::Src& s) { return s.text_of("abcXYZ \"\\0", 40); }
static t::thing gen_thing(vf::Src& s)
{
  t::thing x{s.integer<int>(), word(s), {}};
  std::size_t n = s.upto(4);
  while (n--) x.c.push_back(s.integer<int>());
  return x;
}
template <typename F> static void with_uid(vf::Src& s, F f)
{
  switch (s.choose(3))
  {
    case 0: return f(message::no_uid, std::optional<std::string>{});
    case 1: { t::fresh u{word(s)}; return f(u, std::optional{t::show(u)}); }
    default: { t::root u{s.integer<int>()}; return f(u, std::optional{t::show(u)}); }
  }
}
template <typename F> static void with_confirmed(vf::Src& s, F f)
{
  if (s.boolean()) f(message::no_is_confirmed, std::optional<std::string>{});
  else { bool b = s.boolean(); f(b, std::optional{t::show(b)}); }
}
template <typename F> static void with_path(vf::Src& s, F f)
{
  t::root r{s.integer<int>()};
  t::name n{word(s)};
  switch (s.choose(5))
  {
    case 0: return f(hana::make_tuple(r));
    case 1: return f(hana::make_tuple(r, n));
    case 2: return f(hana::make_tuple(n, r, n));
    case 3: return f(hana::make_tuple(r, t::only{}));
    default: return f(hana::make_tuple(r, s.boolean() ? t::late{n} : t::late{t::fresh{word(s)}}));
  }
}
template <typename F> static void with_payload(vf::Src& s, F f)
{
  if (s.chance(80)) f(gen_thing(s)); else f(nbdl::not_found{});
}

// turn a message downstream in one of several ways, from an lvalue or an rvalue
template <typename M, typename F>
static void derive(vf::Src& s, M m, t::model const& w, F make, char const* where)
{
  M before = m;
  ask(s, make(m), w, where);
  ask(s, make(static_cast<M const&>(m)), w, where);
  // a look does not alter it
  s.equal(t::path_text(message::get_path(m)), t::path_text(message::get_path(before)), where, ": the source keeps its path");
  if constexpr (message::has_payload<M>)
    s.equal(t::show(message::get_payload(m)), t::show(message::get_payload(before)), where, ": the source keeps its payload");
  if constexpr (message::has_uid<M>)
    s.equal(t::show(message::get_uid(m)), t::show(message::get_uid(before)), where, ": the source keeps its uid");
  ask(s, make(std::move(m)), w, where);
}

static t::model down(t::model w, std::optional<std::string> confirmed)
{
  w.up = false;
  w.confirmed = std::move(confirmed);
  w.priv = {};
  return w;
}

VF_PROP(read_messages, 8000, 200000)
{
  with_path(s, [&](auto path) { with_uid(s, [&](auto uid, auto uid_text)
  {
    s.nontrivial();
    t::model w{true, 1, t::path_text(path), uid_text, {}, {}, {}, t::path_text(path)};
    s.note(w.path, uid_text.value_or("no uid"));
    auto m = message::make_upstream_read(path, uid);
    ask(s, m, w, "upstream read");
    if (!uid_text) ask(s, message::make_upstream_read(path), w, "upstream read without uid");
    with_payload(s, [&](auto payload)
    {
      auto d = down(w, {});
      d.payload = t::show(payload);
      ask(s, message::make_downstream_read(path, uid, payload), d, "downstream read");
      derive(s, m, d, [&](auto&& x) { return message::to_downstream_read(std::forward<decltype(x)>(x), payload); }, "to_downstream_read");
      derive(s, m, d, [&](auto&& x) { auto p = payload; return message::to_downstream_read(std::forward<decltype(x)>(x), std::move(p)); }, "to_downstream_read, moved payload");
    });
  }); });
}

VF_PROP(update_and_delete_messages, 8000, 200000)
{
  with_path(s, [&](auto path) { with_uid(s, [&](auto uid, auto uid_text)
  {
    s.nontrivial();
    s.note(t::path_text(path), uid_text.value_or("no uid"));
    with_payload(s, [&](auto payload)
    {
      t::model w{true, 2, t::path_text(path), uid_text, t::show(payload), {}, {}, t::path_text(path)};
      auto m = message::make_upstream_update(path, uid, payload);
      ask(s, m, w, "upstream update");
      derive(s, m, down(w, "yes"), [](auto&& x) { return message::to_downstream_confirmed(std::forward<decltype(x)>(x)); }, "to_downstream_confirmed update");
      with_confirmed(s, [&](auto c, auto c_text)
      {
        ask(s, message::make_downstream_update(path, uid, payload, c), down(w, c_text), "downstream update");
        derive(s, m, down(w, c_text), [&](auto&& x) { return message::to_downstream(std::forward<decltype(x)>(x), c); }, "to_downstream update");
      });
    });
    t::model w{true, 3, t::path_text(path), uid_text, {}, {}, {}, t::path_text(path)};
    auto m = message::make_upstream_delete(path, uid);
    ask(s, m, w, "upstream delete");
    derive(s, m, down(w, "yes"), [](auto&& x) { return message::to_downstream_confirmed(std::forward<decltype(x)>(x)); }, "to_downstream_confirmed delete");
    with_confirmed(s, [&](auto c, auto c_text)
    {
      ask(s, message::make_downstream_delete(path, uid, c), down(w, c_text), "downstream delete");
      derive(s, m, down(w, c_text), [&](auto&& x) { return message::to_downstream(std::forward<decltype(x)>(x), c); }, "to_downstream delete");
    });
  }); });
}

// the path a create message with this key type and uid has, if it is known
template <typename Key, typename Uid> static std::optional<std::string> known_path(std::string parent, Uid const& u)
{
  if constexpr (std::is_empty_v<Key>) { if constexpr (std::is_same_v<Uid, message::no_impl>) return parent + "/" + t::show(Key{}); }
  if constexpr (std::is_same_v<Key, t::late> && std::is_same_v<Uid, t::fresh>) return parent + "/late:" + t::show(u);
  if constexpr (std::is_same_v<Key, t::root> && std::is_same_v<Uid, t::root>) return parent + "/" + t::show(u);
  return {};
}

template <typename Key, typename Parent, typename Uid, typename GenKey>
static void creates(vf::Src& s, Parent parent, Uid uid, std::optional<std::string> uid_text, GenKey gen_key)
{
  auto payload = gen_thing(s);
  auto path = message::make_create_path<Key>(parent);
  auto parent_text = t::path_text(parent);
  t::model w{true, 0, parent_text + "/new " + t::kind<Key>, uid_text, t::show(payload), {}, {}, known_path<Key>(parent_text, uid)};
  s.note(w.path, uid_text.value_or("no uid"), w.normal.value_or("path unknown"));
  s.nontrivial();
  s.label(w.normal ? "path known" : "key needed");
  // the places of two objects that are yet to be: the same if and only if their parents are
  auto other = parent;
  if (s.boolean()) hana::back(other).n ^= 1 << s.choose(31);
  if constexpr (!std::is_same_v<Parent, hana::tuple<t::root>>) { if (s.boolean()) hana::front(other).v += s.boolean() ? "x" : ""; }
  auto other_path = message::make_create_path<Key>(other);
  s.equal((bool)hana::equal(path, other_path), t::path_text(path) == t::path_text(other_path), "equality of ", t::path_text(path), " and ", t::path_text(other_path));
  s.equal((bool)hana::not_equal(path, other_path), t::path_text(path) != t::path_text(other_path), "inequality of ", t::path_text(path), " and ", t::path_text(other_path));

  auto check_all = [&](auto const& m, t::model const& w)
  {
    ask(s, m, w, "upstream create");
    if constexpr (message::is_path_normalizable<std::decay_t<decltype(m)>>)
    {
      auto d = down(w, "yes");
      derive(s, m, d, [](auto&& x) { return message::to_downstream_confirmed(std::forward<decltype(x)>(x)); }, "to_downstream_confirmed create");
      with_confirmed(s, [&](auto c, auto c_text)
      {
        derive(s, m, down(w, c_text), [&](auto&& x) { return message::to_downstream(std::forward<decltype(x)>(x), c); }, "to_downstream create");
      });
    }
    auto key = gen_key();
    auto d = down(w, {});
    d.path = parent_text + "/" + t::show(Key(key));
    d.normal = d.path;
    derive(s, m, d, [&](auto&& x) { return message::to_downstream_with_key(std::forward<decltype(x)>(x), key); }, "to_downstream_with_key");
    derive(s, m, d, [&](auto&& x) { auto k = key; return message::to_downstream_with_key(std::forward<decltype(x)>(x), std::move(k)); }, "to_downstream_with_key, moved key");
    d.confirmed = "yes";
    derive(s, m, d, [&](auto&& x) { return message::to_downstream_with_key_confirmed(std::forward<decltype(x)>(x), key); }, "to_downstream_with_key_confirmed");
    // the type of the path is that of the object's path
    using Want = std::decay_t<decltype(hana::append(parent, std::declval<Key>()))>;
    s.check(std::is_same_v<std::decay_t<typename decltype(message::get_path_type(m))::type>, Want>
         || message::is_path_normalizable<std::decay_t<decltype(m)>>, "path type of a create message");
  };

  if (s.boolean())
  {
    check_all(message::make_upstream_create(path, uid, payload), w);
    check_all(message::make_upstream_create(path, uid, payload, message::no_private_payload), w);
  }
  else
  {
    t::secret p{word(s)};
    w.priv = t::show(p);
    s.label("private payload");
    check_all(message::make_upstream_create(path, uid, payload, p), w);
  }
  // made downstream directly
  auto key = gen_key();
  auto full = hana::append(parent, Key(key));
  with_confirmed(s, [&](auto c, auto c_text)
  {
    t::model d = down(w, c_text);
    d.path = parent_text + "/" + t::show(Key(key));
    d.normal = d.path;
    ask(s, message::make_downstream_create(full, uid, payload, c), d, "downstream create");
  });
}

VF_PROP(create_messages, 10000, 250000)
{
  auto run = [&](auto parent) { with_uid(s, [&](auto uid, auto uid_text)
  {
    switch (s.choose(4))
    {
      case 0: return creates<t::name>(s, parent, uid, uid_text, [&] { return t::name{word(s)}; });
      case 1: if constexpr (!std::is_same_v<decltype(uid), t::root>) return creates<t::late>(s, parent, uid, uid_text, [&] { return t::name{word(s)}; }); else return;
      case 2: return creates<t::only>(s, parent, uid, uid_text, [&] { return t::only{}; });
      default: return creates<t::root>(s, parent, uid, uid_text, [&] { return t::root{s.integer<int>()}; });
    }
  }); };
  t::root r{s.integer<int>()};
  if (s.boolean()) run(hana::make_tuple(r));
  else run(hana::make_tuple(t::name{word(s)}, r));
}

// a type that is no message is none of the kinds
VF_PROP(not_a_message, -1, -1)
{
  s.nontrivial();
  auto none = [&](auto x)
  {
    using X = decltype(x);
    s.check(!message::is_upstream<X> && !message::is_downstream<X> && !message::is_create<X> && !message::is_read<X>
         && !message::is_update<X> && !message::is_delete<X> && !message::has_uid<X> && !message::has_payload<X>
         && !message::has_private_payload<X> && !message::has_is_confirmed<X>, "a value that is no message has message traits");
  };
  none(0);
  none(t::thing{});
  none(std::string{});
  none(hana::make_tuple(t::root{1}));
  none(message::make_create_path<t::name>(hana::make_tuple(t::root{1})));
}

// ---- messages as alternatives of a message variant --------------------------
namespace t
{
  using P1 = hana::tuple<root, name>;
  using P2 = hana::tuple<root, root>;
  using N = message::no_impl;
  template <typename P> using ups = mpdef::list<
    message::upstream_create<nbdl::detail::make_create_path_t<P>, N, thing, N>, message::upstream_read<P, N>,
    message::upstream_update<P, N, thing>, message::upstream_delete<P, N>>;
  template <typename P> using downs = mpdef::list<
    message::downstream_create<P, N, thing, N>, message::downstream_read<P, N, thing>, message::downstream_read<P, N, nbdl::not_found>,
    message::downstream_update<P, N, thing, N>, message::downstream_delete<P, N, N>>;
  template <typename ...Ls> using variant_of = boost::mp11::mp_apply<nbdl::variant, boost::mp11::mp_append<Ls...>>;
  using up_variant = variant_of<ups<P1>, ups<P2>>;
  using down_variant = variant_of<downs<P1>, downs<P2>>;

  template <typename M> std::string whole(M const& m)
  {
    std::string r = message::is_upstream<M> ? "up " : "down ";
    r += message::is_create<M> ? "create " : message::is_read<M> ? "read " : message::is_update<M> ? "update " : "delete ";
    r += path_text(message::get_path(m));
    if constexpr (message::has_payload<M>) r += " " + show(message::get_payload(m));
    return r;
  }
}

template <typename V, typename M>
static void through_variant(vf::Src& s, M const& m)
{
  auto want = t::whole(m);
  s.note(want);
  s.nontrivial();
  V v{m};
  int calls = 0;
  auto see = [&](V const& v, char const* where)
  {
    calls = 0;
    nbdl::match(v, [&](auto const& x)
    {
      calls++;
      if constexpr (std::is_same_v<std::decay_t<decltype(x)>, nbdl::unresolved>) s.fail(where, ": the variant lost the message");
      else
      {
        s.check(std::is_same_v<std::decay_t<decltype(x)>, M>, where, ": the kind of message changed");
        s.equal(t::whole(x), want, where);
      }
    });
    s.equal(calls, 1, where, ": visits");
  };
  see(v, "message in a variant");
  V c = v;
  see(c, "copied");
  V d = std::move(c);
  see(d, "moved");
  // over the wire and back
  auto text = nbdl::binder::jsoncpp::to_string(v);
  V e;
  nbdl::binder::jsoncpp::from_string(text, e);
  see(e, "read back from JSON");
}

template <typename P, typename K> static void variants(vf::Src& s, P path, K)
{
  auto x = gen_thing(s);
  auto parent = hana::drop_back(path);
  auto cp = message::make_create_path<K>(parent);
  constexpr auto n = message::no_impl{};
  switch (s.choose(9))
  {
    case 0: return through_variant<t::up_variant>(s, message::make_upstream_create(cp, n, x));
    case 1: return through_variant<t::up_variant>(s, message::make_upstream_read(path));
    case 2: return through_variant<t::up_variant>(s, message::make_upstream_update(path, n, x));
    case 3: return through_variant<t::up_variant>(s, message::make_upstream_delete(path, n));
    case 4: return through_variant<t::down_variant>(s, message::make_downstream_create(path, n, x, n));
    case 5: return through_variant<t::down_variant>(s, message::make_downstream_read(path, n, x));
    case 6: return through_variant<t::down_variant>(s, message::make_downstream_read(path, n, nbdl::not_found{}));
    case 7: return through_variant<t::down_variant>(s, message::make_downstream_update(path, n, x, n));
    default: return through_variant<t::down_variant>(s, message::make_downstream_delete(path, n, n));
  }
}

VF_PROP(message_variants, 6000, 150000)
{
  t::root r{s.integer<int>()};
  if (s.boolean()) variants(s, hana::make_tuple(r, t::name{word(s)}), t::name{});
  else variants(s, hana::make_tuple(r, t::root{s.integer<int>()}), t::root{});
}

// messages of the system itself travel like any other
VF_PROP(system_messages, 2000, 40000)
{
  using M = nbdl::system_message;
  M m{};
  int n = static_cast<int>(s.choose(5));
  m.level = static_cast<decltype(m.level)>(n);
  m.value = s.chance(20) ? std::string() : word(s);
  s.note(n, m.value);
  s.nontrivial();
  nbdl::variant<M, t::thing, std::string> v(m), w;
  auto look = [&](auto const& x, char const* where)
  {
    int seen = 0;
    nbdl::match(x, [&](auto const& y)
    {
      if constexpr (std::is_same_v<std::decay_t<decltype(y)>, M>) { seen++; s.equal(static_cast<int>(y.level), n, where, ": level"); s.equal(y.value, m.value, where, ": text"); }
    });
    s.equal(seen, 1, where, ": the system's message is there");
  };
  look(v, "in a variant");
  nbdl::binder::jsoncpp::from_string(nbdl::binder::jsoncpp::to_string(v), w);
  look(w, "read back");
  std::vector<std::string> names;
  nbdl::bind_map(m, [&](auto&& ...xs) { (names.push_back(hana::first(xs).c_str()), ...); });
  s.check(names == std::vector<std::string>{"level", "value"}, "the members of a system's message");
  s.check(nbdl::system_message::ERROR == 0 && nbdl::system_message::DEV_DEBUG == 4, "levels in order of importance");
}

// C33: an action changes exactly the state it addresses, and says whether it did
#include "vf.hpp"
#include <boost/hana.hpp>
#include <nbdl/apply_action.hpp>
#include <nbdl/apply_message.hpp>
#include <nbdl/context_store.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/ext/std/unordered_map.hpp>
#include <nbdl/local_version.hpp>
#include <nbdl/map_store.hpp>
#include <nbdl/match.hpp>
#include <nbdl/store_compose.hpp>
#include <nbdl/store_range.hpp>
#include <nbdl/variant.hpp>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>

namespace hana = boost::hana;
namespace message = nbdl::message;

namespace ac
{
  struct note { int n; std::string text; };
  bool operator==(note const& a, note const& b) { return a.n == b.n && a.text == b.text; }
}
namespace nbdl { NBDL_ENTITY(ac::note, n, text); }

namespace ac
{
  struct k1 { }; struct k2 { }; struct k3 { }; struct k4 { }; struct k5 { }; struct k6 { };
  struct item_key { };

  std::string word(vf::Src& s) { return s.chance(15) ? std::string(40, 'w') + s.text_of("ab", 2) : s.text_of("abc", 3); }

  // a step to be run on a store: it knows what it was run on and as what kind of value
  struct runlog { int calls = 0; void const* where = nullptr; char kind = 0; };
  template <typename T>
  struct step
  {
    runlog* l;
    std::function<void(T&)> f;
    int again = 0; // its own state
    template <typename X> void run(X& x, char kind) const
    {
      static_assert(std::is_same_v<X, T>, "a step is given the store itself");
      l->calls++; l->where = &x; l->kind = kind;
      f(x);
    }
    template <typename X> void operator()(X& x) & { again++; run(x, 'l'); }
    template <typename X> void operator()(X& x) const& { run(x, 'c'); }
    template <typename X> void operator()(X& x) && { again++; run(x, 'r'); }
  };

  // hands an action over as an lvalue, a const lvalue or an rvalue
  template <typename Store, typename Action>
  bool hand(vf::Src& s, Store&& store, Action& a, char& kind)
  {
    switch (s.choose(3))
    {
      case 0: kind = 'l'; return bool(nbdl::apply_action(store, a));
      case 1: kind = 'c'; return bool(nbdl::apply_action(store, std::as_const(a)));
      default: kind = 'r'; return bool(nbdl::apply_action(store, std::move(a)));
    }
  }

  // assigns, or runs a step on, a store that holds a T at `place`
  template <typename T, typename Store, typename Wrap, typename Gen, typename Change>
  void act_on(vf::Src& s, Store&& store, T const* place, T& model, Wrap&& wrap, Gen&& gen, Change&& change)
  {
    char kind = 0;
    if (s.boolean())
    {
      T v = gen(s);
      T const kept = v;
      auto a = wrap(v);
      s.equal(hand(s, store, a, kind), true, "an assigned value is a change");
      model = kept;
      s.check(v == kept, "the value the action was made of is the caller's");
      if (kind != 'r')
      { // the caller still has the action, and may use it once more
        if (s.boolean())
        {
          s.equal(bool(nbdl::apply_action(store, a)), true, "an action used again");
          s.check(*place == model, "an action used again assigns the same");
        }
      }
    }
    else
    {
      runlog l;
      auto f = change(s);
      auto a = wrap(step<T>{&l, f});
      s.equal(hand(s, store, a, kind), true, "a step is a change");
      f(model);
      s.equal(l.calls, 1, "a step runs once");
      s.check(l.where == static_cast<void const*>(place), "a step is run on the store itself");
      s.equal(l.kind, kind, "a step is run as what it was handed over as");
    }
    s.check(*place == model, "what the store holds after an action");
  }
  constexpr auto as_is = [](auto&& x) { return std::decay_t<decltype(x)>(x); };

  auto grow(vf::Src& s) { return [t = word(s)](std::string& x) { x += t; }; }
  auto add(vf::Src& s) { return [n = int(s.upto(9)) - 4](int& x) { x += n; }; }
  auto edit(vf::Src& s) { return [t = word(s)](note& x) { x.n++; x.text = t + x.text; }; }
  auto push(vf::Src& s) { return [n = int(s.upto(9))](std::vector<int>& x) { x.push_back(n); }; }
  int number(vf::Src& s) { return int(s.upto(99)) - 50; }
  note gen_note(vf::Src& s) { return note{number(s), word(s)}; }
  std::vector<int> gen_list(vf::Src& s) { std::vector<int> r; for (auto n = s.upto(4); n--; ) r.push_back(number(s)); return r; }
}
using namespace ac;

// ---- single stores -------------------------------------------------------------
template <typename T, typename Gen, typename Change>
void single(vf::Src& s, Gen gen, Change change)
{
  T model = gen(s);
  struct { char before = 'x'; T x; char after = 'y'; } at{'x', model, 'y'};
  std::size_t steps = 1 + s.size(5);
  s.nontrivial(steps > 1);
  while (steps--)
    switch (s.choose(3))
    {
      case 0: act_on<T>(s, at.x, &at.x, model, as_is, gen, change); break;
      case 1: { auto r = std::ref(at.x); act_on<T>(s, r, &at.x, model, as_is, gen, change); s.check(&r.get() == &at.x, "a reference still refers to the same store"); break; }
      default: { auto const r = std::ref(at.x); act_on<T>(s, r, &at.x, model, as_is, gen, change); break; }
    }
  s.check(at.before == 'x' && at.after == 'y', "what is next to a store is left alone");
}
VF_PROP(one_store, 20000, 1000000)
{
  switch (s.choose(4))
  {
    case 0: return single<std::string>(s, word, grow);
    case 1: return single<int>(s, number, add);
    case 2: return single<note>(s, gen_note, edit);
    default: return single<std::vector<int>>(s, gen_list, push);
  }
}

// what a store can be assigned is assigned, whatever else it could do with it
struct takes_any
{
  std::string got;
  takes_any& operator=(int n) { got = "int " + std::to_string(n); return *this; }
  takes_any& operator=(std::string const& t) { got = "text " + t; return *this; }
  takes_any& operator=(std::string&& t) { got = "taken " + t; t.clear(); return *this; }
};
struct both
{
  int n;
  int operator()(int x) const { return x + n; }
  void operator()(std::function<int(int)>& store) const { store = nullptr; }
};
VF_PROP(assigned_or_run, 4000, 100000)
{
  s.nontrivial();
  switch (s.choose(10))
  {
    case 8:
    { // ... even one that could be run on the store
      int n = number(s);
      std::function<int(int)> store = [](int x) { return x; };
      both f{n};
      s.equal(bool(nbdl::apply_action(store, f)), true, "assigning is a change");
      s.check(bool(store), "a function that is assigned is not run on the store");
      if (store) s.equal(store(10), 10 + n, "the store holds the function");
      break;
    }
    case 0:
    { // a function is assigned to a store of functions, not run
      int ran = 0, n = number(s);
      std::function<int(int)> store = [](int x) { return x; };
      auto f = [&ran, n](int x) { ran++; return x + n; };
      s.equal(bool(nbdl::apply_action(store, f)), true, "assigning is a change");
      s.equal(ran, 0, "a function that is assigned is not run");
      s.equal(store(10), 10 + n, "the store holds the function");
      break;
    }
    case 1:
    { // values that convert
      double store = 0.5; int n = number(s);
      s.equal(bool(nbdl::apply_action(store, n)), true, "assigning is a change");
      s.check(store == n, "a number converts");
      break;
    }
    case 2:
    {
      std::string store = word(s), t = word(s);
      s.equal(bool(nbdl::apply_action(store, t.c_str())), true, "assigning is a change");
      s.equal(store, t, "a character array converts");
      break;
    }
    case 3:
    { // a value that can only be moved
      auto store = std::make_unique<int>(number(s));
      int n = number(s);
      auto a = std::make_unique<int>(n); int* p = a.get();
      s.equal(bool(nbdl::apply_action(store, std::move(a))), true, "assigning is a change");
      s.check(store.get() == p && !a && *p == n, "a moved value is in the store");
      break;
    }
    case 4:
    { // which assignment is up to how the value is handed over
      takes_any store; std::string t = word(s), kept = t; int n = number(s);
      nbdl::apply_action(store, t); s.equal(store.got, "text " + kept, "an lvalue"); s.equal(t, kept, "an lvalue is kept");
      nbdl::apply_action(store, std::as_const(t)); s.equal(store.got, "text " + kept, "a const lvalue");
      nbdl::apply_action(store, n); s.equal(store.got, "int " + std::to_string(n), "a number");
      nbdl::apply_action(store, std::move(t)); s.equal(store.got, "taken " + kept, "an rvalue");
      s.check(t.empty(), "an rvalue is taken");
      break;
    }
    case 5:
    { // a step that fails leaves what it did, and its failure is seen
      std::string store = word(s), model = store;
      bool seen = false;
      try { nbdl::apply_action(store, [](std::string& x) { x += "!"; throw 5; }); }
      catch (int n) { seen = n == 5; }
      s.check(seen, "the failure of a step is seen");
      s.equal(store, model + "!", "a step that failed");
      break;
    }
    case 6:
    { // what a step returns is not the answer
      int store = number(s), model = store, n = number(s);
      s.equal(bool(nbdl::apply_action(store, [n](int& x) { x += n; return false; })), true, "a step is a change");
      s.equal(store, model + n, "a step that returns something");
      break;
    }
    case 7:
    { // a step that has state of its own, used again
      int store = 0, k = 0, n = 1 + int(s.upto(4));
      auto f = [k](int& x) mutable { x = ++k; };
      for (int i = 0; i < n; i++) nbdl::apply_action(store, f);
      s.equal(store, n, "the state of a step is its own");
      break;
    }
    default:
    { // variants: any alternative
      nbdl::variant<int, std::string, note> store(word(s));
      std::string shown, want;
      auto look = [&] { shown.clear(); store.match([&](int x) { shown = "int " + std::to_string(x); }, [&](std::string const& x) { shown = "text " + x; }, [&](note const& x) { shown = "note " + std::to_string(x.n) + x.text; }, [&](nbdl::unresolved) { shown = "unresolved"; }); };
      for (auto n = 1 + s.upto(4); n--; )
      {
        bool r = false;
        switch (s.choose(3))
        {
          case 0: { int x = number(s); r = nbdl::apply_action(store, x); want = "int " + std::to_string(x); break; }
          case 1: { auto x = word(s); auto c = x; r = nbdl::apply_action(store, x); s.equal(x, c, "an lvalue is kept"); want = "text " + x; break; }
          default: { auto x = gen_note(s); want = "note " + std::to_string(x.n) + x.text; r = nbdl::apply_action(store, std::move(x)); break; }
        }
        look();
        s.equal(r, true, "assigning is a change");
        s.equal(shown, want, "what a variant holds after an action");
      }
    }
  }
}

// ---- composed stores -----------------------------------------------------------
using keyed = nbdl::map_store<int, std::string>;
struct map_model
{
  std::map<int, std::string> m; // "?" = asked for
  std::string dump() const { std::string r; for (auto& [k, v] : m) r += std::to_string(k) + "=" + v + ";"; return r; }
};
template <typename Store>
std::string dump(Store const& st)
{
  std::map<int, std::string> m;
  for (auto& [k, v] : st.map) v.match([&](std::string const& x) { m[k] = ":" + x; }, [&](nbdl::unresolved) { m[k] = "?"; }, [&](auto const&) { m[k] = "other"; });
  return map_model{m}.dump();
}
// one message for a map store, handed over by `give`; what it should change and answer
template <typename Give>
void tell(vf::Src& s, map_model& model, Give give)
{
  int k = int(s.choose(3));
  std::string v = word(s);
  auto it = model.m.find(k);
  bool asked = it != model.m.end() && it->second == "?";
  bool had = it != model.m.end();
  bool answer = false, change = false, open = false;
  switch (s.choose(8))
  {
    case 0: s.note("create", k, v); change = true; model.m[k] = ":" + v; answer = give(message::make_downstream_create(k, message::no_uid, v, s.boolean())); break;
    case 1: s.note("update", k, v); change = true; model.m[k] = ":" + v; answer = give(message::make_downstream_update(k, message::no_uid, v, s.boolean())); break;
    case 2: s.note("delete", k); change = had; open = !had; model.m.erase(k); answer = give(message::make_downstream_delete(k, message::no_uid, s.boolean())); break;
    case 3: case 4:
      if (!had) return; // an answer nobody asked for: C07
      s.note("read", k, v); change = asked; if (asked) model.m[k] = ":" + v;
      answer = give(message::make_downstream_read(k, message::no_uid, v)); break;
    case 5: s.note("ask", k); if (!had) model.m[k] = "?"; answer = give(message::make_upstream_read(k, message::no_uid)); break;
    case 6: s.note("ask to update", k); answer = give(message::make_upstream_update(k, message::no_uid, v)); break;
    default: s.note("ask to delete", k); answer = give(message::make_upstream_delete(k, message::no_uid)); break;
  }
  if (!open) s.equal(answer, change, "the answer to a message");
}

VF_PROP(composed, 20000, 2000000)
{
  // the same key is used at two depths, and one of the stores is itself composed of stores
  std::string out = word(s), inner_text = word(s), inner_kept = inner_text;
  keyed outside;
  note base = gen_note(s);
  using text_store = nbdl::context_store_t<std::string>;
  auto store =
    nbdl::store_compose(k1{}, word(s),
    nbdl::store_compose(k2{}, std::ref(out),
    nbdl::store_compose(k3{},
      nbdl::store_compose(k1{}, inner_text, nbdl::store_compose(k4{}, number(s), keyed{})),
    nbdl::store_compose(k5{}, std::ref(outside),
    nbdl::store_compose(k6{}, text_store{}, base)))));
  auto& inner = store.left.left.right;
  auto& ctx = store.left.left.left.left.right;
  auto& foot = store.left.left.left.left.left;
  std::string m1 = store.right, m2 = out, m31 = inner_text, m6;
  int m34 = inner.left.right;
  map_model m3, m5;
  note mb = base;
  std::size_t steps = 1 + s.size(10);
  s.nontrivial(steps > 2);
  auto key = [](auto k) { return [k](auto&& x) { return nbdl::store_composite_action(k, static_cast<decltype(x)>(x)); }; };
  auto key2 = [](auto k, auto l) { return [k, l](auto&& x) { return nbdl::store_composite_action(k, nbdl::store_composite_action(l, static_cast<decltype(x)>(x))); }; };
  auto send = [&](auto&& wrap) { return [&s, &store, wrap](auto m) { auto a = wrap(m); char kind; return hand(s, store, a, kind); }; };
  while (steps--)
  {
    switch (s.choose(8))
    {
      case 0: s.note("k1"); act_on<std::string>(s, store, &store.right, m1, key(k1{}), word, grow); break;
      case 1: s.note("k2"); act_on<std::string>(s, store, &out, m2, key(k2{}), word, grow); break;
      case 2: s.note("k3/k1"); act_on<std::string>(s, store, &inner.right, m31, key2(k3{}, k1{}), word, grow); break;
      case 3: s.note("k3/k4"); act_on<int>(s, store, &inner.left.right, m34, key2(k3{}, k4{}), number, add); break;
      case 4: s.note("k3"); tell(s, m3, send(key(k3{}))); break;
      case 5: s.note("k5"); tell(s, m5, send(key(k5{}))); break;
      case 6:
      {
        auto give = send(key(k6{}));
        std::string t = word(s);
        bool answer = false, change = false;
        if (s.boolean()) { s.note("k6 update"); change = true; m6 = t; answer = give(message::make_downstream_update(hana::make_tuple(), message::no_uid, t, s.boolean())); }
        else { s.note("k6 read"); answer = give(message::make_downstream_read(hana::make_tuple(), message::no_uid, t)); }
        s.equal(answer, change, "the answer of a store of a context");
        break;
      }
      default: s.note("base"); act_on<note>(s, store, &foot, mb, as_is, gen_note, edit); break;
    }
    s.equal(store.right, m1, "k1");
    s.equal(out, m2, "k2");
    s.equal(inner.right, m31, "k1 within k3");
    s.equal(inner.left.right, m34, "k4 within k3");
    s.equal(dump(inner.left.left), m3.dump(), "the map within k3");
    s.equal(dump(outside), m5.dump(), "the map k5 refers to");
    s.equal(ctx.store, m6, "k6");
    s.check(foot == mb, "the base");
  }
  s.check(&store.left.right.get() == &out, "k2 still refers to the same store");
  s.equal(inner_text, inner_kept, "what was composed is a copy");
}

// a store hides the ones of the same key further in
VF_PROP(hidden, 10000, 500000)
{
  std::string far = word(s), mfar = far;
  note base = gen_note(s), mb = base;
  auto store = nbdl::store_compose(k1{}, word(s), nbdl::store_compose(k1{}, word(s), nbdl::store_compose(k2{}, number(s), nbdl::store_compose(k1{}, std::ref(far), nbdl::store_compose(k2{}, number(s), base)))));
  std::string m0 = store.right, m1 = store.left.right;
  int m2 = store.left.left.right, m4 = store.left.left.left.left.right;
  auto& foot = store.left.left.left.left.left;
  auto key = [](auto k) { return [k](auto&& x) { return nbdl::store_composite_action(k, static_cast<decltype(x)>(x)); }; };
  std::size_t steps = 1 + s.size(6);
  s.nontrivial(steps > 1);
  auto fars = std::ref(store.left.left.left); // what is further in, by itself
  while (steps--)
  {
    switch (s.choose(5))
    {
      case 0: s.note("k1"); act_on<std::string>(s, store, &store.right, m0, key(k1{}), word, grow); break;
      case 1: s.note("k2"); act_on<int>(s, store, &store.left.left.right, m2, key(k2{}), number, add); break;
      case 2: s.note("k1 further in"); act_on<std::string>(s, fars, &far, mfar, key(k1{}), word, grow); break;
      case 3: s.note("k1 of the second"); act_on<std::string>(s, store.left, &store.left.right, m1, key(k1{}), word, grow); break;
      default: s.note("base"); act_on<note>(s, store, &foot, mb, as_is, gen_note, edit);
    }
    s.equal(store.right, m0, "the outermost store");
    s.equal(store.left.right, m1, "the store right behind it");
    s.equal(store.left.left.right, m2, "the outermost store of the other key");
    s.equal(far, mfar, "the store it refers to further in");
    s.equal(store.left.left.left.left.right, m4, "the other key further in");
    s.check(foot == mb, "the base");
    int seen = 0;
    nbdl::match(store, k1{}, [&](auto const& x) { if constexpr (std::is_same_v<std::decay_t<decltype(x)>, std::string>) { seen++; s.equal(x, m0, "what the key shows"); } });
    nbdl::match(store, k2{}, [&](auto const& x) { if constexpr (std::is_same_v<std::decay_t<decltype(x)>, int>) { seen++; s.equal(x, m2, "what the other key shows"); } });
    s.equal(seen, 2, "both keys show a store");
  }
}

// an action is passed on as it was handed over, so one that can only be moved works
VF_PROP(moved_along, 1000, 20000)
{
  int a = number(s), b = number(s), c = number(s);
  s.nontrivial();
  std::unique_ptr<int> far;
  auto store = nbdl::store_compose(k1{}, std::unique_ptr<int>{}, nbdl::store_compose(k2{}, std::ref(far), nbdl::store_compose(k3{}, nbdl::store_compose(k4{}, std::unique_ptr<int>{}, 0), std::unique_ptr<int>{})));
  auto pa = std::make_unique<int>(a), pb = std::make_unique<int>(b), pc = std::make_unique<int>(c), pd = std::make_unique<int>(7);
  int *qa = pa.get(), *qb = pb.get(), *qc = pc.get(), *qd = pd.get();
  nbdl::apply_action(store, nbdl::store_composite_action(k1{}, std::move(pa)));
  nbdl::apply_action(store, nbdl::store_composite_action(k2{}, std::move(pb)));
  nbdl::apply_action(store, nbdl::store_composite_action(k3{}, nbdl::store_composite_action(k4{}, std::move(pc))));
  nbdl::apply_action(store, std::move(pd));
  s.check(store.right.get() == qa && *qa == a, "k1 holds what was moved");
  s.check(far.get() == qb && *qb == b, "k2 holds what was moved");
  s.check(store.left.left.right.right.get() == qc && *qc == c, "k4 holds what was moved");
  s.check(store.left.left.left.get() == qd, "the base holds what was moved");
}

// ---- stores of contexts ----------------------------------------------------------
template <typename T, typename Gen, typename Change>
void in_context(vf::Src& s, Gen gen, Change change)
{
  nbdl::context_store_t<T> store = nbdl::make_store<nbdl::context_store<T>>(hana::type_c<void>, hana::type_c<void>);
  s.check(store.store == T{}, "a new store holds the empty value");
  T model{};
  std::size_t steps = 1 + s.size(10);
  s.nontrivial(steps > 2);
  auto path = hana::make_tuple();
  while (steps--)
  {
    T v = gen(s), kept = v;
    bool answer = false, want = false, conf = s.boolean();
    // by the message call itself or as an action
    bool direct = s.boolean();
    auto give = [&](auto&& m)
    {
      auto const sent = message::get_payload(m);
      bool r;
      switch (s.choose(3))
      {
        case 0: r = direct ? bool(nbdl::apply_message(store, m)) : bool(nbdl::apply_action(store, m)); s.check(message::get_payload(m) == sent, "the caller's message is kept"); break;
        case 1: r = direct ? bool(nbdl::apply_message(store, std::as_const(m))) : bool(nbdl::apply_action(store, std::as_const(m))); s.check(message::get_payload(m) == sent, "the caller's message is kept"); break;
        default: r = direct ? bool(nbdl::apply_message(store, std::move(m))) : bool(nbdl::apply_action(store, std::move(m)));
      }
      return r;
    };
    auto bare = [&](auto&& m) { return direct ? bool(nbdl::apply_message(store, m)) : bool(nbdl::apply_action(store, std::move(m))); };
    switch (s.choose(9))
    {
      case 0: case 1: s.note("update"); want = true; model = v; answer = give(message::make_downstream_update(path, message::no_uid, v, conf)); break;
      case 2: s.note("update for sure"); want = true; model = v; answer = give(message::make_downstream_update(path, 5, v, message::no_is_confirmed)); break;
      case 3: s.note("create"); answer = give(message::make_downstream_create(path, message::no_uid, v, conf)); break;
      case 4: s.note("read"); answer = give(message::make_downstream_read(path, message::no_uid, v)); break;
      case 5: s.note("delete"); answer = bare(message::make_downstream_delete(path, message::no_uid, conf)); break;
      case 6: s.note("ask to update"); answer = give(message::make_upstream_update(path, message::no_uid, v)); break;
      case 7: s.note("ask"); answer = bare(message::make_upstream_read(path, message::no_uid)); break;
      default:
      {
        s.note("update by a step");
        runlog l;
        auto f = change(s);
        want = true; f(model);
        auto m = message::make_downstream_update(path, message::no_uid, step<T>{&l, f}, conf);
        answer = direct ? bool(nbdl::apply_message(store, m)) : bool(nbdl::apply_action(store, m));
        s.equal(l.calls, 1, "a step runs once");
        s.check(l.where == &store.store, "a step is run on the store itself");
      }
    }
    s.equal(answer, want, "only an update from downstream is a change");
    s.check(store.store == model, "what the store holds after a message");
    s.check(v == kept, "a value a message was made of is the caller's");
    int seen = 0;
    nbdl::match(store, hana::type_c<void>, [&](auto const& x) { if constexpr (std::is_same_v<std::decay_t<decltype(x)>, T>) { seen++; s.check(x == model, "what the store shows"); } });
    s.equal(seen, 1, "the store shows its value once");
  }
}
VF_PROP(of_a_context, 20000, 1000000)
{
  switch (s.choose(3))
  {
    case 0: return in_context<std::string>(s, word, grow);
    case 1: return in_context<int>(s, number, add);
    default: return in_context<std::vector<int>>(s, gen_list, push);
  }
}

// ---- stores with pending changes: a message that is no delta replaces the value -----
VF_PROP(versions, 10000, 500000)
{
  nbdl::local_version<note> store{gen_note(s)};
  note model = store.value;
  std::size_t steps = 1 + s.size(6);
  s.nontrivial(steps > 1);
  auto path = hana::make_tuple();
  auto gen = nbdl::make_uid_generator();
  while (steps--)
  {
    note v = gen_note(s), kept = v;
    bool answer = false, want = true;
    switch (s.choose(4))
    {
      case 0: { s.note("read"); auto m = message::make_downstream_read(path, message::no_uid, v); model = v; answer = nbdl::apply_message(store, m); s.check(message::get_payload(m) == v, "the caller's message is kept"); break; }
      case 1: s.note("read, as an action"); model = v; answer = bool(nbdl::apply_action(store, message::make_downstream_read(path, message::no_uid, v))); break;
      case 2: s.note("create"); model = v; answer = nbdl::apply_message(store, message::make_downstream_create(path, message::no_uid, v, true)); break;
      default:
      {
        s.note("change");
        auto d = nbdl::make_delta<nbdl::delta_tag>(v, model);
        want = !(model == v); model = v;
        answer = bool(nbdl::apply_action(store, message::make_upstream_update(path, gen(), d)));
      }
    }
    s.equal(answer, want, "the answer says whether the value changed");
    s.check(store.value == model, "what the store holds");
    s.check(v == kept, "the caller's value is kept");
  }
}

// ---- rows of ranges ----------------------------------------------------------------
template <typename Rows, typename Base>
void rows(vf::Src& s, Rows xs, std::vector<note> models, Base make_base)
{
  note far = gen_note(s), mfar = far;
  auto base = make_base(far);
  auto range = nbdl::store_range(item_key{}, xs, base);
  std::size_t i = 0;
  for (auto& it : range)
  {
    auto at = std::next(xs.begin(), static_cast<long>(i));
    for (auto n = s.upto(3); n--; )
      if (s.chance(60))
      {
        s.note("row", i);
        act_on<note>(s, it, &*at, models[i], [](auto const& x) { return nbdl::store_iterator_action<std::decay_t<decltype(x)>>{x}; }, gen_note, edit);
      }
      else
      {
        s.note("around row", i);
        act_on<note>(s, it, &far, mfar, as_is, gen_note, edit);
      }
    std::size_t j = 0;
    for (auto& x : xs) s.check(x == models[j++], "the rows");
    s.check(far == mfar, "the store around the rows");
    i++;
  }
  s.equal(i, models.size(), "every row is visited");
}
VF_PROP(in_rows, 10000, 500000)
{
  std::vector<note> xs;
  for (auto n = s.upto(5); n--; ) xs.push_back(gen_note(s));
  s.nontrivial(xs.size() > 1);
  auto ref = [](note& x) { return std::ref(x); };
  if (s.boolean()) rows(s, xs, xs, ref);
  else rows(s, std::list<note>(xs.begin(), xs.end()), xs, ref);
}

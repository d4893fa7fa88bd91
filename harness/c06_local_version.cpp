#include "vf.hpp"
#include <boost/hana.hpp>
#include <nbdl/apply_message.hpp>
#include <nbdl/get.hpp>
#include <nbdl/local_version.hpp>
#include <nbdl/match.hpp>
#include <nbdl/uid.hpp>
#include <deque>
#include <string>
#include <vector>

namespace hana = boost::hana;
namespace message = nbdl::message;

namespace lv
{
  struct doc { int a; std::string b; std::vector<int> c; bool d; };
}
namespace nbdl
{
  NBDL_ENTITY(lv::doc, a, b, c, d);
}

namespace lv
{
  constexpr unsigned members = 4;

  bool eq(doc const& x, doc const& y) { return x.a == y.a && x.b == y.b && x.c == y.c && x.d == y.d; }
  std::string show(doc const& x)
  {
    std::string r = "{" + std::to_string(x.a) + "," + x.b + ",[";
    for (int i : x.c) r += std::to_string(i) + " ";
    return r + "]," + (x.d ? "t" : "f") + "}";
  }
  doc make(vf::Src& s)
  {
    doc x{};
    x.a = static_cast<int>(s.choose(5));
    x.b = s.text_of("ab", 2);
    std::size_t n = s.upto(2);
    while (n--) x.c.push_back(static_cast<int>(s.choose(3)));
    x.d = s.boolean();
    return x;
  }
  nbdl::uid uid_of(std::uint32_t n)
  {
    nbdl::uid u{};
    for (std::size_t i = 0; i < 16; i++) u[i] = 0;
    // ids differ in single bytes at varying places
    u[n % 16] = static_cast<std::uint8_t>(1 + n / 16);
    return u;
  }

  // a change: some members of `from`
  struct change { doc from; unsigned mask; };
  void apply(change const& c, doc& d)
  {
    if (c.mask & 1) d.a = c.from.a;
    if (c.mask & 2) d.b = c.from.b;
    if (c.mask & 4) d.c = c.from.c;
    if (c.mask & 8) d.d = c.from.d;
  }
  std::string show(change const& c)
  {
    std::string r = "(";
    if (c.mask & 1) r += "a=" + std::to_string(c.from.a) + " ";
    if (c.mask & 2) r += "b=" + c.from.b + " ";
    if (c.mask & 4) { r += "c="; for (int i : c.from.c) r += std::to_string(i) + "."; r += " "; }
    if (c.mask & 8) r += std::string("d=") + (c.from.d ? "t" : "f");
    return r + ")";
  }
  change gen_change(vf::Src& s)
  {
    change c{make(s), static_cast<unsigned>(s.choose(16))};
    return c;
  }
  auto delta_of(change const& c)
  {
    // built through a second value that differs exactly in the marked members
    doc other = c.from;
    if (c.mask & 1) other.a += 100;
    if (c.mask & 2) other.b += "?";
    if (c.mask & 4) other.c.push_back(99);
    if (c.mask & 8) other.d = !other.d;
    return nbdl::make_delta<nbdl::delta_tag>(c.from, other);
  }
  auto upstream(change const& c, std::uint32_t id)
  { return message::make_upstream_update(hana::make_tuple(), uid_of(id), delta_of(c)); }
  using up_t = decltype(upstream(std::declval<change const&>(), 0));

  struct client
  {
    nbdl::local_version<doc> store;
    client(doc const& d) : store(d) { }

    doc visible()
    {
      doc const& v = nbdl::get(store);
      int calls = 0;
      doc m{};
      nbdl::match(store, [&](auto const& x) { calls++; m = x; });
      if (calls != 1 || !eq(m, v)) throw vf::Fail{"match and get show different values"};
      return v;
    }
    template <typename M> bool send(M&& m)
    {
      using R = decltype(nbdl::apply_message(store, m));
      static_assert(!std::is_void_v<R>, "apply_message reports whether the state changed");
      // a message that is kept says the same to the next holder
      auto other = store;
      nbdl::apply_message(other, m);
      return nbdl::apply_message(store, std::forward<M>(m));
    }
  };

  struct in_flight { std::uint32_t id; change c; };
}

// one holder, any interleaving
VF_PROP(interleavings, 60000, 2000000)
{
  using namespace lv;
  doc const initial = make(s);
  client cl(initial);
  doc confirmed = initial, visible = initial;
  unsigned touched = 0;
  std::deque<in_flight> own;
  std::uint32_t next_id = 1;
  std::vector<std::uint32_t> confirmed_ids;
  unsigned locals = 0, foreigns = 0;
  std::size_t n = 1 + s.size(24);
  s.note("initial", show(initial));
  for (std::size_t i = 0; i < n || !own.empty(); i++)
  {
    doc const before = visible;
    bool reported = false, exact = true;
    unsigned op = i < n ? static_cast<unsigned>(s.choose(10)) : 9;
    if (op < 4)
    {
      auto c = gen_change(s);
      std::uint32_t id = next_id++;
      s.note("local", id, show(c));
      own.push_back({id, c});
      touched |= c.mask;
      locals++;
      if (s.chance(20))
      {
        // an unconfirmed change that comes from another holder's side of the wire
        reported = cl.send(message::make_downstream_update(hana::make_tuple(), uid_of(id), delta_of(c), s.boolean() ? false : false));
      }
      else
        reported = cl.send(upstream(c, id));
      lv::apply(c, visible);
      doc got = cl.visible();
      s.check(eq(got, visible), "a local change is visible at once: got ", show(got), " expected ", show(visible));
    }
    else if (op < 7)
    {
      auto c = gen_change(s);
      std::uint32_t id = next_id++;
      s.note("foreign", show(c));
      touched |= c.mask;
      foreigns++;
      if (s.boolean()) reported = cl.send(message::make_downstream_update(hana::make_tuple(), uid_of(id), delta_of(c), true));
      else reported = cl.send(message::make_downstream_update(hana::make_tuple(), uid_of(id), delta_of(c), hana::true_c));
      lv::apply(c, confirmed);
      lv::apply(c, visible);
      doc got = cl.visible();
      s.check(eq(got, visible), "a confirmed change of somebody else is visible at once: got ", show(got), " expected ", show(visible));
    }
    else if (op == 7 && s.chance(40))
    {
      doc x = make(s);
      s.note("replace", show(x));
      touched = 15;
      exact = false;
      if (s.boolean()) reported = cl.send(message::make_downstream_read(hana::make_tuple(), uid_of(next_id++), x));
      else reported = cl.send(message::make_downstream_create(hana::make_tuple(), uid_of(next_id++), x, true));
      confirmed = visible = x;
      doc got = cl.visible();
      s.check(eq(got, visible), "a replacement is visible at once: got ", show(got));
    }
    else
    {
      if (own.empty()) continue;
      // usually in order, at times not
      std::size_t k = s.chance(70) ? 0 : s.upto(own.size() - 1);
      in_flight f = own[k];
      own.erase(own.begin() + static_cast<std::ptrdiff_t>(k));
      s.note("confirm", f.id);
      reported = cl.send(message::to_downstream_confirmed(upstream(f.c, f.id)));
      lv::apply(f.c, confirmed);
      confirmed_ids.push_back(f.id);
      doc got = cl.visible();
      if (!own.empty())
        s.check(eq(got, visible), "a confirmation changed what is shown while other own changes are pending: got ", show(got), " expected ", show(visible));
      else
      {
        s.check(eq(got, confirmed), "everything is confirmed, but ", show(got), " is shown instead of ", show(confirmed));
        visible = confirmed;
        s.label("quiescent");
      }
    }
    bool changed = !eq(before, visible);
    if (exact) s.equal(reported, changed, "state change reported");
    else s.check(reported || !changed, "a change was not reported");
    doc v = cl.visible();
    if (!(touched & 1)) s.check(v.a == initial.a, "untouched member a changed");
    if (!(touched & 2)) s.check(v.b == initial.b, "untouched member b changed");
    if (!(touched & 4)) s.check(v.c == initial.c, "untouched member c changed");
    if (!(touched & 8)) s.check(v.d == initial.d, "untouched member d changed");
    if (own.empty()) s.check(eq(v, confirmed), "nothing is pending, but ", show(v), " is shown instead of ", show(confirmed));
  }
  s.nontrivial(locals > 0 && foreigns > 0);
}

// several holders and a root that orders their changes; queues in any schedule
VF_PROP(convergence, 15000, 500000)
{
  using namespace lv;
  doc initial = make(s);
  doc root = initial;
  std::size_t k = 2 + s.upto(2);
  struct envelope { std::size_t from; in_flight f; };
  std::vector<client> cl(k, client(initial));
  std::vector<std::deque<in_flight>> up(k);
  std::vector<std::deque<envelope>> down(k);
  std::uint32_t next_id = 1;
  std::size_t sends = 1 + s.size(14);
  bool concurrent = false;
  auto deliver = [&](std::size_t i)
  {
    envelope e = down[i].front();
    down[i].pop_front();
    s.note("deliver", e.f.id, "to", i);
    cl[i].send(message::to_downstream_confirmed(upstream(e.f.c, e.f.id)));
  };
  auto order = [&](std::size_t i)
  {
    in_flight f = up[i].front();
    up[i].pop_front();
    lv::apply(f.c, root);
    s.note("order", f.id);
    for (std::size_t j = 0; j < k; j++) down[j].push_back({i, f});
  };
  while (true)
  {
    std::vector<std::pair<int, std::size_t>> todo;
    if (sends) for (std::size_t i = 0; i < k; i++) todo.push_back({0, i});
    for (std::size_t i = 0; i < k; i++) { if (!up[i].empty()) todo.push_back({1, i}); if (!down[i].empty()) todo.push_back({2, i}); }
    if (todo.empty()) break;
    auto [what, i] = todo[s.choose(todo.size())];
    if (what == 0)
    {
      auto c = gen_change(s);
      sends--;
      std::uint32_t id = next_id++;
      s.note("change", id, "by", i, show(c));
      cl[i].send(upstream(c, id));
      up[i].push_back({id, c});
      for (std::size_t j = 0; j < k; j++) concurrent = concurrent || (j != i && (!up[j].empty() || !down[i].empty()));
    }
    else if (what == 1) order(i);
    else deliver(i);
  }
  s.nontrivial(concurrent);
  for (std::size_t i = 0; i < k; i++)
    s.check(eq(cl[i].visible(), root), "holder ", i, " shows ", show(cl[i].visible()), " but the root has ", show(root));
}

// a long offline spell: hundreds of unconfirmed changes, ids that differ in any one byte
VF_PROP(many_pending, 250, 8000)
{
  using namespace lv;
  std::size_t n = s.choose(3) ? 20 + s.upto(120) : 140 + s.upto(500);
  std::uint64_t g = 1 + s.choose(1u << 16);
  auto rnd = [&](std::uint64_t m) { g = g * 6364136223846793005ull + 1442695040888963407ull; return (g >> 33) % m; };
  s.note("changes", n);
  s.nontrivial();
  auto some = [&]
  {
    doc x{};
    x.a = static_cast<int>(rnd(1000));
    x.b = std::string(rnd(3), static_cast<char>('a' + rnd(5)));
    for (auto i = rnd(3); i-- > 0;) x.c.push_back(static_cast<int>(rnd(9)));
    x.d = rnd(2);
    return x;
  };
  doc confirmed = some(), visible = confirmed;
  client cl(confirmed);
  std::deque<in_flight> own;
  std::uint32_t id = 1;
  auto foreign = [&]
  {
    change c{some(), static_cast<unsigned>(rnd(16))};
    bool r = cl.send(message::make_downstream_update(hana::make_tuple(), uid_of(id++), delta_of(c), true));
    doc before = visible;
    lv::apply(c, confirmed);
    lv::apply(c, visible);
    s.equal(r, !eq(before, visible), "state change reported");
  };
  for (std::size_t i = 0; i < n; i++)
  {
    change c{some(), static_cast<unsigned>(rnd(16))};
    cl.send(upstream(c, id));
    own.push_back({id++, c});
    lv::apply(c, visible);
    if (rnd(10) == 0) foreign();
    doc got = cl.visible();
    s.check(eq(got, visible), "change ", i, ": shows ", show(got), " expected ", show(visible));
  }
  bool in_order = s.boolean();
  while (!own.empty())
  {
    std::size_t k = in_order ? 0 : rnd(own.size());
    in_flight f = own[k];
    own.erase(own.begin() + static_cast<std::ptrdiff_t>(k));
    cl.send(message::to_downstream_confirmed(upstream(f.c, f.id)));
    lv::apply(f.c, confirmed);
    if (own.empty()) visible = confirmed;
    if (rnd(10) == 0) foreign();
    doc const& want = own.empty() ? confirmed : visible;
    doc got = cl.visible();
    s.check(eq(got, want), own.size(), " changes pending: shows ", show(got), " expected ", show(want));
  }
}

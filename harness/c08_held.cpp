// C08: a context whose stores hold plain states, and actors that are given by their position
#include "ctx_common.hpp"
#include <memory>
using namespace cx;

namespace cx { struct adder { int by; void operator()(int& x) const { x += by; } }; }
namespace
{
  struct held_context { };
  using var = nbdl::variant<int, std::string>;
  using p0 = hana::tuple<key<0>>; using p1 = hana::tuple<key<1>>; using p2 = hana::tuple<key<2>>;
}
namespace nbdl
{
  template <> struct entity_members_impl<adder> { using type = mpdef::list<NBDL_MEMBER(&adder::by)>; };
}
namespace cx
{
  inline std::string show(adder const& a) { return "add " + std::to_string(a.by); }
  inline std::string show(var const& v) { std::string r; nbdl::match(v, [&](auto const& x) { r = show(x); }); return r; }
}
namespace defs
{
  using namespace nbdl_def; using namespace cx;
  struct held_def { static constexpr auto apply()
  {
    constexpr auto all = Actions(Create(), Read(), Update(), Delete());
    return Context(
      Producers(
        Producer(Name(hana::type_c<int[1]>), Type<producer_tag<0>>, AccessPoints(
          AccessPoint(Name(hana::type_c<void>), Entity<item<0>>, PathKey<key<0>>, Store<nbdl::context_store<std::string>>, all),
          AccessPoint(Name(hana::type_c<void>), Entity<item<1>>, PathKey<key<1>>, Store<nbdl::context_store<var>>, all))),
        Producer(Name(hana::type_c<int[2]>), Type<producer_tag<1>>, AccessPoints(
          AccessPoint(Name(hana::type_c<void>), Entity<item<2>>, PathKey<key<2>>, Store<nbdl::context_store<int>>, all)))),
      Consumers(
        Consumer(Name(hana::type_c<int[3]>), Type<consumer_tag<2>>),
        Consumer(Name(hana::type_c<int[4]>), Type<state_consumer_tag<3>>)));
  } };
}
namespace nbdl { template <> struct make_def_impl<held_context> : defs::held_def { }; }

namespace
{
  struct model { std::string text; std::string alt = "unresolved"; int n = 0; };
  std::string want(model const& m, int which) { return which == 0 ? m.text : which == 1 ? m.alt : std::to_string(m.n); }

  // sends one message of any kind, with the payload for an update
  template <typename P, typename Ctx, typename Payload>
  void send(vf::Src& s, Ctx& ctx, model& md, int which, int owner, Payload const& payload, std::string const& after)
  {
    P path{}; hana::at_c<0>(path).value = s.pick({0, 1, -5});
    std::string at = path_text(path), uid = s.boolean() ? "u" : "";
    bool confirmed = s.boolean();
    told.clear();
    std::vector<std::string> expect;
    auto shown = [&] { return want(md, which); };
    auto go = [&](auto m, auto back)
    {
      s.note(text(m));
      auto t = text(m);
      back(t);
      if (s.boolean()) nbdl::apply_message(ctx, m); else { auto const& c = m; nbdl::apply_message(ctx, c); }
      s.equal(text(m), t, "the message of the caller");
    };
    auto to_producer = [&](std::string const& t) { expect.push_back("P" + std::to_string(owner) + " " + t); };
    auto to_consumer = [&](std::string const& t) { expect.push_back("C2 " + t + " while " + shown()); };
    auto changed = [&](std::string const& t)
    {
      if (which == 0) md.text = after; else if (which == 1) md.alt = after; else md.n = std::atoi(after.c_str());
      expect.push_back("S3 " + at + " while " + shown());
      to_consumer(t);
    };
    // what is held is sent to the consumers
    auto answered = [&](std::string const&)
    { if (shown() != "unresolved") expect.push_back("C2 down-read " + at + " uid=u payload=" + shown() + " confirmed=false while " + shown()); };
    switch (s.choose(10))
    {
      case 9: go(message::make_upstream_read(path, std::string("u")), answered); break;
      case 0: go(message::make_upstream_update(path, message::no_uid, payload), to_producer); break;
      case 1: go(message::make_upstream_update(path, uid, payload), to_producer); break;
      case 2: go(message::make_upstream_delete(path, message::no_uid), to_producer); break;
      case 3: go(message::make_downstream_delete(path, message::no_uid, confirmed), to_consumer); break;
      case 4: go(message::make_downstream_create(path, message::no_uid, payload, confirmed), to_consumer); break;
      case 5: go(message::make_downstream_read(path, uid, payload), to_consumer); break;
      default: go(message::make_downstream_update(path, message::no_uid, payload, confirmed), changed); break;
    }
    s.equal(told.size(), expect.size(), "what the actors were told, of which the first is ", told.empty() ? "nothing" : told[0]);
    for (std::size_t i = 0; i < expect.size(); i++) s.equal(told[i], expect[i], "what an actor was told");
    told.clear();
  }

  void all(vf::Src& s, auto& ctx, model const& md)
  {
    for (int k : {0, 1, 7})
    {
      s.equal(look(ctx, p0(key<0>{k})), md.text, "the text that is held");
      s.equal(look(ctx, p1(key<1>{k})), md.alt, "the alternative that is held");
      s.equal(look(ctx.template actor<2>().context, p2(key<2>{k})), std::to_string(md.n), "the number that is held");
      s.equal(nbdl::get(ctx, p0(key<0>{k})), md.text, "the text that is got");
      s.equal(nbdl::get(ctx.template actor<3>().context, p2(key<2>{k})), md.n, "the number that is got");
    }
  }
}

VF_PROP(held, 6000, 150000)
{
  std::string name = s.pick<std::string>({"", "x", "a name that is too long for small strings"});
  std::string const kept = "kept " + name;
  int number = static_cast<int>(s.upto(100));
  std::string const name_was = name;
  auto ctx = nbdl::make_unique_context<held_context>(name, number, kept, std::make_unique<int>(number));
  s.equal(ctx->actor<0>().given, given_text(name_was), "what the first actor is given");
  s.equal(ctx->actor<1>().given, given_text(number), "what the second actor is given");
  s.equal(ctx->actor<2>().given, given_text(kept), "what the third actor is given");
  s.equal(ctx->actor<3>().given, given_text(std::make_unique<int>(number)), "what the fourth actor is given");
  s.equal(name, name_was, "the argument of the caller");
  model md;
  std::size_t n = 1 + s.size(12);
  for (std::size_t i = 0; i < n; i++)
  {
    switch (s.choose(4))
    {
      case 0: { auto t = s.pick<std::string>({"", "a", "b", "some text that is longer than small ones"}); send<p0>(s, *ctx, md, 0, 0, t, t); break; }
      case 1: { int k = static_cast<int>(s.upto(9)); send<p1>(s, *ctx, md, 1, 0, k, std::to_string(k)); break; }
      case 2: { auto t = s.pick<std::string>({"", "a", "another text that is longer than small ones"}); send<p1>(s, *ctx, md, 1, 0, t, t); break; }
      default: { int by = s.pick({0, 1, -3, 1000}); if (s.chance(70)) send<p2>(s, *ctx, md, 2, 1, adder{by}, std::to_string(md.n + by)); else send<p2>(s, *ctx, md, 2, 1, by, std::to_string(by)); break; }
    }
    all(s, *ctx, md);
  }
  s.nontrivial(n >= 2);
}

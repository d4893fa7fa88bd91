// C08: stores outside of a context, with any subset of the two customisations
#include "vf.hpp"
#include <boost/hana.hpp>
#include <nbdl/apply_foreign_message.hpp>
#include <nbdl/apply_message.hpp>
#include <nbdl/message.hpp>
#include <string>
#include <vector>

namespace hana = boost::hana;
namespace message = nbdl::message;
namespace
{
  struct foreign_tag { };
  struct own_tag { };
  struct both_tag { };
  template <typename Tag> struct counter { using hana_tag = Tag; std::vector<std::string> seen{}; };
  struct letter { std::string text; int changes; };
  struct spot { int at; };
}
namespace nbdl
{
  // tells of as many changes as the message says
  template <> struct apply_foreign_message_impl<foreign_tag>
  {
    template <typename S, typename M, typename F> static void apply(S&& s, M&& m, F&& f)
    {
      auto letter_ = message::get_payload(std::forward<M>(m));
      s.seen.push_back(letter_.text);
      for (int i = 0; i < letter_.changes; i++) f(spot{i});
    }
  };
  template <> struct apply_message_impl<own_tag>
  {
    template <typename S, typename M> static bool apply(S&& s, M&& m)
    {
      auto letter_ = message::get_payload(std::forward<M>(m));
      s.seen.push_back(letter_.text);
      return letter_.changes > 0;
    }
  };
  template <> struct apply_message_impl<both_tag> : apply_message_impl<own_tag> { };
  template <> struct apply_foreign_message_impl<both_tag>
  {
    template <typename S, typename M, typename F> static void apply(S&& s, M&& m, F&& f)
    {
      auto letter_ = message::get_payload(std::forward<M>(m));
      s.seen.push_back("foreign " + letter_.text);
      for (int i = 0; i < letter_.changes; i++) f(spot{i * 2});
    }
  };
}
namespace
{
  // f is given the message as an lvalue, a const lvalue or an rvalue
  template <typename F> void ways(vf::Src& s, letter const& l, F f)
  {
    auto with = [&](auto m)
    {
      auto c = s.choose(3);
      s.note("way", c);
      switch (c)
      {
        case 0: f(m); break;
        case 1: f(std::as_const(m)); break;
        default: f(std::move(m)); return;
      }
      s.equal(message::get_payload(m).text, l.text, "the text of a message that was not given away");
    };
    auto path = hana::make_tuple(1);
    if (s.boolean()) with(message::make_downstream_update(path, message::no_uid, l, message::no_is_confirmed));
    else with(message::make_downstream_create(path, message::no_uid, l, message::no_is_confirmed));
  }
}

VF_PROP(plain_stores, 8000, 200000)
{
  counter<foreign_tag> foreign;
  counter<own_tag> own;
  counter<both_tag> both;
  std::vector<std::string> want_foreign, want_own, want_both;
  for (std::size_t n = 1 + s.upto(8); n-- > 0;)
  {
    letter l{s.pick<std::string>({"", "a", "a text that is longer than what fits in"}) + std::to_string(s.upto(99)), static_cast<int>(s.upto(3))};
    std::vector<int> spots;
    auto hear = [&](auto const& p) { spots.push_back(p.at); };
    auto told = [&](int step) { std::vector<int> want; for (int i = 0; i < l.changes; i++) want.push_back(i * step); s.check(spots == want, "told of ", spots.size(), " changes instead of ", want.size()); };
    auto c = s.choose(6);
    s.note("case", c, l.text, l.changes);
    if (l.changes > 1) s.nontrivial();
    switch (c)
    {
      case 0: ways(s, l, [&](auto&& m) { s.equal(static_cast<bool>(nbdl::apply_message(foreign, std::forward<decltype(m)>(m))), l.changes > 0, "whether the state changed"); }); want_foreign.push_back(l.text); break;
      case 1: ways(s, l, [&](auto&& m) { nbdl::apply_foreign_message(foreign, std::forward<decltype(m)>(m), hear); }); told(1); want_foreign.push_back(l.text); break;
      case 2: ways(s, l, [&](auto&& m) { s.equal(static_cast<bool>(nbdl::apply_message(own, std::forward<decltype(m)>(m))), l.changes > 0, "whether the state of its own changed"); }); want_own.push_back(l.text); break;
      case 3: ways(s, l, [&](auto&& m) { nbdl::apply_foreign_message(own, std::forward<decltype(m)>(m), hear); }); s.check(spots.empty(), "a store that takes no foreign messages tells of a change"); break;
      case 4: ways(s, l, [&](auto&& m) { s.equal(static_cast<bool>(nbdl::apply_message(both, std::forward<decltype(m)>(m))), l.changes > 0, "whether the state of both changed"); }); want_both.push_back(l.text); break;
      default: ways(s, l, [&](auto&& m) { nbdl::apply_foreign_message(both, std::forward<decltype(m)>(m), hear); }); told(2); want_both.push_back("foreign " + l.text); break;
    }
    s.check(foreign.seen == want_foreign && own.seen == want_own && both.seen == want_both, "a store saw other messages than were applied to it");
  }
}

// C32: binding a value visits exactly its own members, in order, by name
#pragma once
#include "vf.hpp"
#include <boost/hana.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/bind_map.hpp>
#include <nbdl/bind_sequence.hpp>
#include <nbdl/get.hpp>
#include <memory>
#include <string>
#include <type_traits>
#include <vector>

namespace hana = boost::hana;

namespace bx
{
  struct hollow { };
  struct hollower : hollow { };
  enum class tiny : unsigned char { a, b, c };
  struct speck { char c; };
  struct inner { std::string text; int n; };

  inline std::string show(int n) { return std::to_string(n); }
  inline std::string show(bool b) { return b ? "yes" : "no"; }
  inline std::string show(char c) { return std::string("'") + c; }
  inline std::string show(double d) { return "~" + std::to_string(d); }
  inline std::string show(std::string const& t) { return "\"" + t + "\""; }
  inline std::string show(hollow const&) { return "{}"; }
  inline std::string show(inner const& i) { return "{" + show(i.text) + show(i.n) + "}"; }
  inline std::string show(std::vector<int> const& v) { std::string r = "["; for (int n : v) r += show(n) + ","; return r + "]"; }
  inline std::string show(std::unique_ptr<int> const& p) { return p ? "*" + show(*p) : "null"; }

  inline void gen(vf::Src& s, int& x) { x = (int)s.upto(3) + (s.chance(10) ? 1 << 20 : 0); }
  inline void gen(vf::Src& s, bool& x) { x = s.boolean(); }
  inline void gen(vf::Src& s, char& x) { x = "abc"[s.choose(3)]; }
  inline void gen(vf::Src& s, double& x) { x = s.pick({0.0, 1.5, -2.25}); }
  inline void gen(vf::Src& s, std::string& x) { x = s.text_of("abc", 2) + (s.chance(30) ? std::string(40, 'x') : ""); }
  inline std::string show(tiny t) { return "t" + std::to_string((int)t); }
  inline std::string show(speck p) { return std::string(1, p.c); }
  inline void touch(tiny& t) { t = (tiny)(((int)t + 1) % 3); }
  inline void touch(speck& p) { p.c++; }
  inline void gen(vf::Src& s, tiny& t) { t = (tiny)s.choose(3); }
  inline void gen(vf::Src& s, speck& p) { p.c = "xy"[s.choose(2)]; }
  inline void gen(vf::Src&, hollow&) { }
  inline void gen(vf::Src& s, inner& x) { gen(s, x.text); gen(s, x.n); }
  inline void gen(vf::Src& s, std::vector<int>& x) { x.resize(s.upto(2)); for (auto& y : x) gen(s, y); }
  inline void gen(vf::Src& s, std::unique_ptr<int>& x) { x.reset(s.boolean() ? new int((int)s.upto(3)) : nullptr); }

  inline void touch(int& x) { x += 7; }
  inline void touch(bool& x) { x = !x; }
  inline void touch(char& x) { x = '!'; }
  inline void touch(double& x) { x += 8; }
  inline void touch(std::string& x) { x += "!"; }
  inline void touch(hollow&) { }
  inline void touch(inner& x) { x.n += 7; }
  inline void touch(std::vector<int>& x) { x.push_back(9); }
  inline void touch(std::unique_ptr<int>& x) { x.reset(new int(99)); }

  // a member as the struct itself declares it
  struct slot { char const* name; void const* at; std::string text; bool empty; };
  template <typename T> slot slot_of(char const* name, T const& x) { return {name, &x, show(x), std::is_empty_v<T>}; }
  inline std::string all(std::vector<slot> const& v) { std::string r; for (auto& x : v) r += x.text + ";"; return r; }

  template <bool Const, typename X> constexpr bool as_given = std::is_lvalue_reference_v<X> && std::is_const_v<std::remove_reference_t<X>> == Const;

  // e: an entity; parts(e): its slots, in order
  template <typename E>
  struct entity_case
  {
    E e{};

    void run(vf::Src& s, char const* entity_name)
    {
      fill(s, e);
      E& m = e;
      E const& c = e;
      auto const before = parts(e);
      std::vector<slot> want;
      for (auto& x : before) if (!x.empty) want.push_back(x);
      s.note(entity_name, before.size(), "members:", all(before));
      s.equal(std::string(hana::to<char const*>(nbdl::entity_name<E>{})), std::string(entity_name), "the name of the entity");
      std::string const mark(40, 'm');
      int calls = 0;
      // the binder stays with the caller, too
      auto sequence = [&, mine = mark](auto&& ...x)
      {
        calls++;
        s.equal(mine, mark, "what the binder holds");
        std::vector<slot> got{slot_of("", x)...};
        s.equal(got.size(), want.size(), "members of the sequence of ", entity_name);
        for (std::size_t i = 0; i < got.size(); i++)
        {
          s.check(got[i].at == want[i].at, "member ", i, " of the sequence of ", entity_name, " is not ", want[i].name);
          s.equal(got[i].text, want[i].text, "member ", i);
        }
        return 1000 + (int)sizeof...(x);
      };
      for (int n = 0; n < 2; n++)
      {
        s.equal(nbdl::bind_sequence(m, sequence), 1000 + (int)want.size(), "what binding gives back");
        s.equal(nbdl::bind_sequence(c, std::as_const(sequence)), 1000 + (int)want.size(), "what binding gives back");
      }
      s.equal(calls, 4, "calls of the binder");
      nbdl::bind_sequence(m, [&](auto&& ...x) { static_assert((as_given<false, decltype(x)> && ...), "members of a value"); });
      nbdl::bind_sequence(c, [&](auto&& ...x) { static_assert((as_given<true, decltype(x)> && ...), "members of a constant"); });
      nbdl::bind_map(m, [](auto&& ...x) { static_assert((as_given<false, decltype(hana::second(x).get())> && ...), "members of a value"); });
      nbdl::bind_map(c, [](auto&& ...x) { static_assert((as_given<true, decltype(hana::second(x).get())> && ...), "members of a constant"); });
      calls = 0;
      auto map = [&, mine = mark](auto&& ...pair)
      {
        calls++;
        s.equal(mine, mark, "what the binder holds");
        std::vector<slot> got{slot_of(hana::to<char const*>(hana::first(pair)), hana::second(pair).get())...};
        s.equal(got.size(), before.size(), "members of the map of ", entity_name);
        for (std::size_t i = 0; i < got.size(); i++)
        {
          s.equal(std::string(got[i].name), std::string(before[i].name), "name of member ", i);
          s.check(got[i].at == before[i].at, "member ", i, " of the map of ", entity_name, " is not ", before[i].name);
        }
        return 1000 + (int)sizeof...(pair);
      };
      for (int n = 0; n < 2; n++)
      {
        s.equal(nbdl::bind_map(m, map), 1000 + (int)before.size(), "what binding gives back");
        s.equal(nbdl::bind_map(c, std::as_const(map)), 1000 + (int)before.size(), "what binding gives back");
      }
      s.equal(calls, 4, "calls of the binder");
      // each member by itself, and by its name
      int i = 0;
      hana::unpack(nbdl::entity_members<E>, [&](auto ...member)
      {
        auto one = [&](auto member)
        {
          using M = decltype(member);
          s.check((void const*)&nbdl::get_member<M>(m) == before[i].at, "get_member of ", before[i].name);
          s.check((void const*)&nbdl::get_member<M>(c) == before[i].at, "get_member of a constant's ", before[i].name);
          s.check((void const*)&nbdl::get_member<nbdl::member_name<M>>(m) == before[i].at, "get_member by the name ", before[i].name);
          s.check((void const*)&nbdl::get(c, member) == before[i].at, "get of ", before[i].name);
          static_assert(as_given<false, decltype(nbdl::get_member<M>(m))> && as_given<true, decltype(nbdl::get_member<M>(c))>);
          static_assert(std::is_rvalue_reference_v<decltype(nbdl::get_member<M>(std::move(m)))>);
          i++;
        };
        (one(member), ...);
      });
      s.equal(i, (int)before.size(), "listed members");
      auto unchanged = [&](std::size_t except)
      {
        auto now = parts(e);
        for (std::size_t k = 0; k < now.size(); k++)
        {
          bool same = now[k].text == before[k].text;
          s.check(same == (k != except || before[k].empty), before[k].name, same ? " has not changed" : " has changed");
        }
      };
      unchanged(-1);
      // a change through the binding changes that very member
      if (want.empty()) return;
      std::size_t k = s.choose(want.size()), at = 0;
      while (before[at].at != want[k].at || before[at].empty) at++;
      nbdl::bind_sequence(m, [&](auto& ...x) { std::size_t j = 0; ((j++ == k ? touch(x) : void()), ...); });
      unchanged(at);
      if (want.size() > 2) s.nontrivial();
    }
  };

  struct entity_entry { char const* name; void (*run)(vf::Src&, char const*); };
  std::vector<entity_entry>& entities();
  template <typename E> struct add_entity
  {
    explicit add_entity(char const* name)
    { entities().push_back({name, [](vf::Src& s, char const* name) { entity_case<E>().run(s, name); }}); }
  };
}
namespace nbdl { NBDL_ENTITY(bx::inner, text, n); }

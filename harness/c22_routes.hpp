// C22: the routes that generated route maps (gen/routes.py) are made of, and the model of their texts
#ifndef C22_ROUTES_HPP
#define C22_ROUTES_HPP
#include "vf.hpp"
#include "held.hpp"
#include <boost/hana.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/message.hpp>
#include <nbdl/string.hpp>
#include <nbdl/webui/route_map.hpp>
#include <nbdl/webui/set_route.hpp>
#include <cstdint>
#include <limits>
#include <memory>
#include <optional>
#include <string>
#include <vector>

namespace hana = boost::hana;
namespace rt
{
  struct Empty { };
  struct Void { };
  struct Num { std::size_t a; };
  struct Int { int a; };
  struct Short { std::int16_t a; };
  struct Small { std::uint8_t a; };
  struct Long { long long a; };
  struct Text { nbdl::string a; };
  struct NumText { std::size_t a; nbdl::string b; };
  struct TextNum { nbdl::string a; unsigned b; };
  struct Texts { nbdl::string a; nbdl::string b; };
  struct Nums { int a; std::size_t b; unsigned short c; };
  struct Five { nbdl::string a; int b; nbdl::string c; std::size_t d; nbdl::string e; };
  struct Nine { std::size_t a; nbdl::string b; int c; nbdl::string d; std::size_t e; nbdl::string f; nbdl::string g; unsigned h; nbdl::string i; };
}
namespace nbdl
{
  NBDL_EMPTY(rt::Empty);
  NBDL_EMPTY(rt::Void);
  NBDL_ENTITY(rt::Num, a);
  NBDL_ENTITY(rt::Int, a);
  NBDL_ENTITY(rt::Short, a);
  NBDL_ENTITY(rt::Small, a);
  NBDL_ENTITY(rt::Long, a);
  NBDL_ENTITY(rt::Text, a);
  NBDL_ENTITY(rt::NumText, a, b);
  NBDL_ENTITY(rt::TextNum, a, b);
  NBDL_ENTITY(rt::Texts, a, b);
  NBDL_ENTITY(rt::Nums, a, b, c);
  NBDL_ENTITY(rt::Five, a, b, c, d, e);
  NBDL_ENTITY(rt::Nine, a, b, c, d, e, f, g, h, i);
}
namespace rt
{
  // ---- every member in turn, without the library ----
  template <typename F> void each(Empty&, F const&) {}
  template <typename F> void each(Void&, F const&) {}
  template <typename T, typename F> requires requires (T t) { t.a; } void each(T& t, F const& f)
  {
    f(t.a);
    if constexpr (requires { t.b; }) f(t.b);
    if constexpr (requires { t.c; }) f(t.c);
    if constexpr (requires { t.d; }) f(t.d);
    if constexpr (requires { t.e; }) f(t.e);
    if constexpr (requires { t.f; }) f(t.f);
    if constexpr (requires { t.g; }) f(t.g);
    if constexpr (requires { t.h; }) f(t.h);
    if constexpr (requires { t.i; }) f(t.i);
  }
  template <char ...c, typename F> void each(hana::string<c...>&, F const&) {}
  using texts = std::vector<std::string>;
  inline std::string text(nbdl::string const& s) { return std::string(s.begin(), s.end()); }
  template <std::integral N> std::string text(N n) { return std::to_string(n); }

  // the greatest number of a member, 0: the member is text
  using shape = std::vector<std::uint64_t>;
  struct route { std::string name; shape members; };
  template <typename T> shape shape_of()
  {
    shape r;
    T t{};
    each(t, [&]<typename M>(M&) { if constexpr (std::is_integral_v<M>) r.push_back(std::uint64_t(std::numeric_limits<M>::max())); else r.push_back(0); });
    return r;
  }

  // ---- the model: what a text spells out: the number of the route and its parameters ----
  struct parsed { std::size_t which; texts params; bool operator==(parsed const&) const = default; };
  inline std::optional<parsed> parse(std::vector<route> const& routes, std::string const& s)
  {
    if (s.empty() || s[0] != '/') return {};
    texts seg;
    std::size_t at = 1;
    while (true)
    {
      auto end = s.find('/', at);
      seg.push_back(s.substr(at, end == s.npos ? s.npos : end - at));
      if (end == s.npos) break;
      at = end + 1;
    }
    // one slash at the end says nothing
    if (seg.size() > 1 && seg.back().empty()) seg.pop_back();
    if (s != "/") for (auto& x : seg) if (x.empty()) return {};
    for (std::size_t i = 0; i < routes.size(); i++)
    {
      if (routes[i].name != seg[0]) continue;
      if (seg.size() != routes[i].members.size() + 1) return {};
      parsed r{i, {}};
      for (std::size_t j = 0; j + 1 < seg.size(); j++)
      {
        auto max = routes[i].members[j];
        auto const& x = seg[j + 1];
        if (!max) { r.params.push_back(x); continue; }
        if (x.find_first_not_of("0123456789") != x.npos) return {};
        auto from = x.find_first_not_of('0');
        if (from == x.npos) return {};
        auto digits = x.substr(from), most = std::to_string(max);
        if (digits.size() > most.size() || (digits.size() == most.size() && digits > most)) return {};
        r.params.push_back(digits);
      }
      return r;
    }
    return {};
  }

  inline std::string describe(std::optional<parsed> const& p)
  {
    if (!p) return "not found";
    std::string r = "route " + std::to_string(p->which);
    for (auto& x : p->params) r += " '" + x + "'";
    return r;
  }

  // ---- a generated map ----
  struct map_base
  {
    std::vector<route> routes;
    virtual ~map_base() = default;
    // the text of a route with these members, and what reading it back gives
    virtual std::string write(vf::Src&, std::size_t which, texts const& params) const = 0;
    virtual std::optional<parsed> read(std::string const&) const = 0;
  };
  std::vector<std::unique_ptr<map_base>>& maps();

  template <typename Variant> std::optional<parsed> shown(Variant const& v)
  {
    if (vf::held_index(v) == 0) return {};
    parsed r{vf::held_index(v) - 1, {}};
    vf::visit_held<void>(v, [&]<typename T>(T const& t)
    {
      if constexpr (!std::is_same_v<T, nbdl::webui::route_not_found>)
      {
        auto copy = t;
        each(copy, [&](auto& m) { r.params.push_back(text(m)); });
      }
    });
    return r;
  }

  template <typename Map, typename ...Ts> struct map_of : map_base
  {
    std::vector<std::string> names;
    explicit map_of(std::vector<std::string> n) { std::size_t i = 0; ((routes.push_back({n[i++], shape_of<Ts>()})), ...); }
    template <typename T> static T make(texts const& params)
    {
      T t{};
      std::size_t i = 0;
      each(t, [&]<typename M>(M& m) { auto& x = params[i++]; if constexpr (std::is_integral_v<M>) m = static_cast<M>(std::stoull(x)); else m = nbdl::string(x.begin(), x.end()); });
      return t;
    }
    template <typename T> std::string write_as(vf::Src& s, std::size_t which, texts const& params) const
    {
      Map const map{};
      auto const route = make<T>(params);
      auto v = map.to_variant(route);
      parsed want{which, params};
      s.equal(describe(shown(v)), describe(want), "the variant of a route");
      s.check(std::is_same_v<std::decay_t<decltype(v)>, typename Map::variant>, "type of the variant");
      // the message that sets the route carries it
      int sent = 0;
      auto send = [&](auto const& m)
      {
        sent++;
        static_assert(nbdl::message::is_upstream<std::decay_t<decltype(m)>> && nbdl::message::is_update<std::decay_t<decltype(m)>>);
        s.equal(describe(shown(nbdl::message::get_payload(m))), describe(want), "the route that is set");
      };
      nbdl::webui::set_route_rt<T, typename Map::variant>{}(send, route);
      s.equal(sent, 1, "messages that set a route");
      if (routes[which].members.empty()) nbdl::webui::set_route_rt<T, typename Map::variant>{}(send);
      auto text = map.to_string(route);
      auto moved = route;
      s.check(map.to_string(std::move(moved)) == text, "the text of a route given by value differs");
      return std::string(text.begin(), text.end());
    }
    std::string write(vf::Src& s, std::size_t which, texts const& params) const override
    {
      std::string r;
      std::size_t i = 0;
      ((i++ == which ? void(r = write_as<Ts>(s, which, params)) : void()), ...);
      return r;
    }
    std::optional<parsed> read(std::string const& s) const override
    {
      Map const map{};
      // a text of its own allocation, so that reading past its end shows
      nbdl::string t(s.begin(), s.end());
      t.shrink_to_fit();
      return shown(map.from_string(t));
    }
  };
  struct add_map
  {
    template <typename ...Ts, typename Map> static void to(Map, std::vector<std::string> names)
    { maps().push_back(std::make_unique<map_of<std::decay_t<Map>, Ts...>>(std::move(names))); }
  };
}
using namespace rt;
using namespace hana::literals;
#endif

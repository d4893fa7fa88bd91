// C29: the location of the page, the route and its text agree through any history
#include "c22_routes.hpp"
#include <mpdef/list.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/concept/Store.hpp>
#include <nbdl/consumer_init.hpp>
#include <nbdl/producer_init.hpp>
#include <nbdl/context.hpp>
#include <nbdl/def/builder/context.hpp>
#include <nbdl/def/directives.hpp>
#include <nbdl/make_context.hpp>
#include <nbdl/webui/nav_route.hpp>
#include <functional>

namespace message = nbdl::message;
using js = emscripten::val;

namespace nv
{
  template <int> struct tag { };
  struct watcher { };

  constexpr auto map0 = nbdl::webui::make_route_map(nbdl::webui::route_pair<>("root"_s), nbdl::webui::route_pair<Num>("num"_s),
    nbdl::webui::route_pair<Text>("text"_s), nbdl::webui::route_pair<NumText>("both"_s));
  constexpr auto map1 = nbdl::webui::make_route_map(nbdl::webui::route_pair<Void>(""_s), nbdl::webui::route_pair<Texts>("text"_s),
    nbdl::webui::route_pair<Nums>("text-2"_s), nbdl::webui::route_pair<Empty>("a b"_s), nbdl::webui::route_pair<TextNum>("t?x=1"_s));
  constexpr auto map2 = nbdl::webui::make_route_map(nbdl::webui::route_pair<Five>("five"_s), nbdl::webui::route_pair<Text>("fiv"_s));

  // what the page's reader was told of
  struct told { std::vector<std::string> states, messages; };
  inline told heard;
  // what is looked at while the reader is told
  inline std::function<void(bool typed)> on_state;

  template <typename Tag, typename Context> struct actor
  {
    using hana_tag = Tag;
    Context context;
    template <typename A> actor(nbdl::actor_initializer<Context, A>&& a) : context(a.context) { }
  };
  using route_path = hana::tuple<std::decay_t<decltype(nbdl::webui::nav_route_s)>>;
  using text_path = hana::tuple<std::decay_t<decltype(nbdl::webui::nav_route_s)>, hana::type<nbdl::string>>;
}
namespace nbdl
{
  template <typename Context> struct actor_type<nv::watcher, Context> { using type = nv::actor<nv::watcher, Context>; };
  template <> struct notify_state_change_impl<nv::watcher>
  {
    template <typename C, typename P> static void apply(C&, P const& p)
    {
      constexpr bool typed = decltype(hana::typeid_(p) == hana::typeid_(hana::make_tuple(nbdl::webui::nav_route_s)))::value;
      nv::heard.states.push_back(typed ? "route" : "text");
      if (nv::on_state) nv::on_state(typed);
    }
  };
  template <> struct send_downstream_message_impl<nv::watcher>
  {
    template <typename C, typename M> static void apply(C&, M&& m)
    {
      if constexpr (message::is_update<std::decay_t<M>>) nv::heard.messages.push_back(rt::text(message::get_payload(m)));
      else nv::heard.messages.push_back("not an update");
    }
  };
}
namespace nv_def
{
  using namespace nbdl_def;
  template <int i> constexpr auto& map_of() { if constexpr (i == 0) return nv::map0; else if constexpr (i == 1) return nv::map1; else return nv::map2; }
  template <int i> struct def
  {
    static constexpr auto apply()
    { return Context(Producers(NavRouteProducer(map_of<i>())), Consumers(Consumer(Type<nv::watcher>))); }
  };
}
namespace nbdl { template <int i> struct make_def_impl<nv::tag<i>> : nv_def::def<i> { }; }

namespace nv
{
  // the contexts in use behind one face
  struct app
  {
    virtual ~app() = default;
    virtual void go(vf::Src&, parsed const&) = 0;
    virtual void go_nowhere(vf::Src&) = 0;
    virtual void go_text(vf::Src&, std::string const&) = 0;
    virtual std::optional<parsed> route(vf::Src&) = 0;
    virtual std::string text(vf::Src&) = 0;
  };
  template <int I, typename Map, typename ...Ts> struct app_of : app
  {
    using variant = typename Map::variant;
    decltype(nbdl::make_unique_context<tag<I>>()) ctx = nbdl::make_unique_context<tag<I>>();
    template <typename P, typename V> void send(vf::Src& s, P path, V const& v)
    {
      auto m = message::make_upstream_update(path, message::no_uid, v);
      switch (s.choose(3))
      {
        case 0: nbdl::apply_message(*ctx, m); break;
        case 1: nbdl::apply_message(*ctx, std::as_const(m)); break;
        default: nbdl::apply_message(*ctx, std::move(m));
      }
    }
    template <typename T> void go_as(vf::Src& s, parsed const& p)
    {
      auto const r = map_of<Map, Ts...>::template make<T>(p.params);
      auto path = hana::make_tuple(nbdl::webui::nav_route_s);
      switch (s.choose(3))
      {
        case 0: send(s, path, r); break;
        case 1: send(s, path, variant(r)); break;
        default: nbdl::webui::set_route_rt<T, variant>{}([&](auto&& m) { nbdl::apply_message(*ctx, std::forward<decltype(m)>(m)); }, r);
      }
    }
    void go(vf::Src& s, parsed const& p) override { std::size_t i = 0; ((i++ == p.which ? go_as<Ts>(s, p) : void()), ...); }
    void go_nowhere(vf::Src& s) override { send(s, hana::make_tuple(nbdl::webui::nav_route_s), variant()); }
    void go_text(vf::Src& s, std::string const& t) override
    { send(s, hana::make_tuple(nbdl::webui::nav_route_s, hana::type_c<nbdl::string>), nbdl::string(t)); }
    std::optional<parsed> route(vf::Src& s) override
    {
      parsed r{99, {}};
      int calls = 0;
      nbdl::match(*ctx, hana::make_tuple(nbdl::webui::nav_route_s), [&]<typename T>(T const& t)
      {
        calls++;
        if constexpr (!std::is_same_v<T, nbdl::webui::route_not_found>)
        {
          std::size_t i = 0;
          ((std::is_same_v<T, Ts> ? void(r.which = i++) : void(i++)), ...);
          auto copy = t;
          each(copy, [&](auto& m) { r.params.push_back(rt::text(m)); });
        }
        else r.which = 98;
      });
      s.equal(calls, 1, "the routes that are shown");
      if (r.which == 98) return {};
      return r;
    }
    std::string text(vf::Src& s) override
    {
      std::string r;
      int calls = 0;
      nbdl::match(*ctx, hana::make_tuple(nbdl::webui::nav_route_s, hana::type_c<nbdl::string>), [&]<typename T>(T const& t)
      {
        calls++;
        if constexpr (std::is_same_v<T, nbdl::string>) r = rt::text(t); else r = "another type";
      });
      s.equal(calls, 1, "the texts that are shown");
      return r;
    }
  };
  template <int I, typename ...Ts> std::unique_ptr<app> start_as() { return std::make_unique<app_of<I, std::decay_t<decltype(nv_def::map_of<I>())>, Ts...>>(); }

  struct kind { std::vector<route> routes; std::unique_ptr<app> (*start)(); };
  template <int I, typename ...Ts> kind kind_of(std::vector<std::string> names)
  {
    kind k{{}, start_as<I, Ts...>};
    std::size_t i = 0;
    ((k.routes.push_back({names[i++], shape_of<Ts>()})), ...);
    return k;
  }
}

namespace
{
  std::vector<nv::kind> const& kinds()
  {
    static std::vector<nv::kind> const k = []
    {
      std::vector<nv::kind> v;
      v.push_back(nv::kind_of<0, decltype("root"_s), Num, Text, NumText>({"root", "num", "text", "both"}));
      v.push_back(nv::kind_of<1, Void, Texts, Nums, Empty, TextNum>({"", "text", "text-2", "a b", "t?x=1"}));
      v.push_back(nv::kind_of<2, Five, Text>({"five", "fiv"}));
      return v;
    }();
    return k;
  }
  // a part of a path: anything but a slash, and what a URL takes for a direction ('.' and '..')
  std::string word(vf::Src& s)
  {
    std::string r;
    for (std::size_t n = 1 + s.upto(s.chance(10) ? 60 : 5); n-- > 0;)
      r += s.chance(60) ? std::string(1, s.pick({'a', 'b', 'z', '0', '1', '9', '-', '.'}))
        : s.pick<std::string>({" ", "%", "%20", "%2F", "%zz", "?", "#", "&", "=", "+", "\"", "<", ":", "\\", "@", ";", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\x01", "\t", "\n", "\x7f"});
    return r == "." || r == ".." ? "dots" : r;
  }
  std::string number(vf::Src& s, std::uint64_t max)
  {
    switch (s.choose(3))
    {
      case 0: return std::to_string(max);
      case 1: return std::to_string(1 + s.upto(20));
      default: return std::to_string(1 + s.upto(max - 1) / (std::uint64_t(1) << s.choose(40)));
    }
  }
  std::string joined(nv::kind const& k, parsed const& p)
  {
    std::string t = "/" + k.routes[p.which].name;
    for (auto& x : p.params) t += "/" + x;
    return t;
  }
  parsed any_route(vf::Src& s, nv::kind const& k)
  {
    parsed p{static_cast<std::size_t>(s.choose(k.routes.size())), {}};
    for (auto max : k.routes[p.which].members) p.params.push_back(max ? number(s, max) : word(s));
    return p;
  }
  // a text that a location may have: of a route, or of something like one
  std::string some_text(vf::Src& s, nv::kind const& k)
  {
    auto t = joined(k, any_route(s, k));
    switch (s.choose(8))
    {
      case 0: return t + "/" + word(s);
      case 1: return t + "/";
      case 2: return "/" + word(s);
      case 3: if (auto at = t.rfind('/'); at > 0) return t.substr(0, at); return t;
      case 4: return t + "0";
      default: return t;
    }
  }
  // two slashes lead to another host
  std::string any_text(vf::Src& s, nv::kind const& k) { auto t = some_text(s, k); return t.starts_with("//") ? t.substr(1) : t; }
  constexpr char visible_js[] = "const p = Module.NBDL_WEBUI_NAV_URI_PREFIX || ''; const out = (x) => { x = x.replace(/[?#].*$/s, ''); return x.startsWith(p) ? x.slice(p.length).split('/').map(decodeURIComponent).join('/') : 'elsewhere ' + x; };";
  std::string location() { static std::string const js = std::string(visible_js) + "return out(location.pathname);"; return emscripten::val::eval(js.c_str()).as<std::string>(); }
  std::string places() { static std::string const js = std::string(visible_js) + "return vf.places.at + ':' + vf.places.list.map(out).join(' | ');"; return emscripten::val::eval(js.c_str()).as<std::string>(); }
  constexpr char page_goes_js[] = "const p = Module.NBDL_WEBUI_NAV_URI_PREFIX || ''; history[b ? 'replaceState' : 'pushState'](null, null, p + a.split('/').map(encodeURIComponent).join('/'));";

  struct session
  {
    vf::Src& s;
    nv::kind const& k;
    std::vector<std::string> list;
    std::size_t at = 0;
    std::unique_ptr<nv::app> app{};

    void look(char const* when)
    {
      s.equal(app->text(s), list[at], when, ": the text of the route");
      auto want = parse(k.routes, list[at]);
      s.equal(describe(app->route(s)), describe(want), when, ": the route at ", list[at]);
      s.equal(location(), list[at], when, ": the location of the page");
      std::string all = std::to_string(at) + ":";
      for (std::size_t i = 0; i < list.size(); i++) all += (i ? " | " : "") + list[i];
      s.equal(places(), all, when, ": the history of the page");
      s.label(want ? "found" : "not found");
    }
    // the reader hears of what happened, and sees it then
    template <typename F> void doing(char const* what, bool changes, F f)
    {
      nv::heard = {};
      std::string want_text = list[at], early;
      auto want_route = describe(parse(k.routes, list[at]));
      nv::on_state = [&](bool typed)
      {
        auto t = app->text(s);
        if (t != want_text) early = "shown the text " + t + " when told of a change";
        if (auto r = describe(app->route(s)); typed && r != want_route) early = "shown the route " + r + " when told that it changed";
      };
      f();
      nv::on_state = nullptr;
      s.check(early.empty(), what, ": the reader is ", early);
      for (auto& m : nv::heard.messages) s.equal(m, list[at], what, ": the message to readers");
      if (changes)
      {
        auto told = [&](char const* x) { return std::count(nv::heard.states.begin(), nv::heard.states.end(), x); };
        s.check(told("route") > 0, what, ": nobody is told that the route changed");
        s.check(told("text") > 0, what, ": nobody is told that the text changed");
        s.check(!nv::heard.messages.empty(), what, ": no message comes down");
      }
      look(what);
    }
    void pushed(std::string const& t) { list.resize(at + 1); list.push_back(t); at++; }
    void start() { app.reset(); nv::on_state = nullptr; app = k.start(); }
  };
}

VF_PROP(navigation, 12000, 300000)
{
  static bool once = false;
  if (!once)
  {
    once = true;
    vf::browser::page::get().export_function("__nbdl_webui_detail_event_callback", [](auto const& a) { nbdl::webui::detail::_nbdl_webui_detail_event_callback(reinterpret_cast<void*>(static_cast<std::uintptr_t>(a.at(0).num))); return 0; });
  }
  nbdl::detail::js_val::init_registry();
  emscripten::val::eval("vf.reset()");
  auto& k = kinds()[s.choose(kinds().size())];
  std::string prefix = s.pick({"", "", "/app", "/deep/er"});
  if (!prefix.empty()) emscripten::val::eval("Module.NBDL_WEBUI_NAV_URI_PREFIX = a", prefix);
  s.note("prefix", prefix);
  int before = emscripten::val::eval("return vf.registered()").as<int>();
  {
    session n{s, k, {s.chance(30) ? "/" : any_text(s, k)}};
    if (!prefix.empty() && s.chance(10)) n.list[0] = "";
    s.note("at", n.list[0]);
    emscripten::val::eval(page_goes_js, n.list[0], true);
    n.start();
    n.look("at first");
    for (std::size_t steps = 1 + s.upto(8); steps-- > 0;)
    {
      switch (s.choose(10))
      {
        case 0: case 1: case 2:
        {
          auto p = any_route(s, k);
          s.note("go to", describe(p));
          auto t = joined(k, p);
          n.pushed(t);
          n.doing("after a route was set", t != n.list[n.at - 1], [&] { n.app->go(s, p); });
          if (!p.params.empty()) s.nontrivial();
          break;
        }
        case 3: case 4:
        {
          auto t = any_text(s, k);
          s.note("go to text", t);
          n.pushed(t);
          n.doing("after a text was set", t != n.list[n.at - 1], [&] { n.app->go_text(s, t); });
          break;
        }
        case 5: case 6: case 7:
        {
          int by = s.pick({-1, -1, -2, 1, 1, 2, -3});
          auto to = static_cast<long>(n.at) + by;
          if (to < 0 || to >= static_cast<long>(n.list.size())) break;
          s.note("history", by);
          bool changes = n.list[static_cast<std::size_t>(to)] != n.list[n.at];
          n.at = static_cast<std::size_t>(to);
          n.doing("after the history moved", changes, [&] { emscripten::val::eval("history.go(a)", by); });
          s.nontrivial();
          break;
        }
        case 8:
        {
          s.note("nowhere");
          n.doing("after no route was set", false, [&] { n.app->go_nowhere(s); });
          break;
        }
        default:
        {
          // the page goes somewhere by itself; the application hears of it when it comes or starts there
          auto t = any_text(s, k);
          s.note("the page goes to", t);
          bool in_place = s.boolean();
          emscripten::val::eval(page_goes_js, t, in_place);
          if (in_place) n.list[n.at] = t; else n.pushed(t);
          if (s.boolean() && n.at > 0)
          {
            n.at--;
            s.note("back");
            n.doing("after the page came back", false, [&] { emscripten::val::eval("history.back()"); });
          }
          else { s.note("restart"); n.start(); n.look("after a new start"); }
        }
      }
    }
  }
  int after = emscripten::val::eval("return vf.registered()").as<int>();
  s.check(after == before, after - before, " values are left registered");
}

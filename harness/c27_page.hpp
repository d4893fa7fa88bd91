// C27: what generated documents (gen/dom.py) run against, and the plain tree they are compared with
#ifndef C27_PAGE_HPP
#define C27_PAGE_HPP
#include "vf.hpp"
#include "held.hpp"
#include <boost/hana.hpp>
#include <mpdef/list.hpp>
#include <nbdl/catch.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/ext/std/unordered_map.hpp>
#include <nbdl/message.hpp>
#include <nbdl/string.hpp>
#include <nbdl/notify_state_change.hpp>
#include <nbdl/variant.hpp>
#include <nbdl/webui/detail/dom_manips.hpp>
#include <nbdl/webui/html.hpp>
#include <nbdl/webui/renderer.hpp>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

namespace hana = boost::hana;
using namespace hana::literals;
#define I(n) (hana::int_c<(n)>)
#define AT(ptr, member) at(ptr, [](auto const& x_) { return &x_.member; })

namespace u
{
  using Str = std::string;
  using Int = int;
  using OptStr = nbdl::optional<std::string>;
  using VecInt = std::vector<int>;
  using Big = long long;
  using UInt = unsigned long long;
  using NStr = nbdl::string;
  using Flag = bool;
  struct Person { std::string first; int age; OptStr nick; VecInt xs; Big big; NStr title; };
  struct Pet { std::string first; };
  using Var = nbdl::variant<int, std::string, Person>;
  using VecPerson = std::vector<Person>;
  using VecVar = std::vector<Var>;
  using MapSS = std::unordered_map<std::string, std::string>;
  using Nothing = nbdl::nothing;
  using Absent = nbdl::not_in_set;
  using Unres = nbdl::unresolved;
}
namespace nbdl { NBDL_ENTITY(u::Person, first, age, nick, xs, big, title); NBDL_ENTITY(u::Pet, first); }

namespace u
{
  inline auto make_root()
  {
    return hana::make_map(
      hana::make_pair("a"_s, Str()), hana::make_pair("b"_s, Str()), hana::make_pair("n"_s, Int()), hana::make_pair("m"_s, Int())
    , hana::make_pair("o"_s, OptStr()), hana::make_pair("v"_s, Var()), hana::make_pair("w"_s, Var()), hana::make_pair("p"_s, Person())
    , hana::make_pair("xs"_s, VecInt()), hana::make_pair("ys"_s, VecPerson()), hana::make_pair("zs"_s, VecVar()), hana::make_pair("ms"_s, MapSS())
    , hana::make_pair("l"_s, Big()), hana::make_pair("t"_s, NStr()), hana::make_pair("f"_s, Flag()));
  }
  using Root = decltype(make_root());

  inline unsigned weight(std::string const& s) { unsigned w = static_cast<unsigned>(s.size()); for (char c : s) w = w * 7 + static_cast<unsigned char>(c); return w; }
  inline std::string plain(Str const& s) { return s; }
  inline std::string plain(int n) { return std::to_string(n); }
  inline std::string plain(Big n) { return std::to_string(n); }
  inline std::string plain(Flag n) { return n ? "1" : "0"; }
  constexpr auto p_odd = [](auto const& x) { return weight(plain(x)) % 2 == 1; };
  constexpr auto p_third = [](auto const& x) { return weight(plain(x)) % 3 == 0; };
  constexpr auto p_long = [](auto const& x) { return plain(x).size() > 1; };

  // ---- what handlers send ----
  inline std::vector<std::string>& sent() { static std::vector<std::string> v; return v; }
  // what else happens once, when a message is sent
  inline std::function<void()>& when_sent() { static std::function<void()> f; return f; }
  struct msg
  {
    std::string s;
    template <typename T> void operator()(T&) const
    {
      sent().push_back(s);
      if (auto f = std::exchange(when_sent(), nullptr)) f();
    }
  };
  inline std::string shown(Str const& s) { return "str " + s; }
  inline std::string shown(int n) { return "int " + std::to_string(n); }
  inline std::string shown(Big n) { return "big " + std::to_string(n); }
  inline std::string shown(Flag n) { return n ? "yes" : "no"; }
  inline std::string shown(NStr const& s) { return "nstr " + s; }
  inline std::string shown(Person const& p) { return "person " + p.first + std::to_string(p.age); }
  template <int n> std::string shown(hana::int_<n> const&) { return "int " + std::to_string(n); }
  template <char ...c> std::string shown(hana::string<c...> const&) { return "str " + std::string{c...}; }
  inline std::string shown(nbdl::detail::js_val const& v) { return "event " + std::to_string(EM_ASM_INT({ return Module.NBDL_DETAIL_JS_GET($0).detail; }, v.handle())); }
  inline std::string shown(std::reference_wrapper<nbdl::detail::js_val> v) { return shown(v.get()); }
  inline std::string shown(std::reference_wrapper<nbdl::detail::js_val const> v) { return shown(v.get()); }
  template <int n> struct handler
  {
    template <typename Send, typename ...X> void operator()(Send& send, X const& ...x) const
    { send(msg{std::to_string(n) + "(" + ((shown(x) + ",") + ... + std::string()) + ")"}); }
  };

  // ---- direct access for the model ----
  struct Hit { Str const* found; };
  template <typename T, typename F> auto at(T const* p, F f) -> decltype(f(*p)) { return p ? f(*p) : nullptr; }
  template <typename A> A const* as(std::optional<Hit> const& h)
  {
    static A const none{};
    if constexpr(std::is_same_v<A, Str>) return h->found;
    else return h->found ? nullptr : &none;
  }
  template <typename A, typename T> A const* as(T const* p)
  {
    static A const none{};
    if (!p) return nullptr;
    if constexpr(std::is_same_v<A, T>) return p;
    else if constexpr(requires { vf::held_index(*p); } && (requires { p->get_type_id(); } || requires { p->value_; })) return vf::held_if<A>(*p);
    else return nullptr;
  }
  template <typename A, typename T> bool is(T const& p) { return as<A>(p) != nullptr; }
  inline std::optional<Hit> look(Root const& r, Str const* key)
  {
    auto& m = r["ms"_s];
    auto i = m.find(*key);
    return Hit{i == m.end() ? nullptr : &i->second};
  }

  // ---- the model's document ----
  struct listener { std::string type; int id; std::string args; bool dead = false; bool file = false; };
  struct tree
  {
    std::string tag, text;
    bool raw = false;
    std::map<std::string, std::string> attrs, props;
    std::set<std::string> classes;
    std::vector<tree> kids;
    std::vector<listener> hears;
  };
  class M
  {
    std::vector<tree*> open_;
    std::string buffer;
    listener* now = nullptr;
    listener heard_file;
    tree input;
    tree& top() { return *open_.back(); }

    public:
    tree root{"root"};
    M() { open_.push_back(&root); }
    M(M const&) = delete;
    void open(char const* tag) { top().kids.push_back(tree{tag}); open_.push_back(&top().kids.back()); }
    void close() { open_.pop_back(); }
    void text(std::string s) { tree t; t.text = s; top().kids.push_back(t); }
    template <typename T> void text(T const* p) requires(!std::is_same_v<T, char>) { if (p) text(plain(*p)); }
    void raw(char const* s) { tree t; t.text = s; t.raw = true; top().kids.push_back(t); }
    void begin() { buffer.clear(); }
    void put(char const* s) { buffer += s; }
    void put(Str const* p) { if (p) buffer += *p; }
    void attr(char const* name)
    {
      if (name != std::string("class")) { top().attrs[name] = buffer; return; }
      std::string w;
      for (char c : buffer + " ") if (c == ' ') { if (!w.empty()) top().classes.insert(w); w.clear(); } else w += c;
    }
    void prop(char const* name) { top().props[name] = buffer; }
    template <typename T, typename P> void flag(char const* name, T const* p, P pred) { if (p && pred(*p)) top().attrs[name] = ""; }
    void cls(char const* name, bool on) { if (on) top().classes.insert(name); }
    template <typename T, typename P> void cls_if(char const* name, T const* p, P pred) { cls(name, p && pred(*p)); }
    void on(char const* type, int id) { top().hears.push_back({type, id, ""}); now = &top().hears.back(); }
    void on_end()
    {
      // the arguments of the input that was just added
      if (!input.tag.empty()) { input.hears.push_back(heard_file); top().kids.push_back(input); input = tree{}; }
      now = nullptr;
    }
    void file(int id)
    {
      listener l{"click", 0, ""};
      l.file = true;
      top().hears.push_back(l);
      input = tree{"input"};
      input.attrs["type"] = "file";
      heard_file = {"change", id, ""};
      now = &heard_file;
    }
    void param(std::string s) { now->args += s + ","; }
    template <typename T> void param(T const* p) requires(!std::is_same_v<T, char>) { if (p) param(shown(*p)); else now->dead = true; }
    void event() { param("event @"); }
  };

  struct live
  {
    virtual ~live() { }
    virtual void update() = 0;
    virtual bool destroy() { return false; }
  };
  struct page
  {
    std::function<std::unique_ptr<live>(Root&, emscripten::val, bool)> show;
    void (*model)(Root const&, M&);
  };
  std::vector<page>& pages();

  template <typename S> struct add_page
  {
    struct shown : live
    {
      using R = decltype(nbdl::webui::make_renderer<nbdl::webui::renderer<decltype(S::spec())>>(std::declval<std::reference_wrapper<Root>>(), std::declval<emscripten::val>()));
      R r;
      shown(Root& root, emscripten::val el) : r(nbdl::webui::make_renderer<nbdl::webui::renderer<decltype(S::spec())>>(std::ref(root), std::move(el))) { }
      // made first, and shown later
      static constexpr bool in_steps = requires (R& x, Root& root, emscripten::val el) { R(std::ref(root)); x.render(el); };
      shown(Root& root, emscripten::val el, int) requires(in_steps) : r(std::ref(root)) { update(); r.render(std::move(el)); }
      void update() override { nbdl::notify_state_change(r, hana::type_c<void>); }
      bool destroy() override { if constexpr(requires { r.destroy(); }) { r.destroy(); return true; } else return false; }
    };
    add_page() { pages().push_back({[](Root& r, emscripten::val el, bool steps) -> std::unique_ptr<live> {
      if constexpr(shown::in_steps) if (steps) return std::make_unique<shown>(r, std::move(el), 0);
      return std::make_unique<shown>(r, std::move(el)); }, S::model}); }
  };
}
using namespace u;
#endif

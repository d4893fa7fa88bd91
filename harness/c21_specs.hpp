// C21: what generated specs (gen/specs.py) run against, and the model
#ifndef C21_SPECS_HPP
#define C21_SPECS_HPP
#include "vf.hpp"
#include "held.hpp"
#include <boost/hana.hpp>
#include <mpdef/list.hpp>
#include <nbdl/catch.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/ext/std/unordered_map.hpp>
#include <nbdl/map_store.hpp>
#include <nbdl/path_promise.hpp>
#include <nbdl/run_sync.hpp>
#include <nbdl/ui_helper/match_branch.hpp>
#include <nbdl/ui_helper/match_params_spec.hpp>
#include <nbdl/ui_helper/match_path_spec.hpp>
#include <nbdl/ui_spec.hpp>
#include <nbdl/variant.hpp>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <unordered_map>
#include <variant>
#include <vector>

namespace hana = boost::hana;
using namespace hana::literals;

namespace u
{
  using Str = std::string;
  using Int = int;
  using OptStr = nbdl::optional<std::string>;
  using MapSI = std::unordered_map<std::string, int>;
  using MapIS = std::unordered_map<int, std::string>;
  struct Person { std::string first; int age; OptStr nick; MapIS grades; };
  using Var = nbdl::variant<int, std::string, Person>;
  using VarIS = nbdl::variant<int, std::string>;
  // types that convert to others of these
  using Big = long;
  struct Word : std::string { Word() = default; explicit Word(std::string x) : std::string(std::move(x)) { } };
  using Mix = nbdl::variant<int, long, std::string, Word>;
  using MapSP = std::unordered_map<std::string, Person>;
  using MapSV = std::unordered_map<std::string, VarIS>;
  using StoreSI = nbdl::map_store<std::string, int>;
  using StoreMap = decltype(StoreSI{}.map);
  using StoreVal = StoreMap::mapped_type;
  using NotFound = nbdl::not_found;
  using Nothing = nbdl::nothing;
  using Absent = nbdl::not_in_set;
  using Unres = nbdl::unresolved;
}
namespace nbdl { NBDL_ENTITY(u::Person, first, age, nick, grades); }

namespace u
{
  inline auto make_root()
  {
    return hana::make_map(
      hana::make_pair(hana::int_c<0>, Str()), hana::make_pair(hana::int_c<1>, Str())
    , hana::make_pair(hana::int_c<2>, Int()), hana::make_pair(hana::int_c<3>, Int())
    , hana::make_pair(hana::int_c<4>, MapSI()), hana::make_pair(hana::int_c<5>, MapIS())
    , hana::make_pair(hana::int_c<6>, OptStr()), hana::make_pair(hana::int_c<7>, Var())
    , hana::make_pair(hana::int_c<8>, MapSP()), hana::make_pair(hana::int_c<9>, Person())
    , hana::make_pair(hana::int_c<10>, StoreSI()), hana::make_pair(hana::int_c<11>, MapSV())
    , hana::make_pair(hana::int_c<12>, Mix()), hana::make_pair(hana::int_c<13>, Big())
    , hana::make_pair(hana::int_c<14>, Word()));
  }
  using Root = decltype(make_root());

  // ---- rendering ----
  inline std::string render(Str const& x) { return "str " + x; }
  inline std::string render(Int const& x) { return "int " + std::to_string(x); }
  inline std::string render(Big const& x) { return "big " + std::to_string(x); }
  inline std::string render(Word const& x) { return "word " + x; }
  inline std::string render(Nothing const&) { return "nothing"; }
  inline std::string render(Absent const&) { return "not in set"; }
  inline std::string render(Unres const&) { return "unresolved"; }
  inline std::string render(NotFound const&) { return "not found"; }
  inline std::string render(OptStr const&);
  inline std::string render(Person const&);
  inline std::string render(VarIS const&);
  inline std::string render(Var const&);
  inline std::string render(Mix const&);
  template <typename K, typename V> std::string render(std::unordered_map<K, V> const& m)
  {
    std::map<K, V const*> o;
    for (auto& [k, v] : m) o[k] = &v;
    std::string r = "map{";
    for (auto& [k, v] : o) r += render(k) + ":" + render(*v) + ",";
    return r + "}";
  }
  inline std::string render(OptStr const& x) { return vf::held_index(x) ? render(*vf::held_if<Str>(x)) : "nothing"; }
  inline std::string render(Person const& p) { return "person(" + p.first + "," + std::to_string(p.age) + "," + render(p.nick) + "," + render(p.grades) + ")"; }
  inline std::string render(VarIS const& x) { return vf::visit_held<std::string>(x, [](auto const& y) { return render(y); }); }
  inline std::string render(Var const& x) { return vf::visit_held<std::string>(x, [](auto const& y) { return render(y); }); }
  inline std::string render(Mix const& x) { return vf::visit_held<std::string>(x, [](auto const& y) { return render(y); }); }
  template <int n> std::string render(hana::int_<n> const&) { return "int " + std::to_string(n); }
  template <char ...c> std::string render(hana::string<c...> const&) { return "str " + std::string{c...}; }

  // ---- functions and predicates of the specs; all of what is rendered ----
  inline unsigned weight(std::string const& s) { unsigned w = 0; for (char c : s) w = w * 7 + static_cast<unsigned char>(c); return w; }
  constexpr auto f_join = [](auto const& ...x) { return ((render(x) + ";") + ... + std::string()); };
  constexpr auto f_key = [](auto const& ...x) { return "k" + std::to_string(weight(((render(x) + ";") + ... + std::string())) % 4); };
  constexpr auto f_num = [](auto const& ...x) { return static_cast<int>(weight(((render(x) + ";") + ... + std::string())) % 4); };
  constexpr auto p_odd = [](auto const& x) { return weight(render(x)) % 2 == 1; };
  constexpr auto p_third = [](auto const& x) { return weight(render(x)) % 3 == 0; };
  constexpr auto p_long = [](auto const& x) { return render(x).size() > 6; };
  constexpr auto p_never = [](auto const&) { return false; };
  constexpr auto p_no = [](auto const&) { return hana::false_c; };

  // ---- the model: values reached by direct access ----
  struct val
  {
    std::string type;                 // what the visitor is shown
    std::string text;
    void const* at = nullptr;         // the object, where there is one
    std::variant<std::monostate, Root const*, MapSI const*, MapIS const*, MapSP const*, MapSV const*, Person const*, StoreMap const*> inside;
  };
  inline val leaf(char const* type, std::string text, void const* at = nullptr) { return {type, std::move(text), at, {}}; }
  inline val show(Str const& x) { return leaf("Str", render(x), &x); }
  inline val show(Int const& x) { return leaf("Int", render(x), &x); }
  inline val show(Big const& x) { return leaf("Big", render(x), &x); }
  inline val show(Word const& x) { return leaf("Word", render(x), &x); }
  inline val show(Nothing const& x) { return leaf("Nothing", render(x), nullptr); }
  inline val show(Unres const& x) { return leaf("Unres", render(x), nullptr); }
  inline val show(NotFound const& x) { return leaf("NotFound", render(x), nullptr); }
  inline val show(MapSI const& x) { return {"MapSI", render(x), &x, &x}; }
  inline val show(MapIS const& x) { return {"MapIS", render(x), &x, &x}; }
  inline val show(MapSP const& x) { return {"MapSP", render(x), &x, &x}; }
  inline val show(MapSV const& x) { return {"MapSV", render(x), &x, &x}; }
  inline val show(Person const& x) { return {"Person", render(x), &x, &x}; }
  inline val show(OptStr const& x) { return vf::visit_held<val>(x, [](auto const& y) { return show(y); }); }
  inline val show(Var const& x) { return vf::visit_held<val>(x, [](auto const& y) { return show(y); }); }
  inline val show(StoreVal const& x) { return vf::visit_held<val>(x, [](auto const& y) { return show(y); }); }
  inline val show(VarIS const& x) { return vf::visit_held<val>(x, [](auto const& y) { return show(y); }); }
  inline val show(Mix const& x) { return vf::visit_held<val>(x, [](auto const& y) { return show(y); }); }
  inline std::string type_name(Big const&) { return "Big"; }
  inline std::string type_name(Word const&) { return "Word"; }
  inline std::string type_name(Str const&) { return "Str"; }
  inline std::string type_name(Int const&) { return "Int"; }
  inline std::string type_name(Nothing const&) { return "Nothing"; }
  inline std::string type_name(Absent const&) { return "Absent"; }
  inline std::string type_name(NotFound const&) { return "NotFound"; }
  inline std::string type_name(Unres const&) { return "Unres"; }
  inline std::string type_name(MapSI const&) { return "MapSI"; }
  inline std::string type_name(MapIS const&) { return "MapIS"; }
  inline std::string type_name(MapSP const&) { return "MapSP"; }
  inline std::string type_name(MapSV const&) { return "MapSV"; }
  inline std::string type_name(Person const&) { return "Person"; }
  inline std::string type_name(...) { return "constant"; }

  struct E;
  struct sec { std::string match; std::vector<E> keys; };
  struct arm;
  struct E
  {
    enum kind { constant, path, apply, branch, branch_if, cat } k = constant;
    std::string s;                    // constant, function
    std::vector<sec> sections;
    std::vector<E> args;              // arguments, elements, or the path that a branch looks at
    std::vector<arm> arms;
  };
  struct arm { std::string what; E spec; };
  inline E c(std::string s) { return {E::constant, s, {}, {}, {}}; }
  inline E p(std::vector<sec> x) { return {E::path, "", std::move(x), {}, {}}; }
  inline E ap(std::string f, std::vector<E> a) { return {E::apply, f, {}, std::move(a), {}}; }
  inline E cat(std::vector<E> a) { return {E::cat, "", {}, std::move(a), {}}; }
  inline E br(E on, std::vector<arm> a) { return {E::branch, "", {}, {std::move(on)}, std::move(a)}; }
  inline E brif(E on, std::vector<arm> a) { return {E::branch_if, "", {}, {std::move(on)}, std::move(a)}; }

  using vals = std::optional<std::vector<val>>;
  vals eval(Root const&, E const&);
  inline val look(Root const& root, val const& v, std::string const& key)
  {
    // what has nothing inside is the answer already
    if (std::holds_alternative<std::monostate>(v.inside)) return v;
    auto gone = leaf("Absent", "not in set");
    auto word = key.substr(4);
    if (std::get_if<Root const*>(&v.inside))
      switch (std::stoi(word))
      {
        case 0: return show(root[hana::int_c<0>]); case 1: return show(root[hana::int_c<1>]); case 2: return show(root[hana::int_c<2>]);
        case 3: return show(root[hana::int_c<3>]); case 4: return show(root[hana::int_c<4>]); case 5: return show(root[hana::int_c<5>]);
        case 6: return show(root[hana::int_c<6>]); case 7: return show(root[hana::int_c<7>]); case 8: return show(root[hana::int_c<8>]);
        case 9: return show(root[hana::int_c<9>]); case 10: { auto& m = root[hana::int_c<10>]; return {"StoreSI", "", &m, &m.map}; }
        case 11: return show(root[hana::int_c<11>]); case 12: return show(root[hana::int_c<12>]);
        case 13: return show(root[hana::int_c<13>]); default: return show(root[hana::int_c<14>]);
      }
    auto find = [&](auto const& m, auto const& k) { auto i = m.find(k); return i == m.end() ? gone : show(i->second); };
    if (auto* m = std::get_if<MapSI const*>(&v.inside)) return find(**m, word);
    if (auto* m = std::get_if<MapIS const*>(&v.inside)) return find(**m, std::stoi(word));
    if (auto* m = std::get_if<MapSP const*>(&v.inside)) return find(**m, word);
    if (auto* m = std::get_if<MapSV const*>(&v.inside)) return find(**m, word);
    if (auto* m = std::get_if<StoreMap const*>(&v.inside)) return find(**m, word);
    auto& x = **std::get_if<Person const*>(&v.inside);
    if (word == "first") return show(x.first);
    if (word == "age") return show(x.age);
    if (word == "nick") return show(x.nick);
    return show(x.grades);
  }
  inline vals eval_path(Root const& root, E const& e)
  {
    val v{"Root", "", &root, &root};
    for (auto& s : e.sections)
    {
      for (auto& k : s.keys)
      {
        auto key = eval(root, k);
        if (!key) return {};
        v = look(root, v, key->at(0).text);
      }
      if (!s.match.empty() && v.type != s.match) return {};
    }
    return std::vector<val>{v};
  }
  inline bool holds(std::string const& pred, val const& v)
  {
    if (pred == "otherwise") return true;
    if (pred == "p_odd") return weight(v.text) % 2;
    if (pred == "p_third") return weight(v.text) % 3 == 0;
    if (pred == "p_long") return v.text.size() > 6;
    if (pred.rfind("equal ", 0) == 0) return v.text == pred.substr(6);
    return false;
  }
  // the arm that is taken, -1: the path leads nowhere
  inline int choose_arm(Root const& root, E const& e)
  {
    auto v = eval_path(root, e.args[0]);
    if (!v) return -1;
    for (std::size_t i = 0; i < e.arms.size(); i++)
      if (e.k == E::branch ? e.arms[i].what.empty() || e.arms[i].what == v->at(0).type : holds(e.arms[i].what, v->at(0))) return static_cast<int>(i);
    return -1;
  }
  inline vals eval_all(Root const& root, std::vector<E> const& es)
  {
    std::vector<val> r;
    for (auto& e : es)
    {
      auto v = eval(root, e);
      if (!v) return {};
      r.insert(r.end(), v->begin(), v->end());
    }
    return r;
  }
  inline vals eval(Root const& root, E const& e)
  {
    switch (e.k)
    {
      case E::constant: return std::vector<val>{leaf("constant", e.s)};
      case E::path: return eval_path(root, e);
      case E::cat: return eval_all(root, e.args);
      case E::apply:
      {
        auto v = eval_all(root, e.args);
        if (!v) return {};
        std::string all;
        for (auto& x : *v) all += x.text + ";";
        std::string r = e.s == "f_join" ? "str " + all : e.s == "f_key" ? "str k" + std::to_string(weight(all) % 4) : "int " + std::to_string(weight(all) % 4);
        return std::vector<val>{leaf(e.s == "f_num" ? "Int" : "Str", r)};
      }
      default:
      {
        int i = choose_arm(root, e);
        if (i < 0) return {};
        return eval(root, e.arms[static_cast<std::size_t>(i)].spec);
      }
    }
  }

  // ---- a run of the generated specs ----
  struct run
  {
    vf::Src& s;
    Root const& root;
    int id;
    std::string describe(std::vector<val> const& v) { std::string r; for (auto& x : v) r += x.type + " " + x.text + " | "; return r; }

    template <typename Spec> void path(Spec spec, E const& e)
    {
      auto want = eval_path(root, e);
      int calls = 0;
      auto visit = [&](auto const& x)
      {
        calls++;
        s.check(want.has_value(), "spec ", id, " shows ", render(x), " where nothing matches");
        s.equal(type_name(x) + " " + render(x), want->at(0).type + " " + want->at(0).text, "spec ", id);
        if (want->at(0).at) s.check(static_cast<void const*>(&x) == want->at(0).at, "spec ", id, " shows a copy of ", render(x));
      };
      nbdl::ui_helper::match_path_spec(root, spec, visit);
      s.equal(calls, int(want.has_value()), "spec ", id, " (", want ? describe(*want) : "", ") calls");
      calls = 0;
      nbdl::ui_helper::match_path_spec(std::ref(root), spec, visit);
      s.equal(calls, int(want.has_value()), "spec ", id, " through a reference, calls");
      s.label(want ? "shown" : "nothing shown"); if (want) s.nontrivial();
      auto is = [&](char const* t) { return want && want->at(0).type == t; };
      s.equal((nbdl::ui_helper::match_path_spec_predicate<Str, Spec>(root)), is("Str"), "spec ", id, " predicate");
      s.equal((nbdl::ui_helper::match_path_spec_predicate<Nothing, Spec>(root)), is("Nothing"), "spec ", id, " predicate");
      s.equal((nbdl::ui_helper::match_path_spec_predicate<Person, Spec>(root)), is("Person"), "spec ", id, " predicate");
      s.equal((nbdl::ui_helper::match_path_spec_predicate<Big, Spec>(root)), is("Big"), "spec ", id, " predicate");
      s.equal((nbdl::ui_helper::match_path_spec_predicate<Word, Spec>(root)), is("Word"), "spec ", id, " predicate");
      static_assert(decltype(nbdl::ui_helper::match_path_spec_predicate<void, Spec>(root))::value);
    }
    // as a promise the same path resolves, or rejects with the value of another type
    template <typename Spec> void promise(Spec spec, E const& e)
    {
      std::string got;
      int calls = 0;
      nbdl::run_sync(hana::make_tuple(
        nbdl::path_promise(spec)
      , [&](auto const& x) { calls++; got = "value " + type_name(x) + " " + render(x); }
      , nbdl::catch_([&](auto const& x) { calls++; got = "other " + type_name(x) + " " + render(x); })
      ), root);
      std::string want;
      val v{"Root", "", &root, &root};
      for (auto& sx : e.sections)
      {
        for (auto& k : sx.keys) v = look(root, v, k.s);
        want = "value ";
        if (!sx.match.empty() && v.type != sx.match) { want = "other "; break; }
      }
      s.equal(calls, 1, "promise ", id, " outcomes");
      s.equal(got, want + v.type + " " + v.text, "promise ", id);
      s.nontrivial();
    }
    template <typename Spec> void branch(Spec, E const& e)
    {
      int want = choose_arm(root, e);
      auto index = nbdl::ui_helper::get_branch_index<Spec>(std::ref(root));
      s.equal(static_cast<int>(index), want, "branch of spec ", id);
      int calls = 0, got = -1;
      nbdl::ui_helper::match_branch<Spec>(std::ref(root), [&](auto i, auto) { calls++; got = static_cast<int>(decltype(i)::value); });
      s.equal(calls, int(want >= 0), "branches taken of spec ", id);
      s.equal(got, want, "branch taken of spec ", id);
      if (want >= 0)
      {
        calls = 0;
        nbdl::ui_helper::match_branch<Spec>(static_cast<std::size_t>(want), [&](auto i, auto) { calls++; got = static_cast<int>(decltype(i)::value); });
        s.check(calls == 1 && got == want, "branch by index of spec ", id);
      }
      s.label("branch"); if (want >= 0) s.nontrivial();
    }
    template <typename List> void params(List list, std::vector<E> const& es)
    {
      auto want = eval_all(root, es);
      int calls = 0;
      auto visit = [&](auto const& ...x)
      {
        calls++;
        s.check(want.has_value(), "spec ", id, " is called where a parameter leads nowhere");
        std::string got;
        ((got += render(x) + " | "), ...);
        std::string w;
        for (auto& v : *want) w += v.text + " | ";
        s.equal(got, w, "parameters of spec ", id);
        // the parameters that are paths are the very objects
        std::vector<void const*> at{static_cast<void const*>(&x)...};
        if (es.size() == want->size())
          for (std::size_t i = 0; i < es.size(); i++)
            if (es[i].k == E::path && want->at(i).at) s.check(at[i] == want->at(i).at, "parameter ", i, " of spec ", id, " is a copy");
      };
      nbdl::ui_helper::match_params_spec(std::ref(root), list, visit);
      s.equal(calls, int(want.has_value()), "calls with the parameters of spec ", id);
      s.label(want ? "called" : "not called"); if (want) s.nontrivial();
    }
  };
  using spec_fn = void (*)(run&);
  std::vector<spec_fn>& specs();
  struct add_spec { explicit add_spec(spec_fn f) { specs().push_back(f); } };
}
using namespace u;
using nbdl::ui_spec::get;
using nbdl::ui_spec::key_at;
using nbdl::ui_spec::match_when;
using nbdl::ui_spec::when;
using nbdl::ui_spec::cond;
using nbdl::ui_spec::otherwise;
using nbdl::ui_spec::concat;
#define I(n) hana::int_c<n>
#endif

// C25: what generated programs over the compile-time collections (gen/meta.py) use
#ifndef C25_META_HPP
#define C25_META_HPP
#include "vf.hpp"
#include <boost/hana.hpp>
#include <boost/hana/experimental/types.hpp>
#include <mpdef/MPDEF_DIRECTIVE.hpp>
#include <mpdef/MPDEF_METASTRUCT.hpp>
#include <mpdef/append_if.hpp>
#include <mpdef/collect_settings.hpp>
#include <mpdef/compose_collectors.hpp>
#include <mpdef/find_in_tree.hpp>
#include <mpdef/group_by.hpp>
#include <mpdef/justify_type.hpp>
#include <mpdef/list.hpp>
#include <mpdef/map.hpp>
#include <mpdef/metastruct.hpp>
#include <mpdef/pair.hpp>
#include <mpdef/string.hpp>
#include <mpdef/tree_node.hpp>
#include <nbdl/api_signature.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/string.hpp>
#include <nbdl/variant.hpp>
#include <array>
#include <cstdint>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>

namespace hana = boost::hana;
using namespace hana::literals;

namespace mt
{
  template <int i> struct K { };
  MPDEF_DIRECTIVE(Root)
  MPDEF_DIRECTIVE(Find)
  MPDEF_DIRECTIVE(NodeA)
  MPDEF_DIRECTIVE(NodeB)
  MPDEF_DIRECTIVE_LIST(Many)
  MPDEF_DIRECTIVE_LIST(Few)
  MPDEF_DIRECTIVE_LEAF(Set0)
  MPDEF_DIRECTIVE_LEAF(Set1)
  MPDEF_DIRECTIVE_LEAF(Set2)
  MPDEF_DIRECTIVE_LEAF(Set3)
  MPDEF_DIRECTIVE_TYPE(OfType)
  MPDEF_DIRECTIVE_TYPE_LIST(OfTypes)

  struct text_fn;
  template <typename T> std::string text();
  template <typename T> struct name { static std::string get() { return "other"; } };
  template <int i> struct name<K<i>> { static std::string get() { return "K" + std::to_string(i); } };
#define NAMED(x) template <> struct name<tag::x##_t> { static std::string get() { return #x; } };
  NAMED(Root) NAMED(Find) NAMED(NodeA) NAMED(NodeB) NAMED(Many) NAMED(Few) NAMED(Set0) NAMED(Set1) NAMED(Set2) NAMED(Set3) NAMED(OfType) NAMED(OfTypes)
#undef NAMED
  template <typename ...T> std::string join() { std::string r; ((r += r.empty() ? text<T>() : "," + text<T>()), ...); return r; }

  // a text for a compile-time value, which names its type and those inside of it
  template <int i> std::string of(K<i>) { return "K" + std::to_string(i); }
  template <typename I, I v> std::string of(hana::integral_constant<I, v>)
  { if constexpr (std::is_same_v<I, bool>) return v ? "true" : "false"; else return std::to_string(v); }
  template <typename I, I v> std::string of(std::integral_constant<I, v>)
  { if constexpr (std::is_same_v<I, bool>) return v ? "true" : "false"; else return std::to_string(v); }
  template <char ...c> std::string of(hana::string<c...>) { return "'" + std::string{c...} + "'"; }
  template <typename T> std::string of(hana::basic_type<T>) { return "t:" + name<T>::get(); }
  template <typename ...T> std::string of(mpdef::list<T...>) { return "[" + join<T...>() + "]"; }
  template <typename ...T> std::string of(mpdef::map<T...>) { return "{" + join<T...>() + "}"; }
  template <typename A, typename B> std::string of(mpdef::tree_node<A, B>) { return "(" + text<A>() + ":" + text<B>() + ")"; }
  template <typename ...T> std::string of(hana::tuple<T...>) { return "<" + join<T...>() + ">"; }
  template <typename ...T> std::string of(hana::experimental::types<T...>) { std::string r; ((r += "," + name<T>::get()), ...); return "types" + r; }
  inline std::string of(hana::optional<>) { return "nothing"; }
  template <typename T> std::string of(hana::optional<T>) { return "just " + text<T>(); }
  template <typename T> struct name<hana::optional<T>> { static std::string get() { return "optional " + name<T>::get(); } };
  template <> struct name<hana::optional<>> { static std::string get() { return "optional"; } };
  template <typename T> struct name<T const> { static std::string get() { return name<T>::get(); } };
  template <typename T> std::string text() { return of(T{}); }
#define E(...) [] { return text<std::remove_cvref_t<decltype(__VA_ARGS__)>>(); }

  // functions and predicates of compile-time values
  constexpr auto f_wrap = [](auto x) { return mpdef::make_list(x); };
  constexpr auto f_node = [](auto x) { return mpdef::make_tree_node(x, hana::int_c<1>); };
  constexpr auto f_first = [](auto x) { return hana::first(x); };
  constexpr auto f_same = [](auto x) { return x; };
  constexpr auto p_node = mpdef::is_tree_node;
  constexpr auto p_int = [](auto x) { return hana::bool_c<hana::Constant<decltype(x)>::value && !hana::is_a<hana::string_tag, decltype(x)>>; };
  constexpr auto p_type = [](auto x) { return hana::is_a<hana::type_tag>(x); };
  constexpr auto p_text = [](auto x) { return hana::is_a<hana::string_tag>(x); };
  constexpr auto p_never = [](auto) { return hana::false_c; };
  constexpr auto p_find = [](auto x) { return hana::equal(hana::first(x), tag::Find); };
  constexpr auto s_depth = [](auto n, auto) { return hana::plus(n, hana::int_c<1>); };
  constexpr auto s_trail = [](auto l, auto x) { return hana::append(l, hana::first(x)); };
  constexpr auto g_count = [](auto n, auto) { return hana::plus(n, hana::int_c<1>); };
  constexpr auto g_all = [](auto l, auto x) { return hana::append(l, x); };
  constexpr auto g_back = [](auto l, auto x) { return hana::prepend(l, x); };
  constexpr auto g_last = [](auto, auto x) { return x; };

  struct program { std::string source, want; std::string (*run)(); };
  std::vector<program>& programs();
  struct add { add(char const* source, std::string (*run)(), char const* want) { programs().push_back({source, want, run}); } };

  // ---- signatures ----
  struct mark { };
  struct mark2 { };
  namespace t = nbdl::_b::tag;
  template <typename T> struct tag_name { static std::string get() { return "other"; } };
#define NAMED(x) template <> struct tag_name<x> { static std::string get() { return #x; } };
  NAMED(int) NAMED(bool) NAMED(char) NAMED(unsigned) NAMED(double) NAMED(long) NAMED(mark) NAMED(mark2)
  template <typename ...T> std::string tags() { std::string r; ((r += r.empty() ? tag_name<T>::get() : "," + tag_name<T>::get()), ...); return r; }
  template <typename ...T> struct tag_name<t::sequence<T...>> { static std::string get() { return "sequence(" + tags<T...>() + ")"; } };
  template <typename ...T> struct tag_name<t::map<T...>> { static std::string get() { return "map(" + tags<T...>() + ")"; } };
  template <typename ...T> struct tag_name<t::map_node<T...>> { static std::string get() { return "node(" + tags<T...>() + ")"; } };
  template <typename ...T> struct tag_name<t::variant<T...>> { static std::string get() { return "variant(" + tags<T...>() + ")"; } };
  template <auto v> struct tag_name<t::constant<v>> { static std::string get() { return "constant " + std::to_string(v); } };
  template <typename T> struct tag_name<t::type<T>> { static std::string get() { return "type " + name<T>::get(); } };
  template <char ...c> struct tag_name<t::ct_string<c...>> { static std::string get() { return "text " + std::string{c...}; } };
  template <typename T> struct tag_name<t::container<T>> { static std::string get() { return "container(" + tag_name<T>::get() + ")"; } };
  template <> struct tag_name<t::buffer> { static std::string get() { return "buffer"; } };
  template <> struct tag_name<t::string> { static std::string get() { return "string"; } };
  template <> struct tag_name<t::dynamic_buffer> { static std::string get() { return "dynamic_buffer"; } };


  struct interface { std::string source, want, format, got; std::array<unsigned char, 20> signature, again; };
  std::vector<interface>& interfaces();
  template <typename T, typename Format> struct add_interface
  {
    add_interface(char const* source, char const* want, char const* format)
    {
      interfaces().push_back({source, want, format, tag_name<nbdl::detail::bind_tag_of<T>>::get(), nbdl::api_signature<T>(Format{}), nbdl::api_signature<T>(Format{})});
    }
  };
}
using namespace mt;
#endif

// what a variant holds: read from its storage where that is to be had, otherwise through its own visits
#pragma once
#include <cstddef>
#include <memory>
#include <optional>
#include <type_traits>
#include <utility>
#include <variant>

namespace vf
{
  // R is what every call gives, or void
  template <typename R, typename V, typename F> R visit_held(V const& v, F&& f)
  {
    if constexpr (requires { v.value_.index(); }) return std::visit(std::forward<F>(f), v.value_);
    else if constexpr (std::is_void_v<R>) v.match([&](auto const& x) { f(x); });
    else
    {
      std::optional<R> r{};
      v.match([&](auto const& x) { r.emplace(f(x)); });
      return std::move(*r);
    }
  }
  template <typename T, typename V> T const* held_if(V const& v)
  {
    if constexpr (requires { v.value_.index(); }) return std::get_if<T>(&v.value_);
    else
    {
      T const* r = nullptr;
      v.match([&](auto const& x) { if constexpr (std::is_same_v<std::decay_t<decltype(x)>, T>) r = std::addressof(x); });
      return r;
    }
  }
  template <typename T, typename V> T* held_if(V& v) requires(!std::is_const_v<V>)
  { return const_cast<T*>(held_if<T, V>(static_cast<V const&>(v))); }
  template <typename V> std::size_t held_index(V const& v)
  {
    if constexpr (requires { v.value_.index(); }) return v.value_.index();
    else return static_cast<std::size_t>(v.get_type_id());
  }
}

#ifndef VF_EMSCRIPTEN_VAL_H
#define VF_EMSCRIPTEN_VAL_H
#include "../vf_browser.hpp"
#include <string_view>

namespace emscripten
{
  class val
  {
    using token = ::vf::browser::token;
    token t;
    explicit val(token x, int) : t(std::move(x)) { }
    template <typename ...A> static val run(char op, A const& ...a)
    {
      std::string body(1, op);
      (::vf::browser::page::put(body, val(a).t), ...);
      return val(::vf::browser::page::get().command(body), 0);
    }
    static token text(std::string s) { token x; x.kind = token::text; x.str = std::move(s); return x; }
    static token num(double n, token::kind_t k = token::number) { token x; x.kind = k; x.num = n; return x; }

    public:
    val() { }
    val(val const&) = default;
    val(val&& o) = default;
    val(val& o) : t(o.t) { }
    val(val const&& o) : t(o.t) { }
    val& operator=(val const&) = default;
    val& operator=(val&&) = default;
    explicit val(std::string const& s) : t(text(s)) { }
    explicit val(std::string_view s) : t(text(std::string(s))) { }
    explicit val(char const* s) : t(text(s)) { }
    explicit val(char* s) : t(text(s)) { }
    explicit val(bool b) : t(num(b, token::boolean)) { }
    template <typename T, typename = std::enable_if_t<(std::is_arithmetic_v<T> || std::is_enum_v<T>) && !std::is_same_v<T, bool>>, typename = void>
    explicit val(T x) : t(num(static_cast<double>(x))) { }
    // what converts to a value
    template <typename T, typename = std::enable_if_t<!std::is_base_of_v<val, T>>, typename = decltype(std::declval<T const&>().operator val())>
    explicit val(T const& x) : t(x.operator val().t) { }

    static val global(char const* name = nullptr) { return run('g', val(name ? name : "globalThis")); }
    static val module_property(char const* name) { return run('m', val(name)); }
    static val undefined() { return {}; }
    static val null() { token x; x.kind = token::null; return val(std::move(x), 0); }
    static val array() { return run('a'); }
    static val object() { return run('O'); }
    static val u8string(char const* s) { return val(s); }
    template <typename ...A> static val eval(char const* code, A const& ...a) { return run('J', val(code), val(a)...); }

    template <typename K> val operator[](K const& k) const { return run('p', *this, k); }
    template <typename K, typename V> void set(K const& k, V const& v) { run('S', *this, k, v); }
    template <typename K> bool delete_(K const& k) const { return run('x', *this, k).t.num; }
    bool hasOwnProperty(char const* k) const { return run('h', *this, val(k)).t.num; }
    template <typename R, typename ...A> R call(char const* name, A&& ...a) const
    {
      val r = run('c', *this, val(name), val(a)...);
      if constexpr(!std::is_void_v<R>) return r.template as<R>();
    }
    template <typename ...A> val operator()(A&& ...a) const { return run('F', *this, val(a)...); }
    template <typename ...A> val new_(A&& ...a) const { return run('N', *this, val(a)...); }

    template <typename T> T as() const
    {
      if constexpr(std::is_same_v<T, val>) return *this;
      else if constexpr(std::is_same_v<T, std::string>) return t.kind == token::text ? t.str : run('s', *this).t.str;
      else if constexpr(std::is_same_v<T, bool>) return !run('!', *this).t.num;
      else return static_cast<T>(t.kind == token::number || t.kind == token::boolean ? t.num : run('#', *this).t.num);
    }
    bool isUndefined() const { return t.kind == token::undefined; }
    bool isNull() const { return t.kind == token::null; }
    bool isTrue() const { return t.kind == token::boolean && t.num; }
    bool isFalse() const { return t.kind == token::boolean && !t.num; }
    bool isNumber() const { return t.kind == token::number; }
    bool isString() const { return t.kind == token::text; }
    bool isArray() const { return eval("return Array.isArray(a)", *this).isTrue(); }
    bool equals(val const& o) const { return run('~', *this, o).t.num; }
    bool strictlyEquals(val const& o) const { return run('=', *this, o).t.num; }
    bool operator==(val const& o) const { return equals(o); }
    bool operator!() const { return !as<bool>(); }
    explicit operator bool() const { return as<bool>(); }
    bool instanceof(val const& o) const { return run('i', *this, o).t.num; }
    bool operator!=(val const& o) const { return !equals(o); }
    friend bool operator<(val const& a, val const& b) { return run('<', a, b).t.num; }
    friend bool operator>(val const& a, val const& b) { return b < a; }
    friend bool operator<=(val const& a, val const& b) { return eval("return a <= b", a, b).isTrue(); }
    friend bool operator>=(val const& a, val const& b) { return b <= a; }
    bool in(val const& o) const { return eval("return a in b", *this, o).isTrue(); }
    [[noreturn]] void throw_() const { eval("throw a", *this); std::abort(); }
    val typeOf() const { return run('T', *this); }
    val typeof_() const { return run('T', *this); }
  };

  template <typename T> std::vector<T> vecFromJSArray(val const& a)
  {
    std::vector<T> r;
    for (int i = 0, n = a["length"].as<int>(); i < n; i++) r.push_back(a[i].template as<T>());
    return r;
  }
}
#endif

// C12: a rejection goes to the first later handler that accepts what was rejected, as it was rejected
#include "vf.hpp"
#include <boost/hana.hpp>
#include <nbdl/catch.hpp>
#include <nbdl/pipe.hpp>
#include <nbdl/promise.hpp>
#include <nbdl/run_async.hpp>
#include <nbdl/run_sync.hpp>
#include <nbdl/tap.hpp>
#include <nbdl/try.hpp>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>

namespace
{
  struct base { int tag = 0; };
  struct thing : base { };
  struct from_thing { int tag; from_thing(thing const& t) : tag(t.tag) { } };
  struct apart { int tag = 0; };

  struct log_t { std::string text; void const* at = nullptr; } lg;
  template <typename T> void got(int place, char const* kind, T const& x) { lg.text += std::to_string(place) + kind + std::to_string(x.tag) + ";"; lg.at = static_cast<void const*>(std::addressof(x)); }

  template <int I> using num = std::integral_constant<int, I>;
  constexpr int n_handlers = 11;
  // handlers of all kinds of parameters
  template <int Kind> struct handler { int place; };
  template <> struct handler<0> { int place; void operator()(thing& x) const { got(place, "&", x); x.tag += 1000; } };
  template <> struct handler<1> { int place; void operator()(thing const& x) const { got(place, "c&", x); } };
  template <> struct handler<2> { int place; void operator()(thing&& x) const { got(place, "&&", x); } };
  template <> struct handler<3> { int place; void operator()(thing x) const { got(place, "v", x); lg.at = nullptr; } };
  template <> struct handler<4> { int place; void operator()(base const& x) const { got(place, "b", x); } };
  template <> struct handler<5> { int place; void operator()(from_thing x) const { got(place, "f", x); lg.at = nullptr; } };
  template <> struct handler<6> { int place; void operator()(apart const& x) const { got(place, "a", x); } };
  template <> struct handler<7> { int place; void operator()() const { lg.text += std::to_string(place) + "none;"; } };
  template <> struct handler<8> { int place; void operator()(thing const& x, int y) const { got(place, "2", x); lg.text += std::to_string(y) + ";"; } };
  template <> struct handler<9> { int place; void operator()(thing& x, std::unique_ptr<int> y) const { got(place, "m", x); lg.text += std::to_string(*y) + ";"; } };
  template <> struct handler<10> { int place; void operator()(thing const& x, int y = 7) const { got(place, "d", x); lg.text += std::to_string(y) + ";"; } };

  constexpr int n_ways = 8;
  // what is rejected
  template <int Way, typename R> void reject(R& r, thing& x)
  {
    if constexpr (Way == 0) r.reject(x);
    else if constexpr (Way == 1) r.reject(std::as_const(x));
    else if constexpr (Way == 2) r.reject(std::move(x));
    else if constexpr (Way == 3) r.reject(thing(x));
    else if constexpr (Way == 4) r.reject(x, 5);
    else if constexpr (Way == 5) r.reject(std::as_const(x), std::make_unique<int>(6));
    else if constexpr (Way == 6) r.reject(x, std::make_unique<int>(6));
    else r.reject(apart{x.tag});
  }
  // the types the handlers are asked with
  template <int Way> constexpr auto asked()
  {
    if constexpr (Way == 0) return boost::hana::type_c<void(thing&)>;
    else if constexpr (Way == 1) return boost::hana::type_c<void(thing const&)>;
    else if constexpr (Way == 2 || Way == 3) return boost::hana::type_c<void(thing&&)>;
    else if constexpr (Way == 4) return boost::hana::type_c<void(thing&, int&&)>;
    else if constexpr (Way == 5) return boost::hana::type_c<void(thing const&, std::unique_ptr<int>&&)>;
    else if constexpr (Way == 6) return boost::hana::type_c<void(thing&, std::unique_ptr<int>&&)>;
    else return boost::hana::type_c<void(apart&&)>;
  }
  // by hand, as the signatures above say
  constexpr bool takes(int way, int h)
  {
    constexpr char const* table[n_ways] = {
    // &  c& &&  v  b  f  a  0  2  m  d
      "1" "1" "0" "1" "1" "1" "0" "0" "0" "0" "1",
      "0" "1" "0" "1" "1" "1" "0" "0" "0" "0" "1",
      "0" "1" "1" "1" "1" "1" "0" "0" "0" "0" "1",
      "0" "1" "1" "1" "1" "1" "0" "0" "0" "0" "1",
      "0" "0" "0" "0" "0" "0" "0" "0" "1" "0" "1",
      "0" "0" "0" "0" "0" "0" "0" "0" "0" "0" "0",
      "0" "0" "0" "0" "0" "0" "0" "0" "0" "1" "0",
      "0" "0" "0" "0" "0" "0" "1" "0" "0" "0" "0" };
    return table[way][h] == '1';
  }
  std::string said(int way, int h, int place, int tag)
  {
    std::string p = std::to_string(place), t = std::to_string(tag) + ";";
    switch (h)
    {
      case 0: return p + "&" + t;
      case 1: return p + "c&" + t;
      case 2: return p + "&&" + t;
      case 3: return p + "v" + t;
      case 4: return p + "b" + t;
      case 5: return p + "f" + t;
      case 6: return p + "a" + t;
      case 8: return p + "2" + t + "5;";
      case 9: return p + "m" + t + "6;";
      case 10: return p + "d" + t + (way == 4 ? "5;" : "7;");
      default: return "";
    }
  }

  struct run_t { vf::Src& s; bool async, pass; };
  template <int Way, int A, int B> void one(run_t r)
  {
    vf::Src& s = r.s;
    thing x; x.tag = static_cast<int>(s.upto(900));
    int const tag = x.tag;
    lg = {};
    auto starts = nbdl::promise([&](auto& res)
    {
      if (r.pass) res.resolve(tag); else reject<Way>(res, x);
    });
    auto ends = nbdl::catch_([](auto&&...) { lg.text += "end;"; });
    auto step = [](int t) { lg.text += "s;"; return t; };
    auto run = [&](auto p) { if (r.async) nbdl::run_async(p); else nbdl::run_sync(p); };
    constexpr bool between = (Way + A) % 2;
    if constexpr (between)
      run(nbdl::pipe(starts, step, nbdl::catch_(handler<A>{1}), nbdl::tap(step), nbdl::catch_(handler<B>{2}), nbdl::try_(step), ends));
    else
      run(nbdl::pipe(starts, step, nbdl::catch_(handler<A>{1}), nbdl::catch_(handler<B>{2}), ends));
    std::string want;
    int taken = -1;
    if (r.pass) want = between ? "s;s;s;" : "s;";
    else
    {
      taken = takes(Way, A) ? A : takes(Way, B) ? B : -1;
      want = taken < 0 ? "end;" : said(Way, taken, takes(Way, A) ? 1 : 2, tag);
    }
    s.equal(lg.text, want, "what was called");
    // the object that was rejected, not another one
    if (taken >= 0 && (Way == 0 || Way == 1 || Way == 2 || Way == 4 || Way == 6) && taken != 3 && taken != 5)
      s.check(lg.at == static_cast<void const*>(&x), "the handler was given another object");
    bool const altered = taken == 0;
    s.equal(x.tag, tag + (altered ? 1000 : 0), "the object that was rejected");
    if (!r.pass) s.nontrivial();
  }
  // every way with every kind of handler, followed by some other one
  template <int Code> void numbered(run_t r) { one<Code % n_ways, Code / n_ways, (Code / n_ways + 3 * (Code % n_ways) + 1) % n_handlers>(r); }
  template <int... I> constexpr auto table(std::integer_sequence<int, I...>) { return std::array<void (*)(run_t), sizeof...(I)>{{&numbered<I>...}}; }
  constexpr auto runs = table(std::make_integer_sequence<int, n_ways * n_handlers>{});
}

VF_PROP(route, 8000, 200000)
{
  for (std::size_t n = 1 + s.upto(2); n-- > 0;)
  {
    std::size_t i = s.upto(runs.size() - 1);
    run_t r{s, s.boolean(), s.choose(5) == 0};
    s.note("combination", i, r.async, r.pass);
    runs[i](r);
  }
}

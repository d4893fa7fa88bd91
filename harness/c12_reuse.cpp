// C12: what a pipeline is built of and run with stays with the caller
#include "vf.hpp"
#include <boost/hana.hpp>
#include <nbdl/catch.hpp>
#include <nbdl/hold.hpp>
#include <nbdl/pipe.hpp>
#include <nbdl/promise.hpp>
#include <nbdl/run_async.hpp>
#include <nbdl/run_sync.hpp>
#include <nbdl/tap.hpp>
#include <nbdl/try.hpp>
#include <memory>
#include <stdexcept>
#include <string>

namespace
{
  std::string* trail = nullptr;
  void note(std::string const& x) { *trail += x + ";"; }
  // each step has a text of its own, longer than what fits into a string object
  struct text_step
  {
    std::string mine;
    bool operator==(text_step const&) const = default;
  };
  struct append : text_step { std::string operator()(std::string const& x) const { return x + mine; } };
  struct prepend : text_step { std::string operator()(std::string x) const { note("prepend"); return mine + x; } };
  struct seen : text_step { void operator()(std::string const& x) const { note(mine + x); } };
  struct guard : text_step
  {
    template <typename R> void operator()(R&& r, std::string const& x) const
    { if (x.find('!') != x.npos) r.reject(mine + x); else r.resolve(x); }
  };
  struct thrower : text_step { std::string operator()(std::string const& x) const { if (x.find('?') != x.npos) throw std::runtime_error(mine + x); return x; } };
  struct handler : text_step
  {
    void operator()(std::string const& x) const { note("rejected " + mine + x); }
    void operator()(std::exception const& x) const { note("threw " + mine + x.what()); }
  };
  struct last : text_step { void operator()(std::string const& x) const { note("got " + mine + x); } };
  struct with_hold : text_step { std::string operator()(std::string x) const { auto y = std::move(x); return y + mine; } };
  std::string word(vf::Src& s, char const* kind) { return std::string(kind) + std::to_string(s.upto(999)) + (s.boolean() ? std::string(40, '.') : ""); }
  struct parts
  {
    append a; prepend p; seen n; guard g; thrower t; handler h; last l; with_hold w; std::string held;
    bool operator==(parts const&) const = default;
    // what a run leaves in the trail
    std::string want(int shape, std::string const& x) const
    {
      std::string r;
      auto add = [&](std::string const& y) { r += y + ";"; };
      switch (shape)
      {
        case 0:   // functions only
          add("prepend"); add("got " + l.mine + p.mine + x + a.mine); break;
        case 1:   // every kind
          add("prepend");
          add(n.mine + p.mine + x + a.mine);
          if (auto y = p.mine + x + a.mine; y.find('!') != y.npos) { add("rejected " + h.mine + g.mine + y); break; }
          else if (y.find('?') != y.npos) { add("threw " + h.mine + t.mine + y); break; }
          else add("got " + l.mine + y);
          break;
        case 2:   // a held value replaces what came
          add(n.mine + x); add("got " + l.mine + held + w.mine); break;
        default:  // a pipeline within a pipeline
          add("prepend");
          if (auto y = p.mine + x; y.find('!') != y.npos) { add("rejected " + h.mine + g.mine + y); break; }
          else { add(n.mine + y + a.mine); add("got " + l.mine + y + a.mine); }
      }
      return r;
    }
  };
  // the steps as they are given
  struct keep { template <typename T> T& operator()(T& t) const { return t; } };
  struct keep_const { template <typename T> T const& operator()(T& t) const { return t; } };
  struct give { template <typename T> T operator()(T const& t) const { return t; } };
  template <int Shape, typename W> auto build(parts& x, W w)
  {
    if constexpr (Shape == 0) return nbdl::pipe(w(x.p), w(x.a), w(x.l));
    else if constexpr (Shape == 1) return nbdl::pipe(w(x.p), w(x.a), nbdl::tap(w(x.n)), nbdl::promise(w(x.g)), nbdl::try_(w(x.t)), w(x.l), nbdl::catch_(w(x.h)));
    else if constexpr (Shape == 2) return nbdl::pipe(nbdl::tap(w(x.n)), nbdl::hold(w(x.held)), w(x.w), w(x.l));
    else
    {
      auto inner = nbdl::pipe(w(x.p), nbdl::promise(w(x.g)), w(x.a));
      return nbdl::pipe(w(inner), nbdl::tap(w(x.n)), w(x.l), nbdl::catch_(w(x.h)));
    }
  }
  template <int Shape> void round(vf::Src& s, parts& x)
  {
    parts const before = x;
    std::string log;
    trail = &log;
    auto run = [&](auto p)
    {
      std::string want;
      for (std::size_t n = 1 + s.upto(2); n-- > 0;)
      {
        std::string arg = word(s, s.pick({"x", "x", "y!", "z?"}));
        std::string const kept = arg;
        auto how = s.choose(7);
        s.note("run", how, arg.substr(0, 5));
        log.clear();
        auto copy = p;
        switch (how)
        {
          case 0: nbdl::run_sync(p, arg); break;
          case 1: nbdl::run_sync(p, std::as_const(arg)); break;
          case 2: nbdl::run_sync(p, std::string(arg)); break;
          case 3: nbdl::run_async(p, arg); break;
          case 4: nbdl::run_async(std::as_const(p), std::as_const(arg)); break;
          case 5: nbdl::run_async(p, std::string(arg)); break;
          default: nbdl::run_async(std::move(copy), arg); break;
        }
        s.equal(log, x.want(Shape, kept), "what a run does");
        s.equal(arg, kept, "the argument of a run");
        s.check(x == before, "a run changes what its pipeline was built of");
      }
    };
    auto w = s.choose(3);
    s.note("built", w);
    if (w == 0) run(build<Shape>(x, keep{}));
    else if (w == 1) run(build<Shape>(x, keep_const{}));
    else run(build<Shape>(x, give{}));
    s.check(x == before, "building a pipeline changes what it was built of");
    trail = nullptr;
  }
}

VF_PROP(reuse, 6000, 150000)
{
  parts x{{{word(s, "a")}}, {{word(s, "p")}}, {{word(s, "n")}}, {{word(s, "g")}}, {{word(s, "t")}}, {{word(s, "h")}}, {{word(s, "l")}}, {{word(s, "w")}}, word(s, "held")};
  std::size_t n = 2 + s.upto(3);
  for (std::size_t i = 0; i < n; i++)
  {
    auto shape = s.choose(4);
    s.note("pipeline", shape);
    switch (shape)
    {
      case 0: round<0>(s, x); break;
      case 1: round<1>(s, x); break;
      case 2: round<2>(s, x); break;
      default: round<3>(s, x); break;
    }
  }
  s.nontrivial();
}

// a promise by itself: run by resolving or calling it; a failure goes by to the resolver
namespace by_hand
{
  struct resolver
  {
    std::string* log;
    template <typename ...T> void resolve(T&&... xs) { *log += "resolved " + std::to_string(sizeof...(xs)) + (std::string() + ... + (" " + text(xs))) + ";"; }
    template <typename ...T> void reject(T&&... xs) { *log += "rejected " + std::to_string(sizeof...(xs)) + (std::string() + ... + (" " + text(xs))) + ";"; }
    static std::string text(int x) { return std::to_string(x); }
    static std::string text(std::string const& x) { return x; }
    static std::string text(std::unique_ptr<int> const& x) { return x ? "to " + std::to_string(*x) : "to nothing"; }
  };
}
VF_PROP(by_itself, 3000, 60000)
{
  std::string log;
  by_hand::resolver r{&log};
  int n = static_cast<int>(s.upto(99)), runs = 0;
  std::string t = s.text_of("abc", 20), kept = t;
  bool called = s.boolean(), fails = s.boolean();
  s.note(n, t, called, fails);
  s.nontrivial();
  std::string want;
  auto p = nbdl::promise([&, fails, own = std::string("own")](auto& to, auto&&... xs)
  {
    runs++;
    s.equal(own, std::string("own"), "what a step holds");
    s.check(&to == &r, "a step is given the resolver itself");
    if (fails) to.reject(static_cast<decltype(xs)>(xs)...); else to.resolve(static_cast<decltype(xs)>(xs)..., std::string("more"));
  });
  auto run = [&](auto&&... xs) { if (called) p(r, static_cast<decltype(xs)>(xs)...); else p.resolve(r, static_cast<decltype(xs)>(xs)...); };
  auto expect = [&](std::size_t args, std::string const& list)
  { want += fails ? "rejected " + std::to_string(args) + list + ";" : "resolved " + std::to_string(args + 1) + list + " more;"; };
  int expected_runs = 0;
  for (auto k = 1 + s.upto(3); k--; )
  {
    switch (s.choose(5))
    {
      case 0: run(); expect(0, ""); expected_runs++; break;
      case 1: run(n, t); expect(2, " " + std::to_string(n) + " " + t); expected_runs++; break;
      case 2: run(std::make_unique<int>(n)); expect(1, " to " + std::to_string(n)); expected_runs++; break;
      case 3: run(std::as_const(t), n, n + 1, std::string("x")); expect(4, " " + t + " " + std::to_string(n) + " " + std::to_string(n + 1) + " x"); expected_runs++; break;
      default: // a failure of an earlier step does not run this one
        if (s.boolean()) { p.reject(r, n, t); want += "rejected 2 " + std::to_string(n) + " " + t + ";"; }
        else { p.reject(r, std::make_unique<int>(n)); want += "rejected 1 to " + std::to_string(n) + ";"; }
    }
    s.equal(log, want, "what the resolver was told");
    s.equal(runs, expected_runs, "runs of the step");
    s.equal(t, kept, "the caller's value is kept");
  }
}

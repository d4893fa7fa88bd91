// Pipelines of recording steps whose behaviour is decided at run time, a
// reference interpreter for them, and a scheduler that completes deferred
// steps in any order.  Shapes of pipelines are generated (gen/pipes.py).
#ifndef C12_PIPES_HPP
#define C12_PIPES_HPP
#include "vf.hpp"
#include <boost/hana.hpp>
#include <nbdl/catch.hpp>
#include <nbdl/hold.hpp>
#include <nbdl/hold_lazy.hpp>
#include <nbdl/pipe.hpp>
#include <nbdl/promise.hpp>
#include <nbdl/run_async.hpp>
#include <nbdl/run_async_loop.hpp>
#include <nbdl/run_sync.hpp>
#include <nbdl/tap.hpp>
#include <nbdl/try.hpp>
#include <deque>
#include <functional>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <tuple>
#include <vector>

namespace pp
{
  // ---- values and errors ------------------------------------------------
  struct token
  {
    static std::set<void const*>& alive() { static std::set<void const*> a; return a; }
    // an object may not be made where another is still alive
    void born() { if (!alive().insert(this).second) __builtin_trap(); }
    token() { born(); }
    token(token const& o) { o.check(); born(); }
    token& operator=(token const& o) { check(); o.check(); return *this; }
    ~token() { check(); alive().erase(this); }
    void check() const { if (!alive().count(this)) __builtin_trap(); }
  };

  struct val
  {
    std::string s;
    bool moved = false;
    token t;
    explicit val(std::string x) : s(std::move(x)) { }
    val(val const& o) : s(o.s), moved(o.moved), t(o.t) { }
    val(val&& o) : s(std::move(o.s)), moved(o.moved), t(o.t) { o.moved = true; o.s.clear(); }
    val& operator=(val const&) = default;
  };
  template <int i> struct err { std::string s; };
  // what is thrown
  struct thrown : std::logic_error { int step; thrown(std::string const& s, int n) : std::logic_error(s), step(n) { } };
  inline std::string kind_of(std::exception const& e)
  {
    if (auto t = dynamic_cast<thrown const*>(&e)) return "thrown by " + std::to_string(t->step) + " ";
    return dynamic_cast<std::runtime_error const*>(&e) ? "runtime " : "other ";
  }
  // as large as it is trivial
  struct big { int first; int rest[40]; int last; };

  inline std::string text(val const& v) { v.t.check(); return v.moved ? "MOVED-FROM" : "val " + v.s; }
  inline std::string text(big const& b) { return "big " + std::to_string(b.first) + (b.first == b.last ? "" : " TORN"); }
  inline std::string text(int x) { return "int " + std::to_string(x); }
  inline std::string text(std::unique_ptr<std::string> const& p) { return p ? "ptr " + *p : "NULL"; }
  template <int i> std::string text(err<i> const& e) { return "err" + std::to_string(i) + " " + e.s; }
  inline std::string text(std::exception const& e) { return std::string("exception ") + kind_of(e) + e.what(); }
  inline std::string texts() { return ""; }
  template <typename X, typename ...Xs> std::string texts(X const& x, Xs const& ...xs)
  {
    std::string r = text(x);
    if constexpr (sizeof...(xs) > 0) r += ", " + texts(xs...);
    return r;
  }

  // ---- behaviour --------------------------------------------------------
  enum outcome { VAL, INT, NONE, TWO, PASS, CALL, PTR, SUCCESSES,
                 REJ0 = SUCCESSES, REJ1, REJ2, TERM, OUTCOMES,
                 T_OK = 0, T_RUNTIME = 1, T_LOGIC = 2, T_INT = 3 };
  struct behaviour { int what = 0; bool later = false; };

  enum kind { FN_VAL, FN_INT, FN_VOID, PROMISE, PROMISE_OK, TAP_VALUE, TAP_REF, TRY_VAL, TRY_VOID, HOLD, HOLD_INT, HOLD_BIG,
              CATCH0, CATCH1, CATCH01, CATCH0INT, CATCH_EX, CATCH_ALL, CATCH_ALL_MUTABLE,
              START, GROW, LAZY, LAZY_OK };

  struct world
  {
    std::vector<std::string> log;
    int run = -1;                                          // whose code is running
    std::vector<std::vector<std::vector<behaviour>>> plan; // [run][round][step]
    std::vector<std::size_t> round;                        // [run], counted by START steps
    std::vector<std::pair<int, std::function<void()>>> pending;
  };
  inline world* w = nullptr;

  inline std::string name(int run, std::size_t round, int step)
  { return std::to_string(run) + "." + std::to_string(step) + (round ? "#" + std::to_string(round) : ""); }
  inline behaviour plan(int step)
  {
    auto& p = w->plan[w->run];
    auto r = w->round[w->run];
    return r < p.size() ? p[r][step] : behaviour{TERM, false};
  }
  inline std::string name(int step) { return name(w->run, w->round[w->run], step); }
  template <typename ...Xs> void enter(int step, token const& t, Xs const& ...xs)
  {
    t.check();
    w->log.push_back(name(step) + "(" + texts(xs...) + ")");
  }

  // ---- steps --------------------------------------------------------------
  template <typename R> R result(int step)
  {
    if constexpr (std::is_same_v<R, val>) return val("v" + name(step));
    else if constexpr (std::is_same_v<R, int>) return 100 * w->run + step;
  }
  template <typename R> auto fn(int step)
  {
    return [step, t = token{}](auto&& ...xs) -> R { enter(step, t, xs...); return result<R>(step); };
  }

  // a pipe without a catch at its end may not reject
  template <bool rejects, typename R, typename ...Xs> void settle(R& r, int step, int what, Xs&& ...xs)
  {
    if constexpr (rejects) switch (what)
    {
      case REJ0: return (void) r.reject(err<0>{name(step)});
      case REJ1: { err<1> const e{name(step)}; return (void) r.reject(e); }
      case REJ2: return (void) r.reject(err<0>{name(step)}, result<int>(step));
    }
    switch (what)
    {
      case VAL: return (void) r.resolve(result<val>(step));
      case INT: return (void) r.resolve(result<int>(step));
      case NONE: return (void) r.resolve();
      case TWO: { val v = result<val>(step); return (void) r.resolve(v, result<int>(step)); }
      case PASS: return (void) r.resolve(std::forward<Xs>(xs)...);
      case CALL: return (void) r(result<val>(step));
      case PTR: return (void) r.resolve(std::make_unique<std::string>(name(step)));
      default: return (void) r.terminate();
    }
  }
  // what a deferred step keeps of an argument: its own copy if there can be one
  template <typename X> using keep = std::conditional_t<std::is_move_constructible_v<std::decay_t<X>>, std::decay_t<X>, X>;
  template <bool rejects> auto promise_(int step)
  {
    return nbdl::promise([step, t = token{}](auto& r, auto&& ...xs)
    {
      enter(step, t, xs...);
      auto b = plan(step);
      if (!b.later)
        return settle<rejects>(r, step, b.what, std::forward<decltype(xs)>(xs)...);
      auto kept = std::make_shared<std::tuple<keep<decltype(xs)>...>>(std::forward<decltype(xs)>(xs)...);
      w->pending.emplace_back(w->run, [&r, step, b, kept]
      {
        std::apply([&](auto& ...ys) { settle<rejects>(r, step, b.what, std::move(ys)...); }, *kept);
      });
    });
  }
  inline auto promise(int step) { return promise_<true>(step); }
  inline auto promise_ok(int step) { return promise_<false>(step); }
  inline auto tap_value(int step)
  {
    return nbdl::tap([step, t = token{}](auto const& ...xs)
    {
      enter(step, t, xs...);
      auto eat = [](auto x) { if constexpr (std::is_same_v<decltype(x), val>) x.s = "eaten"; return 0; };
      auto maybe = [&](auto const& x) { if constexpr (std::is_copy_constructible_v<std::decay_t<decltype(x)>>) eat(x); };
      (maybe(xs), ...);
    });
  }
  inline auto tap_ref(int step)
  {
    return nbdl::tap([step, t = token{}](auto&& ...xs)
    {
      enter(step, t, xs...);
      // anything that may be moved from, is
      auto eat = [](auto&& x) { if constexpr (!std::is_lvalue_reference_v<decltype(x)>) auto y = std::move(x); };
      (eat(std::forward<decltype(xs)>(xs)), ...);
    });
  }
  template <typename R> auto try_(int step)
  {
    auto f = [step, t = token{}](auto&& ...xs) -> R
    {
      enter(step, t, xs...);
      switch (plan(step).what)
      {
        case T_RUNTIME: throw std::runtime_error("runtime " + name(step));
        case T_LOGIC: throw thrown("logic " + name(step), step);
        case T_INT: throw step;
        default: return result<R>(step);
      }
    };
    return nbdl::try_(f);
  }
  template <typename R, bool rejects> struct resident;
  template <typename X> constexpr bool is_resident = false;
  template <typename R, bool b> constexpr bool is_resident<resident<R, b>> = true;
  // first step of a looping pipeline: counts the rounds.  A resident is not
  // passed on, because its own step makes it anew.
  inline auto start(int step)
  {
    return nbdl::promise([step, t = token{}, first = true](auto& r, auto&& ...xs) mutable
    {
      if (!first) w->round[w->run]++;
      first = false;
      enter(step, t, xs...);
      if constexpr ((is_resident<std::decay_t<decltype(xs)>> || ...)) r.resolve();
      else r.resolve(std::forward<decltype(xs)>(xs)...);
    });
  }
  // alters a value that is passed by mutable reference
  inline auto grow(int step)
  {
    return nbdl::promise([step, t = token{}](auto& r, auto&& ...xs)
    {
      enter(step, t, xs...);
      auto more = [](auto& x)
      {
        using X = std::remove_reference_t<decltype(x)>;
        if constexpr (std::is_same_v<X, val>) x.s += "+";
        else if constexpr (std::is_same_v<X, int>) x++;
        else if constexpr (std::is_same_v<X, big>) x.first++, x.last++;
      };
      if constexpr (sizeof...(xs) == 1 && (std::is_lvalue_reference_v<decltype(xs)> && ...)) (more(xs), ...);
      r.resolve(std::forward<decltype(xs)>(xs)...);
    });
  }
  // an object that lives in the pipeline, knows its resolver and never moves
  template <typename R, bool rejects> struct resident
  {
    R& r;
    int step, run;
    std::size_t round;
    token t;
    resident* self = this;
    template <typename ...Xs>
    resident(R& r_, int step_, Xs const& ...xs)
      : r(r_), step(step_), run(w->run), round(w->round[w->run])
    {
      enter(step, t, xs...);
      w->pending.emplace_back(run, [this] { complete(); });
    }
    resident(resident const&) = delete;
    void complete()
    {
      t.check();
      if (self != this || run != w->run || round != w->round[run]) __builtin_trap();
      auto b = plan(step);
      if (b.what == CALL) return (void) r(*this);
      settle<rejects>(r, step, b.what == PASS ? int(NONE) : b.what);
    }
  };
  template <typename R, bool b> std::string text(resident<R, b> const& x)
  { x.t.check(); return "resident " + name(x.run, x.round, x.step); }
  template <bool rejects> auto lazy_(int step)
  {
    return nbdl::hold_lazy([step, t = token{}](auto& r, auto&& ...xs)
    {
      t.check();
      return resident<std::decay_t<decltype(r)>, rejects>(r, step, xs...);
    });
  }
  inline auto lazy(int step) { return lazy_<true>(step); }
  inline auto lazy_ok(int step) { return lazy_<false>(step); }
  inline auto hold(int step) { return nbdl::hold(val("held" + std::to_string(step))); }
  inline auto hold_int(int step) { return nbdl::hold(1000 + step); }
  inline auto hold_big(int step) { return nbdl::hold(big{2000 + step, {}, 2000 + step}); }

  template <typename ...Fs> struct both : Fs... { using Fs::operator()...; };
  template <typename ...Fs> both(Fs...) -> both<Fs...>;
  inline auto catch0(int step)
  { return nbdl::catch_([step, t = token{}](err<0> const& e) { enter(step, t, e); }); }
  inline auto catch1(int step)
  {
    auto handler = [step, t = token{}](err<1> e) { enter(step, t, e); };
    return nbdl::catch_(handler);      // a copy is to be kept
  }
  inline auto catch01(int step)
  {
    return nbdl::catch_(both{[step, t = token{}](err<0> e) { enter(step, t, e); },
                             [step](err<1> e) { enter(step, token{}, e); }});
  }
  inline auto catch0int(int step)
  { return nbdl::catch_([step, t = token{}](err<0> const& e, int x) { enter(step, t, e, x); return "ignored"; }); }
  inline auto catch_ex(int step)
  { return nbdl::catch_([step, t = token{}](std::exception const& e) { enter(step, t, e); }); }
  inline auto catch_all(int step)
  { return nbdl::catch_([step, t = token{}](auto const& ...xs) { enter(step, t, xs...); }); }
  inline auto catch_all_mutable(int step)
  { return nbdl::catch_([step, t = token{}, n = 0](auto&& ...xs) mutable { if (n++) w->log.push_back("AGAIN"); enter(step, t, xs...); }); }

  // ---- the reference interpreter ------------------------------------------
  struct interp
  {
    std::vector<kind> const* steps;
    int run;
    std::vector<std::vector<behaviour>> plans;
    std::vector<std::string> args;       // of the value or the error on its way
    bool loops = false;
    int pos = 0;
    bool failing = false, done = false;
    int waiting = -1;
    std::size_t round = 0;
    std::vector<std::string> held;       // [step] what the step holds
    int held_ref = -1;                   // the step whose held value is on its way by reference
    std::set<int> residents;

    behaviour plan(int i) const { return round < plans.size() ? plans[round][i] : behaviour{TERM, false}; }
    std::string nm(int i) const { return name(run, round, i); }
    static std::string join(std::vector<std::string> const& xs)
    {
      std::string r;
      for (std::size_t i = 0; i < xs.size(); i++) r += (i ? ", " : "") + xs[i];
      return r;
    }
    void say(std::vector<std::string>& log, int i) { log.push_back(nm(i) + "(" + join(args) + ")"); }
    std::string v(int i) const { return "val v" + nm(i); }
    std::string n(int i) const { return "int " + std::to_string(100 * run + i); }

    void settle(int i)
    {
      auto b = plan(i);
      auto lazy = (*steps)[i] == LAZY || (*steps)[i] == LAZY_OK;
      if (lazy && b.what == CALL)
      {
        args = {"resident " + nm(i)};
        return;
      }
      if (lazy && b.what == PASS) b.what = NONE;
      if (b.what != PASS || b.later) held_ref = -1;
      switch (b.what)
      {
        case VAL: case CALL: args = {v(i)}; break;
        case INT: args = {n(i)}; break;
        case NONE: args = {}; break;
        case TWO: args = {v(i), n(i)}; break;
        case PASS: break;
        case PTR: args = {"ptr " + nm(i)}; break;
        case REJ0: args = {"err0 " + nm(i)}; failing = true; break;
        case REJ1: args = {"err1 " + nm(i)}; failing = true; break;
        case REJ2: args = {"err0 " + nm(i), n(i)}; failing = true; break;
        default: done = true;
      }
    }
    bool starts(std::size_t i, char const* p) const { return i < args.size() && args[i].rfind(p, 0) == 0; }
    bool accepts(kind k) const
    {
      bool one = args.size() == 1;
      switch (k)
      {
        case CATCH0: return one && starts(0, "err0");
        case CATCH1: return one && starts(0, "err1");
        case CATCH01: return one && (starts(0, "err0") || starts(0, "err1"));
        case CATCH0INT: return args.size() == 2 && starts(0, "err0");
        case CATCH_EX: return one && starts(0, "exception");
        case CATCH_ALL: case CATCH_ALL_MUTABLE: return true;
        default: return false;
      }
    }
    void resume(std::vector<std::string>& log) { int i = waiting; waiting = -1; settle(i); go(log); }
    void go(std::vector<std::string>& log)
    {
      while (!done)
      {
        if (pos == static_cast<int>(steps->size()))
        {
          if (!loops || failing) break;
          pos = 0;
          round++;
        }
        int i = pos++;
        kind k = (*steps)[i];
        if (k < CATCH0 && k != TAP_VALUE && k != TAP_REF && k != PROMISE && k != PROMISE_OK) held_ref = -1;
        if (failing)
        {
          if (accepts(k)) { say(log, i); done = true; }
          continue;
        }
        switch (k)
        {
          case FN_VAL: say(log, i); args = {v(i)}; break;
          case FN_INT: say(log, i); args = {n(i)}; break;
          case FN_VOID: say(log, i); args = {}; break;
          case TAP_VALUE: case TAP_REF: say(log, i); break;
          case HOLD: case HOLD_INT: case HOLD_BIG:
            held.resize(steps->size());
            if (held[i].empty())
              held[i] = k == HOLD ? "val held" + std::to_string(i) : k == HOLD_INT ? "int " + std::to_string(1000 + i) : "big " + std::to_string(2000 + i);
            args = {held[i]};
            held_ref = i;
            break;
          case START: say(log, i); if (starts(0, "resident")) args.clear(); break;
          case GROW:
            say(log, i);
            if (held_ref >= 0)
            {
              auto& h = held[held_ref];
              if ((*steps)[held_ref] == HOLD) h += "+";
              else h = h.substr(0, 4) + std::to_string(std::stoi(h.substr(4)) + 1);
              args = {h};
            }
            break;
          case LAZY: case LAZY_OK:
            say(log, i);
            held_ref = -1;
            residents.insert(i);
            waiting = i;
            return;
          case TRY_VAL: case TRY_VOID:
            say(log, i);
            if (int x = plan(i).what; x == T_OK || x > T_INT) { args.clear(); if (k == TRY_VAL) args = {v(i)}; }
            else
            {
              failing = true;
              args = {plan(i).what == T_RUNTIME ? "exception runtime runtime " + nm(i)
                    : plan(i).what == T_LOGIC ? "exception thrown by " + std::to_string(i) + " logic " + nm(i) : "exception runtime Unknown exception"};
            }
            break;
          case PROMISE: case PROMISE_OK:
            say(log, i);
            if (plan(i).later) { waiting = i; return; }
            settle(i);
            break;
          default: break;
        }
      }
      done = true;
    }
  };

  struct shape
  {
    std::vector<kind> steps;
    char const* text;
    std::size_t tokens;                 // held by one copy of the pipeline
    void (*prepare)(int how, bool async, std::vector<std::function<void()>>& starters);
    bool loops;
  };
  inline std::vector<shape>& shapes() { static std::vector<shape> x; return x; }
  struct add { add(shape s) { shapes().push_back(std::move(s)); } };

  // starts runs of one pipeline in different ways; `how` picks the arguments
  template <typename F, typename P> void with_args(F const& f, P&& p, int how)
  {
    switch (how % 4)
    {
      case 0: return f(std::forward<P>(p));
      case 1: return f(std::forward<P>(p), val("start"));
      case 2: { val const v("start"); return f(std::forward<P>(p), v, 7); }
      default: return f(std::forward<P>(p), std::make_unique<std::string>("start"));
    }
  }
  inline std::vector<std::string> arg_texts(int how)
  {
    switch (how % 4)
    {
      case 0: return {};
      case 1: return {"val start"};
      case 2: return {"val start", "int 7"};
      default: return {"ptr start"};
    }
  }
}
#endif

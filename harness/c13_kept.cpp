// C13: a run keeps what its pipeline was built of, though the caller does not
#include "vf.hpp"
#include <boost/hana.hpp>
#include <nbdl/catch.hpp>
#include <nbdl/hold.hpp>
#include <nbdl/hold_lazy.hpp>
#include <nbdl/pipe.hpp>
#include <nbdl/promise.hpp>
#include <nbdl/run_async.hpp>
#include <nbdl/run_async_loop.hpp>
#include <nbdl/tap.hpp>
#include <nbdl/try.hpp>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

namespace
{
  std::string* trail = nullptr;
  long alive = 0;
  void note(std::string const& x) { *trail += x + ";"; }
  // a text on the heap that is no more when the object is no more
  struct mine
  {
    std::unique_ptr<std::string> text;
    mine(std::string x) : text(new std::string(std::move(x))) { alive++; }
    mine(mine const& x) : text(new std::string(*x.text)) { alive++; }
    mine(mine&& x) : text(new std::string(*x.text)) { alive++; }
    mine& operator=(mine const&) = delete;
    ~mine() { alive--; *text = "(gone)"; }
    std::string const& operator*() const { return *text; }
  };
  std::vector<std::function<void(std::string)>> waiting;
  struct later { mine m; template <typename R> void operator()(R& r, std::string const& x) const { note(*m + x); waiting.push_back([&r](std::string y) { r.resolve(std::move(y)); }); } };
  struct append { mine m; std::string operator()(std::string const& x) const { return x + *m; } };
  struct seen { mine m; void operator()(std::string const& x) const { note(*m + x); } };
  struct guard { mine m; template <typename R> void operator()(R& r, std::string const& x) const { if (x.find('!') != x.npos) r.reject(*m + x); else r.resolve(x); } };
  struct thrower { mine m; std::string operator()(std::string const& x) const { if (x.find('?') != x.npos) throw std::runtime_error(*m + x); return x; } };
  struct handler
  {
    mine m;
    void operator()(std::string const& x) const { note("rejected " + *m + x); }
    void operator()(std::exception const& x) const { note("threw " + *m + x.what()); }
  };
  struct joins { mine m; std::string operator()(mine& x) const { return *x + *m; } };
  struct last { mine m; void operator()(std::string const& x) const { note("got " + *m + x); } };
  // ends a looping run
  struct stops { mine m; template <typename R> void operator()(R& r, std::string const& x) const { note(*m); if (x.find('.') != x.npos) { note("ended"); r.terminate(); } else r.resolve(x); } };
  // made when its turn comes, of what the step before gave; its type goes by what it is made of
  template <typename R, typename X> struct made
  {
    R& r;
    mine const& m;             // what it is made by stays for as long as it is there
    mine from;
    made* self = this;
    made(R& r_, mine const& m_, X const& x) : r(r_), m(m_), from(x)
    {
      note(*m + *from);
      waiting.push_back([this](std::string y) { from.text->append(y); if (m.text->empty() || self != this) __builtin_trap(); r.resolve(*this); });
    }
    made(made const&) = delete;
  };
  struct makes { mine m; template <typename R, typename X> auto operator()(R& r, X const& x) const { return made<R, X>(r, m, x); } };
  struct opens
  {
    mine m;
    // only of what is made of a text
    template <typename R> std::string operator()(made<R, std::string>& x) const { return *x.from + *m; }
  };
  struct parts { makes z; opens o; later d; append a; seen n; guard g; thrower t; handler h; mine held; joins j; last l; stops e; };
  struct texts { std::string z, o, d, a, n, g, t, h, held, j, l, e; };
  std::unique_ptr<parts> make(texts const& x) { return std::unique_ptr<parts>(new parts{{x.z}, {x.o}, {x.d}, {x.a}, {x.n}, {x.g}, {x.t}, {x.h}, x.held, {x.j}, {x.l}, {x.e}}); }

  struct keep { template <typename T> T& operator()(T& t) const { return t; } };
  struct keep_const { template <typename T> T const& operator()(T& t) const { return t; } };
  struct give { template <typename T> T&& operator()(T& t) const { return std::move(t); } };
  template <int Shape, typename W> auto build(parts& x, W w)
  {
    if constexpr (Shape == 0) return nbdl::pipe(nbdl::promise(w(x.d)), nbdl::tap(w(x.n)), w(x.a), w(x.l), nbdl::catch_(w(x.h)));
    else if constexpr (Shape == 1) return nbdl::pipe(nbdl::promise(w(x.d)), nbdl::promise(w(x.g)), nbdl::try_(w(x.t)), w(x.l), nbdl::catch_(w(x.h)));
    else if constexpr (Shape == 2) return nbdl::pipe(nbdl::promise(w(x.d)), nbdl::tap(w(x.n)), nbdl::hold(w(x.held)), w(x.j), w(x.l), nbdl::catch_(w(x.h)));
    else if constexpr (Shape == 5)
    {
      auto f = w(x.z);
      auto lazy = nbdl::hold_lazy(w(f), nbdl::lazy_args<std::string const&>);
      return nbdl::pipe(w(lazy), w(x.o), nbdl::tap(w(x.n)), nbdl::promise(w(x.g)), w(x.l), nbdl::catch_(w(x.h)));
    }
    else
    {
      auto inner = nbdl::pipe(nbdl::promise(w(x.d)), w(x.a), nbdl::tap(w(x.n)));
      return nbdl::pipe(w(inner), nbdl::promise(w(x.g)), w(x.l), nbdl::catch_(w(x.h)));
    }
  }
  template <typename W> auto build_loop(parts& x, W w)
  {
    return nbdl::pipe(nbdl::promise(w(x.d)), nbdl::promise(w(x.e)), nbdl::tap(w(x.n)), w(x.a), nbdl::catch_(w(x.h)));
  }
  template <typename W> auto build_lazy_loop(parts& x, W w)
  {
    return nbdl::pipe(nbdl::hold_lazy(w(x.z), nbdl::lazy_args<std::string&>), w(x.o), nbdl::promise(w(x.e)), nbdl::tap(w(x.n)), w(x.a), nbdl::catch_(w(x.h)));
  }
  struct run_state { texts t; int shape; std::string arg; int rounds = 0; bool ended = false; };
  void want_start(run_state const& r, std::string& log) { log += (r.shape >= 5 ? r.t.z : r.t.d) + r.arg + ";"; }
  // what follows when y arrives
  void want_rest(run_state& r, std::string const& y, std::string& log)
  {
    auto add = [&](std::string const& x) { log += x + ";"; };
    auto const& t = r.t;
    r.ended = true;
    switch (r.shape)
    {
      case 0: add(t.n + y); add("got " + t.l + y + t.a); break;
      case 1:
        if (y.find('!') != y.npos) add("rejected " + t.h + t.g + y);
        else if (y.find('?') != y.npos) add("threw " + t.h + t.t + y);
        else add("got " + t.l + y);
        break;
      case 2: add(t.n + y); add("got " + t.l + t.held + t.j); break;
      case 3:
        add(t.n + y + t.a);
        if ((y + t.a).find('!') != y.npos) add("rejected " + t.h + t.g + y + t.a); else add("got " + t.l + y + t.a);
        break;
      case 5:
      {
        auto x = r.arg + y + t.o;
        add(t.n + x);
        if (x.find('!') != x.npos) add("rejected " + t.h + t.g + x); else add("got " + t.l + x);
        break;
      }
      case 6:
      {
        auto x = r.arg + y + t.o;
        add(t.e);
        if (x.find('.') != x.npos) { add("ended"); break; }
        add(t.n + x);
        r.arg = x + t.a;               // the next one is made of this
        add(t.z + r.arg);
        r.ended = false;
        break;
      }
      default:
        add(t.e);
        if (y.find('.') != y.npos) { add("ended"); break; }
        add(t.n + y);
        add(t.d + y + t.a);
        r.ended = false;
    }
  }
}

VF_PROP(kept, 5000, 120000)
{
  std::string log, want;
  trail = &log;
  waiting.clear();
  long const before = alive;
  {
    std::vector<run_state> runs;
    auto word = [&](char const* k) { return std::string(k) + std::to_string(s.upto(99)) + (s.boolean() ? std::string(30, '-') : ""); };
    std::size_t steps = 3 + s.upto(6);
    std::vector<std::size_t> open;   // open[i]: the run that waits at waiting[i]
    for (std::size_t i = 0; i < steps || !open.empty(); i++)
    {
      if (i < steps && (open.empty() || s.boolean()))
      {
        run_state r{{word("z"), word("o"), word("d"), word("a"), word("n"), word("g"), word("t"), word("h"), word("held"), word("j"), word("l"), word("e")}, static_cast<int>(s.choose(7)), word("x")};
        auto w = s.choose(3);
        bool by_move = s.boolean();
        s.note("start", r.shape, w, by_move);
        auto p = make(r.t);
        auto with = [&](auto run)
        {
          return [&, run](auto pipeline)
          {
            p.reset();
            auto arg = std::make_unique<std::string>(r.arg);
            if (by_move) run(std::move(pipeline), *arg); else run(std::as_const(pipeline), *arg);
            *arg = "(gone)";
          };
        };
        auto go = with([](auto&& ...x) { nbdl::run_async(std::forward<decltype(x)>(x)...); });
        auto go_round = with([](auto&& ...x) { nbdl::run_async_loop(std::forward<decltype(x)>(x)...); });
        auto built = [&](auto how)
        {
          switch (r.shape)
          {
            case 0: go(build<0>(*p, how)); break;
            case 1: go(build<1>(*p, how)); break;
            case 2: go(build<2>(*p, how)); break;
            case 3: go(build<3>(*p, how)); break;
            case 5: go(build<5>(*p, how)); break;
            case 6: go_round(build_lazy_loop(*p, how)); break;
            default: go_round(build_loop(*p, how)); break;
          }
        };
        if (w == 0) built(keep{}); else if (w == 1) built(keep_const{}); else built(give{});
        want_start(r, want);
        open.push_back(runs.size());
        runs.push_back(std::move(r));
      }
      else
      {
        auto at = s.upto(open.size() - 1);
        auto& r = runs[open[at]];
        std::string y = std::string(s.pick({"y", "y", "y!", "y?", "y."})) + std::to_string(i);
        if ((r.shape == 4 || r.shape == 6) && (++r.rounds > 4 || i > steps + 20)) y += ".";
        s.note("arrives", y);
        auto f = std::move(waiting[at]);
        waiting.erase(waiting.begin() + at);
        auto which = open[at];
        open.erase(open.begin() + at);
        want_rest(r, y, want);
        f(y);
        if (!r.ended) open.push_back(which);
        s.check(waiting.size() == open.size(), "a run waits that should not, or the other way round");
      }
      s.equal(log, want, "what the runs did");
      s.check(open.empty() == (alive == before), open.empty() ? "something is left of the runs" : "nothing is left of a run that waits");
    }
    if (runs.size() > 1) s.nontrivial();
  }
  trail = nullptr;
}

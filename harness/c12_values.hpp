// Pipelines whose steps hand on any number of values, now or later
#pragma once
#include "vf.hpp"
#include <boost/hana.hpp>
#include <nbdl/catch.hpp>
#include <nbdl/pipe.hpp>
#include <nbdl/promise.hpp>
#include <nbdl/run_async.hpp>
#include <nbdl/run_async_loop.hpp>
#include <nbdl/run_sync.hpp>
#include <nbdl/tap.hpp>
#include <functional>
#include <memory>
#include <string>
#include <utility>
#include <vector>

namespace values
{
  enum way { on, reject, end };
  struct decision { way what = on; bool later = false; };
  struct state
  {
    std::string log;
    std::vector<decision> plan;   // for each time that a step runs
    std::size_t next = 0;
    std::vector<std::function<void()>> waiting;
    decision decide() { return next < plan.size() ? plan[next++] : decision{end, false}; }
  };
  inline state* st = nullptr;
  inline long alive = 0;
  // lives in the step
  struct part
  {
    std::unique_ptr<int> id;
    part(int i) : id(new int(i)) { alive++; }
    part(part const& p) : id(new int(*p.id)) { alive++; }
    part& operator=(part const&) = delete;
    ~part() { *id = -1; alive--; }
  };
  inline std::string name(int id, std::size_t n, std::size_t i) { return "of step " + std::to_string(id) + " at " + std::to_string(n) + " value " + std::to_string(i); }
  template <typename ...X> std::string all(X const& ...x) { std::string r = "("; ((r += x, r += ","), ...); return r + ")"; }
  template <std::size_t N> std::string made(int id, std::size_t n) { std::string r = "("; for (std::size_t i = 0; i < N; i++) r += name(id, n, i) + ","; return r + ")"; }

  template <std::size_t N> struct step
  {
    part p;
    template <typename R, typename ...X> void operator()(R& r, X const& ...x) const
    {
      st->log += std::to_string(*p.id) + all(x...) + ";";
      std::size_t n = st->next;
      auto d = st->decide();
      auto go = [&r, d, n, id = *p.id]
      {
        [&]<std::size_t ...I>(std::index_sequence<I...>)
        {
          std::string v[] = {name(id, n, I)..., ""};
          if (d.what == on) r.resolve(v[I]...);
          else if (d.what == end) r.terminate();
          else if constexpr (N == 0) r.reject(std::string("nothing"));
          else r.reject(v[I]...);
        }(std::make_index_sequence<N>{});
      };
      if (d.later) st->waiting.push_back(go); else go();
    }
  };
  struct look { part p; template <typename ...X> void operator()(X const& ...x) const { st->log += "seen" + std::to_string(*p.id) + all(x...) + ";"; } };
  struct handler { part p; template <typename ...X> void operator()(X const& ...x) const { st->log += "rejected" + std::to_string(*p.id) + all(x...) + ";"; } };

  template <std::size_t A, std::size_t B, std::size_t C> struct shape
  {
    static auto make()
    {
      return nbdl::pipe(nbdl::promise(step<A>{1}), nbdl::tap(look{2}), nbdl::promise(step<B>{3}), nbdl::promise(step<C>{4}), nbdl::catch_(handler{5}));
    }
    static std::size_t width(int id) { return id == 1 ? A : id == 3 ? B : C; }
    static std::string out(int id, std::size_t n) { return id == 1 ? made<A>(id, n) : id == 3 ? made<B>(id, n) : made<C>(id, n); }
    // what the run logs, step by step; where it waits
    struct model
    {
      std::string log, in;
      std::size_t next = 0;
      int at = 1;
      bool done = false, waits = false;
      decision d;
      std::size_t n = 0;
      void arrive(std::vector<decision> const& plan, bool loop)
      {
        log += std::to_string(at) + in + ";";
        n = next;
        d = next < plan.size() ? plan[next++] : decision{end, false};
        waits = d.later;
        if (!waits) proceed(plan, loop);
      }
      void proceed(std::vector<decision> const& plan, bool loop)
      {
        waits = false;
        if (d.what == end) { done = true; return; }
        auto o = out(at, n);
        if (d.what == reject)
        {
          if (width(at) == 0) o = "(nothing,)";
          log += "rejected5" + o + ";"; done = true; return;
        }
        in = o;
        if (at == 1) { log += "seen2" + in + ";"; at = 3; }
        else if (at == 3) at = 4;
        else if (loop) at = 1;
        else { done = true; return; }
        arrive(plan, loop);
      }
    };
    template <int Way> static void drive(vf::Src& s, std::size_t args)
    {
      state now;
      st = &now;
      bool loop = Way == 2;
      std::size_t steps = 1 + s.upto(loop ? 9 : 3);
      for (std::size_t i = 0; i < steps; i++)
      {
        auto k = s.choose(12);
        now.plan.push_back({k == 0 ? reject : k == 1 ? end : on, Way != 0 && s.boolean()});
      }
      // rejecting in a loop ends nothing (there is no end of the pipeline to reach), so a loop is ended only by a step
      if (loop) for (auto& d : now.plan) if (d.what == reject) d.what = on;
      s.note(A, B, C, "way", Way, "args", args);
      for (auto const& d : now.plan) s.note(d.what, d.later);
      long const before = alive;
      {
        model m;
        m.in = "(";
        for (std::size_t i = 0; i < args; i++) m.in += "argument " + std::to_string(i) + ",";
        m.in += ")";
        auto start = [&](auto ...a)
        {
          auto p = make();
          if constexpr (Way == 0) nbdl::run_sync(p, a...);
          else if constexpr (Way == 1) nbdl::run_async(std::move(p), a...);
          else nbdl::run_async_loop(std::move(p), a...);
        };
        std::string a0 = "argument 0", a1 = "argument 1", a2 = "argument 2", a3 = "argument 3";
        if (args == 0) start(); else if (args == 1) start(a0); else start(a0, a1, a2, a3);
        m.arrive(now.plan, loop);
        for (;;)
        {
          s.equal(now.log, m.log, "what the steps were given");
          s.check(now.waiting.size() == (m.waits ? 1u : 0u), "the run waits that should not, or the other way round");
          s.check((alive == before) == !m.waits, m.waits ? "nothing is left of a run that waits" : "something is left of a run that has ended");
          if (!m.waits) break;
          auto f = std::move(now.waiting.back());
          now.waiting.clear();
          f();
          m.proceed(now.plan, loop);
        }
        s.nontrivial({now.next > 1});
      }
      st = nullptr;
    }
  };
  template <int Way> void any_shape(vf::Src& s)
  {
    std::size_t args = s.pick({0, 1, 4});
    switch (s.choose(6))
    {
      case 0: shape<0, 1, 4>::template drive<Way>(s, args); break;
      case 1: shape<1, 5, 0>::template drive<Way>(s, args); break;
      case 2: shape<4, 0, 1>::template drive<Way>(s, args); break;
      case 3: shape<2, 3, 2>::template drive<Way>(s, args); break;
      case 4: shape<6, 2, 7>::template drive<Way>(s, args); break;
      default: shape<3, 0, 3>::template drive<Way>(s, args); break;
    }
  }
}

// runs generated pipelines against the reference interpreter
#include "c12_pipes.hpp"
using namespace pp;

namespace
{
  std::vector<behaviour> draw(vf::Src& s, shape const& sh, bool async)
  {
    std::vector<behaviour> r;
    bool bad = s.chance(40);
    for (auto k : sh.steps)
    {
      behaviour b;
      if (k == PROMISE)
      {
        b.what = bad && s.chance(50) ? SUCCESSES + s.choose(OUTCOMES - SUCCESSES) : s.choose(SUCCESSES);
        b.later = (async || sh.loops) && s.boolean();
      }
      if (k == PROMISE_OK || k == LAZY_OK)
      {
        b.what = bad && s.chance(30) ? int(TERM) : int(s.choose(SUCCESSES));
        b.later = k == LAZY_OK || ((async || sh.loops) && s.boolean());
      }
      if (k == LAZY) b = {bad && s.chance(50) ? SUCCESSES + int(s.choose(OUTCOMES - SUCCESSES)) : int(s.choose(SUCCESSES)), true};
      if (k == TRY_VAL || k == TRY_VOID) b.what = s.chance(bad ? 60 : 10) ? 1 + s.choose(3) : T_OK;
      r.push_back(b);
    }
    return r;
  }
}

static void drive(vf::Src& s)
{
  auto const& sh = shapes()[s.choose(shapes().size())];
  s.note(sh.text);
  world here;
  w = &here;
  std::vector<interp> runs;
  std::vector<std::string> want;
  std::size_t before = token::alive().size();
  bool async = s.chance(85);
  int how = static_cast<int>(s.choose(12));
  std::vector<std::function<void()>> starters;
  sh.prepare(how, async, starters);
  std::size_t copies = token::alive().size() - before;

  auto compare = [&]
  {
    for (std::size_t i = 0; i < want.size() || i < here.log.size(); i++)
    {
      s.check(i < here.log.size(), "missing step: ", i < want.size() ? want[i] : "");
      s.check(i < want.size(), "unexpected step: ", here.log[i]);
      s.equal(here.log[i], want[i], "step ", i);
    }
    std::size_t active = 0;
    for (auto& r : runs) active += !r.done;
    std::size_t kept = 0;                        // values waiting in deferred steps
    for (auto& r : runs)
      if (!r.done && (sh.steps[r.waiting] == PROMISE || sh.steps[r.waiting] == PROMISE_OK)) for (auto& a : r.args) kept += a.rfind("val", 0) == 0;      // a resident is copied by reference
    for (auto& r : runs) if (!r.done) kept += r.residents.size();
    s.equal(token::alive().size(), before + copies * (1 + active) + kept, "objects kept alive by ", active, " unfinished runs");
    s.equal(here.pending.size(), active, "unfinished runs");
  };

  std::size_t max_runs = 1 + s.choose(3);
  while (runs.size() < max_runs || !here.pending.empty())
  {
    if (runs.size() < max_runs && (here.pending.empty() || s.boolean()))
    {
      int id = static_cast<int>(runs.size());
      std::vector<std::vector<behaviour>> plans;
      std::size_t rounds = sh.loops && async ? 1 + s.choose(5) : 1;
      for (std::size_t r = 0; r < rounds; r++)
      {
        plans.push_back(draw(s, sh, async));
        s.note(" run", id, "round", r, ":");
        for (std::size_t i = 0; i < sh.steps.size(); i++)
          if (auto b = plans[r][i]; b.what || b.later) s.note(i, "=", b.what, b.later ? "later" : "");
      }
      here.plan.push_back(plans);
      here.round.push_back(0);
      runs.push_back({&sh.steps, id, plans, arg_texts(how), sh.loops && async});
      here.run = id;
      runs.back().go(want);
      starters[0]();
    }
    else
    {
      std::size_t i = s.choose(here.pending.size());
      auto job = std::move(here.pending[i]);
      here.pending.erase(here.pending.begin() + i);
      here.run = job.first;
      s.note(" resume", job.first);
      runs[job.first].resume(want);
      job.second();
    }
    compare();
  }
  if (want.size() > 1) s.nontrivial();
  starters.clear();
  s.equal(token::alive().size(), before, "objects left after everything is gone");
}

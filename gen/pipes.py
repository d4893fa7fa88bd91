"""Random pipeline shapes for C12/C13 as C++ sources."""
import os
import random

STEPS = [("FN_VAL", "fn<val>", 1), ("FN_INT", "fn<int>", 1), ("FN_VOID", "fn<void>", 1), ("PROMISE", "promise", 1),
         ("TAP_VALUE", "tap_value", 1), ("TAP_REF", "tap_ref", 1), ("TRY_VAL", "try_<val>", 1), ("TRY_VOID", "try_<void>", 1),
         ("HOLD", "hold", 1), ("HOLD_INT", "hold_int", 1), ("HOLD_BIG", "hold_big", 1), ("CATCH0", "catch0", 1), ("CATCH1", "catch1", 1), ("CATCH01", "catch01", 1),
         ("CATCH0INT", "catch0int", 1), ("CATCH_EX", "catch_ex", 1), ("CATCH_ALL", "catch_all", 1)]
WEIGHT = [2, 1, 2, 8, 2, 2, 3, 1, 1, 1, 1, 2, 2, 2, 2, 3, 1]


def write(path, text):
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)


LOOP_STEPS = STEPS + [("GROW", "grow", 1), ("LAZY", "lazy", 1)]
LOOP_WEIGHT = [1, 1, 1, 7, 1, 1, 2, 1, 3, 3, 2, 1, 1, 1, 1, 1, 1, 5, 6]


def shape(r, loops):
    n = r.choice([1, 2, 3, 4, 5, 6, 7])
    steps = LOOP_STEPS if loops else STEPS
    ks = r.choices(range(len(steps)), LOOP_WEIGHT if loops else WEIGHT, k=n)
    if (loops or r.random() < 0.9) and 3 not in ks:
        ks[r.randrange(n)] = 3
    chosen = [steps[k] for k in ks]
    if loops:
        chosen.insert(0, ("START", "start", 1))
    n = len(chosen)
    if r.random() < .2:
        # nothing rejects, so nothing has to be caught
        ok = {"PROMISE": ("PROMISE_OK", "promise_ok", 1), "LAZY": ("LAZY_OK", "lazy_ok", 1)}
        chosen = [ok.get(k[0], k) for k in chosen if not k[0].startswith("TRY")]
        kinds = [k[0] for k in chosen]
        exprs = ["pp::%s(%d)" % (k[1], i) for i, k in enumerate(chosen)]
    else:
        last = r.choice(["CATCH_ALL", "CATCH_ALL_MUTABLE"])
        kinds = [k[0] for k in chosen] + [last]
        exprs = ["pp::%s(%d)" % (k[1], i) for i, k in enumerate(chosen)] + ["pp::%s(%d)" % (last.lower(), n)]

    def nest(xs, depth):
        out, i = [], 0
        while i < len(xs):
            if depth < 2 and r.random() < 0.25:
                j = min(len(xs), i + r.randrange(0, 4))
                out.append("nbdl::pipe(" + ", ".join(nest(xs[i:j], depth + 1)) + ")")
                i = j
            else:
                out.append(xs[i])
                i += 1
        return out
    return kinds, "nbdl::pipe(" + ", ".join(nest(exprs, 0)) + ")", len(exprs)


def generate(bdir, seed, count, files, loops=False):
    r = random.Random(seed * 1000003 + count)
    fixed = []
    outs = []
    for f in range(files):
        body = ['#include "%s"' % os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "c12_pipes.hpp"), "using namespace pp;"]
        for i in range(f, count, files):
            kinds, expr, tokens = shape(r, loops)
            body.append("""
static auto make_%d() { return %s; }
static pp::add add_%d({{%s}, %s, %d, [](int how, bool async, std::vector<std::function<void()>>& starters)
{
  auto p = std::make_shared<decltype(make_%d())>(make_%d());
  starters.push_back([p, how, async]
  {
    auto start = [&](auto&& q, auto&& ...xs)
    {
      if (async) nbdl::%s(std::forward<decltype(q)>(q), std::forward<decltype(xs)>(xs)...);
      else nbdl::%s(std::forward<decltype(q)>(q), std::forward<decltype(xs)>(xs)...);
    };
    switch (how / 4)
    {
      case 0: return pp::with_args(start, *p, how);
      case 1: return pp::with_args(start, std::as_const(*p), how);
      default: { auto q = *p; return pp::with_args(start, std::move(q), how); }
    }
  });
}, %s});
""" % (i, expr, i, ", ".join("pp::" + k for k in kinds), '"' + expr.replace('"', '\\"') + '"', tokens, i, i,
       "run_async_loop" if loops else "run_async", "run_async" if loops else "run_sync", "true" if loops else "false"))
        path = os.path.join(bdir, "pipes_%d.cpp" % f)
        write(path, "\n".join(body))
        outs.append(path)
    return outs

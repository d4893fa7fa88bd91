"""Random UI specs for C21: C++ next to the model's expression of the same."""
import os, random

HARNESS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "c21_specs.hpp")
VISIT = {"OptStr": {"Nothing", "Str"}, "Var": {"Unres", "Int", "Str", "Person"}, "VarIS": {"Unres", "Int", "Str"}, "Mix": {"Unres", "Int", "Big", "Str", "Word"}, "StoreVal": {"Unres", "Int", "NotFound"}}
ROOT = {0: "Str", 1: "Str", 2: "Int", 3: "Int", 4: "MapSI", 5: "MapIS", 6: "OptStr", 7: "Var", 8: "MapSP", 9: "Person", 10: "StoreSI", 11: "MapSV", 12: "Mix", 13: "Big", 14: "Word"}
PERSON = {"first": "Str", "age": "Int", "nick": "OptStr", "grades": "MapIS"}
ELEM = {"MapSI": "Int", "MapIS": "Str", "MapSP": "Person", "MapSV": "VarIS", "StoreSI": "StoreVal"}
CONVERTS = {"Int": "Big", "Big": "Int", "Word": "Str", "Str": "Word"}
STORES = set(ELEM) | {"Person"}


def visit(t):
    return VISIT.get(t, {t})


def q(s):
    return '"' + s + '"'


def model_of(secs):
    return "p({" + ", ".join(f'{{"{t}", {{{", ".join(ks)}}}}}' for t, ks in secs) + "})"


class Gen:
    def __init__(self, rng):
        self.r = rng

    # a constant: (C++, model)
    def const(self):
        if self.r.random() < .5:
            n = self.r.randrange(5)
            return f"I({n})", f'c("int {n}")'
        w = self.r.choice(["k0", "k1", "zz", "x"])
        return f'"{w}"_s', f'c("str {w}")'

    def key(self, want, depth, first):
        """a key of type want; paths only where the root is at hand"""
        r = self.r
        if want == "Int" and (r.random() < .4 or not first and r.random() < .5):
            n = r.randrange(4)
            return f"I({n})", f'c("int {n}")'
        if not first or depth > 2 or r.random() < .3:
            f = "f_key" if want == "Str" else "f_num"
            if first and depth < 3:
                a = [self.scalar(depth + 1) for _ in range(r.randint(1, 2))]
            else:
                a = [self.const() for _ in range(r.randint(1, 2))]
            return (f"nbdl::ui_spec::apply({f})({', '.join(x[0] for x in a)})", f'ap("{f}", {{{", ".join(x[1] for x in a)}}})')
        cpp, model = self.path(depth + 1, want)[:2]
        return (f"key_at({cpp})" if r.random() < .6 else cpp), model

    def scalar(self, depth):
        return self.const() if self.r.random() < .3 else self.path(depth)[:2]

    def path(self, depth=0, want=None, static=False):
        """(C++, model, possible types); want: the only type of the result; static: constant keys only"""
        r = self.r
        while True:
            secs, cpp = [], None
            types = {"Root"}
            keys = []
            ckeys = []
            match_last = False

            def flush():
                nonlocal cpp, keys, ckeys
                if cpp is None:
                    cpp = f"get({', '.join(ckeys)})"
                elif ckeys or match_last:
                    cpp = f"get({', '.join([cpp] + ckeys)})"
                k = keys
                keys, ckeys = [], []
                return k
            for _ in range(r.randint(1, 6)):
                first = not secs
                s = types & (STORES | {"Root"})
                if len(s) == 1 and (r.random() < .8 or types == {"Root"}):
                    t = next(iter(s))
                    if t == "Root":
                        n = r.choice(list(ROOT) + [4, 7, 8, 10, 11, 12])
                        k, m, e = f"I({n})", f'c("int {n}")', ROOT[n]
                        rest = set()
                    elif t == "Person":
                        w = r.choice(list(PERSON))
                        k, m, e = f'"{w}"_s', f'c("str {w}")', PERSON[w]
                        rest = types - s
                    else:
                        if static:
                            if t != "MapIS":
                                break
                            n = r.randrange(4)
                            k, m = f"I({n})", f'c("int {n}")'
                        else:
                            k, m = self.key("Int" if t == "MapIS" else "Str", depth, first)
                        e = ELEM[t]
                        rest = (types - s) | {"Absent"}
                    keys.append(m)
                    ckeys.append(k)
                    types = rest | visit(e)
                    match_last = False
                elif types != {"Root"} and r.random() < .5 and "StoreSI" not in types:
                    t = r.choice(sorted(types))
                    if want is None and r.random() < (.35 if static else .12):
                        # a type that the path cannot lead to, though what is there may convert to it
                        t = r.choice(sorted({CONVERTS.get(x, "Int") for x in types} - types) or [t])
                    ks = flush() if (keys or match_last or cpp is None) else []
                    cpp = f"match_when<{t}>({cpp})"
                    secs.append((t, ks))
                    types = {t}
                    match_last = True
                else:
                    break
            if keys:
                ks = flush()
                secs.append(("", ks))
                match_last = False
            if "StoreSI" in types or types == {"Root"}:
                continue
            if want:
                if want not in types:
                    continue
                if types != {want}:
                    if match_last:
                        continue
                    cpp = f"match_when<{want}>({cpp})"
                    t, ks = secs.pop()
                    secs.append((want, ks))
                    types = {want}
            return cpp, model_of(secs), types, secs

    def branch(self, depth):
        r = self.r
        cpp, model, types, secs = self.path(depth + 1)
        if secs[-1][0]:
            # a branch takes a path that ends in a value of any type
            cpp = f"get({cpp})"
            secs = secs + [("", [])]
            model = model_of(secs)
        arms = []
        if r.random() < .5:
            pool = sorted(types) + r.sample(["Int", "Str", "Nothing", "Big", "Word"], 2)
            names = [r.choice(pool) for _ in range(r.randint(1, 4))]
            for t in sorted(types):
                if t not in names and r.random() < .5:
                    names.append(t)
            if not types <= set(names) or r.random() < .4:
                names.insert(r.randint(0, len(names)), "")
            if not types <= set(names) and "" not in names:
                names.append("")
            for t in names:
                a = self.arm(depth, secs, t if t in types else None)
                arms.append((f"when<{t}>({a[0]})", f'{{"{t}", {a[1]}}}'))
            return (f"nbdl::ui_spec::match({cpp}, {', '.join(a for a, _ in arms)})", f"br({model}, {{{', '.join(b for _, b in arms)}}})")
        n = r.randint(1, 3)
        for _ in range(n):
            a = self.arm(depth, secs, None)
            pick = r.random()
            if pick < .3 and types == {"Int"}:
                k = r.randrange(4)
                arms.append((f"cond(nbdl::ui_spec::equal(I({k})), {a[0]})", f'{{"equal int {k}", {a[1]}}}'))
            elif pick < .5 and types == {"Str"}:
                k = r.choice(["k0", "k1", "zz", ""])
                arms.append((f"cond(nbdl::ui_spec::equal(BOOST_HANA_STRING(\"{k}\")), {a[0]})", f'{{"equal str {k}", {a[1]}}}'))
            else:
                f = r.choice(["p_odd", "p_third", "p_long", "p_never", "p_no"])
                arms.append((f"cond({f}, {a[0]})", f'{{"{f}", {a[1]}}}'))
        a = self.arm(depth, secs, None)
        at = len(arms) if r.random() < .8 else r.randrange(len(arms) + 1)
        arms.insert(at, (f"otherwise({a[0]})", f'{{"otherwise", {a[1]}}}'))
        return (f"nbdl::ui_spec::match_if({cpp}, {', '.join(a for a, _ in arms)})", f"brif({model}, {{{', '.join(b for _, b in arms)}}})")

    def arm(self, depth, secs, matched):
        """what a branch stands for; matched: the type the path was matched with"""
        r = self.r
        if matched and r.random() < .4:
            # a function of the matched path
            m2 = secs[:-1] + [(matched, secs[-1][1])]
            if matched == "Person":
                w = r.choice(["first", "age"])
                return f'[](auto x) {{ return get(x, "{w}"_s); }}', model_of(m2 + [("", [f'c("str {w}")'])])
            return "nbdl::ui_spec::get_fn{}", model_of(m2 + [("", [])])
        if depth > 1:
            return self.scalar(depth + 1)
        return self.param(depth + 1)

    def param(self, depth=0):
        r = self.r
        x = r.random()
        if x < .2 or depth > 3:
            return self.const()
        if x < .5:
            return self.path(depth)[:2]
        if x < .65:
            f = r.choice(["f_join", "f_join", "f_key", "f_num"])
            a = [self.param(depth + 1) for _ in range(r.randint(1, 2))]
            return f"nbdl::ui_spec::apply({f})({', '.join(y[0] for y in a)})", f'ap("{f}", {{{", ".join(y[1] for y in a)}}})'
        if x < .75:
            a = [self.param(depth + 1) for _ in range(r.randint(1, 3))]
            return f"concat({', '.join(y[0] for y in a)})", f'cat({{{", ".join(y[1] for y in a)}}})'
        return self.branch(depth)


def generate(bdir, seed, count, files):
    out = [[] for _ in range(files)]
    rng = random.Random(seed * 7919 + 5)
    for i in range(count):
        g = Gen(random.Random(rng.random()))
        kind = rng.random()
        body = ""
        if kind < .3:
            c, m = g.path()[:2]
            body = f"r.path({c}, {m});"
        elif kind < .4:
            c, m = g.path(static=True)[:2]
            body = f"r.promise({c}, {m});"
        elif kind < .65:
            c, m = g.branch(0)
            body = f"r.branch({c}, {m}); r.params(mpdef::make_list({c}), {{{m}}});"
        else:
            a = [g.param() for _ in range(rng.randint(1, 4))]
            body = f"r.params(mpdef::make_list({', '.join(x[0] for x in a)}), {{{', '.join(x[1] for x in a)}}});"
        if len(body) > 3500:
            continue
        out[i % files].append(f"static add_spec a{i}([](run& r) {{ {body} }});\n")
    # paths that ask for a type that what is there may convert to
    near = [("Big", 2), ("Int", 13), ("Str", 14), ("Word", 0)] + [(t, 12) for t in ("Int", "Big", "Str", "Word")]
    for i, (t, n) in enumerate(near):
        c, m = f"match_when<{t}>(get(I({n})))", model_of([(t, [f'c("int {n}")'])])
        out[i % files].append(f"static add_spec n{i}([](run& r) {{ r.promise({c}, {m}); r.path({c}, {m}); }});\n")
    srcs = []
    for n, fns in enumerate(out):
        path = os.path.join(bdir, f"specs_{n}.cpp")
        text = '#include "%s"\n' % HARNESS + "".join(fns)
        if not os.path.exists(path) or open(path).read() != text:
            open(path, "w").write(text)
        srcs.append(path)
    return srcs

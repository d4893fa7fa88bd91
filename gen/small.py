"""Random argument lists for C23."""
import os
import random

HARNESS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "c23_small.hpp")
CONST = ["", "a", "abc", "x y", "some longer constant text", "\\\\"]


def strings(r):
    n = r.choice([0, 1, 1, 2, 3, 4, 6, 9])
    how = r.choice(["tuple", "basic", "array", "carray", "list"])
    decl, args, want = [], [], ["std::string()"]
    for i in range(n):
        kind = {"array": "s", "carray": "c", "list": "k"}.get(how) or r.choice("scckt")
        if kind == "s":
            decl.append(f"auto const s{i} = word(r.s, true);")
            args.append(f"s{i}")
            want.append(f"s{i}")
        elif kind == "c":
            decl.append(f"auto const s{i} = word(r.s, false);")
            args.append(f"s{i}.c_str()")
            want.append(f"s{i}")
        elif kind == "t":
            decl.append(f"auto const s{i} = word(r.s, true);")
            args.append(f"std::string(s{i})")
            want.append(f"s{i}")
        else:
            k = r.choice(CONST[:5])
            args.append(f'"{k}"_s' if k else "hana::string<>{}")
            want.append(f'"{k}"')
    if how in ("array", "carray"):
        t = "std::string" if how == "array" else "char const*"
        call = f"std::array<{t}, {n}>{{{{{', '.join(args)}}}}}"
    elif how == "list":
        call = f"mpdef::make_list({', '.join(args)})"
    elif how == "basic":
        call = f"hana::make_basic_tuple({', '.join(args)})"
    else:
        call = f"hana::make_tuple({', '.join(args)})"
    return f"{' '.join(decl)} r.concat({call}, {' + '.join(want)});"


def first(r):
    n = r.choice([0, 1, 2, 3, 4, 6, 8])
    types, model = [], []
    for i in range(n):
        k = r.choice("gmmf" if r.random() < .9 else "t")
        v = r.randint(1, 12) if k == "g" else r.randint(2, 7)
        types.append({"g": f"ge<{i},{v}>", "m": f"mul<{i},{v}>", "f": "never", "t": "always"}[k])
        model.append(f"{{'{k}', {v}}}")
    types.append("always")
    model.append("{'t', 0}")
    for _ in range(r.choice([0, 0, 1])):
        types.append(f"ge<{len(types)},0>")
        model.append("{'g', 0}")
    if types[-1] != "always":
        types.append("always")
        model.append("{'t', 0}")
    return f"r.first(mpdef::list<{', '.join(types)}>{{}}, {{{', '.join(model)}}});"


def values(r, n, tag=""):
    decl, args, at = [], [], []
    for i in range(n):
        k = r.choice(["int", "byte", "flag", "string", "thing", "thing", "nil", "nil2", "const", "const", "hstr"])
        c = "const " if r.random() < .4 else ""
        v = f"a{tag}{i}"
        if k == "int":
            decl.append(f"{c}int {v} = static_cast<int>(r.s.upto(9));")
        elif k == "byte":
            decl.append(f"{c}unsigned char {v} = r.s.byte();")
        elif k == "flag":
            decl.append(f"{c}bool {v} = r.s.boolean();")
        elif k == "string":
            decl.append(f"{c}std::string {v} = word(r.s, true);")
        elif k == "thing":
            decl.append(f"{c}thing {v}(word(r.s, true));")
        elif k == "nil":
            decl.append(f"{c}nil {v}{{}};")
        elif k == "nil2":
            decl.append(f"{c}nil2 {v}{{}};")
        elif k == "const":
            decl.append(f"{c}auto {v} = hana::int_c<{r.randrange(5)}>;")
        else:
            decl.append(f'{c}auto {v} = "{r.choice(["a", "b"])}"_s;')
        args.append((v, k in ("int", "byte", "flag", "string", "thing"), bool(c)))
    return decl, args


def filtered(r):
    decl, args = values(r, r.choice([0, 1, 2, 3, 4, 5, 7]))
    want = [f"&{v}" for v, full, _ in args if full]
    xs = [v if r.random() < .6 else f"std::move({v})" for v, _, _ in args]
    return f"{' '.join(decl)} r.filter({{{', '.join(want)}}}{''.join(', ' + x for x in xs)});"


def view(r):
    n = r.choice([0, 1, 2, 3, 4, 5, 6, 9])
    decl, args = values(r, n)

    def item(v, full, c):
        # what is empty goes in as it is, or by reference as well
        if full or r.random() < .25:
            ref = "std::cref" if c or r.random() < .6 else "std::ref"
            return f"{ref}({v})", f"{{&{v}, run::name<std::decay_t<decltype({v})>>()}}"
        return f"std::decay_t<decltype({v})>{{}}", f"{{nullptr, run::name<std::decay_t<decltype({v})>>()}}"
    items = [item(*a) for a in args]

    def build(xs):
        if len(xs) < 1:
            return "none()" if r.random() < .7 else "co(none(), none())"
        if r.random() < .65:
            return f"ap({xs[-1][0]}, {build(xs[:-1])})"
        k = r.randint(0, len(xs))
        if k == 0 or k == len(xs):
            a, b = build(xs), "none()"
            return f"co({b}, {a})" if k == 0 else f"co({a}, {b})"
        return f"co({build(xs[:k])}, {build(xs[k:])})"
    e = build(items)
    out = f"{' '.join(decl)} auto const v = {e}; r.view(v, {{{', '.join(m for _, m in items)}}});"
    if n and n < 5 and r.random() < .4:
        out += f" r.view(co(v, v), {{{', '.join([m for _, m in items] * 2)}}});"
    return out


def generate(bdir, seed, count, files):
    r = random.Random(seed * 65537 + 23)
    out = [[] for _ in range(files)]
    for i in range(count):
        kind = i % 4
        body = [strings, first, filtered, view][kind](r)
        out[i % files].append("static add a%d(%d, [](run& r) { %s });\n" % (i, kind, body))
    srcs = []
    for n, fns in enumerate(out):
        path = os.path.join(bdir, "small_%d.cpp" % n)
        text = '#include "%s"\n' % HARNESS + "".join(fns)
        if not os.path.exists(path) or open(path).read() != text:
            open(path, "w").write(text)
        srcs.append(path)
    return srcs

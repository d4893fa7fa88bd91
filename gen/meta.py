"""Random programs over the compile-time collections for C25, next to what plain data gives."""
import os
import random
import re

HARNESS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "c25_meta.hpp")


# ---- values: (C++, model); the text of a model value is what the harness prints ----
def txt(v):
    k = v[0]
    if k == "int":
        return str(v[1])
    if k == "bool":
        return "true" if v[1] else "false"
    if k == "K":
        return "K%d" % v[1]
    if k == "type":
        return "t:" + v[1]
    if k == "str":
        return "'" + v[1] + "'"
    if k == "list":
        return "[" + ",".join(map(txt, v[1])) + "]"
    if k == "tuple":
        return "<" + ",".join(map(txt, v[1])) + ">"
    if k == "map":
        return "{" + ",".join(map(txt, v[1])) + "}"
    if k == "node":
        return "(" + txt(v[1]) + ":" + txt(v[2]) + ")"
    if k == "just":
        return "just " + txt(v[1])
    if k == "nothing":
        return "nothing"
    if k == "types":
        return "types" + "".join("," + x for x in v[1])
    raise ValueError(k)


def cpp(v):
    k = v[0]
    if k == "int":
        return "hana::int_c<%d>" % v[1]
    if k == "bool":
        return "hana::bool_c<%s>" % txt(v)
    if k == "K":
        return "K<%d>{}" % v[1]
    if k == "type":
        return ("hana::type_c<K<%s>>" % v[1][1:]) if v[1][0] == "K" and v[1][1:].isdigit() else "tag::" + v[1]
    if k == "str":
        return '"%s"_s' % v[1] if v[1] else "hana::string<>{}"
    if k == "list":
        return "mpdef::make_list(%s)" % ", ".join(map(cpp, v[1]))
    if k == "map":
        return "mpdef::make_map(%s)" % ", ".join(map(cpp, v[1]))
    if k == "node":
        return "mpdef::make_tree_node(%s, %s)" % (cpp(v[1]), cpp(v[2]))
    if k == "just":
        return "hana::just(%s)" % cpp(v[1])
    if k == "nothing":
        return "hana::nothing"
    raise ValueError(k)


def scalar(r):
    k = r.choice(["int", "int", "type", "type", "str"])
    if k == "int":
        return ("int", r.randrange(5))
    if k == "type":
        return ("type", "K%d" % r.randrange(5))
    return ("str", r.choice(["", "a", "b", "ab"]))


# a length below n, now and then a long one
def size(r, n):
    return r.choice([9, 10, 11, 12, 17, 33]) if r.random() < .06 else r.randrange(n)


def value(r, depth=0):
    x = r.random()
    if depth > 1 or x < .6:
        return scalar(r)
    if x < .75:
        return ("list", [value(r, depth + 1) for _ in range(r.randrange(4))])
    if x < .9:
        return ("node", scalar(r), value(r, depth + 1))
    return a_map(r, depth + 1)


def a_map(r, depth=0, n=None):
    keys = []
    n = (r.randrange(6) if depth else size(r, 6)) if n is None else n
    many = n > 5
    for _ in range(n):
        k = scalar(r)
        if many:
            k = ("int", r.randrange(200)) if k[0] == "int" else ("type", "K%d" % r.randrange(200)) if k[0] == "type" else ("str", "k%d" % r.randrange(99))
        if k not in keys:
            keys.append(k)
    return ("map", [("node", k, value(r, depth + 1)) for k in keys])


PREDS = {"p_node": lambda v: v[0] == "node", "p_int": lambda v: v[0] == "int", "p_type": lambda v: v[0] == "type",
         "p_text": lambda v: v[0] == "str", "p_never": lambda v: False}
FUNS = {"f_wrap": lambda v: ("list", [v]), "f_node": lambda v: ("node", v, ("int", 1)), "f_same": lambda v: v}


def b(x):
    return ("bool", bool(x))


def opt(x):
    return ("nothing",) if x is None else ("just", x)


class Gen:
    def __init__(self, r):
        self.r = r

    # an expression of a list: (C++, elements)
    def lst(self, depth=0):
        r = self.r
        if depth > 3 or r.random() < .25:
            xs = [value(r) for _ in range(size(r, 6))]
            return "mpdef::make_list(%s)" % ", ".join(map(cpp, xs)), xs
        op = r.choice(["append", "prepend", "concat", "transform", "drop", "append_if", "fold_if", "keys", "flatten", "unpack",
                       "to", "reverse", "drop_back", "take", "filter", "remove", "intersperse", "node", "back_and_forth"])
        if op == "append":
            c, m = self.lst(depth + 1)
            v = value(r)
            return "hana::append(%s, %s)" % (c, cpp(v)), m + [v]
        if op == "prepend":
            c, m = self.lst(depth + 1)
            v = value(r)
            return "hana::prepend(%s, %s)" % (c, cpp(v)), [v] + m
        if op == "concat":
            c, m = self.lst(depth + 1)
            d, n = self.lst(depth + 1)
            return "hana::concat(%s, %s)" % (c, d), m + n
        if op == "transform":
            c, m = self.lst(depth + 1)
            f = r.choice(list(FUNS))
            return "hana::transform(%s, %s)" % (c, f), [FUNS[f](x) for x in m]
        if op == "drop":
            c, m = self.lst(depth + 1)
            n = r.randint(0, len(m))
            return "hana::drop_front(%s, hana::size_c<%d>)" % (c, n), m[n:]
        if op == "drop_back":
            c, m = self.lst(depth + 1)
            n = r.randint(0, len(m))
            return "hana::drop_back(%s, hana::size_c<%d>)" % (c, n), m[:len(m) - n]
        if op == "take":
            c, m = self.lst(depth + 1)
            n = r.randint(0, len(m))
            return "hana::take_front(%s, hana::size_c<%d>)" % (c, n), m[:n]
        if op == "append_if":
            c, m = self.lst(depth + 1)
            v = value(r)
            p = r.choice(list(PREDS))
            form = r.choice(["mpdef::append_if(%s, %s, %s)", "mpdef::append_if(%s)(%s, %s)", "mpdef::append_if(%s)(%s)(%s)"])
            return form % (p, c, cpp(v)), m + ([v] if PREDS[p](v) else [])
        if op == "fold_if":
            c, m = self.lst(depth + 1)
            p = r.choice(list(PREDS))
            return "hana::fold_left(%s, mpdef::make_list(), mpdef::append_if(%s))" % (c, p), [x for x in m if PREDS[p](x)]
        if op == "keys":
            m = a_map(r)
            return "hana::keys(%s)" % cpp(m), [x[1] for x in m[1]]
        if op == "flatten":
            parts = [self.lst(depth + 2) for _ in range(r.randrange(4))]
            return "hana::flatten(mpdef::make_list(%s))" % ", ".join(p[0] for p in parts), [x for p in parts for x in p[1]]
        if op == "unpack":
            c, m = self.lst(depth + 1)
            return "hana::unpack(%s, mpdef::make_list)" % c, m
        if op == "to":
            c, m = self.lst(depth + 1)
            return "hana::to<mpdef::list_tag>(hana::to_tuple(%s))" % c, m
        if op == "reverse":
            c, m = self.lst(depth + 1)
            return "hana::reverse(%s)" % c, m[::-1]
        if op == "filter":
            c, m = self.lst(depth + 1)
            p = r.choice(list(PREDS))
            return "hana::filter(%s, %s)" % (c, p), [x for x in m if PREDS[p](x)]
        if op == "remove":
            c, m = self.lst(depth + 1)
            p = r.choice(list(PREDS))
            return "hana::remove_if(%s, %s)" % (c, p), [x for x in m if not PREDS[p](x)]
        if op == "intersperse":
            c, m = self.lst(depth + 1)
            v = scalar(r)
            out = []
            for x in m:
                out += [v, x] if out else [x]
            return "hana::intersperse(%s, %s)" % (c, cpp(v)), out
        if op == "node":
            c, m = self.lst(depth + 1)
            return "hana::second(mpdef::make_tree_node(%s, %s))" % (cpp(scalar(r)), c), m
        c, m = self.lst(depth + 1)
        return "hana::unpack(mpdef::to_tuple<std::remove_cvref_t<decltype(%s)>>{}, mpdef::make_list)" % c, m

    def list_program(self):
        r = self.r
        c, m = self.lst()
        q = r.random()
        if q < .45:
            return c, ("list", m)
        if q < .5:
            return "hana::length(%s)" % c, ("int", len(m))
        if q < .55:
            return "hana::is_empty(%s)" % c, b(not m)
        if q < .7 and m:
            i = r.randrange(len(m))
            return r.choice(["hana::at_c<%d>(%s)" % (i, c), "hana::at(%s, hana::size_c<%d>)" % (c, i)]), m[i]
        if q < .75 and m:
            return r.choice([("hana::front(%s)" % c, m[0]), ("hana::back(%s)" % c, m[-1])])
        if q < .85:
            p = r.choice(list(PREDS))
            hit = [x for x in m if PREDS[p](x)]
            return r.choice([("hana::find_if(%s, %s)" % (c, p), opt(hit[0] if hit else None)), ("hana::any_of(%s, %s)" % (c, p), b(hit)),
                             ("hana::count_if(%s, %s)" % (c, p), ("int", len(hit))), ("hana::all_of(%s, %s)" % (c, p), b(len(hit) == len(m)))])
        # comparison, of lists of scalars
        xs = [scalar(r) for _ in range(r.randrange(5))]
        ys = list(xs)
        if r.random() < .6:
            e = r.randrange(4)
            if e == 0:
                ys.append(scalar(r))
            elif e == 1 and ys:
                ys.pop()
            elif e == 2:
                r.shuffle(ys)
            elif ys:
                ys[r.randrange(len(ys))] = scalar(r)
        if r.random() < .5:
            xs, ys = ys, xs
        ne = r.random() < .4
        return "mpdef::make_list(%s) %s mpdef::make_list(%s)" % (", ".join(map(cpp, xs)), "!=" if ne else "==", ", ".join(map(cpp, ys))), b((xs == ys) != ne)

    def map_program(self):
        r = self.r
        m = a_map(r)
        c = cpp(m)
        node = r.random() < .2
        if node:
            c = "mpdef::make_tree_node(%s, %s)" % (cpp(scalar(r)), c)
        d = {txt(x[1]): x[2] for x in m[1]}
        k = r.choice(m[1])[1] if m[1] and r.random() < .6 else scalar(r)
        hit = d.get(txt(k))
        q = r.random()
        if q < .3 and (hit is not None or not node):
            if hit is not None and not node:
                return r.choice(["%s[%s]", "hana::at_key(%s, %s)"]) % (c, cpp(k)), hit
            return "hana::find(%s, %s)" % (c, cpp(k)), opt(hit)
        if q < .45:
            return "hana::find(%s, %s)" % (c, cpp(k)), opt(hit)
        if q < .55 and not node:
            return "hana::contains(%s, %s)" % (c, cpp(k)), b(hit is not None)
        if q < .7:
            p = r.choice(["p_int", "p_type", "p_text", "p_never"])
            first = [x for x in m[1] if PREDS[p](x[1])]
            if r.random() < .5:
                return "hana::any_of(%s, %s)" % (c, p), b(first)
            return "hana::find_if(%s, %s)" % (c, p), opt(first[0][2] if first else None)
        if q < .75 and not node:
            return "hana::unpack(%s, mpdef::make_list)" % c, ("list", m[1])
        xs = [("node", x[1], scalar(r)) for x in m[1]]
        ys = list(xs)
        r.shuffle(ys)
        if r.random() < .6:
            e = r.randrange(3)
            if e == 0 and ys:
                ys.pop()
            elif e == 1 and ys:
                i = r.randrange(len(ys))
                ys[i] = ("node", ys[i][1], scalar(r))
            elif ys:
                i = r.randrange(len(ys))
                nk = scalar(r)
                if all(txt(nk) != txt(y[1]) for y in ys):
                    ys[i] = ("node", nk, ys[i][2])
        if r.random() < .5:
            xs, ys = ys, xs
        ne = r.random() < .4
        same = {txt(x[1]): txt(x[2]) for x in xs} == {txt(x[1]): txt(x[2]) for x in ys}
        return "%s %s %s" % (cpp(("map", xs)), "!=" if ne else "==", cpp(("map", ys))), b(same != ne)

    # ---- trees ----
    def tree(self, depth=0):
        """(C++, model)"""
        r = self.r
        kind = r.choice(["Find", "Find", "NodeA", "NodeB", "Many", "Few", "Root"]) if depth else r.choice(["Root", "Root", "Root", "Many", "NodeA", "Find"])
        if kind == "Few":
            leaf = r.choice(["OfType", "OfTypes", "Find", "Set3"])
            if leaf == "OfType":
                n = r.randrange(4)
                return "OfType<K<%d>>" % n, ("node", ("type", "OfType"), ("type", "K%d" % n))
            if leaf == "OfTypes":
                ns = [r.randrange(4) for _ in range(r.randrange(3))]
                return "OfTypes<%s>" % ", ".join("K<%d>" % n for n in ns), ("node", ("type", "OfTypes"), ("types", ["K%d" % n for n in ns]))
        kids = [self.tree(depth + 1) for _ in range(r.randrange(4 if depth < 3 else 1))]
        if r.random() < .6:
            for s in r.sample(range(4), r.randint(0, 3)):
                v = scalar(r)
                kids.append(("Set%d(%s)" % (s, cpp(v)), ("node", ("type", "Set%d" % s), v)))
        r.shuffle(kids)
        if kind in ("Many", "Few"):
            return "%s(%s)" % (kind, ", ".join(k[0] for k in kids)), ("node", ("type", kind), ("list", [k[1] for k in kids]))
        out = []
        for k in kids:
            # a map holds equal children only once
            if all(txt(k[1]) != txt(o[1]) for o in out):
                out.append(k)
        return "%s(%s)" % (kind, ", ".join(k[0] for k in out)), ("node", ("type", kind), ("map", [k[1] for k in out]))

    def tree_program(self):
        r = self.r
        c, m = self.tree()
        target = r.choice(["Find", "Find", "Find", "NodeA", "Set1"])
        pred = "p_find" if target == "Find" and r.random() < .5 else "hana::compose(hana::equal.to(tag::%s), hana::first)" % target
        found = []

        def walk(t, summary, summarize):
            s = summarize(summary, t)
            if t[1] == ("type", target):
                found.append(("node", t, s))
            elif t[2][0] in ("map", "list"):
                for k in t[2][1]:
                    walk(k, s, summarize)
        how = r.randrange(3)
        if how == 0:
            walk(m, ("int", 0), lambda s, t: ("int", s[1] + 1))
            call = r.choice(["mpdef::find_in_tree(%s, hana::int_c<0>, s_depth, %s)" % (c, pred),
                             "mpdef::create_in_tree_finder(%s, s_depth, hana::int_c<0>)(%s)" % (pred, c)])
        elif how == 1:
            walk(m, ("list", []), lambda s, t: ("list", s[1] + [t[1]]))
            call = "mpdef::create_in_tree_finder(%s)(s_trail)(mpdef::make_list())(%s)" % (pred, c)
        else:
            tags = r.sample(range(4), r.randint(0, 4))
            init = ("map", [("node", ("type", "Set%d" % i), ("nothing",)) for i in tags])

            def collect(s, t):
                return settings(s, t)
            walk(m, init, collect)
            call = "mpdef::find_in_tree.with_settings(%s)(%s)(%s)" % (", ".join("tag::Set%d" % i for i in tags), pred, c)
        return call, ("list", found)

    def settings_program(self):
        r = self.r
        tags = []
        for _ in range(r.randrange(5)):
            k = scalar(r)
            if k not in tags:
                tags.append(k)
        state = ("map", [("node", k, ("nothing",)) for k in tags])
        nodes = []
        for _ in range(r.randrange(5)):
            if r.random() < .2:
                nodes.append(("node", scalar(r), r.choice([scalar(r), ("list", [scalar(r)])])))
                continue
            ks = []
            for _ in range(r.randrange(4)):
                k = r.choice(tags) if tags and r.random() < .7 else scalar(r)
                if k not in ks:
                    ks.append(k)
            nodes.append(("node", scalar(r), ("map", [("node", k, value(r)) for k in ks])))
        want = state
        for n in nodes:
            want = settings(want, n)
        return "hana::fold_left(%s, mpdef::with_settings(%s), mpdef::collect_settings)" % (cpp(("list", nodes)), ", ".join(map(cpp, tags))), want

    def group_program(self):
        r = self.r
        rows, groups = [], []
        n = size(r, 8)
        for _ in range(n):
            k = r.randrange(4 if n < 8 else 3 + n // 2)
            vs = [r.randrange(5, 10) for _ in range(size(r, 4) if r.random() < .3 else r.randrange(4))]
            rows.append("mpdef::list<K<%d>, mpdef::list<%s>>" % (k, ", ".join("K<%d>" % v for v in vs)))
            for g in groups:
                if g[0] == k:
                    g[1].extend(vs)
                    break
            else:
                groups.append((k, list(vs)))
        return "mpdef::group_by<mpdef::list<%s>>{}" % ", ".join(rows), ("map", [("node", ("K", k), ("list", [("K", v) for v in vs])) for k, vs in groups])

    def collectors_program(self):
        r = self.r
        xs = [scalar(r) for _ in range(size(r, 6))]
        cs, init, want = [], [], []
        for _ in range(r.randint(1, 4)):
            c = r.choice(["g_count", "g_all", "g_back", "g_last", "hana::append"])
            cs.append(c)
            if c == "g_count":
                n = r.randrange(5)
                init.append(("int", n))
                want.append(("int", n + len(xs)))
            elif c == "g_last":
                v = scalar(r)
                init.append(v)
                want.append(xs[-1] if xs else v)
            else:
                init.append(("list", []))
                want.append(("list", xs[::-1] if c == "g_back" else xs))
        return "hana::fold_left(%s, %s, mpdef::compose_collectors(%s))" % (cpp(("list", xs)), cpp(("list", init)), ", ".join(cs)), ("list", want)

    def node_program(self):
        r = self.r
        a, v = scalar(r), value(r)
        n = cpp(("node", a, v))
        pair = "mpdef::make_pair(%s, %s)" % (cpp(a), cpp(v))
        e = r.choice([n, pair])
        return r.choice([("hana::first(%s)" % e, a), ("hana::second(%s)" % e, v), ("mpdef::is_tree_node(%s)" % cpp(v), b(v[0] == "node")), (e, ("node", a, v))])

    def string_program(self):
        r = self.r
        ws = [r.choice(["", "a", "foo ", "b,c", "long text"]) for _ in range(1 + size(r, 6))]
        if r.random() < .4:
            return "mpdef::string_concat(%s, %s)" % (cpp(("str", ws[0])), cpp(("str", ws[-1]))), ("str", ws[0] + ws[-1])
        d = r.choice(["", ",", ", ", "--"])
        args = ", ".join(cpp(("str", w)) for w in ws)
        return r.choice(["mpdef::string_join(%s, %s)", "mpdef::string_join(%s)(%s)"]) % (cpp(("str", d)), args), ("str", d.join(ws))

    def justify_program(self):
        r = self.r
        if r.random() < .3:
            return "mpdef::justify_type(hana::decltype_(hana::nothing))", ("type", "optional")
        n = r.randrange(5)
        e = r.choice(["hana::decltype_(hana::just(hana::type_c<K<%d>>))", "hana::type_c<decltype(hana::just(hana::type_c<K<%d>>)) const>"]) % n
        return "mpdef::justify_type(%s)" % e, ("type", "optional K%d" % n)


def settings(state, node):
    if node[2][0] != "map":
        return state
    new = {}
    for x in node[2][1]:
        new.setdefault(txt(x[1]), x[2])
    return ("map", [("node", x[1], ("just", new[txt(x[1])]) if txt(x[1]) in new else x[2]) for x in state[1]])


# ---- metastructs ----
def metastruct(r, i):
    n = r.choice([1, 2, 3, 5, 8, 13, 30, 63])
    names = ["m%d_%s" % (j, r.choice("abc")) for j in range(n)]
    vals = [scalar(r) for _ in names]
    s = "MS%d" % i
    head = "MPDEF_METASTRUCT(%s, %s)\n" % (s, ", ".join(names))
    progs = []
    made = "make_%s(%s)" % (s, ", ".join(map(cpp, vals)))
    order = list(range(n))
    r.shuffle(order)
    mapped = "make_%s_with_map(%s)" % (s, ", ".join("%s::%s = %s" % (s, names[j], cpp(vals[j])) for j in order))
    for j in sorted(set([0, n - 1] + [r.randrange(n) for _ in range(3)])):
        progs.append(("%s::%s(%s)" % (s, names[j], made), vals[j]))
        progs.append(("%s::%s(%s)" % (s, names[j], mapped), vals[j]))
        progs.append(("mpdef::metastruct_get<decltype(%s::%s)>::fn<decltype(%s)>{}" % (s, names[j], made), vals[j]))
    progs.append(("hana::equal(%s, %s)" % (made, mapped), b(True)))
    other = list(vals)
    j = r.randrange(n)
    other[j] = scalar(r)
    progs.append(("hana::equal(make_%s(%s), %s)" % (s, ", ".join(map(cpp, other)), mapped), b(txt(other[j]) == txt(vals[j]))))
    return head, progs


# ---- interfaces ----
def interface(r, depth=0):
    """(type, tag)"""
    x = r.random()
    if depth > 3 or x < .35:
        return r.choice([
                         ("int", "int"), ("bool", "bool"), ("unsigned", "unsigned"), ("double", "double"), ("char", "char"), ("long", "long"),
                         ("mark", "mark"), ("mark2", "mark2"), ("nbdl::string", "string"), ("std::string", "dynamic_buffer"),
                         ("std::vector<unsigned char>", "dynamic_buffer"), ("std::array<unsigned char, 7>", "buffer"),
                         ("hana::int_<4>", "constant 4"), ("hana::int_<5>", "constant 5"), ("decltype(\"ab\"_s)", "text ab"),
                         ("hana::type<K<1>>", "type K1"), ("hana::type<K<2>>", "type K2")])
    if x < .6:
        xs = [interface(r, depth + 1) for _ in range(r.randrange(5))]
        return "hana::tuple<%s>" % ", ".join(a for a, _ in xs), "sequence(%s)" % ",".join(t for _, t in xs)
    if x < .75:
        xs, seen = [], set()
        for _ in range(r.randint(1, 4)):
            a, t = interface(r, depth + 1)
            if a not in seen:
                seen.add(a)
                xs.append((a, t))
        return "nbdl::variant<%s>" % ", ".join(a for a, _ in xs), "variant(%s)" % ",".join(t for _, t in xs)
    if x < .9:
        a, t = interface(r, depth + 1)
        if r.random() < .3:
            return "std::%s<int, %s>" % (r.choice(["unordered_map", "map"]), a), "container(sequence(int,%s))" % t
        # a vector of what takes one byte is a buffer of bytes, whatever the type
        while not re.search(r"\b(int|long|double|unsigned|std::\w+|nbdl::\w+)\b", a):
            a, t = interface(r, depth + 1)
        return "std::vector<%s>" % a, "container(%s)" % t
    names = r.sample(["a", "b", "cc", "d"], r.randint(0, 3))
    xs = [(n,) + interface(r, depth + 1) for n in names]
    return ("hana::map<%s>" % ", ".join("hana::pair<decltype(\"%s\"_s), %s>" % (n, a) for n, a, _ in xs),
            "map(%s)" % ",".join("node(text %s,%s)" % (n, t) for n, _, t in xs))


LEAVES = [("int", "int"), ("bool", "bool"), ("unsigned", "unsigned"), ("double", "double"), ("char", "char"), ("long", "long"), ("mark", "mark"), ("mark2", "mark2"),
          ("hana::int_<4>", "constant 4"), ("hana::int_<5>", "constant 5"), ("hana::type<K<1>>", "type K1"), ("hana::type<K<2>>", "type K2")]


def altered(r, t, tag):
    """replaces the last (or any) leaf of both texts where they correspond one to one"""
    pat = {a: re.compile(r"(?<![\w:])" + re.escape(a) + r"(?![\w>]*_)(?=[,>]|$)") for a, _ in LEAVES}
    spots = []
    for a, g in LEAVES:
        in_t = [m.start() for m in pat[a].finditer(t)]
        in_g = [m.start() for m in re.finditer(r"(?<![\w ])" + re.escape(g) + r"(?=[,)]|$)", tag)]
        if len(in_t) == len(in_g):
            spots += [(x, y, a, g) for x, y in zip(in_t, in_g)]
    if not spots or "vector" in t or "map<int" in t or "variant" in t:
        return t, tag
    x, y, a, g = max(spots) if r.random() < .5 else r.choice(spots)
    b, h = r.choice([l for l in LEAVES if l[0] != a])
    return t[:x] + b + t[x + len(a):], tag[:y] + h + tag[y + len(g):]


def wide_interface(r):
    """many leaves, which altered() can change one by one"""
    xs = []
    for _ in range(r.randint(2, 30)):
        l = r.choice(LEAVES)
        xs.append(l if r.random() < .6 else ("hana::tuple<int, %s>" % l[0], "sequence(int,%s)" % l[1]) if r.random() < .5
                  else ("hana::map<hana::pair<decltype(\"k\"_s), %s>>" % l[0], "map(node(text k,%s))" % l[1]))
    return "hana::tuple<%s>" % ", ".join(a for a, _ in xs), "sequence(%s)" % ",".join(g for _, g in xs)


def generate(bdir, seed, count, files):
    rng = random.Random(seed * 99991 + 25)
    out = [[] for _ in range(files)]
    k = 0

    def put(f, prog):
        nonlocal k
        c, want = prog
        if len(c) > 2500:
            return
        out[f].append("static add a%d(R\"__(%s)__\", E(%s), R\"__(%s)__\");\n" % (k, c, c, txt(want)))
        k += 1
    kinds = ["list_program"] * 5 + ["map_program"] * 3 + ["tree_program"] * 4 + ["settings_program"] * 2 + ["group_program"] * 2 + ["collectors_program", "node_program", "string_program", "justify_program"]
    for i in range(count):
        put(i % files, getattr(Gen(random.Random(rng.random())), kinds[i % len(kinds)])())
    for i in range(count // 40):
        head, progs = metastruct(random.Random(rng.random()), i)
        out[i % files].append(head)
        for p in progs:
            put(i % files, p)
    for i in range(count // 6):
        base = rng.random()
        # some differ from the one before in one leaf only
        twin = i % 4 == 3
        if not twin:
            last = base
        r = random.Random(last)
        t, tag = wide_interface(r) if i % 4 > 1 else interface(r)
        if twin:
            t, tag = altered(random.Random(base), t, tag)
        f = r.choice(["json", "json", "binary"])
        out[i % files].append("static add_interface<%s, decltype(\"%s\"_s)> i%d(R\"__(%s)__\", \"%s\", \"%s\");\n" % (t, f, i, t, tag, f))
    srcs = []
    for n, fns in enumerate(out):
        path = os.path.join(bdir, "meta_%d.cpp" % n)
        body = '#include "%s"\n' % HARNESS + "".join(fns)
        if not os.path.exists(path) or open(path).read() != body:
            open(path, "w").write(body)
        srcs.append(path)
    return srcs

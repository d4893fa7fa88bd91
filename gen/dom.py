"""Random documents for C27: the C++ of a spec next to plain code for what it stands for."""
import os, random

HARNESS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "c27_page.hpp")
# what the members are
ROOT = {"a": "Str", "b": "Str", "n": "Int", "m": "Int", "o": "OptStr", "v": "Var", "w": "Var", "p": "Person", "xs": "VecInt", "ys": "VecPerson", "zs": "VecVar", "l": "Big", "t": "NStr", "f": "Flag"}
PERSON = {"first": "Str", "age": "Int", "nick": "OptStr", "xs": "VecInt", "big": "Big", "title": "NStr"}
ELEM = {"VecInt": "Int", "VecPerson": "Person", "VecVar": "Var"}
ALTS = {"OptStr": ["Nothing", "Str"], "Var": ["Unres", "Int", "Str", "Person"], "Hit": ["Absent", "Str"]}
# types that convert to one another and are not the same
NEAR = {"Str": ["NStr"], "NStr": ["Str"], "Int": ["Big", "Flag"], "Big": ["Int", "UInt"], "Flag": ["Int"], "Person": ["Pet"]}
ANY = {"Str", "Int", "Big", "NStr", "Flag"}
TAGS = ["div", "span", "ul", "li", "p", "h1", "h2", "h3", "h4", "h5", "h6", "a", "pre", "form", "text_area", "element"]
EVENTS = ["on_click", "on_key_down", "on_key_up", "submit"]


def hs(w):
    return f'"{w}"_s' if w else "hana::string_c<>"


class Val:
    """a path and the plain pointer to what it leads to"""
    def __init__(self, cpp, ptr, type, sure):
        self.cpp, self.ptr, self.type, self.sure = cpp, ptr, type, sure


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.ids = 0
        self.scope = []
        self.budget = 26
        self.in_row = False

    def fresh(self):
        self.ids += 1
        return self.ids

    # ---- values ----
    def bases(self):
        out = [Val(f'get("{k}"_s)', f'&r["{k}"_s]', t, True) for k, t in ROOT.items()]
        return out + self.scope * 3

    def inside(self, v):
        """a member of a person"""
        k, t = self.r.choice(list(PERSON.items()))
        return Val(f'get({v.cpp}, "{k}"_s)', f"AT({v.ptr}, {k})", t, v.sure)

    def value(self, types, sure=False):
        for _ in range(400):
            v = self.r.choice(self.bases())
            if v.type == "Var" and v.cpp.startswith("get(\"") and self.r.random() < .3:
                v = Val(f"match_when<Person>({v.cpp})", f"as<Person>({v.ptr})", "Person", False)
                v = self.inside(v)
            elif v.type in ("Var", "OptStr") and v.cpp.startswith("get(\"") and self.r.random() < .15 and not sure:
                t = self.r.choice([x for x in ("Str", "Int") if x in ALTS[v.type]])
                v = Val(f"match_when<{t}>({v.cpp})", f"as<{t}>({v.ptr})", t, False)
            elif v.type == "Person":
                v = self.inside(v)
            if v.type in types and (v.sure or not sure):
                return v
        k = "n" if "Int" in types and "Str" not in types else "a"
        return Val(f'get("{k}"_s)', f'&r["{k}"_s]', ROOT[k], True)

    def hit(self):
        """what a table has for a key that is itself looked up"""
        k = self.value({"Str"}, sure=True)
        key = f"key_at({k.cpp})" if self.r.random() < .5 else k.cpp
        return Val(f'get("ms"_s, {key})', f"look(r, {k.ptr})", "Hit", True)

    def word(self):
        return self.r.choice(["x", "k0", "one two", "", "&", "it", "Zz"])

    # ---- parameters of attributes ----
    def piece(self, depth):
        r = self.r
        x = r.random()
        if x < .3:
            w = self.word() or "e"
            return hs(w), f'm.put("{w}");'
        if x < .6 or depth > 2:
            v = self.value({"Str", "NStr"})
            return v.cpp, f"m.put({v.ptr});"
        if x < .75:
            a = [self.piece(depth + 1) for _ in range(r.randint(1, 3))]
            return f"concat({', '.join(y[0] for y in a)})", "".join(y[1] for y in a)
        return self.branch(lambda: self.piece(depth + 1), True)

    # ---- branches: arm() gives what an arm stands for ----
    def branch(self, arm, none_ok=True):
        r = self.r
        if r.random() < .55:
            v = self.hit() if r.random() < .2 else self.value({"OptStr", "Var"} | ANY)
            if v.cpp.startswith(("match_when", "decltype(x")):
                # a branch takes a path that ends in a value of any type
                v = Val(f"get({v.cpp})", v.ptr, v.type, v.sure)
            types = ALTS.get(v.type, [v.type])
            q = f"q{self.fresh()}"
            names = [t for t in types if r.random() < .7]
            r.shuffle(names)
            if len(names) < len(types) or r.random() < .2:
                names.insert(r.randint(len(names) // 2, len(names)), "")
            for t in list(types):
                for k in NEAR.get(t, []):
                    if r.random() < .2 and k not in types and k not in names:
                        names.insert(r.randint(0, len(names)), k)
            reach = [t for t in types if t not in names]
            if reach and "" not in names:
                names.append("")
            arms, code, closed = [], "", False
            for t in names:
                x = f"x{self.fresh()}"
                lam = t in types and t in ANY | {"Person"} and r.random() < .6
                if lam:
                    self.scope.append(Val(f"decltype({x}){{}}", x, t, True))
                a = arm()
                if lam:
                    self.scope.pop()
                if lam:
                    arms.append(f"when<{t}>([](auto {x}) {{ return {a[0]}; }})")
                else:
                    arms.append(f"when<{t}>({a[0]})")
                if not closed:
                    if t and t not in types:
                        pass
                    elif t:
                        code += f"if (auto {x} = as<{t}>({q})) {{ {a[1]} }} else "
                    else:
                        code += f"{{ {a[1]} }}"
                        closed = True
            if not closed:
                code += "{ }"
            return f"match({v.cpp}, {', '.join(arms)})", f"if (auto {q} = {v.ptr}) {{ {code} }}"
        v = self.value({"Str", "Int"})
        q = f"q{self.fresh()}"
        arms, code = [], ""
        for _ in range(r.randint(1, 2)):
            a = arm()
            if r.random() < .3:
                if v.type == "Int":
                    k = r.randrange(4)
                    pred, test = f"nbdl::ui_spec::equal(I({k}))", f"*{q} == {k}"
                else:
                    k = r.choice(["k0", "x", ""])
                    pred, test = f'nbdl::ui_spec::equal({hs(k)})', f'*{q} == "{k}"'
            else:
                pred = r.choice(["p_odd", "p_third", "p_long"])
                test = f"{pred}(*{q})"
            arms.append(f"cond({pred}, {a[0]})")
            code += f"if ({test}) {{ {a[1]} }} else "
        a = arm()
        arms.append(f"otherwise({a[0]})")
        code += f"{{ {a[1]} }}"
        return f"match_if({v.cpp}, {', '.join(arms)})", f"if (auto {q} = {v.ptr}) {{ {code} }}"

    # ---- nodes ----
    def text(self, depth=0):
        r = self.r
        x = r.random()
        if x < .2:
            w = self.word()
            return hs(w), f'm.text("{w}");'
        if x < .3:
            n = r.choice([0, 7, -3, 1234567])
            return f"I({n})", f'm.text("{n}");'
        if x < .45 and depth < 2:
            a = [self.text(depth + 1) for _ in range(r.randint(1, 3))]
            return f"concat({', '.join(y[0] for y in a)})", "".join(y[1] for y in a)
        v = self.value(ANY)
        return v.cpp, f"m.text({v.ptr});"

    def node(self, depth):
        r = self.r
        self.budget -= 1
        x = r.random()
        if depth > 3 or self.budget < 0 or x < .3:
            t = self.text()
            return f"text_node({t[0]})", t[1]
        if x < .6:
            return self.element(depth + 1)
        if x < .85 or self.in_row:
            def arm():
                if r.random() < .15:
                    return "nbdl::ui_spec::noop_t{}", ""
                return self.node(depth + 1)
            return self.branch(arm)
        return self.rows(depth)

    def rows(self, depth):
        r = self.r
        pool = [Val(f'get("{k}"_s)', f'&r["{k}"_s]', t, True) for k, t in ROOT.items() if t in ELEM]
        pool.append(Val('get("p"_s, "xs"_s)', 'AT(&r["p"_s], xs)', "VecInt", True))
        pool.append(Val('get(match_when<Person>(get("v"_s)), "xs"_s)', 'AT(as<Person>(&r["v"_s]), xs)', "VecInt", False))
        v = r.choice(pool)
        x = f"e{self.fresh()}"
        t = ELEM[v.type]
        outer, self.scope = self.scope, [Val(f"decltype({x}){{}}", f"&{x}", t, True)]
        self.in_row = True
        if t == "Var":
            a = self.branch(lambda: self.node(depth + 1))
            a = (f"li({a[0]})", f'm.open("li"); {a[1]} m.close();')
        elif r.random() < .8:
            a = self.element(depth + 1)
        else:
            a = self.node(depth + 1)
        self.scope = outer
        self.in_row = False
        return f"for_each({v.cpp}, [](auto {x}) {{ return {a[0]}; }})", f"if (auto c_{x} = {v.ptr}) for (auto& {x} : *c_{x}) {{ {a[1]} }}"

    def param(self):
        r = self.r
        x = r.random()
        if x < .15:
            n = r.randrange(5)
            return f"I({n})", f'm.param("int {n}");'
        if x < .3:
            return '"kk"_s', 'm.param("str kk");'
        if x < .4:
            return "get(nbdl::webui::html::event_data)", "m.event();"
        v = self.value(ANY | {"Person"})
        return v.cpp, f"m.param({v.ptr});"

    def element(self, depth):
        r = self.r
        self.budget -= 1
        tag = r.choice(TAGS)
        name = {"text_area": "textarea"}.get(tag, tag)
        if tag == "element":
            name = r.choice(["section", "b", "x-y"])
            open_, args = "element", [hs(name)]
        else:
            open_, args = tag, []
        code = f'm.open("{name}");'
        if r.random() < .5:
            ps = self.piece(0)
            args.append(f"attr_class({ps[0]})")
            code += f'm.begin(); {ps[1]} m.attr("class");'
        for k in r.sample(["href", "title", "data-x"], r.choice([0, 0, 1, 2])):
            ps = self.piece(0)
            args.append(f"attr_href({ps[0]})" if k == "href" else f"attribute({hs(k)}, {ps[0]})")
            code += f'm.begin(); {ps[1]} m.attr("{k}");'
        if r.random() < .2:
            ps = self.piece(0)
            args.append(f'set_property("value"_s, {ps[0]})')
            code += f'm.begin(); {ps[1]} m.prop("value");'
        for k in r.sample(["hidden", "checked"], r.choice([0, 0, 0, 1])):
            v = self.value(ANY)
            p = r.choice(["p_odd", "p_third", "p_long"])
            args.append(f'add_attribute_if("{k}"_s, {v.cpp}, {p})')
            code += f'm.flag("{k}", {v.ptr}, {p});'
        for k in r.sample(["on", "off"], r.choice([0, 0, 1])):
            v = self.value(ANY)
            p = r.choice(["p_odd", "p_third", "p_long"])
            args.append(f'add_class_if("c-{k}"_s, {v.cpp}, {p})')
            code += f'm.cls_if("c-{k}", {v.ptr}, {p});'
        if r.random() < .2:
            v = self.hit() if r.random() < .2 else self.value({"OptStr", "Var"} | ANY)
            t = r.choice(ALTS.get(v.type, [v.type] + NEAR.get(v.type, [])))
            args.append(f'add_class_when<{t}>("c-is"_s, {v.cpp})')
            code += f'm.cls("c-is", is<{t}>({v.ptr}));'
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            ev = r.choice(EVENTS)
            n = self.fresh()
            ps = [self.param() for _ in range(r.randint(0, 3))]
            lst = ", ".join([f"handler<{n}>{{}}"] + [p[0] for p in ps])
            args.append(f"{ev}({lst})" if ev != "submit" else f'event_attribute("submit"_s, {lst})')
            name_ = {"on_click": "click", "on_key_down": "keydown", "on_key_up": "keyup", "submit": "submit"}[ev]
            # looked up when the event comes: m outlives no store, so what is current is asked for again
            code += f'm.on("{name_}", {n}); {"".join(p[1] for p in ps)} m.on_end();'
        raw = r.random() < .07
        if r.random() < .08 and not raw:
            n = self.fresh()
            ps = [self.param() for _ in range(r.randint(0, 2))]
            args.append(f"hidden_file_input({', '.join([f'handler<{n}>{{}}'] + [p[0] for p in ps])})")
            code += f'm.file({n}); {"".join(p[1] for p in ps)} m.on_end();'
        if raw:
            args.append('unsafe_set_inner_html("<b>raw</b>"_s)')
            code += 'm.raw("<b>raw</b>");'
        else:
            for _ in range(r.choice([0, 1, 1, 2, 3]) if depth < 4 else 1):
                c = self.node(depth)
                args.append(c[0])
                code += c[1]
        code += "m.close();"
        return f"{open_}({', '.join(args)})", code


def generate(bdir, seed, count, files):
    out = [[] for _ in range(files)]
    rng = random.Random(seed * 104729 + 11)
    i = 0
    while i < count:
        g = Gen(random.Random(rng.random()))
        c, m = g.element(0)
        if not 120 < len(c) < 1600:
            continue
        out[i % files].append(
            f"struct s{i} {{ static constexpr auto spec() {{ using namespace nbdl::webui::html; using namespace nbdl::ui_spec; return {c}; }}\n"
            f"  static void model([[maybe_unused]] Root const& r, M& m) {{ {m} }} }};\nstatic add_page<s{i}> a{i};\n")
        i += 1
    srcs = []
    for n, fns in enumerate(out):
        path = os.path.join(bdir, f"pages_{n}.cpp")
        text = '#include "%s"\n' % HARNESS + "namespace {\n" + "".join(fns) + "}\n"
        if not os.path.exists(path) or open(path).read() != text:
            open(path, "w").write(text)
        srcs.append(path)
    return srcs

"""Random route maps for C22."""
import os
import random

HARNESS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "c22_routes.hpp")
POOL = ["Empty", "Void", "Num", "Int", "Short", "Small", "Long", "Text", "NumText", "TextNum", "Texts", "Nums", "Five", "Nine"]
NAMES = ["f", "fo", "foo", "foo-bar", "foo-bars", "bar", "Bar", "baz", "0", "1", "10", "a.b", "a b", "%20", "x", "xx", "xxx", "route", "route-not-found", "very-long-route-name-that-does-not-fit-in-a-small-string"]


def hstr(n):
    return '"%s"_s' % n


def generate(bdir, seed, count, files):
    r = random.Random(seed * 31337 + 22)
    out = [[] for _ in range(files)]
    for i in range(count):
        pool = r.sample(POOL, r.randint(1, 7))
        if i == 0:
            # the map of the enumeration
            pairs = [("", None), ("a", "Text"), ("1", "Num"), ("aa", "Empty"), ("0", "Texts"), ("a1", "NumText")]
        else:
            names = r.sample(NAMES, len(pool) + 2)
            pairs = [(names[j], p) for j, p in enumerate(pool)]
            if r.random() < .7:
                pairs.append((names[-1], None))
            if r.random() < .7:
                pairs.append(("", r.choice([None, "Empty" if "Empty" not in pool else None])))
            r.shuffle(pairs)
        args = ", ".join("nbdl::webui::route_pair<%s>(%s)" % (t or "", hstr(n)) for n, t in pairs)
        types = ", ".join(t or "decltype(%s)" % hstr(n) for n, t in pairs)
        names = ", ".join('"%s"' % n for n, _ in pairs)
        checks = " ".join("static_assert(std::is_same_v<typename decltype(m::get_type(%s))::type, %s>);" % (hstr(n), t or "decltype(%s)" % hstr(n)) for n, t in pairs)
        out[i % files].append("""namespace { constexpr auto map_%d = nbdl::webui::make_route_map(%s);
struct add_%d_ { add_%d_() { using m = std::decay_t<decltype(map_%d)>; %s add_map::to<%s>(map_%d, {%s}); } } add_%d; }
""" % (i, args, i, i, i, checks, types, i, names, i))
    srcs = []
    for n, fns in enumerate(out):
        path = os.path.join(bdir, "routes_%d.cpp" % n)
        text = '#include "%s"\n' % HARNESS + "".join(fns)
        if not os.path.exists(path) or open(path).read() != text:
            open(path, "w").write(text)
        srcs.append(path)
    return srcs

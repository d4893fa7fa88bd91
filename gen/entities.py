"""Entities of every number of members that the macros take, for C32."""
import os, random

TYPES = ["int", "int", "bool", "char", "double", "std::string", "std::string", "hollow", "hollower", "inner", "std::vector<int>", "std::unique_ptr<int>", "tiny", "speck"]
HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(os.path.dirname(HERE), "harness", "c32_bind.hpp")
WORDS = ["a", "id", "name", "x", "value_", "Of", "type", "n", "list", "_t", "on", "e", "s", "m", "key"]


def entity(r, name, n):
    names = []
    while len(names) < n:
        w = "".join(r.choice(WORDS) for _ in range(r.randint(1, 3)))
        # names that begin one another, names in capitals
        if r.random() < .2 and names:
            w = r.choice(names) + str(r.randint(0, 9))
        if w not in names and w not in ("typeid", "typename", "asm") and not w.startswith("__"):
            names.append(w)
    kinds = [r.choice(TYPES) for _ in names]
    if r.random() < .25:
        kinds = [r.choice(["int", "hollow"])] * n
    decl = ["  %s %s;\n" % (k, m) for k, m in zip(kinds, names)]
    inherited = set(r.sample(range(n), r.randint(1, n))) if r.random() < .2 else set()
    # the order of declaration and that of the list are two things
    order = list(range(n))
    r.shuffle(order)
    base = [decl[i] for i in order if i in inherited]
    own = [decl[i] for i in order if i not in inherited]
    body = "namespace bx {\n"
    if base:
        body += "struct %s_base {\n%s};\n" % (name, "".join(base))
    body += "struct %s%s {\n%s};\n" % (name, " : %s_base" % name if base else "", "".join(own))
    body += "inline void fill(vf::Src& s, %s& e) { %s }\n" % (name, " ".join("gen(s, e.%s);" % m for m in names))
    body += "inline std::vector<slot> parts(%s const& e) { return {%s}; }\n}\n" % (name, ", ".join('slot_of("%s", e.%s)' % (m, m) for m in names))
    body += "namespace nbdl { NBDL_ENTITY(bx::%s, %s); }\n" % (name, ", ".join(names))
    body += "static bx::add_entity<bx::%s> add_%s(\"bx::%s\");\n" % (name, name, name)
    return body


def generate(bdir, seed, extra, files):
    r = random.Random(seed * 77773 + 32)
    sizes = list(range(1, 63)) + [r.choice([1, 2, 3, 4, 5, 6, 8, 10]) for _ in range(extra)]
    out = [[] for _ in range(files)]
    load = [0] * files
    for i, n in sorted(enumerate(sizes), key=lambda x: -x[1]):
        f = load.index(min(load))
        load[f] += n + 3
        out[f].append(entity(r, "e%d_%d" % (i, n), n))
    srcs = []
    for n, fns in enumerate(out):
        path = os.path.join(bdir, "entities_%d.cpp" % n)
        body = '#include "%s"\n' % HARNESS + "".join(fns)
        if not os.path.exists(path) or open(path).read() != body:
            open(path, "w").write(body)
        srcs.append(path)
    return srcs

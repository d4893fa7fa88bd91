"""Random context definitions for C26, with what a context made from each of them has to do."""
import os
import random

HARNESS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "c26_defs.hpp")
ACTIONS = ["Create", "Read", "Update", "Delete"]


class Def:
    def __init__(self, r, n):
        self.r = r
        self.n = n
        self.keys = 0
        self.points = []        # in the order of the definition, depth first
        self.paths = set()
        self.listen = []

    def key(self):
        # a key type of this definition; the same one may be part of several paths
        r = self.r
        i = self.n * 10 + r.randrange(6)
        return ("fixed", i) if r.random() < .15 else ("key", i)

    def access_point(self, owner, path, depth, budget):
        """C++ of an access point and of everything inside of it"""
        r = self.r
        for _ in range(40):
            k = self.key()
            p = path + (k,)
            if p not in self.paths:
                break
        else:
            return None
        self.paths.add(p)
        has_actions = r.random() < .75
        store = r.choice(["map", "map", "exact", "follow", "single", "maybe", "null", None, None]) if has_actions else r.choice([None, None, "map", "exact", "single", "null"])
        acts = r.sample(ACTIONS, r.randint(0 if store not in (None, "null") else 1, 4)) if has_actions else None
        entity = r.randrange(self.n * 10, self.n * 10 + 6) if store in ("single", "maybe") or r.random() < .85 else None
        parts = ["PathKey<%s<%d>>" % k]
        if r.random() < .5:
            parts.append("Name(%s)" % r.choice(["hana::type_c<void>", "\"point\"_s"]))
        if entity is not None:
            parts.append("Entity<item<%d>>" % entity)
        tag = {"map": "nbdl::map_store_tag", "exact": "exact_store_tag", "follow": "follow_store_tag", "null": "nbdl::null_store", None: "nbdl::null_store",
               "single": "nbdl::context_store<item<%s>>" % entity, "maybe": "nbdl::context_store<nbdl::optional<item<%s>>>" % entity}[store]
        if store:
            parts.append("Store<%s>" % tag)
        if acts is not None:
            parts.append("Actions(%s)" % ", ".join(a + "()" for a in acts))
        point = None
        if acts or store not in (None, "null"):
            point = {"path": p, "kind": {"map": "dictionary", "exact": "exact", "follow": "follow", "single": "single", "maybe": "maybe"}.get(store, "null"), "owner": owner,
                     "acts": acts or [], "payload": "item<%d>" % entity if entity is not None else tag, "i": len(self.points), "listens": []}
            self.points.append(point)
            if store == "follow":
                parts.append("@LISTEN%d@" % point["i"])
        kids = self.kids(owner, p, depth + 1, budget)
        if kids:
            parts.append(kids)
        r.shuffle(parts)
        return "AccessPoint(%s)" % ", ".join(parts)

    def kids(self, owner, path, depth, budget):
        r = self.r
        if depth > 3 or len(self.points) >= budget:
            return None
        n = r.choice([0, 1, 1, 2, 3] if depth == 0 else [0, 0, 1, 1, 2])
        if n == 1 and r.random() < .5:
            return self.access_point(owner, path, depth, budget)
        if n == 0 and r.random() < .7:
            return None
        out = [self.access_point(owner, path, depth, budget) for _ in range(n)]
        return "AccessPoints(%s)" % ", ".join(o for o in out if o)


def ptext(p):
    return "".join("/%d%s" % (i, "!" if k == "fixed" else "") for k, i in p)


def tname(payload):
    if payload.startswith("item<"):
        return "item" + payload[5:-1]
    return {"nbdl::map_store_tag": "map tag", "exact_store_tag": "exact tag", "follow_store_tag": "follow tag", "nbdl::null_store": "null tag"}[payload]


def definition(r, n, budget):
    d = Def(r, n)
    producers, names = [], []

    def name(i):
        q = r.random()
        if q < .5:
            return '"%s%d"_s' % (r.choice("abcd"), i)
        if q < .75:
            return "hana::type_c<int[%d]>" % (i + 1)
        return None
    count = r.choice([1, 1, 2, 2, 3])
    for i in range(count):
        parts = ["Type<producer_tag<%d>>" % i]
        nm = name(i)
        if nm:
            parts.append("Name(%s)" % nm)
        names.append(nm or "hana::type_c<producer_tag<%d>>" % i)
        kids = d.kids(i, (), 0, budget * (i + 1) // count)
        if kids:
            parts.append(kids)
        r.shuffle(parts)
        producers.append("Producer(%s)" % ", ".join(parts))
    consumers, kinds = [], ["producer%d" % i for i in range(count)]
    told, noted = [], []
    m = r.choice([0, 1, 1, 2, 3, 4])
    for j in range(m):
        t = r.choice(["consumer", "state_consumer", "both"])
        kinds.append("%s%d" % (t, j))
        if t != "state_consumer":
            told.append(j)
        if t != "consumer":
            noted.append(j)
        parts = ["Type<%s_tag<%d>>" % (t, j)]
        nm = name(count + j)
        if nm:
            parts.append("Name(%s)" % nm)
        names.append(nm or "hana::type_c<%s_tag<%d>>" % (t, j))
        r.shuffle(parts)
        consumers.append("Consumer(%s)" % ", ".join(parts))
    top = []
    if count == 1 and r.random() < .5:
        top.append(producers[0])
    else:
        top.append("Producers(%s)" % ", ".join(producers))
    if m == 1 and r.random() < .5:
        top.append(consumers[0])
    elif m or r.random() < .5:
        top.append("Consumers(%s)" % ", ".join(consumers))
    r.shuffle(top)
    src = "Context(%s)" % ", ".join(top)
    for p in d.points:
        if p["kind"] == "follow":
            others = [q for q in d.points if q is not p]
            p["listens"] = [q["i"] for q in r.sample(others, r.randint(0, min(3, len(others))))]
            paths = ", ".join("Path<%s>" % ", ".join("%s<%d>" % k for k in d.points[q]["path"]) for q in p["listens"])
            src = src.replace("@LISTEN%d@" % p["i"], "ListenPaths(%s)" % paths)
    up, down = ["unresolved", "system"], ["unresolved", "system"]
    for p in d.points:
        t, e = ptext(p["path"]), tname(p["payload"])
        new = t if p["path"][-1][0] == "fixed" else ptext(p["path"][:-1]) + "/new%d" % p["path"][-1][1]
        for a in p["acts"]:
            low = a.lower()
            if a == "Create":
                up.append("upstream_create %s  %s " % (new, e))
                down.append("downstream_create %s  %s " % (t, e))
            elif a == "Read":
                up.append("upstream_read %s " % t)
                down += ["downstream_read %s  %s" % (t, e), "downstream_read %s  not found" % t]
            elif a == "Update":
                up.append("upstream_update %s  %s" % (t, e))
                down.append("downstream_update %s  %s " % (t, e))
            else:
                up.append("upstream_delete %s " % t)
                down.append("downstream_delete %s  " % t)
    path = lambda p: "hana::tuple<%s>" % ", ".join("%s<%d>" % k for k in p["path"])
    # some of the actors are given arguments, in any order
    given, kept = [], []
    who = r.sample(range(len(names)), r.randint(0, len(names)))
    texts = ["nothing"] * len(names)
    decl = ""
    for i in who:
        if r.random() < .5:
            decl += "int a%d = static_cast<int>(s.choose(100)); " % i
            texts[i] = "std::to_string(a%d)" % i
        else:
            decl += "std::string a%d = s.text_of(\"abc\", 4) + (s.boolean() ? std::string(40, 'x') : \"\"); " % i
            texts[i] = '"text " + a%d' % i
        if r.random() < .5:
            given.append("nbdl::actor(%s, a%d)" % (names[i], i))
        else:   # a pair that stays with the caller
            decl += "auto p%d = nbdl::actor(%s, a%d); auto const p%d_ = p%d; " % (i, names[i], i, i, i)
            given.append("p%d" % i)
            kept.append("p%d" % i)
    still = "".join('  s.check(hana::second(%s) == hana::second(%s_), "an argument of the caller has changed");\n' % (k, k) for k in kept)
    exp = ", ".join('std::string("nothing")' if t == "nothing" else t for t in texts)
    out = "namespace c26 {\nstruct def_%d;\nstruct tag_%d { using def = def_%d; };\n" % (n, n, n)
    out += "struct def_%d\n{\n  using tag = tag_%d;\n  static constexpr auto apply() { return %s; }\n" % (n, n, src)
    out += "  using points = mpdef::list<%s>;\n" % ", ".join("point<%s, %s, %s, %d, %d%s>" % (
        path(p), p["kind"], p["payload"], p["owner"], sum(1 << ACTIONS.index(a) for a in p["acts"]), "".join(", %d" % x for x in p["listens"])) for p in d.points)
    out += "  static std::vector<int> consumers() { return {%s}; }\n  static std::vector<int> state_consumers() { return {%s}; }\n" % (", ".join(map(str, told)), ", ".join(map(str, noted)))
    out += "  static std::vector<std::string> inits() { return {%s}; }\n  static constexpr std::size_t actors = %d;\n  static void given(vf::Src& s);\n};\n}\n" % (", ".join('"%s"' % k for k in kinds if not k.startswith("state")), len(names))
    for p in d.points:
        if p["kind"] == "null":
            out += "namespace cx { template <> struct has_store<%s> : std::false_type { }; }\n" % path(p)
    out += "namespace nbdl { template <> struct make_def_impl<c26::tag_%d> : c26::def_%d { }; }\n" % (n, n)
    out += "namespace c26 {\nvoid def_%d::given(vf::Src& s)\n{\n  %s\n  auto ctx = nbdl::make_context<tag>(%s);\n" % (n, decl, ", ".join(given))
    out += "  s.equal(join(actor_args(*ctx, std::make_index_sequence<actors>{})), join({%s}), \"arguments\");\n%s  s.nontrivial(%s);\n}\n" % (exp, still, "true" if len(given) > 1 else "false")
    lst = lambda xs: "{%s}" % ", ".join('"%s"' % x for x in xs)
    out += "static add<def_%d> add_%d(R\"__(%s)__\", %s, %s, %s);\n}\n" % (n, n, src, lst(up), lst(down), lst(kinds))
    return out


def generate(bdir, seed, count, files):
    rng = random.Random(seed * 31337 + 26)
    out = [[] for _ in range(files)]
    for i in range(count):
        r = random.Random(rng.random())
        out[i % files].append(definition(r, i, r.choice([1, 2, 3, 4, 6])))
    srcs = []
    for n, fns in enumerate(out):
        path = os.path.join(bdir, "defs_%d.cpp" % n)
        text = '#include "%s"\n' % HARNESS + "".join(fns)
        if not os.path.exists(path) or open(path).read() != text:
            open(path, "w").write(text)
        srcs.append(path)
    return srcs

"""Generates C++ translation units with drawn tree configurations: option sequences for P21, and configurations of the
model-based machine (machine.hpp) for the other properties.  A unit is a function of (check, seed, index) only."""
import itertools
import random

LESS = {"CountLess": "a < b", "CountGreater": "b < a"}


def option_unit(seed, index):
    """Units take turns: maps, sets and vectors, named through their own options or, for every other round of maps and
    sets, through the options of OrderedBuilder in each of their orders.  Each order of options is used forwards and,
    by the next unit of its kind, backwards."""
    rng = random.Random("options %d %d" % (seed, index))
    kind = ["MAP", "SET", "VEC"][index % 3]
    turn = index // 3
    chain = kind != "VEC" and turn % 2 == 1
    order = random.Random("order %d %s %d" % (seed, kind, turn // 4 if kind != "VEC" else turn // 2))
    backwards = (turn // 2 if kind != "VEC" else turn) % 2 == 1
    pick = {
        "leaf_node_bytes": lambda: rng.choice([64, 72, 100, 128, 200, 512, 1000]),
        "internal_node_bytes": lambda: rng.choice([136, 160, 200, 256, 400, 512]),
        "depth_limit": lambda: rng.choice([2, 3, 4, 5, 8, 12]),
        "disable_exceptions": lambda: rng.choice(["true", "false"]),
    }
    if kind == "VEC":
        pick["size_type"] = lambda: rng.choice(["uint16_t", "uint32_t", "size_t", "int64_t"])
    else:
        pick["compare"] = lambda: rng.choice(sorted(LESS))
        pick["binary_search"] = lambda: rng.choice(["true", "true", "true" if chain else "false"])
    # every option at least once, some several times, in any order; the last one of a kind counts
    seq = list(pick) + [order.choice(list(pick)) for _ in range(order.choice([0, 0, 1, 2, 4]))]
    order.shuffle(seq)
    if backwards:
        seq.reverse()
    base = {"MAP": "BppTreeMap<int32_t, int32_t>", "SET": "BppTreeSet<int32_t>", "VEC": "BppTreeVector<int32_t>"}[kind]
    final, text = {}, base
    for o in seq:
        v = pick[o]()
        final[o] = v
        text += "::%s<%s>" % (o, v)
    # builders of further mixins, their options in any order too
    extra_a, extra_b, flags = [], [], {}
    second = kind == "MAP"
    extract = "CountSecond" if second else "CountValue"
    for name, lower in (("Min", "min"), ("Max", "max")):
        if rng.random() < 0.4:
            opts = [("extractor", lambda: extract), ("compare", lambda: rng.choice(sorted(LESS)))]
            opts += [rng.choice(opts) for _ in range(rng.choice([0, 0, 1]))]
            rng.shuffle(opts)
            got, t = {}, "%sBuilder<>" % name
            for o, f in opts:
                got[o] = f()
                t += "::%s<%s>" % (o, got[o])
            extra_a.append(t)
            extra_b.append("%sBuilder<%s, %s>" % (name, got["extractor"], got["compare"]))
            flags[lower] = got["compare"]
    if rng.random() < 0.3:
        extra_a.append("SummedBuilder<%s>" % extract)
        extra_b.append("SummedBuilder<%s>" % extract)
        flags["sum"] = True
    value = "std::pair<int32_t, int32_t>" if kind == "MAP" else "int32_t"
    if kind == "VEC":
        first = "IndexedBuilder<%s>" % final["size_type"]
    else:
        ext = "PairExtractor<0>" if kind == "MAP" else "ValueExtractor"
        first = "OrderedBuilder<%s, %s, std::%s_type>" % (ext, final["compare"], final["binary_search"])
    params = "%s, %d, %d, %d, %s" % (value, final["leaf_node_bytes"], final["internal_node_bytes"], final["depth_limit"], final["disable_exceptions"])
    if chain:
        opts = ["extractor<%s>" % ext, "compare<%s>" % final["compare"], "binary_search<%s>" % final["binary_search"]]
        opts = list(itertools.permutations(opts))[(turn // 2 + seed) % 6]
        a = "BppTree<%s>::mixins<%s>" % (params, ", ".join(["OrderedBuilder<>::" + "::".join(opts)] + extra_a))
    else:
        a = text if not extra_a and rng.random() < 0.7 else "%s::mixins<%s>" % (text, ", ".join(extra_a))
    b = "BppTree<%s>::mixins<%s>" % (params, ", ".join([first] + extra_b))
    kl = LESS[final["compare"]] if kind != "VEC" else "a < b"
    of = "r.v" if second else "r.k"
    return '''struct O%d {
    static constexpr char const* name = "%s";
    using A = %s;
    using B = %s;
    using Value = %s;
    using Size = %s;
    static constexpr int kind = %d, leaf = %d, internal = %d, depth = %d;
    static constexpr bool noexc = %s, has_min = %s, has_max = %s, has_sum = %s;
    static bool kless(int64_t a, int64_t b) { return %s; }
    static int64_t min_of(Rep const& r) { return %s; }
    static int64_t max_of(Rep const& r) { return %s; }
    static bool min_less(int64_t a, int64_t b) { return %s; }
    static bool max_less(int64_t a, int64_t b) { return %s; }
};
static Register r%d("%%s-%d", &Opt<O%d>::unit);
''' % (index, a, a, b, value, final.get("size_type", "size_t"), ["MAP", "SET", "VEC"].index(kind), final["leaf_node_bytes"], final["internal_node_bytes"],
       final["depth_limit"], final["disable_exceptions"], "true" if "min" in flags else "false", "true" if "max" in flags else "false",
       "true" if "sum" in flags else "false", kl, of, of, LESS[flags.get("min", "CountLess")], LESS[flags.get("max", "CountLess")], index, index, index)


def option_sources(seed, count, files):
    """`files` sources with `count` option sequences in all; units are named opt-<seed>-<index>."""
    units = [option_unit(seed, i) % ("opt-%d" % seed) for i in range(count)]
    out = []
    for f in range(files):
        body = "".join(units[f::files])
        out.append('#include "opt.hpp"\nnamespace pbt {\nnamespace {\n%s}\n}\n' % body)
    return out


MAXC = "detail::MaxComparator"


class Kind:
    def __init__(self, vk, value, size, key=None, sums=(), mins=(), maxs=None, pair=None, key_size=8, desc=True, cap=1000, single=False, upd_key=True, weight=1.0):
        self.vk, self.value, self.size, self.key, self.sums, self.mins, self.maxs = vk, value, size, key, sums, mins, maxs or mins
        self.pair, self.key_size, self.desc, self.cap, self.single, self.upd_key, self.weight = pair, key_size, desc, cap, single, upd_key, weight


def cast(t):
    return "detail::CastingExtractor<%s>" % t


def wcast(e, t):
    return "detail::WrappedCastingExtractor<%s, %s>" % (e, t)


# key: extractor of the key (None: not ordered); sums: (extractor, sum type, bytes, field); mins: (extractor, bytes, field)
KINDS = [
    Kind("KInt<int32_t>", "int32_t", 4, "ValueExtractor", [("ValueExtractor", "int32_t", 4, "v"), (cast("int64_t"), "int64_t", 8, "v"), (cast("double"), "double", 8, "v")], [("ValueExtractor", 4, "v"), (cast("int64_t"), 8, "v")], key_size=4, single=True, weight=3),
    Kind("KInt<int64_t>", "int64_t", 8, "ValueExtractor", [("ValueExtractor", "int64_t", 8, "v")], [("ValueExtractor", 8, "v")], single=True, weight=2),
    Kind("KInt<uint32_t>", "uint32_t", 4, "ValueExtractor", [("ValueExtractor", "uint32_t", 4, "v"), (cast("uint64_t"), "uint64_t", 8, "v")], [("ValueExtractor", 4, "v")], key_size=4, single=True),
    Kind("KInt<uint8_t>", "uint8_t", 1, "ValueExtractor", [(cast("uint32_t"), "uint32_t", 4, "v")], [("ValueExtractor", 1, "v"), (cast("int16_t"), 2, "v")], key_size=1, single=True),
    Kind("KInt<int16_t>", "int16_t", 2, None, [(cast("int32_t"), "int32_t", 4, "v"), (cast("int64_t"), "int64_t", 8, "v")], [("ValueExtractor", 2, "v")], single=True),
    Kind("KPair", "std::pair<int32_t, int32_t>", 8, "PairExtractor<0>", [("PairExtractor<1>", "int32_t", 4, "v"), (wcast("PairExtractor<1>", "int64_t"), "int64_t", 8, "v"), (wcast("PairExtractor<0>", "int64_t"), "int64_t", 8, "k"), (wcast("PairExtractor<1>", "double"), "double", 8, "v")],
         [("PairExtractor<1>", 4, "v"), ("PairExtractor<0>", 4, "k")], key_size=4, weight=3),
    Kind("KPairBase<int64_t, int32_t>", "std::pair<int64_t, int32_t>", 16, "PairExtractor<0>", [(wcast("PairExtractor<1>", "int64_t"), "int64_t", 8, "v")], [("PairExtractor<1>", 4, "v"), ("PairExtractor<0>", 8, "k")], weight=2),
    Kind("KRPair", "std::pair<int64_t, int32_t>", 16, "PairExtractor<1>", [("PairExtractor<0>", "int64_t", 8, "v")], [("PairExtractor<0>", 8, "v"), ("PairExtractor<1>", 4, "k")], key_size=4, weight=2),
    Kind("KStr", "std::pair<std::string, std::string>", 64, "PairExtractor<0>", [("SumSecond", "int64_t", 8, "v")], [("PairExtractor<1>", 32, "v"), ("PairExtractor<0>", 32, "k")], key_size=32, cap=400),
    Kind("KStrInt", "std::pair<std::string, int64_t>", 40, "PairExtractor<0>", [("PairExtractor<1>", "int64_t", 8, "v")], [("PairExtractor<1>", 8, "v"), ("PairExtractor<0>", 32, "k")], key_size=32, cap=500),
    Kind("KTrk", "std::pair<Tracked, Tracked>", 48, "PairExtractor<0>", [("SumSecond", "int64_t", 8, "v"), ("SumAmount", "Amount", 8, "v")], [("PairExtractor<1>", 24, "v"), ("PairExtractor<0>", 24, "k")], key_size=24, cap=300),
    Kind("KTrk1", "Tracked", 24, "ValueExtractor", [("TrkVal", "int64_t", 8, "v")], [("ValueExtractor", 24, "v"), ("TrkVal", 8, "v")], key_size=24, cap=300, single=True),
    Kind("KTuple", "std::tuple<int64_t, uint32_t>", 16, "TupleExtractor<1>", [("TupleExtractor<0>", "int64_t", 8, "v")], [("TupleExtractor<0>", 8, "v"), ("TupleExtractor<1>", 4, "k")], key_size=4, weight=1.5),
    Kind("KTup", "std::tuple<int32_t, int64_t>", 16, "TupleExtractor<0>", [("TupleExtractor<1>", "int64_t", 8, "v")], [("TupleExtractor<1>", 8, "v"), ("TupleExtractor<0>", 4, "k")], key_size=4, weight=1.5),
    Kind("KTriple", "std::tuple<int32_t, std::string, int32_t>", 48, "TupleExtractor<2>", [(wcast("TupleExtractor<0>", "int64_t"), "int64_t", 8, "v")], [("TupleExtractor<0>", 4, "v"), ("TupleExtractor<2>", 4, "k")], key_size=4, cap=400, upd_key=False),
    Kind("KPtr", "RecPtr", 16, "PtrExtractor", [("PtrVal", "int64_t", 8, "v")], [("PtrVal", 8, "v"), ("PtrExtractor", 8, "k")], cap=300, desc=False),
    Kind("KBig", "Big", 184, None, [("BigVal", "int64_t", 8, "v")], [("BigVal", 8, "v")], cap=300),
]


def machine_unit(rng, name, need, safe_only):
    """A configuration that has one of the mixins in `need` (letters of O I S N X, or empty)."""
    while True:
        k = rng.choices(KINDS, [x.weight for x in KINDS])[0]
        chosen = [c for c in "OISNX" if rng.random() < (0.7 if c in need else 0.45)]
        if k.key is None and "O" in chosen:
            continue
        if need and not any(c in need for c in chosen):
            continue
        break
    rng.shuffle(chosen)
    ordered, indexed = "O" in chosen, "I" in chosen
    safety = safe_only or rng.random() < 0.75
    noexc = not safety and not ordered and rng.random() < 0.3
    cap = k.cap
    members, text, per = [], [], 8
    text.append("ordered = %s, indexed = %s, summed = %s, minned = %s, maxed = %s, noexc = %s, upd_key = %s" % tuple(
        "true" if x else "false" for x in (ordered, indexed, "S" in chosen, "N" in chosen, "X" in chosen, noexc, k.upd_key)))
    text.append("key_sub = %s, idx_sub = %s" % ("true" if ordered and not indexed else "false", "true" if indexed and not ordered else "false"))
    mix, extra = [], []
    for c in chosen:
        if c == "O":
            desc = k.desc and rng.random() < 0.4
            comp = "PtrLess" if k.vk == "KPtr" else MAXC if desc else "detail::MinComparator"
            mix.append("OrderedBuilder<%s, %s, std::%s_type>" % (k.key, comp, rng.choice(["true", "false"])))
            if desc:
                extra.append("static bool kless(int64_t a, int64_t b) { return b < a; }")
            per += k.key_size
        elif c == "I":
            size, n = rng.choice([("size_t", 8), ("uint32_t", 4), ("uint16_t", 2), ("int32_t", 4), ("int64_t", 8)])
            mix.append("IndexedBuilder<%s>" % size)
            extra.append("using Size = %s;" % size)
            per += n
        elif c == "S":
            e, t, n, f = rng.choice(k.sums)
            mix.append("SummedBuilder<%s>" % e)
            extra.append("using Sum = %s;\n    static int64_t sum_of(Rep const& r) { return r.%s; }" % (t, f))
            per += n
        else:
            e, n, f = rng.choice(k.mins)
            flip = rng.random() < 0.25
            lower, builder = ("min", "MinBuilder") if c == "N" else ("max", "MaxBuilder")
            natural, other = ("detail::MinComparator", MAXC) if c == "N" else (MAXC, "detail::MinComparator")
            if e == "PtrExtractor":
                natural, other = ("PtrLess", "PtrMore") if c == "N" else ("PtrMore", "PtrLess")
            mix.append("%s<%s, %s>" % (builder, e, other if flip else natural))
            extra.append("static int64_t %s_of(Rep const& r) { return r.%s; }" % (lower, f))
            if flip:
                extra.append("static bool %s_less(int64_t a, int64_t b) { return %s; }" % (lower, "b < a" if c == "N" else "a < b"))
            per += n
    leaf_n = rng.choice([1, 2, 2, 3, 4, 5, 7, 10, 20])
    fan = rng.choice([4, 4, 5, 6, 7, 8, 11, 16])
    leaf = 8 + max(8, k.size) + k.size * (leaf_n - 1) + rng.choice([0, 0, 1, 3, 8])
    if k.size % 8 == 0 and leaf < 8 + k.size * leaf_n:
        leaf = 8 + k.size * leaf_n
    internal = 16 + fan * per + 8 * (len(mix) + 1) + rng.choice([0, 0, 4, 9])
    depth, reach = 1, max(1, leaf_n / 2)
    while reach < 60 and depth < 7:
        depth, reach = depth + 1, reach * max(2.0, fan / 2)
    depth = max(2, depth + rng.choice([-1, 0, 0, 1]))
    tree = "BppTree<%s, %d, %d, %d, %s>::mixins<%s>" % (k.value, leaf, internal, depth, "true" if noexc else "false", ", ".join(mix))
    src = '''#%s BPPTREE_SAFETY_CHECKS
#define CFG_NONE
#include "configs.hpp"
namespace pbt {
namespace { struct Cfg : CBase {
    static constexpr char const* name = "%s: %s, safety checks %s";
    using VK = %s;
    using Tree = %s;
    static constexpr bool %s, %s;
    static constexpr size_t soft_cap = %d;
    %s
}; }
static Register r("%s", &Machine<Cfg>::unit);
}
''' % ("define" if safety else "undef", name, tree, "on" if safety else "off", k.vk, tree, text[0], text[1], cap, "\n    ".join(extra), name)
    return (k.value, leaf, internal, depth), src


def machine_sources(check, seed, count, need, safe_only):
    """`count` sources, each with one configuration named gen-<seed>-<index>; no two with the same node parameters, which
    might be compiled with different safety checks."""
    out, seen = [], set()
    while len(out) < count:
        rng = random.Random("machine %s %d %d" % (check, seed, len(out)))
        while True:
            params, src = machine_unit(rng, "gen-%d-%d" % (seed, len(out)), need, safe_only)
            if params not in seen:
                break
        seen.add(params)
        out.append(src)
    return out

"""P02: aggregations against the reference evaluator on packed bounded worlds."""
import itertools

from .. import calc, model, spaces
from ..core import Check, Problem


def A(prim, bases, entity="R", path=(0,), where=None, up=None):
    return ("agg", prim, bases, entity, list(path), where, up)


def idf(e, c):
    return ("id", e, c)


def flat(child="C", path=(0,), entity="R"):
    x, w, c, b, t, d, i = (idf(child, n) for n in ("x", "w", "c", "f", "t", "d", "id"))
    p = dict(entity=entity, path=path)
    return [A("count", [i], **p), A("sum", [w], **p), A("sum", [x], **p), A("mean", [x], **p), A("mean:skipna=False", [x], **p),
            A("min", [x], **p), A("max", [w], **p), A("mode", [c], **p), A("last", [w], **p), A("last", [x], **p), A("first", [c], **p),
            A("num_unique", [c], **p), A("num_true", [b], **p), A("percent_true", [b], **p), A("median", [x], **p),
            A("minmax", [x], **p), A("wsum", [x, w], **p), A("dfl7", [w], **p)]


def timed(child="C", path=(0,), entity="R"):
    x, w, c, b, t, d, i = (idf(child, n) for n in ("x", "w", "c", "f", "t", "d", "id"))
    p = dict(entity=entity, path=path)
    return [A("avg_time", [t], **p), A("since_last", [t], **p), A("since_first", [t], **p), A("trend", [w, t], **p),
            A("any", [b], **p), A("all", [b], **p), A("sum", [("tr", "time_since", [d])], **p)]


def stacked():
    gw, gx, gi = idf("G", "w"), idf("G", "x"), idf("G", "id")
    cw, cx = idf("C", "w"), idf("C", "x")
    g_sum = A("sum", [gw], "C", (1,))
    g_cnt = A("count", [gi], "C", (1,))
    g_mm = A("minmax", [gx], "C", (1,))
    return ([A("count", [gi], "R", (0, 1)), A("sum", [gw], "R", (0, 1)), A("last", [gw], "R", (0, 1)), A("mean", [gx], "R", (0, 1)),
             A("minmax", [gw], "R", (0, 1)),
             A("sum", [g_sum]), A("max", [g_cnt]), A("min", [g_sum]), A("last", [g_sum]), A("mean", [A("mean", [gx], "C", (1,))]),
             A("sum", [("slice", g_mm, 0)]), A("max", [("slice", g_mm, 1)]), A("minmax", [("slice", g_mm, 1)]),
             A("sum", [("tr", "negate", [cx])]), A("sum", [("tr", "add", [cx, g_sum])]), A("sum", [("tr", "cum_sum", [cw])]),
             A("sum", [("gb", "cum_sum", [cw], idf("C", "r_id"))]), A("max", [("dir", idf("R", "w"), 0)]),
             A("sum", [("dir", idf("C", "w"), 1)], "R", (0, 1)), A("wsum", [gw, ("dir", cx, 1)], "R", (0, 1)),
             A("sum", [("tr", "mul", [gw, ("dir", g_cnt, 1)])], "R", (0, 1)),
             A("last", [("dir", ("tr", "negate", [cw]), 1)], "R", (0, 1)),
             g_sum_on_r()])


def g_sum_on_r():
    # an aggregation read back through a direct feature and aggregated again
    return A("sum", [("dir", A("count", [idf("C", "id")]), 0)])


def two_paths(shape):
    gw, gi = idf("G", "w"), idf("G", "id")
    if shape == "diamond":
        paths = [(0, 2), (1, 3)]
    elif shape == "double":
        paths = [(0,), (1,)]
    elif shape == "under":
        paths = [(0, 1), (0, 2)]
    elif shape == "over":
        paths = [(0, 2), (1, 2)]
    else:
        paths = [(1,), (0, 2)]
    out = []
    for p in paths:
        out += [A("sum", [gw], "R", p), A("count", [gi], "R", p), A("last", [idf("G", "c")], "R", p), A("max", [idf("G", "x")], "R", p)]
    if shape == "diamond":
        out += [A("sum", [A("sum", [gw], "A", (2,))], "R", (0,)), A("sum", [A("sum", [gw], "B", (3,))], "R", (1,)),
                A("sum", [("dir", idf("B", "w"), 3)], "R", (0, 2)), A("sum", [("dir", A("count", [gi], "B", (3,)), 3)], "R", (0, 2)),
                A("sum", [("dir", A("sum", [gw], "A", (2,)), 2)], "R", (1, 3))]
    elif shape == "double":
        out += [A("sum", [("dir", A("count", [gi], "R", (0,)), 1)], "R", (0,)), A("sum", [("dir", A("sum", [gw], "R", (1,)), 0)], "R", (1,)),
                A("max", [("dir", idf("R", "w"), 1)], "R", (0,))]
    elif shape == "under":
        out += [A("sum", [A("sum", [gw], "A", (1,))], "R", (0,)), A("max", [A("count", [gi], "A", (2,))], "R", (0,)), A("sum", [("dir", idf("A", "w"), 2)], "R", (0, 1)), A("sum", [("dir", A("sum", [gw], "A", (1,)), 2)], "R", (0, 1)),
                A("last", [("dir", idf("A", "c"), 1)], "R", (0, 2)), A("sum", [("dir", ("dir", idf("R", "w"), 0), 1)], "R", (0, 2))]
    elif shape == "over":
        out += [A("sum", [A("sum", [gw], "A", (2,))], "R", (0,)), A("max", [A("count", [gi], "A", (2,))], "R", (1,)), A("sum", [("dir", ("dir", idf("R", "w"), 1), 2)], "R", (0, 2)), A("sum", [("dir", A("sum", [gw], "A", (2,)), 2)], "R", (1, 2)),
                A("sum", [("dir", A("sum", [gw], "R", (0, 2)), 1)], "R", (0,)), A("count", [idf("A", "id")], "R", (1,))]
    else:
        out += [A("sum", [A("sum", [gw], "A", (2,))], "R", (0,)), A("sum", [("dir", idf("A", "w"), 2)], "R", (1,)),
                A("sum", [("dir", A("count", [gi], "R", (1,)), 1)], "R", (0, 2))]
    return out


GROUPS = {"flat": lambda: flat(), "timed": lambda: timed(), "stacked": stacked, "deepflat": lambda: flat("G", (0, 1)),
          "deeptimed": lambda: timed("G", (0, 1)),
          "diamond": lambda: two_paths("diamond"), "double": lambda: two_paths("double"), "direct": lambda: two_paths("direct"), "under": lambda: two_paths("under"), "over": lambda: two_paths("over")}

BLOCK = 300


def scen2(n, ticks=(0, 1, 2), vals=(None, 0, 1)):
    syms = [(t, v) for t in ticks for v in vals]
    return [(0, list(s)) for s in spaces.seqs(syms, 0, n)]


def scen3(nc, ng, ticks):
    gs = [(t, v) for t in ticks for v in (1, )]
    g_lists = [list(s) for s in spaces.seqs(gs, 0, ng)]
    kids = [(t, 1, g) for t in ticks for g in g_lists]
    return [(0, list(s)) for s in spaces.seqs(kids, 0, nc)]


def multi(n, ticks):
    syms = [(p, q, t) for t in ticks for p in (0, 1, None) for q in (0, 1, None)]
    return list(spaces.seqs(syms, 0, n))


SP = {}


def space(name, tier):
    if (name, tier) not in SP:
        th = tier == "thorough"
        SP[name, tier] = {
            "two": lambda: scen2(4 if th else 3),
            "two_null": lambda: scen2(3 if th else 2, ticks=(None, 0, 1), vals=(None, 1)),
            "three": lambda: scen3(2, 2, (0, 1, 2) if th else (0, 1)),
            "three_null": lambda: scen3(2, 2 if th else 1, (None, 0, 1)),
            "multi": lambda: multi(3 if th else 2, (0, 1)),
            "multi1": lambda: multi(2, (0,)),
        }[name]()
    return SP[name, tier]


def make(case, tier):
    sc = space(case["space"], tier)[case["from"]:case["from"] + case["n"]]
    o = case.get("opt", {})
    if case["kind"] == "tree":
        return spaces.tree_world(sc, depth=case["depth"], **o)
    return spaces.multi_world(sc, case["kind"], **o)


class P02(Check):
    id = "P02"
    rule = ("exhaustive enumeration of child-row sequences (time x value alphabets) per root over 2- and 3-level chains, a diamond, "
            "a double relationship and a direct-plus-indirect schema, packed many roots per entity set and also solo, x row orders x "
            "id types (text, integer, categorical) x time kinds x include_cutoff_time; every cell compared with the reference evaluator. Non-trivial: a distinct "
            "(world, instance, cutoff) with at least one feature value that is neither missing nor the default")
    assumptions = ("values, times and ids come from small alphabets; worlds have at most 4 child rows per root",
                   "ties in mode and n-most-common order are outside this check (P28 covers the primitives)")

    def cases(self, tier):
        th = tier == "thorough"
        big = []
        for space_, depth, groups, opts in [
            ("two", 2, ["flat", "timed"], [{}, {"order": "mix", "idk": "int"}, {"ti": []}, {"time_kind": "num"}, {"ti": ["R", "C"], "order": "desc"}, {"idk": "cat", "order": "mix"}]),
            ("two_null", 2, ["flat", "timed"], [{}, {"order": "desc"}]),
            ("three", 3, ["stacked", "deepflat", "deeptimed"], [{}, {"order": "mix", "idk": "int"}, {"ti": ["G"]}, {"ti": ["C"]}, {"ti": [], "order": "desc"}, {"ti": ["R", "C", "G"]}, {"idk": "cat"}]),
            ("three_null", 3, ["stacked", "deepflat"], [{}, {"order": "desc"}]),
        ]:
            n = len(space(space_, tier))
            for o in opts:
                for g in groups:
                    child = "G" if g.startswith("deep") else "C"
                    if g.endswith("timed") and (o.get("time_kind") == "num" or child not in o.get("ti", ("C", "G"))):
                        continue
                    for incl in (True, False):
                        for lo in range(0, n, BLOCK):
                            big.append({"kind": "tree", "space": space_, "depth": depth, "from": lo, "n": BLOCK, "opt": o, "group": g, "incl": incl})
        for shape in ("diamond", "double", "direct", "under", "over"):
            n = len(space("multi", tier))
            for o in ({}, {"order": "mix"}, {"ti": ["R", "A", "B", "G"], "order": "desc"}, {"ti": []}):
                for incl in (True, False):
                    for lo in range(0, n, BLOCK):
                        big.append({"kind": shape, "space": "multi", "from": lo, "n": BLOCK, "opt": o, "group": shape, "incl": incl})
        # solo worlds: nothing else in the tables, so empty frames and single groups are reached
        solo = []
        for space_, depth, groups in [("two_null", 2, ["flat", "timed"]), ("three_null", 3, ["stacked", "deepflat"])]:
            n = len(space(space_, tier))
            for i in range(n):
                for g in groups:
                    for incl in ((True, False) if th else (True,)):
                        solo.append({"kind": "tree", "space": space_, "depth": depth, "from": i, "n": 1, "opt": {"dangling": False}, "group": g, "incl": incl})
        for shape in ("diamond", "double", "direct", "under", "over"):
            for i in range(len(space("multi1", tier))):
                solo.append({"kind": shape, "space": "multi1", "from": i, "n": 1, "opt": {}, "group": shape, "incl": True})
        seen_big = sorted(big, key=lambda c: c["from"])
        return itertools.chain(interleave(seen_big, solo))

    def run(self, case, st):
        tier = case.get("tier") or self.tier
        case["tier"] = tier
        w = make(case, tier)
        trees = GROUPS[case["group"]]()
        ids = [r["id"] for r in w.tables["R"].rows]
        unknown = 777777 if case.get("opt", {}).get("idk") == "int" else "nobody"
        if case["n"] > 1:
            rows = [(i, t) for n, i in enumerate(ids) for t in ((0, 1, 2, 3) if n % 2 else (2, 0))]
            rows += [(unknown, 1)]
        else:
            rows = [(i, t) for t in (0, 2) for i in ids]
            if any(t is None for t in (0,)) is False:
                rows += [(unknown, 0), (ids[0], -1)]
        st.add("worlds")
        st.sample({k: case[k] for k in ("kind", "space", "from", "n", "group", "incl")})
        tag = repr(sorted((k, repr(v)) for k, v in case.items() if k != "tier"))
        return calc.check_calc(w, trees, rows, st, incl=case["incl"], label=tag)

    def prepare(self, tier):
        self.tier = tier

    def finish(self, tier, counts, sets):
        bad = []
        if len(sets.get("nontrivial", ())) < 2000:
            bad.append("only %d non-trivial rows" % len(sets.get("nontrivial", ())))
        return {}, bad


def interleave(a, b):
    """both sequences advance together, in proportion"""
    a, b = list(a), list(b)
    out, i, j = [], 0, 0
    while i < len(a) or j < len(b):
        if j >= len(b) or (i < len(a) and i * len(b) <= j * len(a)):
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    return out


CHECK = P02()

"""P04: direct, transform, group-by features and their stackings against the reference evaluator."""
import itertools

from .. import calc, model, spaces
from ..core import Check, Problem
from .p02 import A, idf, interleave, scen2, scen3, multi


def T(p, *bases):
    return ("tr", p, list(bases))


def GB(p, bases, by):
    return ("gb", p, list(bases), by)


def D(base, rel):
    return ("dir", base, rel)


def on_c():
    """features of C in R <- C"""
    x, w, y, c, f, t, d, i, rid = (idf("C", n) for n in ("x", "w", "y", "c", "f", "t", "d", "id", "r_id"))
    cnt, sm = A("count", [i]), A("sum", [w])
    out = [x, c, T("negate", x), T("absolute", y), T("is_null", x), T("add", x, w), T("sub", w, x), T("mul", x, y), T("div", w, y),
           T("gt", x, y), T("gt_s:value=0", x), T("not", f), T("and", f, T("gt_s:value=0", x)), T("or", f, T("is_null", x)), T("add_s:value=3", x),
           D(idf("R", "x"), 0), D(idf("R", "c"), 0), D(cnt, 0), D(sm, 0), D(A("minmax", [x]), 0), ("slice", D(A("minmax", [x]), 0), 1),
           D(("slice", A("minmax", [w]), 0), 0), D(T("negate", idf("R", "x")), 0), D(T("cum_sum", idf("R", "w")), 0),
           T("add", x, D(idf("R", "w"), 0)), T("div", w, D(sm, 0)), T("negate", D(cnt, 0)),
           T("cum_sum", x), T("cum_min", x), T("cum_max", w), T("cum_count", c), T("cum_mean", w), T("diff", x), T("percentile", y), T("pair", x),
           T("cumpair", w), ("slice", T("pair", w), 0), ("slice", T("cumpair", x), 1), T("negate", ("slice", T("cumpair", w), 0)),
           T("cum_sum", T("negate", w)), T("negate", T("cum_sum", w)), T("cum_sum", T("cum_sum", w)), T("diff", D(cnt, 0)), T("cum_sum", D(idf("R", "w"), 0)),
           GB("cum_sum", [w], rid), GB("cum_sum", [x], c), GB("cum_max", [w], c), GB("cum_count", [c], rid), GB("diff", [w], rid), GB("percentile", [w], rid),
           GB("cum_mean", [w], c), GB("cumpair", [w], rid), ("slice", GB("cumpair", [w], c), 1), GB("negate", [x], c),
           GB("cum_sum", [D(idf("R", "w"), 0)], c), GB("cum_sum", [T("negate", w)], rid), T("negate", GB("cum_sum", [w], rid)),
           GB("cum_sum", [GB("cum_sum", [w], rid)], c), GB("cum_sum", [w], D(idf("R", "c"), 0)),
           D(A("sum", [GB("cum_sum", [w], rid)]), 0), D(A("last", [T("cum_sum", w)]), 0), ("named", T("add", x, w), "my name")]
    return out


def timed_c():
    x, w, t, d, rid, c = (idf("C", n) for n in ("x", "w", "t", "d", "r_id", "c"))
    return [T("since_prev", t), T("time_since", d), T("hour", d), T("day", t), T("weekday", d), GB("since_prev", [t], rid), GB("time_since", [d], rid), GB("time_since:unit=hours", [t], c), T("negate", T("since_prev", t)),
            D(A("max", [T("since_prev", t)]), 0), T("time_since", t), D(A("since_last", [t]), 0), T("time_since:unit=hours", d)]


def on_g():
    """features of G in R <- C <- G"""
    gx, gw, cid, gc = idf("G", "x"), idf("G", "w"), idf("G", "c_id"), idf("G", "c")
    cx, cw = idf("C", "x"), idf("C", "w")
    gcount = A("count", [idf("G", "id")], "C", (1,))
    rcount = A("count", [idf("G", "id")], "R", (0, 1))
    rc = A("sum", [cw])
    return [gx, D(cx, 1), D(D(idf("R", "w"), 0), 1), D(D(rcount, 0), 1), D(D(rc, 0), 1), D(gcount, 1), D(T("add", cw, gcount), 1), T("add", gw, D(gcount, 1)),
            T("div", gw, D(A("sum", [gw], "C", (1,)), 1)), D(T("cum_sum", cw), 1), D(GB("cum_sum", [cw], idf("C", "r_id")), 1), D(T("sub", cw, D(idf("R", "w"), 0)), 1),
            T("cum_sum", gw), GB("cum_sum", [gw], cid), GB("cum_count", [gc], D(idf("C", "c"), 1)), GB("cum_sum", [D(cw, 1)], cid), T("cum_sum", D(D(rc, 0), 1)),
            D(D(A("sum", [T("cum_sum", gw)], "R", (0, 1)), 0), 1), D(A("minmax", [gw], "C", (1,)), 1), ("slice", D(A("minmax", [gw], "C", (1,)), 1), 0),
            D(("slice", T("cumpair", cw), 1), 1), D(A("mean", [GB("cum_sum", [gw], cid)], "C", (1,)), 1), T("is_null", D(D(idf("R", "x"), 0), 1)),
            GB("cum_sum", [T("negate", D(cx, 1))], gc)]


def on_c3():
    """features of the middle entity, and of R, in R <- C <- G"""
    gw = idf("G", "w")
    cx, cw, rid = idf("C", "x"), idf("C", "w"), idf("C", "r_id")
    gs, gn = A("sum", [gw], "C", (1,)), A("count", [idf("G", "id")], "C", (1,))
    return [T("add", cw, gs), T("cum_sum", gs), GB("cum_sum", [gs], rid), GB("cum_max", [gn], idf("C", "c")), T("diff", gn), T("percentile", gs),
            T("negate", A("last", [gw], "C", (1,))), D(A("max", [gs]), 0), T("div", gs, D(A("sum", [gs]), 0)), T("cum_sum", D(A("sum", [gw], "R", (0, 1)), 0)),
            T("gt", gs, D(A("mean", [gs]), 0)), T("pair", gs), ("slice", T("pair", ("slice", A("minmax", [gw], "C", (1,)), 1)), 0),
            GB("cumpair", [gn], rid), T("cum_count", idf("C", "c")), D(T("negate", A("sum", [T("cum_sum", gs)])), 0)]


def on_r():
    w, i = idf("C", "w"), idf("C", "id")
    rw, rc = idf("R", "w"), idf("R", "c")
    s, n = A("sum", [w]), A("count", [i])
    return [T("add", rw, s), T("div", s, n), T("cum_sum", s), GB("cum_sum", [s], rc), T("cum_sum", rw), T("negate", T("cum_max", n)), T("percentile", n),
            T("gt", s, n), T("gt_s:value=1", n), T("cumpair", n), T("diff", s), T("is_null", A("mean", [idf("C", "x")])), T("not", T("gt_s:value=0", n)),
            T("add", A("min", [idf("C", "x")]), A("max", [idf("C", "x")])), GB("diff", [n], rc), ("slice", GB("cumpair", [s], rc), 0)]


def paths(shape):
    g = lambda n: idf("G", n)   # noqa
    if shape == "double":
        s0, s1 = A("sum", [g("w")], "R", (0,)), A("sum", [g("w")], "R", (1,))
        return [D(idf("R", "w"), 0), D(idf("R", "w"), 1), D(s0, 0), D(s0, 1), D(s1, 0), D(s1, 1), T("sub", D(idf("R", "w"), 0), D(idf("R", "w"), 1)),
                T("sub", D(s0, 0), D(s1, 1)), GB("cum_sum", [g("w")], g("p_id")), GB("cum_sum", [g("w")], g("q_id")), GB("cum_sum", [D(s0, 1)], g("p_id"))]
    if shape == "diamond":
        sa, sb = A("sum", [g("w")], "A", (2,)), A("sum", [g("w")], "B", (3,))
        r1, r2 = A("sum", [g("w")], "R", (0, 2)), A("sum", [g("w")], "R", (1, 3))
        return [D(idf("A", "w"), 2), D(idf("B", "w"), 3), D(D(idf("R", "w"), 0), 2), D(D(idf("R", "w"), 1), 3), D(sa, 2), D(sb, 3), D(D(r1, 0), 2), D(D(r2, 0), 2),
                D(D(r1, 1), 3), D(D(r2, 1), 3), T("sub", D(sa, 2), D(sb, 3)), D(T("add", sa, idf("A", "w")), 2), D(D(A("count", [idf("A", "id")], "R", (0,)), 1), 3)]
    if shape == "under":
        s1, s2, r1, r2 = A("sum", [g("w")], "A", (1,)), A("sum", [g("w")], "A", (2,)), A("sum", [g("w")], "R", (0, 1)), A("count", [g("id")], "R", (0, 2))
        return [D(idf("A", "w"), 1), D(idf("A", "w"), 2), D(s1, 2), D(s2, 1), D(D(r1, 0), 1), D(D(r2, 0), 1), D(D(r1, 0), 2), D(D(idf("R", "c"), 0), 2), T("sub", D(s1, 1), D(s1, 2)), D(T("add", s1, s2), 2), GB("cum_sum", [g("w")], D(idf("A", "c"), 2))]
    if shape == "over":
        s1, r1, r2 = A("sum", [g("w")], "A", (2,)), A("sum", [g("w")], "R", (0, 2)), A("sum", [g("w")], "R", (1, 2))
        return [D(s1, 2), D(D(idf("R", "w"), 0), 2), D(D(idf("R", "w"), 1), 2), D(D(r1, 1), 2), D(D(r2, 0), 2), D(D(r2, 1), 2), T("sub", D(D(idf("R", "w"), 0), 2), D(D(idf("R", "w"), 1), 2)), D(T("sub", D(r1, 0), D(r1, 1)), 2)]
    sa = A("sum", [g("w")], "A", (2,))
    sr = A("sum", [g("w")], "R", (1,))
    s2 = A("sum", [g("w")], "R", (0, 2))
    return [D(idf("R", "w"), 1), D(D(idf("R", "w"), 0), 2), D(sr, 1), D(s2, 1), D(D(sr, 0), 2), D(D(s2, 0), 2), D(sa, 2), T("sub", D(sr, 1), D(D(s2, 0), 2))]


def top(trees):
    """a slice is an input for other features, not a requested feature: wrap requested slices in a transform"""
    return [T("negate", t) if t[0] == "slice" else t for t in trees]


GROUPS = {"c": ("C", 2, on_c), "ct": ("C", 2, timed_c), "g": ("G", 3, on_g), "c3": ("C", 3, on_c3), "r": ("R", 2, on_r),
          "double": ("G", 0, lambda: paths("double")), "diamond": ("G", 0, lambda: paths("diamond")), "direct": ("G", 0, lambda: paths("direct")), "under": ("G", 0, lambda: paths("under")), "over": ("G", 0, lambda: paths("over"))}
SP = {}


def space(name, th):
    if (name, th) not in SP:
        SP[name, th] = {"two": lambda: [(i % 3, s[1]) for i, s in enumerate(scen2(4 if th else 3, ticks=(0, 1, 2), vals=(None, 0, 1) if not th else (0, 1)))],
                        "solo2": lambda: scen2(2, ticks=(0, 1), vals=(None, 1)),
                        "solo3": lambda: scen3(2, 1, (0, 1)),
                        "three": lambda: [(i % 2, s[1]) for i, s in enumerate(scen3(2, 2, (0, 1, 2) if th else (0, 1)))],
                        "multi": lambda: multi(3 if th else 2, (0, 1)),
                        "multi1": lambda: multi(2, (0,))}[name]()
    return SP[name, th]


class P04(Check):
    id = "P04"
    rule = ("exhaustive relational worlds (as in P02, plus rows without or with dangling parents) x direct / transform / whole-entity / group-by "
            "features and their stackings (two levels on each other and on aggregations, multi-output and slices) on every entity of the "
            "schema, whole group in one call, every feature alone, and for requests of all instances, single ones and every third one; "
            "each cell compared with the reference evaluator. Non-trivial: distinct (world, request, instance, cutoff) with a non-default value")
    assumptions = ("alphabets of 3 times and 3 values; at most 4 rows per root",)

    def prepare(self, tier):
        self.th = tier == "thorough"

    def cases(self, tier):
        th = self.th
        big = []
        for sp, gs, opts in [("two", ["c", "ct", "r"], [{}, {"order": "mix"}, {"order": "desc", "idk": "int"}, {"ti": []}, {"ti": ["R", "C"]}, {"idk": "cat", "order": "mix"}]),
                             ("three", ["g", "c3"], [{}, {"order": "mix"}, {"ti": ["R", "C", "G"]}, {"ti": ["C"]}, {"idk": "int", "ti": []}, {"idk": "cat"}])]:
            n = len(space(sp, th))
            for o in opts:
                for g in gs:
                    if g == "ct" and "C" not in o.get("ti", ("C", "G")):
                        continue
                    for lo in range(0, n, 120):
                        for req in ("all", "third"):
                            big.append({"sp": sp, "from": lo, "n": 120, "g": g, "opt": o, "req": req, "incl": (lo // 120) % 2 == 0, "sel": None})
        for sh in ("double", "diamond", "direct", "under", "over"):
            n = len(space("multi", th))
            for o in ({}, {"order": "mix"}, {"ti": ["R", "A", "B", "G"]}, {"ti": []}):
                for lo in range(0, n, 120):
                    for req in ("all", "third"):
                        big.append({"sp": "multi", "from": lo, "n": 120, "g": sh, "opt": o, "req": req, "incl": True, "sel": None})
        solo = []
        for g in ("c", "ct", "r", "g", "c3"):
            sp = "solo2" if GROUPS[g][1] == 2 else "solo3"
            n = len(space(sp, th))
            for i in range(n):
                for o in ({"dangling": False}, {"dangling": True}):
                    solo.append({"sp": sp, "from": i, "n": 1, "g": g, "opt": o, "req": "each", "incl": True, "sel": None})
            for k in range(len(GROUPS[g][2]())):
                solo.append({"sp": sp, "from": 0, "n": 40, "g": g, "opt": {"order": "mix"}, "req": "third", "incl": True, "sel": [k]})
                solo.append({"sp": sp, "from": 3 + k % 5, "n": 1, "g": g, "opt": {}, "req": "each", "incl": True, "sel": [k]})
                for j in range(len(GROUPS[g][2]())) if th or g in ("ct", "c3", "r") else ():
                    if j != k:
                        solo.append({"sp": sp, "from": 0, "n": 12, "g": g, "opt": {"order": "mix"}, "req": "third", "incl": True, "sel": [k, j]})
        for sh in ("double", "diamond", "direct", "under", "over"):
            for i in range(len(space("multi1", th))):
                solo.append({"sp": "multi1", "from": i, "n": 1, "g": sh, "opt": {}, "req": "each", "incl": True, "sel": None})
        return interleave(sorted(big, key=lambda c: c["from"]), solo)

    def run(self, case, st):
        target, depth, fn = GROUPS[case["g"]]
        sc = space(case["sp"], self.th)[case["from"]:case["from"] + case["n"]]
        if depth:
            w = spaces.tree_world(sc, depth=depth, **case["opt"])
        else:
            w = spaces.multi_world(sc, case["g"], **case["opt"])
        trees = top(fn())
        if case["sel"] is not None:
            trees = [trees[i] for i in case["sel"]]
        ids = [r["id"] for r in w.tables[target].rows]
        tag = "%s/%s+%d/%s/%s/%s/%s" % (case["g"], case["sp"], case["from"], sorted(case["opt"].items()), case["req"], case["incl"], case["sel"])
        st.sample(tag)
        unknown = 777777 if case["opt"].get("idk") == "int" else "nobody"
        if case["req"] == "each":
            reqs = [[(i, t)] for i in ids[:3] for t in (0, 2)] + [[(i, 1) for i in ids], [(unknown, 1)]]
            if not ids:
                reqs = [[(unknown, 1)]]
        elif case["req"] == "third":
            reqs = [[(i, 1 + n % 2) for n, i in enumerate(ids) if n % 3 == 1]]
        else:
            reqs = [[(i, t) for i in ids for t in (0, 1, 3)] + [(unknown, 2)]]
        out = []
        es = model.to_es(w)
        feats = model.to_features(es, w, trees)
        for rows in reqs:
            if rows:
                st.add("calls")
                out += calc.check_calc(w, trees, rows, st, es=es, feats=feats, incl=case["incl"], label=tag)
        return out[:3]

    def finish(self, tier, counts, sets):
        n = len(sets.get("nontrivial", ()))
        return {}, ([] if n > 2000 else ["only %d non-trivial rows" % n])


CHECK = P04()

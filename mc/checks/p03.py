"""P03: where / use_previous against the reference evaluator, every pair of features calculated together."""
import itertools

from .. import calc, model, spaces
from ..core import Check, Problem
from .p02 import A, idf, interleave, scen2, scen3

EQ_A = ("tr", "eq_s:value=a", [idf("C", "c")])
EQ_B = ("tr", "eq_s:value=b", [idf("C", "c")])
GT0 = ("tr", "gt_s:value=0", [idf("C", "x")])
NE = ("tr", "ne_s:value=1", [idf("C", "x")])
FLAG = idf("C", "f")
NOT = ("tr", "not", [idf("C", "f")])
AND = ("tr", "and", [("tr", "gt_s:value=0", [idf("C", "x")]), idf("C", "f")])
DIRW = ("tr", "gt_s:value=0", [("dir", idf("R", "x"), 0)])
AGGW = ("tr", "gt_s:value=0", [("dir", A("count", [idf("C", "id")]), 0)])
FULLW = ("tr", "gt_s:value=1", [("tr", "cum_count", [idf("C", "c")])])
WHERES = [EQ_A, EQ_B, GT0, NE, FLAG, NOT, AND, DIRW]
UPS = [("t", [(1, "h")]), ("t", [(2, "h")]), ("t", [(30, "m")]), ("o", 1), ("o", 2), ("t", [(1, "h"), (30, "m")]), ("t", [(1, "d")]),
       ("t", [(1, "h"), (1, "m")])]


def features():
    x, w, c, i, t = (idf("C", n) for n in ("x", "w", "c", "id", "t"))
    out = [A("sum", [w]), A("count", [i])]
    for wh in WHERES:
        out.append(A("sum", [w], where=wh))
    out += [A("count", [i], where=EQ_A), A("last", [x], where=GT0), A("max", [x], where=FLAG), A("mode", [c], where=FLAG),
            A("minmax", [w], where=EQ_B), A("trend", [w, t], where=FLAG), A("sum", [x], where=EQ_A), A("mean", [x], where=NE)]
    for up in UPS:
        out.append(A("sum", [w], up=up))
    out += [A("count", [i], up=("t", [(1, "h")])), A("last", [w], up=("t", [(1, "h")])), A("last", [c], up=("o", 1)), A("minmax", [w], up=("o", 2)),
            A("minmax", [w], up=("t", [(1, "h")])), A("mean", [x], up=("o", 2)), A("sum", [w], where=FLAG, up=("t", [(1, "h")])),
            A("sum", [w], where=EQ_A, up=("o", 1)), A("last", [w], where=GT0, up=("o", 2)), A("count", [i], where=GT0, up=("o", 1)),
            A("since_last", [t], up=("o", 2)), A("avg_time", [t], up=("o", 2)), A("sum", [w], where=AGGW), A("sum", [w], where=FULLW),
            A("std", [w]), ("named", A("std", [w]), "std again"), ("named", A("count", [i]), "count again"), ("named", A("sum", [w], where=EQ_A), "sum again"),
            ("named", A("last", [x], where=GT0), "last again"), ("named", A("minmax", [w], up=("o", 2)), "minmax again")]
    return out


def deep_features():
    gw, gi, gx = idf("G", "w"), idf("G", "id"), idf("G", "x")
    gf = idf("G", "f")
    gd = ("tr", "gt_s:value=0", [("dir", idf("C", "x"), 1)])
    cw = ("tr", "gt_s:value=0", [A("count", [gi], "C", (1,))])
    p = dict(entity="R", path=(0, 1))
    q = dict(entity="C", path=(1,))
    return [A("sum", [gw], where=gf, **p), A("sum", [gw], where=gd, **p), A("sum", [gw], up=("t", [(1, "h")]), **p), A("sum", [gw], up=("o", 1), **p),
            A("last", [gw], up=("o", 2), **p), A("sum", [gw], where=gf, up=("o", 1), **p),
            A("sum", [idf("C", "w")], where=cw), A("sum", [A("sum", [gw], where=gf, **q)]), A("sum", [A("sum", [gw], up=("t", [(1, "h")]), **q)]),
            A("max", [A("count", [gi], up=("o", 1), **q)], where=idf("C", "f")), A("sum", [A("sum", [gw], **q)], where=cw, up=("t", [(1, "h")])),
            A("sum", [A("sum", [gw], where=gf, up=("o", 1), **q)], up=("o", 1)), A("count", [gi], where=gf, **p)]


def boolean_missing():
    b = idf("C", "b")
    x, w = idf("C", "x"), idf("C", "w")
    return [A("sum", [w], where=b), A("count", [idf("C", "id")], where=b), A("sum", [w], where=b, up=("o", 1)), A("last", [w], where=b)]


GROUPS = {"flat": features, "deep": deep_features, "bmiss": boolean_missing}
SP = {}


def space(name, th):
    if (name, th) not in SP:
        SP[name, th] = {"two": lambda: scen2(4 if th else 3, ticks=(0, 1, 2), vals=(None, 0, 1)) if not th else scen2(4, ticks=(0, 1, 2), vals=(0, 1)),
                        "time": lambda: scen2(4, ticks=(0, 1, 2, 3) if th else (0, 1, 2), vals=(1,)),
                        "small": lambda: scen2(2, ticks=(0, 1, 2), vals=(0, 1)),
                        "solo": lambda: scen2(2, ticks=(0, 2), vals=(None, 1)),
                        "three": lambda: scen3(2, 2, (0, 1)) if not th else scen3(2, 2, (0, 1, 2))}[name]()
    return SP[name, th]


class P03(Check):
    id = "P03"
    rule = ("exhaustive child-row sequences x where conditions (on own, transformed, direct and aggregated values) x spans and last-n limits x "
            "their combinations, all features in one call, every single feature alone, every ordered pair of features in one call, and every solo "
            "root; every cell compared with the reference evaluator. Non-trivial: distinct (world, request, instance, cutoff) with a non-default value")
    assumptions = ("alphabets of 3 times and 3 values, at most 4 child rows per root",)

    def prepare(self, tier):
        self.th = tier == "thorough"
        self.n = len(features())

    def cases(self, tier):
        th = tier == "thorough"
        big = []
        for sp, g, opts in [("two", "flat", [{}, {"order": "mix"}]), ("time", "flat", [{"tick": 1800}, {"tick": 1800, "order": "desc"}, {"tick": 60}]),
                            ("three", "deep", [{}, {"order": "mix", "idk": "int"}]), ("two", "bmiss", [{"bool_missing": True}])]:
            for o in opts:
                for incl in (True, False):
                    n = len(space(sp, th))
                    for lo in range(0, n, 300):
                        big.append({"sp": sp, "from": lo, "n": 300, "g": g, "opt": o, "incl": incl, "sel": None})
        pairs = []
        for sel in itertools.chain(((i,) for i in range(self.n)), itertools.permutations(range(self.n), 2)):
            pairs.append({"sp": "small", "from": 0, "n": 100, "g": "flat", "opt": {"tick": 1800 if (sum(sel) % 2) else 3600}, "incl": True, "sel": list(sel)})
        if th:
            for sel in itertools.combinations(range(self.n), 3):
                pairs.append({"sp": "solo", "from": 0, "n": 100, "g": "flat", "opt": {"tick": 1800}, "incl": True, "sel": list(sel)})
        nd = len(deep_features())
        for sel in itertools.permutations(range(nd), 2):
            pairs.append({"sp": "three", "from": 0 if not th else 7, "n": 60, "g": "deep", "opt": {}, "incl": True, "sel": list(sel)})
        solo = []
        for i in range(len(space("solo", th))):
            for k in range(self.n):
                solo.append({"sp": "solo", "from": i, "n": 1, "g": "flat", "opt": {"dangling": False}, "incl": True, "sel": [k]})
            solo.append({"sp": "solo", "from": i, "n": 1, "g": "bmiss", "opt": {"dangling": False, "bool_missing": True}, "incl": True, "sel": None})
        return interleave(sorted(big, key=lambda c: c["from"]), interleave(pairs, solo))

    def run(self, case, st):
        sc = space(case["sp"], self.th)[case["from"]:case["from"] + case["n"]]
        w = spaces.tree_world(sc, depth=3 if case["g"] == "deep" else 2, **case["opt"])
        trees = GROUPS[case["g"]]()
        if case["sel"] is not None:
            trees = [trees[i] for i in case["sel"]]
        ids = [r["id"] for r in w.tables["R"].rows]
        if case["n"] == 1:
            rows = [(i, t) for t in (0, 2, 9) for i in ids]
        elif case["sel"] is not None:
            rows = [(i, 2 + n % 3) for n, i in enumerate(ids)]
        else:
            rows = [(i, t) for n, i in enumerate(ids) for t in ((1, 2, 3) if n % 2 else (2, 4))]
        tag = "%s/%s+%d/%s/%s/%s" % (case["g"], case["sp"], case["from"], sorted(case["opt"].items()), case["incl"], case["sel"])
        st.sample(tag)
        st.add("calls")
        return calc.check_calc(w, trees, rows, st, incl=case["incl"], label=tag)

    def finish(self, tier, counts, sets):
        n = len(sets.get("nontrivial", ()))
        return {}, ([] if n > 2000 else ["only %d non-trivial rows" % n])


CHECK = P03()

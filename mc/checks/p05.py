"""P05: training windows against the reference evaluator."""
from .. import calc, model, spaces
from ..core import Check
from .p02 import A, idf, interleave
from .p04 import D, T, GB


def feats(target, depth):
    w, i, x, c = (idf("C", n) for n in ("w", "id", "x", "c"))
    cnt, sm = A("count", [i]), A("sum", [w])
    if target == "R":
        out = [cnt, sm, A("last", [w]), A("min", [w]), A("minmax", [w]), idf("R", "w"), T("negate", sm), T("cum_sum", idf("R", "w")), T("cum_sum", sm),
               GB("cum_sum", [cnt], idf("R", "c")), A("sum", [T("cum_sum", w)]), A("sum", [w], where=idf("C", "f")),
               A("sum", [w], up=("o", 1)), A("sum", [w], up=("t", [(1, "h")]))]
        if depth == 3:
            gw = idf("G", "w")
            out += [A("sum", [gw], "R", (0, 1)), A("sum", [A("sum", [gw], "C", (1,))]), A("count", [idf("G", "id")], "R", (0, 1)),
                    A("last", [gw], "R", (0, 1)), A("sum", [D(w, 1)], "R", (0, 1))]
        return out
    if target == "C":
        out = [w, x, D(idf("R", "w"), 0), D(cnt, 0), D(sm, 0), T("add", w, D(sm, 0)), T("cum_sum", w), GB("cum_count", [c], idf("C", "r_id"))]
        if depth == 3:
            gw = idf("G", "w")
            out += [A("sum", [gw], "C", (1,)), A("count", [idf("G", "id")], "C", (1,)), D(A("sum", [gw], "R", (0, 1)), 0), T("cum_sum", A("sum", [gw], "C", (1,)))]
        return out
    gw = idf("G", "w")
    return [gw, D(w, 1), D(D(idf("R", "w"), 0), 1), D(A("sum", [gw], "C", (1,)), 1), D(D(A("sum", [gw], "R", (0, 1)), 0), 1), T("cum_sum", gw)]


def two(nmax, rts, ticks):
    kids = [(t, 1) for t in ticks]
    return [(rt, list(s)) for rt in rts for s in spaces.seqs(kids, 0, nmax)]


def three(rts, cts, gts, nc, ng):
    gl = [list(s) for s in spaces.seqs([(t, 1) for t in gts], 0, ng)]
    kids = [(t, 1, g) for t in cts for g in gl]
    return [(rt, list(s)) for rt in rts for s in spaces.seqs(kids, 0, nc)]


SP = {}


def space(name, th):
    if (name, th) not in SP:
        SP[name, th] = {"two": lambda: two(4 if th else 3, (None, 0, 1, 2, 3), (None, 0, 1, 2, 3)),
                        "three": lambda: three((0, 2), (0, 1, 3), (None, 0, 2, 4), 2 if th else 1, 2) + three((0, 3), (0, 2), (1, 3), 2, 1),
                        "solo": lambda: two(2, (None, 1), (0, 2)) + three((0, 2), (1,), (0, 3), 1, 1)}[name]()
    return SP[name, th]


class P05(Check):
    id = "P05"
    rule = ("exhaustive times of root, child and grandchild rows (including missing) x windows of 1..4 ticks and a fraction of a tick x cutoffs x "
            "include_cutoff_time x with and without last time indexes x which entities have a time index x every target entity; each cell "
            "compared with the reference evaluator. Non-trivial: distinct (world, window, instance, cutoff) with a non-default value")
    assumptions = ("times from 5 ticks, at most 4 children or 2x2 grandchildren per root", "windows in hours and minutes; calendar windows are P26's")

    def prepare(self, tier):
        self.th = tier == "thorough"

    def cases(self, tier):
        big, solo = [], []
        for sp, depth, tis in [("two", 2, [["C"], ["R", "C"], ["R"], []]), ("three", 3, [["C", "G"], ["R", "C", "G"], ["G"], ["C"], ["R", "G"]])]:
            n = len(space(sp, self.th))
            for lo in range(0, n, 250):
                for ti in tis:
                    for lti in (True, False):
                        for win in (1, 2, 3, 1.5, 4):
                            for incl in (True, False):
                                for target in ("R", "C", "G")[:depth]:
                                    if not self.th and win in (3, 4) and target != "R":
                                        continue
                                    big.append({"sp": sp, "depth": depth, "from": lo, "n": 250, "ti": ti, "lti": lti, "win": win, "incl": incl, "target": target})
        for i in range(len(space("solo", self.th))):
            for lti in (True, False):
                for win in (1, 2):
                    for incl in (True, False):
                        for target in ("R", "C"):
                            solo.append({"sp": "solo", "depth": 3, "from": i, "n": 1, "ti": ["R", "C", "G"] if i % 2 else ["C", "G"], "lti": lti,
                                         "win": win, "incl": incl, "target": target})
        return interleave(sorted(big, key=lambda c: c["from"]), solo)

    def run(self, case, st):
        sc = space(case["sp"], self.th)[case["from"]:case["from"] + case["n"]]
        w = spaces.tree_world(sc, depth=case["depth"], ti=case["ti"], dangling=case["n"] > 1, order="mix" if case["from"] % 500 else "asc")
        trees = feats(case["target"], case["depth"])
        if "C" not in case["ti"]:
            trees = [t for t in trees if not (t[0] == "agg" and t[6])]
        ids = [r["id"] for r in w.tables[case["target"]].rows]
        if case["n"] == 1:
            rows = [(i, t) for i in ids for t in (0, 2, 4)]
        else:
            rows = [(i, t) for n, i in enumerate(ids) for t in ((1, 3) if n % 2 else (2, 4))]
        if not rows:
            return []
        tag = "%(sp)s+%(from)d/ti%(ti)s/lti=%(lti)s/win%(win)s/incl%(incl)s/%(target)s" % case
        st.sample(tag)
        st.add("calls")
        return calc.check_calc(w, trees, rows, st, window=case["win"], incl=case["incl"], lti=case["lti"], label=tag)

    def finish(self, tier, counts, sets):
        n = len(sets.get("nontrivial", ()))
        return {}, ([] if n > 2000 else ["only %d non-trivial rows" % n])


CHECK = P05()

"""P06: secondary time indexes against the reference evaluator."""
from .. import calc, model, spaces
from ..core import Check, Problem
from .p02 import A, idf, interleave
from .p04 import D, T, GB


def feats(target):
    w, i, x, c, y, f, d = (idf("C", n) for n in ("w", "id", "x", "c", "y", "f", "d"))
    if target == "R":
        return [A("count", [i]), A("sum", [x]), A("sum", [w]), A("last", [x]), A("last", [c]), A("mean", [x]), A("mode", [c]), A("num_unique", [c]),
                A("minmax", [x]), A("num_true", [f]), A("percent_true", [f]), A("count", [i], where=T("eq_s:value=a", c)), A("sum", [w], where=T("gt_s:value=0", x)),
                A("sum", [w], where=f), A("sum", [x], where=T("is_null", c)), A("sum", [T("is_null", x)]) if False else A("num_true", [T("is_null", x)]),
                A("sum", [T("cum_sum", x)]), A("max", [d]) if False else A("sum", [T("time_since", d)]), idf("R", "x"), idf("R", "c"), idf("R", "w"), T("is_null", idf("R", "c")),
                T("cum_sum", idf("R", "x")), A("sum", [D(idf("R", "x"), 0)]), A("count", [i], where=T("gt_s:value=0", D(idf("R", "x"), 0)))]
    if target == "C":
        return [x, w, c, T("is_null", x), T("is_null", d), T("time_since", d), D(idf("R", "x"), 0), D(idf("R", "c"), 0), D(idf("R", "w"), 0), D(A("sum", [x]), 0),
                D(A("count", [i], where=f), 0), T("cum_sum", x), GB("cum_sum", [w], c), GB("cum_sum", [x], idf("C", "r_id")), T("add", x, w), T("gt", x, y),
                D(A("sum", [w], where=T("eq_s:value=b", c)), 0), D(T("cum_sum", idf("R", "x")), 0)]
    gw, gx = idf("G", "w"), idf("G", "x")
    return [gw, gx, D(x, 1), D(c, 1), D(w, 1), D(D(idf("R", "x"), 0), 1), D(A("sum", [gx], "C", (1,)), 1), D(D(A("sum", [x], "R", (0,)), 0), 1),
            D(D(A("sum", [gw], "R", (0, 1)), 0), 1), GB("cum_sum", [gw], D(c, 1))]


SECS = {"C": {"C": {"d": ["x", "c", "f"]}}, "R": {"R": {"d": ["x", "c"]}}, "RC": {"R": {"d": ["x"]}, "C": {"d": ["c", "f", "x"]}},
        "G": {"G": {"d": ["x", "w"]}}, "CG": {"C": {"d": ["w"]}, "G": {"d": ["x"]}}}


def worlds(nmax, ts, ds):
    kids = [(t, v, [(t, 1)], d) for t in ts for v in (1, 2) for d in ds]
    kids = [k for n, k in enumerate(kids)]
    return [((n % 3), list(s), (None, 0, 2, 3, 5)[n % 5]) for n, s in enumerate(spaces.seqs(kids, 0, nmax))]


SP = {}


def space(name, th):
    if (name, th) not in SP:
        SP[name, th] = {"big": lambda: worlds(2, (0, 1, 2), (None, 0, 1, 2, 3)) if not th else worlds(2, (0, 1, 2, 3), (None, 0, 1, 2, 3, 4)),
                        "deep": lambda: worlds(3, (0, 1), (None, 1, 2)) if not th else worlds(3, (0, 1, 2), (None, 1, 2)),
                        "solo": lambda: worlds(1, (0, 1), (None, 0, 1, 2)) + worlds(2, (0, ), (None, 1))}[name]()
    return SP[name, th]


class P06(Check):
    id = "P06"
    rule = ("exhaustive primary and secondary times (missing included) of child rows x which entity has the secondary time index and which columns it "
            "governs x which entities have a time index x cutoffs on every tick x include_cutoff_time x every target, through a cutoff table, "
            "and single cutoff values with and without instance ids; each cell compared with the reference evaluator. "
            "Non-trivial: distinct (world, request, instance, cutoff) with a non-default value")
    assumptions = ("secondary times on the same tick grid as primary ones",)

    def prepare(self, tier):
        self.th = tier == "thorough"

    def cases(self, tier):
        big, solo, k = [], [], 0
        for sp in ("big", "deep"):
            n = len(space(sp, self.th))
            for lo in range(0, n, 125):
                for sec in SECS:
                    for ti in (["C", "G"], [], ["R", "C"], ["G"]):
                        for incl in (True, False):
                            for target in ("R", "C", "G"):
                                # quick: the first block meets every combination, later blocks take turns
                                k += 1
                                if not self.th and lo and (k + lo // 125) % 40:
                                    continue
                                for kind in (("dt", "num") if lo == 0 else ("dt",)):
                                    big.append({"sp": sp, "from": lo, "n": 125, "sec": sec, "ti": ti, "incl": incl, "target": target, "kind": kind, "mode": "table"})
        for i in range(len(space("solo", self.th))):
            for sec in SECS:
                for incl in (True, False):
                    for target in ("R", "C", "G"):
                        for mode in ("table", "single", "single_ids"):
                            k += 1
                            if not self.th and (k + i) % 4:
                                continue
                            solo.append({"sp": "solo", "from": i, "n": 1, "sec": sec, "ti": [["C"], [], ["R", "C", "G"]][i % 3], "incl": incl, "target": target,
                                         "kind": "dt", "mode": mode})
        return interleave(sorted(big, key=lambda c: c["from"]), solo)

    def run(self, case, st):
        import featuretools as ft
        sc = space(case["sp"], self.th)[case["from"]:case["from"] + case["n"]]
        w = spaces.tree_world(sc, depth=3, ti=case["ti"], dangling=False, order="mix", secondary=SECS[case["sec"]], time_kind=case["kind"])
        trees = feats(case["target"])
        if case["kind"] == "num":
            trees = [t for t in trees if "time_since" not in repr(t) and "'d'" not in repr(t)]
        ids = [r["id"] for r in w.tables[case["target"]].rows]
        if not ids:
            return []
        tag = "%(mode)s/%(sp)s+%(from)d/%(sec)s/ti%(ti)s/incl%(incl)s/%(target)s/%(kind)s" % case
        st.sample(tag)
        st.add("calls")
        if case["mode"] == "table":
            rows = [(i, t) for i in ids for t in (0, 2, 4)] if case["n"] == 1 else [(i, t) for n, i in enumerate(ids) for t in ((1, 3) if n % 2 else (2, 4))]
            return calc.check_calc(w, trees, rows, st, incl=case["incl"], label=tag)
        out = []
        es = model.to_es(w)
        feats_ = model.to_features(es, w, trees)
        # the same entity set is asked in turn for late, early and late cutoffs
        for t in (3, 1, 2, 0, 3):
            kw = {} if case["incl"] else {"include_cutoff_time": False}
            if case["mode"] == "single_ids":
                kw["instance_ids"] = list(ids)
            ref = calc.Refs(w, None, case["incl"])
            want = set(ids) if case["mode"] == "single_ids" else set(ref(t).by_id[case["target"]])
            if not want:
                continue        # without instances there is nothing to calculate, and the call says so
            fm = ft.calculate_feature_matrix(feats_, es, cutoff_time=w.time(t), **kw)
            got = list(fm.index)
            if set(got) != want:
                return [Problem(tag + " rows %r, expected %r" % (got, ids))]
            bad = model.compare(w, ref, trees, feats_, fm, [(k, i, t) for k, i in enumerate(got)], st, tag)
            out += [Problem(tag + " t=%d " % t + b) for b in bad[:2]]
        return out[:3]

    def finish(self, tier, counts, sets):
        n = len(sets.get("nontrivial", ()))
        return {}, ([] if n > 2000 else ["only %d non-trivial rows" % n])


CHECK = P06()

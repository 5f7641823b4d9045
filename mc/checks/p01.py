"""P01: two-run check: what is not known at the cutoff is removed, altered or added, and no earlier row may change."""
import copy

from .. import calc, model, spaces
from ..core import Check, Problem
from .p02 import A, idf, interleave
from .p04 import D, T, GB
from .p05 import three


def feats(target):
    w, i, x, c, y, f, d, t = (idf("C", n) for n in ("w", "id", "x", "c", "y", "f", "d", "t"))
    gw, gx, gi, gf = idf("G", "w"), idf("G", "x"), idf("G", "id"), idf("G", "f")
    cnt, sm = A("count", [i]), A("sum", [w])
    if target == "R":
        return [cnt, sm, A("last", [w]), A("first", [x]), A("mode", [c]), A("mean", [x]), A("minmax", [w]), A("max", [d]) if False else A("num_unique", [c]),
                A("sum", [w], where=f), A("sum", [w], where=T("gt_s:value=0", x)), A("sum", [w], up=("o", 1)), A("sum", [w], up=("t", [(1, "h")])),
                A("sum", [gw], "R", (0, 1)), A("last", [gw], "R", (0, 1)), A("sum", [A("sum", [gw], "C", (1,))]), A("sum", [D(x, 1)], "R", (0, 1)),
                A("sum", [T("cum_sum", w)]), A("sum", [GB("cum_sum", [w], c)]), A("max", [T("percentile", w)]), idf("R", "x"), idf("R", "c"), T("cum_sum", idf("R", "w")),
                T("percentile", sm), GB("cum_sum", [sm], idf("R", "c")), T("cum_sum", cnt), A("trend", [w, t]), A("since_last", [t]), A("std", [w]),
                A("sum", [A("count", [gi], "C", (1,))], where=T("gt_s:value=0", A("count", [gi], "C", (1,))))]
    if target == "C":
        return [x, w, c, T("is_null", x), D(idf("R", "x"), 0), D(idf("R", "c"), 0), D(cnt, 0), D(sm, 0), D(A("last", [w]), 0), D(A("mode", [c]), 0), D(A("minmax", [w]), 0),
                D(A("sum", [gw], "R", (0, 1)), 0), D(T("cum_sum", idf("R", "w")), 0), D(T("negate", sm), 0), T("add", w, D(sm, 0)), T("cum_sum", w), T("percentile", w),
                T("diff", w), T("since_prev", t), GB("cum_sum", [w], c), GB("cum_count", [c], idf("C", "r_id")), A("sum", [gw], "C", (1,)), A("count", [gi], "C", (1,)),
                A("last", [gx], "C", (1,)), T("cum_sum", A("sum", [gw], "C", (1,))), T("cum_sum", D(cnt, 0)), GB("cum_sum", [D(sm, 0)], c),
                D(A("sum", [w], where=f), 0), D(A("sum", [w], up=("o", 1)), 0), D(A("max", [A("sum", [gw], "C", (1,))]), 0)]
    return [gw, gx, D(x, 1), D(c, 1), D(A("sum", [gw], "C", (1,)), 1), D(D(cnt, 0), 1), D(D(sm, 0), 1), D(D(A("sum", [gw], "R", (0, 1)), 0), 1), T("cum_sum", gw),
            GB("cum_sum", [gw], idf("G", "c_id")), D(T("cum_sum", w), 1), D(D(idf("R", "x"), 0), 1), T("sub", D(A("sum", [gw], "C", (1,)), 1), D(D(sm, 0), 1)),
            D(A("last", [gw], "C", (1,)), 1)]


# subsets of features: approximation behaves differently depending on what else there is to calculate
SUBSETS = {"all": lambda fs: fs, "direct": lambda fs: [f for f in fs if f[0] == "dir"], "own": lambda fs: [f for f in fs if f[0] == "id"],
           "mixed": lambda fs: [f for f in fs if f[0] in ("dir", "id")], "agg": lambda fs: [f for f in fs if f[0] in ("agg", "id")],
           "aggdir": lambda fs: [f for f in fs if f[0] == "dir" and "agg" in repr(f) and "'tr'" not in repr(f) and "'gb'" not in repr(f)]}

# a feature that needs an aggregation at the exact cutoff, whatever else is requested
EXACT = {"R": A("max", [idf("C", "y")]), "C": T("negate", D(A("max", [idf("C", "y")]), 0)), "G": T("negate", D(A("max", [idf("G", "y")], "C", (1,)), 1))}


SECS = {"none": {}, "C": {"C": {"d": ["x", "c", "f"]}}, "RC": {"R": {"d": ["x", "c"]}, "C": {"d": ["w", "x"]}}, "G": {"G": {"d": ["x", "w"]}}}
CH = ("remove", "alter", "move", "add", "sec", "seclate")


def change(world, T_, incl, kind, ents):
    """a copy of the world that differs only in what is not known at tick T_"""
    w = copy.deepcopy(world)

    def future(t, r):
        x = r[t.time_index]
        return x is not None and (x > T_ if incl else x >= T_)
    n = 0
    for name in ents:
        t = w.tables[name]
        if kind in ("remove", "alter", "move", "add"):
            if not t.time_index:
                continue
            if kind == "remove":
                keep = [r for r in t.rows if not future(t, r)]
                n += len(t.rows) - len(keep)
                t.rows = keep
            elif kind in ("alter", "move"):
                for k, r in enumerate(t.rows):
                    if future(t, r):
                        n += 1
                        if kind == "move":
                            r[t.time_index] += 1 + k % 3
                        else:
                            r.update(x=99, w=7 * 10 ** 6, y=50, c="zz", f=not r["f"])
                            for link in ("r_id", "c_id"):
                                if link in r:      # linked to someone else
                                    others = [q[link] for q in t.rows if q[link] is not None]
                                    r[link] = others[(others.index(r[link]) + 1) % len(others)] if r[link] in others else r[link]
            else:
                extra = []
                for k, r in enumerate(t.rows):
                    q = dict(r)
                    q["id"] = "%s+%d" % (r["id"], k)
                    q[t.time_index] = T_ + 1 + k % 2
                    q.update(x=55, w=3 * 10 ** 6, c="new")
                    extra.append(q)
                n += len(extra)
                t.rows = extra[1::2] + t.rows + extra[0::2]
        else:
            for sec, cols in t.secondary.items():
                for k, r in enumerate(t.rows):
                    if r[sec] is not None and r[sec] >= T_:
                        n += 1
                        for c in cols:
                            if c != sec:
                                r[c] = {"x": 77, "w": 5 * 10 ** 6, "c": "late", "f": not r["f"]}[c]
                        if kind == "seclate":
                            r[sec] += 2
    return w, n


def worlds(th):
    a = three((0, 2), (0, 1, 3), (0, 2, 4), 1, 2)
    b = three((0, 1), (0, 2), (1, 3), 2, 1)
    c = three((None, 1, 3), (None, 2), (0, None), 2, 1)
    out = []
    for n, (rt, kids) in enumerate(a + b + c):
        out.append((rt, [(k[0], k[1], k[2], (n + 2 * m) % 5) for m, k in enumerate(kids)], n % 4))
    return out


class P01(Check):
    id = "P01"
    technique = "bounded exhaustive two-run exploration of the implementation: for every world and cutoff, the unknown part is removed, altered, moved or extended and all earlier rows must be identical"
    rule = ("worlds with exhaustive root/child/grandchild times x cutoff ticks x {remove, alter and relink, move later, add} of unknown rows in every single entity and in all, "
            "and altered not-yet-known secondary values x {single cutoff with ids, cutoff table, training window with and without last time indexes, "
            "approximation, both} x feature subsets x targets x which entities have time indexes; matrices of both runs compared. Non-trivial: distinct "
            "(world, call, change) where the change altered at least one row")
    assumptions = ("times from 5 ticks, at most 2x2 descendants per root", "values read as missing under a secondary time index are governed columns only")
    NB = 60

    def prepare(self, tier):
        self.th = tier == "thorough"
        self.sc = worlds(self.th)

    def cases(self, tier):
        out = []
        k = 0
        for lo in range(0, len(self.sc), self.NB):
            for ti in (["C", "G"], ["R", "C", "G"], ["G"], ["R"], ["R", "C"]):
                for sec in SECS:
                    for target in ("R", "C", "G"):
                        for mode in ("table", "single", "window", "windowlti", "approx", "approx0", "approxwindow"):
                            for sub in SUBSETS if mode.startswith("approx") else ("all",):
                                for incl in (True, False):
                                    k += 1
                                    if not self.th and (k + lo // self.NB) % 37:
                                        continue
                                    out.append({"from": lo, "n": self.NB, "ti": ti, "sec": sec, "target": target, "mode": mode, "sub": sub, "incl": incl, "rot": k})
        for i in range(0, len(self.sc), 1 if self.th else 23):
            for mode in ("table", "single", "approx", "approx0"):
                for sub in ("all", "mixed"):
                    out.append({"from": i, "n": 1, "ti": [["C", "G"], ["R", "C", "G"]][i % 2], "sec": ("none", "C", "RC")[i % 3], "target": "RCG"[i % 3], "mode": mode,
                                "sub": sub, "incl": bool(i % 5), "rot": i})
        # deterministic shuffle so that a capped run still meets every mode
        return sorted(out, key=lambda c: (c["from"] // self.NB > 0 and c["n"] > 1, c["rot"] % 17))

    def call(self, case, w, es, trees, ids, T_):
        import featuretools as ft
        kw = {}
        if case["mode"] in ("window", "windowlti", "approxwindow"):
            kw["training_window"] = "2h"
        if case["mode"] in ("approx", "approxwindow"):
            kw["approximate"] = "2h"
        if case["mode"] == "approx0":
            kw["approximate"] = "30m"
        if not case["incl"]:
            kw["include_cutoff_time"] = False
        fs = model.to_features(es, w, trees)
        if case["mode"] == "single":
            fm = ft.calculate_feature_matrix(fs, es, cutoff_time=w.time(T_), instance_ids=list(ids), **kw)
            return {(i, c): model.norm(fm[c].iloc[k]) for k, i in enumerate(fm.index) for c in fm.columns}
        rows = [(i, t) for n, i in enumerate(ids) for t in ((T_, T_ + 2) if n % 2 else (T_ - 1, T_))]
        fm = ft.calculate_feature_matrix(fs, es, cutoff_time=calc.cutoff_df(w, rows), **kw)
        out = {}
        for c in fm.columns:
            vals = list(fm[c])
            for (i, t), v in zip(rows, vals):
                if t <= T_:
                    out[i, t, c] = model.norm(v)
        return out

    def run(self, case, st):
        sc = self.sc[case["from"]:case["from"] + case["n"]]
        w = spaces.tree_world(sc, depth=3, ti=case["ti"], secondary=SECS[case["sec"]], order="mix", dangling=case["n"] > 1)
        target = case["target"]
        trees = SUBSETS[case["sub"]](feats(target))
        if "C" not in case["ti"]:
            trees = [t for t in trees if not any(s in repr(t) for s in ("'trend'", "since_last", "since_prev", "('o', 1)", "('t', ["))]
        ids = [r["id"] for r in w.tables[target].rows]
        if not ids or not trees:
            return []
        lti = case["mode"] == "windowlti"
        bad = []
        T_ = 1 + case["rot"] % 3 if case["n"] > 1 else 1
        es = model.to_es(w, lti=lti)
        tag = "%(mode)s/%(sub)s/%(from)d+%(n)d/ti%(ti)s/sec:%(sec)s/incl%(incl)s/%(target)s" % case
        base = self.call(case, w, es, trees, ids, T_)
        kinds = list(CH) if self.th or case["n"] == 1 else [CH[case["rot"] % 4], CH[(case["rot"] + 1) % 4]] + (["sec", "seclate"] if case["sec"] != "none" else [])
        for kind in kinds:
            for ents in (("R", "C", "G"),) if not self.th else (("R",), ("C",), ("G",), ("R", "C", "G")):
                w2, n = change(w, T_, case["incl"], kind, ents)
                if not n:
                    continue
                st.seen("nontrivial", (tag, T_, kind, ents))
                st.add("evaluations", len(base))
                st.add("runs")
                es2 = model.to_es(w2, lti=lti)
                got = self.call(case, w2, es2, trees, ids, T_)
                diff = [k for k in base if not model.close(base[k], got.get(k, "absent"), 1e-9)]
                if diff:
                    k = diff[0]
                    key = None
                    if case["mode"].startswith("approx"):
                        # nothing left to calculate exactly: the cutoff is ignored (known); with something exact in the request it must not be
                        exact = trees + [EXACT[target]]
                        one, two = self.call(case, w, es, exact, ids, T_), self.call(case, w2, es2, exact, ids, T_)
                        if all(model.close(one[q], two.get(q, "absent"), 1e-9) for q in one):
                            key = "P01:approximation-without-exact-aggregations-ignores-cutoff"
                    if lti:
                        for e in es2.entities:
                            first = es[e.id].last_time_index
                            if first is not None:
                                e.last_time_index = first.reindex(e.df.index)
                        again = self.call(case, w2, es2, trees, ids, T_)
                        if all(model.close(base[q], again.get(q, "absent"), 1e-9) for q in base):
                            key = "P01:training-window-reads-future-last-time-index"
                    bad.append(Problem("%s cutoff %d, %s in %s: %r changed from %r to %r (%d cells)" % (tag, T_, kind, ents, k, base[k], got.get(k, "absent"), len(diff)), key))
        st.sample(tag)
        return bad[:3]


CHECK = P01()

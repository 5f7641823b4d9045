"""P25: selection functions on every small matrix: which columns stay, their values and order, and the feature list."""
import itertools
import math

from ..core import Check, Problem

NAN = None
THR = (0.0, 0.25, 0.5, 0.6, 0.95, 1.0)
CORR = (0.0, 0.3, 0.5, 0.9, 0.95, 1.0)


def isnull(v):
    return v is None or (isinstance(v, float) and math.isnan(v))


def pearson(a, b):
    """correlation over the rows where both are known; None when undefined"""
    p = [(float(x), float(y)) for x, y in zip(a, b) if not isnull(x) and not isnull(y)]
    n = len(p)
    if n < 2:
        return None
    mx, my = sum(x for x, _ in p) / n, sum(y for _, y in p) / n
    sx, sy = sum((x - mx) ** 2 for x, _ in p), sum((y - my) ** 2 for _, y in p)
    if sx == 0 or sy == 0:
        return None
    return sum((x - mx) * (y - my) for x, y in p) / math.sqrt(sx * sy)


def series(col, kind):
    import numpy as np
    import pandas as pd
    if kind == "float":
        return pd.Series([np.nan if v is None else float(v) for v in col], dtype="float64")
    if kind == "int":
        return pd.Series([int(v) for v in col], dtype="int64")
    if kind == "bool":
        return pd.Series([bool(v) for v in col], dtype="bool")
    if kind == "time":
        return pd.Series([pd.NaT if v is None else pd.Timestamp("2020-01-01") + pd.Timedelta(days=v) for v in col], dtype="datetime64[ns]")
    if kind == "cat":
        return pd.Series([None if v is None else "abc"[v] for v in col], dtype="object").astype("category")
    return pd.Series([None if v is None else "abc"[v] for v in col], dtype="object")


def matrix(cols, kinds, names):
    import pandas as pd
    n = len(cols[0]) if cols else 0
    out = pd.DataFrame({nm: series(c, k) for nm, c, k in zip(names, cols, kinds)})
    out.index = pd.Index(["r%d" % (n - i) for i in range(n)])
    return out[list(names)]


class P25(Check):
    id = "P25"
    rule = ("every column of up to 3 values over {0, 1, missing} (up to 5 in the thorough tier) in 6 data types for the three per-column criteria at 6 thresholds; every pair of columns of 3 values over {0, 1, 2, missing} "
            "and triples/quadruples from a menu for the correlation criterion at 2 (thorough: 6) thresholds with every choice of columns to check (in both orders) and to keep; with feature lists including multi-output features. "
            "Non-trivial: distinct cases in which a column is removed")
    assumptions = ("correlations within 1e-9 of a threshold are not judged",)

    def prepare(self, tier):
        import featuretools as ft
        import pandas as pd
        self.th = tier == "thorough"
        es = ft.EntitySet("s")
        es.entity_from_dataframe("p", pd.DataFrame({"id": ["a"], "c0": [1.0], "c1": [2.0], "c2": [1.5], "c3": [4.0]}), index="id")
        es.entity_from_dataframe("k", pd.DataFrame({"id": ["a"], "p": ["a"], "v": ["x"]}), index="id")
        es.add_relationship(ft.Relationship(es["p"]["id"], es["k"]["p"]))
        self.single = {n: ft.Feature(es["p"][n]) for n in ("c0", "c1", "c2", "c3")}
        self.multi = ft.Feature(es["k"]["v"], parent_entity=es["p"], primitive=ft.primitives.NMostCommon(n=2))

    def cases(self, tier):
        for n in range(0, 6 if self.th else 4):
            for lo in range(0, 3 ** n, 27):
                yield {"m": "col", "n": n, "lo": lo}
        for lo in range(0, 64):
            yield {"m": "pair", "lo": lo}
        menu = [(0, 1, 2), (2, 1, 0), (0, 1, 1), (0, 0, 1), (1, 1, 1), (None, 0, 1), (0, None, 1), (0, 1, 2), (0, 2, 1), (None, None, 0)]
        for a in range(len(menu)):
            yield {"m": "multi", "a": a, "menu": menu}

    def columns(self, n):
        return list(itertools.product((0, 1, None), repeat=n))

    def expect(self, fm, keep, feats, got, tag, st):
        st.add("evaluations")
        if len(keep) < len(fm.columns):
            st.seen("nontrivial", tag)
        gfm, gf = got if feats is not None else (got, None)
        bad = []
        if list(gfm.columns) != keep:
            bad.append("%s: columns %r, expected %r of %r" % (tag, list(gfm.columns), keep, list(fm.columns)))
        elif not gfm.equals(fm[keep]) or list(gfm.index) != list(fm.index):
            bad.append("%s: the kept columns changed" % tag)
        if feats is not None and not bad:
            names = [n for f in gf for n in f.get_feature_names()]
            want = [n for f in feats for n in f.get_feature_names() if n in keep]
            if names != want:
                bad.append("%s: features %r, expected %r" % (tag, names, want))
        return bad

    def run(self, case, st):
        from featuretools import selection as S
        st.sample({k: case[k] for k in case if k != "menu"})
        bad = []

        def call(fn, fm, keep, tag, feats=None, **kw):
            before = fm.copy()
            got = fn(fm, features=feats, **kw) if feats is not None else fn(fm, **kw)
            if not fm.equals(before):
                return ["%s: the matrix passed in was changed" % tag]
            return self.expect(fm, keep, feats, got, tag, st)
        mnames = self.multi.get_feature_names()
        if case["m"] == "col":
            for col in self.columns(case["n"])[case["lo"]:case["lo"] + 27]:
                nn = case["n"]
                kinds = ["float", "obj", "cat", "time"] + (["int", "bool"] if None not in col else [])
                for kind in kinds:
                    other = tuple(0 for _ in range(nn))
                    # a constant neighbour before, an alternating one after, the column as one output of a multi-output feature and as a plain one
                    alt = tuple(i % 2 for i in range(nn))
                    cols = [other, col, alt, col]
                    names = ["c0", mnames[0], mnames[1], "c1"]
                    fm = matrix(cols, ["float", kind, "float", kind], names)
                    feats = [self.single["c0"], self.multi, self.single["c1"]]
                    tag = "%s %r" % (kind, col)
                    dist = [len(set(v for v in c if v is not None)) for c in cols]
                    nul = [sum(v is None for v in c) for c in cols]
                    low = [nm for nm, d, k in zip(names, dist, nul) if d + (k > 0) > 1 and d > 0]
                    one = [nm for nm, d in zip(names, dist) if d > 1]
                    one_n = [nm for nm, d, k in zip(names, dist, nul) if d + (k > 0) > 1]
                    for fl in (None, feats):
                        bad += call(S.remove_low_information_features, fm, low, "low information: " + tag, fl)
                        bad += call(S.remove_single_value_features, fm, one, "single value: " + tag, fl)
                        bad += call(S.remove_single_value_features, fm, one_n, "single value, missing counted: " + tag, fl, count_nan_as_value=True)
                        if nn:
                            for t in THR:
                                keep = [nm for nm, k in zip(names, nul) if k == 0 and (t > 0 or True) or (0 < k and k / float(nn) < t)]
                                bad += call(S.remove_highly_null_features, fm, keep, "null share, threshold %s: %s" % (t, tag), fl, pct_null_threshold=t)
                    if bad:
                        return bad[:2]
            return []
        if case["m"] == "pair":
            vals = list(itertools.product((0, 1, 2, None), repeat=3))
            a = vals[case["lo"]]
            for b in vals:
                kb = ["float"] + (["int"] if None not in b and self.th else []) + (["bool"] if None not in b and 2 not in b else []) + ["obj"]
                for k in kb:
                    ka = "float" if None in a else "int"
                    fm = matrix([a, b], [ka, k], ["c0", "c1"])
                    bad += self.corr(call, fm, [a, b], [ka, k], ["c0", "c1"], [self.single["c0"], self.single["c1"]], "%r %r %s" % (a, b, k), st)
                    if bad:
                        return bad[:2]
            return []
        menu = case["menu"]
        a = menu[case["a"]]
        names = ["c0"] + mnames + ["c1"]
        feats = [self.single["c0"], self.multi, self.single["c1"]]
        for b, c in itertools.product(menu, repeat=2) if self.th else itertools.product(menu, menu[:6]):
            for d, kd in ((menu[0], "float"), (menu[2], "bool"), (menu[5], "obj")):
                cols = [a, b, c, d]
                kinds = ["float"] * 3 + [kd]
                fm = matrix(cols, kinds, names)
                bad += self.corr(call, fm, cols, kinds, names, feats, "%r %s" % (cols, kd), st, full=True)
                if bad:
                    return bad[:2]
        return []

    def corr(self, call, fm, cols, kinds, names, feats, tag, st, full=False):
        from featuretools import selection as S
        bad = []
        numeric = [i for i, k in enumerate(kinds) if k in ("float", "int", "bool")]
        r = {(i, j): pearson(cols[i], cols[j]) for i in numeric for j in numeric if j < i}
        checks = [None]
        if full:
            checks += [names[:2], names[:2][::-1], names[1:], names[1:][::-1], [names[0], names[2]], [names[2], names[0]]]
        keeps = [None] + ([[names[1]], [names[3], names[0]]] if full else ([["c1"], ["c0"]] if self.th else [["c1"]]))
        for t in (CORR if self.th else (0.5, 0.95)) if not full else (0.5, 0.95):
            if any(v is not None and abs(abs(v) - t) < 1e-9 for v in r.values()):
                continue
            for chk in checks:
                for kp in keeps:
                    drop = set()
                    on = [i for i in numeric if chk is None or names[i] in chk]
                    for i in on:
                        if any(j < i and r[i, j] is not None and abs(r[i, j]) >= t for j in on):
                            drop.add(names[i])
                    keep = [n for n in names if n not in drop or (kp and n in kp)]
                    kw = {"pct_corr_threshold": t}
                    if chk is not None:
                        kw["features_to_check"] = list(chk)
                    if kp is not None:
                        kw["features_to_keep"] = list(kp)
                    for fl in (None, feats) if full else (feats,):
                        bad += call(S.remove_highly_correlated_features, fm, keep, "correlation %r: %s" % (kw, tag), fl, **kw)
                        if bad:
                            return bad
        return bad


CHECK = P25()

"""P18: all pairs of small entity sets over a common structure combined and compared with the entity set built from the union of the rows."""
import itertools

from ..core import Check
from ..esops import snap

NOTHING, FIRST, SECOND, BOTH = range(4)


def day(n, numeric):
    import pandas as pd
    if n is None:
        return float("nan") if numeric else pd.NaT
    return float(n) if numeric else pd.Timestamp("2020-01-01") + pd.Timedelta(days=n)


def rows(case):
    """per set and entity: {index: row}"""
    num = case["cfg"] == "number"
    out = []
    for side in (FIRST, SECOND):
        par, kid, lone = {}, {}, {}
        for i, w in enumerate(case["par"]):
            if w in (side, BOTH):
                k = "p%d" % (2 - i)
                par[k] = {"id": k, "v": side * 10.0 + i, "s": "first" if side == FIRST else "second"}
                if case["cfg"] in ("times", "number", "secondary"):
                    par[k]["t"] = day([3, 1][i] if side == FIRST else 2, num)
        for i, w in enumerate(case["kid"]):
            if w in (side, BOTH):
                t = case["t"][i] + (0 if side == FIRST else case["shift"])
                kid[3 - i] = {"id": 3 - i, "p": "p%d" % (1 + (i + side) % 2), "x": side * 100.0 + i if (i + side) % 4 else None}
                if case["cfg"] != "none":
                    kid[3 - i]["t"] = day(t, num)
                if case["cfg"] == "secondary":
                    kid[3 - i]["d"] = day(t + 1, num)
        for i in range(2):
            lone[i] = {"n": "a%d" % i}
        out.append({"par": par, "kid": kid, "lone": lone})
    return out


def build(data, case, lti, order=0):
    import featuretools as ft
    import pandas as pd
    V = ft.variable_types
    num = case["cfg"] == "number"
    es = ft.EntitySet("s")
    T = "float64" if num else "datetime64[ns]"
    cfg = case["cfg"]
    cols = {"par": {"id": object, "v": float, "s": object}, "kid": {"id": "int64", "p": object, "x": float}}
    types = {"par": {"id": V.Index, "v": V.Numeric, "s": V.Categorical}, "kid": {"id": V.Index, "p": V.Id, "x": V.Numeric}}
    ti = {"par": None, "kid": None}
    if cfg in ("times", "number", "secondary"):
        cols["par"]["t"] = T
        ti["par"] = "t"
    if cfg != "none":
        cols["kid"]["t"] = T
        ti["kid"] = "t"
    if cfg == "secondary":
        cols["kid"]["d"] = T
        types["kid"]["d"] = V.Datetime
    for e in (("par", "kid") if not order else ("kid", "par")):
        df = pd.DataFrame({c: pd.Series([r[c] for r in data[e].values()], dtype=d) for c, d in cols[e].items()})
        kw = {"secondary_time_index": {"d": ["x"]}} if cfg == "secondary" and e == "kid" else {}
        if ti[e]:
            types[e]["t"] = V.NumericTimeIndex if num else V.DatetimeTimeIndex
        es.entity_from_dataframe(e, df, index="id", time_index=ti[e], variable_types=types[e], **kw)
    if case["made"]:
        es.entity_from_dataframe("lone", pd.DataFrame({"n": [r["n"] for r in data["lone"].values()]}), index="i", make_index=True, variable_types={"n": V.Categorical})
    rels = [("par", "id", "kid", "p")]
    for a, b, c, d in rels:
        es.add_relationship(ft.Relationship(es[a][b], es[c][d]))
    if lti:
        es.add_last_time_indexes()
    return es


class P18(Check):
    id = "P18"
    rule = ("all ways for 3 child rows and 2 parent rows to be in neither, the first, the second or both of two entity sets (rows in both differ in every value) x times and ties x no/child/all/numeric time indexes and a secondary time "
            "index x last time indexes of neither, one or both x in place or not, each combination compared with the entity set built from the union: rows, order, keys, relationships, last time indexes, feature values, inputs left alone. "
            "Non-trivial: some row in both")
    assumptions = ("both sets were given the same structure; made-up indexes describe the same rows",)

    def cases(self, tier):
        th = tier == "thorough"
        n = 0
        pars = list(itertools.product(range(4), repeat=2)) if th else [(BOTH, BOTH), (FIRST, SECOND), (BOTH, SECOND), (NOTHING, BOTH)]
        for kid in itertools.product(range(4), repeat=3):
            for par in pars:
                for cfg in ("none", "child", "times", "number", "secondary"):
                    for lti in range(4):
                        for t, shift in (((1, 1, 2), 0), ((2, 1, 1), 1), ((1, 2, 3), -1)) if th else (((1, 1, 2), 0), ((2, 1, 1), 1))[n % 2:][:1]:
                            n += 1
                            yield {"kid": kid, "par": par, "cfg": cfg, "lti": lti, "t": t, "shift": shift, "inplace": bool(n // 7 % 2), "made": n % 3 == 0, "fm": n % 5 == 0, "order": n % 4 == 1}

    def run(self, case, st):
        st.sample(case)
        a, b = rows(case)
        union = {e: {**b[e], **a[e]} for e in a}
        lti = case["lti"]
        x, y = build(a, case, lti in (FIRST, BOTH)), build(b, case, lti in (SECOND, BOTH), case["order"])
        want = build(union, case, lti != NOTHING)
        sx, sy, sw = snap(x), snap(y), snap(want)
        st.add("evaluations")
        if BOTH in case["kid"] + case["par"]:
            st.seen("nontrivial", (case["kid"], case["par"], case["cfg"], lti))
        got = x.concat(y, inplace=case["inplace"])
        bad = []
        sg = snap(got)
        if case["inplace"]:
            if got is not x:
                bad.append("in place combination returns another entity set")
        else:
            if got is x or snap(x) != sx:
                bad.append("the first entity set changed")
        if snap(y) != sy:
            bad.append("the second entity set changed")
        for e, w in sw["ents"].items():
            g = sg["ents"].get(e)
            if g is None:
                bad.append("%s is missing" % e)
                continue
            if not w["ti"]:         # no order is promised
                for d in (g, w):
                    d["rows"] = sorted(d["rows"], key=lambda r: str(r[w["index"]]))
                    d["labels"] = sorted(d["labels"], key=str)
            if g["rows"] != w["rows"] or g["labels"] != w["labels"]:
                bad.append("rows of %s: %r (labels %r), expected %r" % (e, g["rows"], g["labels"], w["rows"]))
            if g["lti"] != w["lti"]:
                bad.append("last time index of %s: %r, expected %r" % (e, g["lti"], w["lti"]))
            for k in ("vars", "index", "ti", "sti", "cols", "desc"):
                if (sorted(g[k]) if k in ("vars", "cols") else g[k]) != (sorted(w[k]) if k in ("vars", "cols") else w[k]):
                    bad.append("%s of %s: %r, expected %r" % (k, e, g[k], w[k]))
        if set(sg["ents"]) != set(sw["ents"]) or sorted(sg["rels"]) != sorted(sw["rels"]) or sg["tt"] != sw["tt"]:
            bad.append("structure %r %r" % (sorted(sg["ents"]), sg["rels"]))
        if bad or not case["fm"]:
            return bad[:3]
        return self.features(got, want, case, union)[:3]

    def features(self, got, want, case, union):
        import featuretools as ft
        P = ft.primitives
        if not union["par"]:
            return []
        out = []
        for es in (got, want):
            fs = [ft.Feature(es["kid"]["id"], parent_entity=es["par"], primitive=P.Count), ft.Feature(es["kid"]["x"], parent_entity=es["par"], primitive=P.Sum), ft.Feature(es["kid"]["x"], parent_entity=es["par"], primitive=P.Last),
                  ft.Feature(es["par"]["v"])]
            ms = []
            for t in (1, 3):
                kw = {}
                if case["cfg"] != "none":
                    kw["cutoff_time"] = day(t, case["cfg"] == "number")
                    if case["lti"] and case["cfg"] != "number":
                        kw["training_window"] = "1 days"
                try:
                    fm = ft.calculate_feature_matrix(fs, es, instance_ids=sorted(union["par"]), **kw)
                    ms.append(repr(fm.astype(object).values.tolist()))
                except Exception as e:
                    ms.append(type(e).__name__ + str(e))
            out.append(ms)
        return [] if out[0] == out[1] else ["features of the combination %r, of the union %r" % tuple(out)]


CHECK = P18()

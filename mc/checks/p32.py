"""P32: all pairs of a family of entity sets in which every cell, row, variable, key and relationship is varied, compared with an independent snapshot."""
import copy
import pickle

from ..core import Check
from ..esops import snap

DAY = "2020-01-%02d"


def spec(kind):
    """plain description of an entity set"""
    P = {"index": "id", "ti": None, "sti": None, "types": {"id": "Index", "x": "Numeric", "s": "Categorical"},
         "cols": ["id", "x", "s"], "rows": [[1, 1.5, "u"], [2, None, None]]}
    C = {"index": "id", "ti": "t", "sti": None, "types": {"id": "Index", "p": "Id", "q": "Id", "t": "DatetimeTimeIndex", "d": "Datetime", "n": "NaturalLanguage", "b": "Boolean", "g": "LatLong", "o": "Unknown"},
         "cols": ["id", "p", "q", "t", "d", "n", "b", "g", "o"],
         "rows": [[1, 1, 2, 1, 4, "word", True, (1.0, None), "1"], [2, 1, 1, 1, None, "", False, (1.0, 2.0), None], [3, 2, 1, 2, 5, None, True, (None, None), 1]]}
    s = {"ents": {"par": P, "kid": C}, "rels": [("par", "id", "kid", "p")], "lti": False, "iv": {}, "frame": "pandas"}
    if kind == "two parents":
        s["rels"].append(("par", "id", "kid", "q"))
        s["lti"] = True
    elif kind == "lone":
        s["ents"] = {"kid": C}
        s["rels"] = []
        C["sti"] = {"d": ["n"]}
    elif kind == "empty":
        s["ents"] = {}
        s["rels"] = []
    elif kind == "no rows":
        P["rows"] = []
        s["rels"] = []
    return s


ALT = {"int": [1, 2, 9], "float": [1.5, 2.5, None, 0.1 + 0.2, 0.3], "text": ["u", "v", None, "", "nan", "None"], "day": [1, 2, 9, None], "bool": [True, False], "pair": [(1.0, 2.0), (1.0, None), (2.0, 1.0), (None, None)],
       "any": [1, "1", None, "None", 2.5]}
KIND = {"id": "int", "x": "float", "s": "text", "p": "int", "q": "int", "t": "day", "d": "day", "n": "text", "b": "bool", "g": "pair", "o": "any"}


def variants(kind):
    """(name, spec) of the base and of everything that differs from it in one aspect"""
    base = spec(kind)
    yield "base", base
    for eid, e in base["ents"].items():
        for i, r in enumerate(e["rows"]):
            for j, c in enumerate(e["cols"]):
                for v in ALT[KIND[c]]:
                    if repr(v) != repr(r[j]) and not (c == e["index"] and any(v == q[j] for q in e["rows"])):
                        s = copy.deepcopy(base)
                        s["ents"][eid]["rows"][i][j] = v
                        yield "%s row %d: %s=%r" % (eid, i, c, v), s
            s = copy.deepcopy(base)
            del s["ents"][eid]["rows"][i]
            yield "%s without row %d" % (eid, i), s
            s = copy.deepcopy(base)
            s["ents"][eid]["rows"].append([7 if c == "id" else v for c, v in zip(e["cols"], r)])
            yield "%s row %d twice" % (eid, i), s
        for c in e["cols"]:
            now = e["types"][c]
            for t in {"Numeric": ["Ordinal", "Unknown"], "Categorical": ["NaturalLanguage", "Ordinal", "Id", "ZIPCode"], "Id": ["Categorical", "Numeric", "Ordinal"], "Datetime": ["DateOfBirth"], "NaturalLanguage": ["Categorical", "URL"],
                      "Unknown": ["Categorical"], "LatLong": ["Unknown"], "Boolean": ["Categorical"]}.get(now, ()):
                if any(c in (r[1], r[3]) and eid in (r[0], r[2]) for r in base["rels"]) and t != "Categorical":
                    continue
                s = copy.deepcopy(base)
                s["ents"][eid]["types"][c] = t
                yield "%s.%s is %s" % (eid, c, t), s
            keys = {e["index"], e["ti"]} | {r[1] for r in base["rels"] if r[0] == eid} | {r[3] for r in base["rels"] if r[2] == eid} | {a for a, v in (e["sti"] or {}).items()} | {x for v in (e["sti"] or {}).values() for x in v}
            if c not in keys:
                s = copy.deepcopy(base)
                f = s["ents"][eid]
                j = f["cols"].index(c)
                f["cols"].pop(j)
                f["types"].pop(c)
                for r in f["rows"]:
                    r.pop(j)
                yield "%s without %s" % (eid, c), s
                s = copy.deepcopy(base)
                f = s["ents"][eid]
                f["cols"] = [c + "2" if x == c else x for x in f["cols"]]
                f["types"] = {(c + "2" if x == c else x): t for x, t in f["types"].items()}
                yield "%s.%s renamed" % (eid, c), s
        if e["ti"]:
            s = copy.deepcopy(base)
            s["ents"][eid]["ti"] = None
            s["ents"][eid]["types"][e["ti"]] = "Datetime"
            yield "%s without time index" % eid, s
            if not e["sti"]:
                s = copy.deepcopy(base)
                s["ents"][eid]["ti"] = "d"
                s["ents"][eid]["types"].update({"t": "Datetime", "d": "DatetimeTimeIndex"})
                yield "%s with another time index" % eid, s
                for a, v in (("d", ["n"]), ("d", ["n", "b"]), ("d", ["b"])):
                    s = copy.deepcopy(base)
                    s["ents"][eid]["sti"] = {a: v}
                    yield "%s with secondary time index %s %s" % (eid, a, v), s
            else:
                s = copy.deepcopy(base)
                s["ents"][eid]["sti"] = None
                yield "%s without secondary time index" % eid, s
        s = copy.deepcopy(base)
        f = s["ents"].pop(eid)
        s["rels"] = [r for r in s["rels"] if eid not in (r[0], r[2])]
        yield "without %s" % eid, s
        s = copy.deepcopy(s)
        s["ents"][eid + "2"] = f
        yield "%s under another name" % eid, s
        for c in [c for c in e["cols"] if c in ("s", "q", "p", "n") and e["types"][c] in ("Categorical", "Id")]:
            for vals in (["u"], ["u", "v"], ["v"]) if c == "s" else ([1], [2], [1, 2]):
                s = copy.deepcopy(base)
                s["iv"] = {(eid, c): vals}
                yield "interesting values %r of %s.%s" % (vals, eid, c), s
        s = copy.deepcopy(base)
        s["lti"] = "only " + eid
        yield "last time index of %s only" % eid, s
    for i in range(len(base["rels"])):
        s = copy.deepcopy(base)
        del s["rels"][i]
        yield "without relationship %d" % i, s
    if "par" in base["ents"] and base["rels"]:
        s = copy.deepcopy(base)
        s["rels"] = list(reversed(s["rels"]))
        yield "relationships in another order", s
        for extra in (("par", "id", "kid", "q"),):
            if extra not in base["rels"]:
                s = copy.deepcopy(base)
                s["rels"].append(extra)
                yield "another relationship", s
                s = copy.deepcopy(s)
                del s["rels"][0]
                yield "the other relationship", s
    s = copy.deepcopy(base)
    s["lti"] = not base["lti"]
    yield "last time indexes switched", s


def build(s):
    import featuretools as ft
    import pandas as pd
    V = ft.variable_types
    es = ft.EntitySet("s")
    nan = float("nan")
    for eid, e in s["ents"].items():
        cols = {}
        for j, c in enumerate(e["cols"]):
            k = KIND.get(c, KIND.get(c.rstrip("2")))
            vals = [r[j] for r in e["rows"]]
            if k == "day":
                cols[c] = pd.Series([pd.NaT if v is None else pd.Timestamp(DAY % v) for v in vals], dtype="datetime64[ns]")
            elif k == "pair":
                cols[c] = pd.Series([tuple(nan if x is None else x for x in v) for v in vals], dtype=object)
            elif k == "float":
                cols[c] = pd.Series(vals, dtype=float)
            elif k == "int":
                cols[c] = pd.Series(vals, dtype="int64")
            elif k == "bool":
                cols[c] = pd.Series(vals, dtype=bool)
            else:
                cols[c] = pd.Series(vals, dtype=object)
        df = pd.DataFrame(cols)
        if s["frame"] == "category" and "s" in df:
            df["s"] = df["s"].astype("category")
        if s["frame"].startswith("dask"):
            import dask.dataframe as dd
            df = dd.from_pandas(df, npartitions=int(s["frame"][-1]))
        es.entity_from_dataframe(eid, df, index=e["index"], time_index=e["ti"], secondary_time_index=copy.deepcopy(e["sti"]), variable_types={c: getattr(V, t) for c, t in e["types"].items()})
    for a, b, c, d in s["rels"]:
        es.add_relationship(ft.Relationship(es[a][b], es[c][d]))
    if s["lti"] is True:
        es.add_last_time_indexes()
    elif s["lti"]:
        es.add_last_time_indexes()
        for e in es.entities:
            if e.id != s["lti"][5:]:
                e.last_time_index = None
    for (eid, c), vals in s["iv"].items():
        es[eid][c].interesting_values = list(vals)
    return es


def views(es):
    n = snap(es)
    plain = {k: (e["index"], e["ti"], e["sti"], sorted(e["vars"])) for k, e in n["ents"].items()}
    deep = {k: (sorted(e["cols"]), [sorted((c, type(v).__name__, v) if c == "o" else (c, v) for c, v in r.items()) for r in e["rows"]], e["lti"], e["iv"]) for k, e in n["ents"].items()}
    kinds = {e.id: None if e.last_time_index is None else str(e.last_time_index.dtype) for e in es.entities}
    return plain, sorted(set(n["rels"])), deep, kinds


def same_deep(a, b):
    return repr(a) == repr(b)


class P32(Check):
    id = "P32"
    rule = ("families of entity sets around 5 structures (two entities, two relationships with last time indexes, one entity with secondary time index, no rows, no entities), each varied in exactly one aspect: every cell over an alphabet "
            "with missing values and look-alikes, every row removed and repeated, every variable removed, renamed and retyped, keys, relationships, last time indexes, interesting values; every ordered pair inside a family and "
            "every base against every other family's members compared, sets and entities, plain and deep, ==, != and __eq__(deep); copies and pickles against originals; the same cells on Dask and category columns. "
            "Non-trivial: pairs that differ")
    assumptions = ("rows are compared in order, cells by value", "the id of the entity set and the order of relationships are not part of equality")

    KINDS = ("plain", "two parents", "lone", "no rows", "empty")

    def prepare(self, tier):
        self.th = tier == "thorough"
        self.cache = {}

    def family(self, kind):
        if kind not in self.cache:
            out = []
            for name, s in variants(kind):
                es = build(s)
                out.append((kind + ": " + name, s, es, views(es)))
            self.cache[kind] = out
        return self.cache[kind]

    def cases(self, tier):
        for k in self.KINDS:
            n = sum(1 for _ in variants(k))
            for i in range(0, n, 12):
                yield {"m": "pairs", "k": k, "i": i}
            for i in range(0, n, 12):
                yield {"m": "copies", "k": k, "i": i}
            for o in self.KINDS:
                if o != k:
                    yield {"m": "cross", "k": k, "o": o}
        for f in ("category", "dask1", "dask2"):
            for k in ("plain", "lone"):
                yield {"m": "frames", "k": k, "f": f}

    def pair(self, a, b, st):
        na, _, x, vx = a
        nb, _, y, vy = b
        bad = []
        plain = vx[0] == vy[0] and vx[1] == vy[1]
        deep = plain and same_deep(vx[2], vy[2])
        st.add("evaluations")
        if not deep:
            st.seen("nontrivial", (na, nb))
        # last time indexes of the same values held in different column types: either answer
        loose = {e for e in set(vx[0]) & set(vy[0]) if vx[3][e] != vy[3][e] and same_deep(vx[2][e], vy[2][e])}
        for what, got, want in (("==", x == y, plain), ("!=", x != y, not plain), ("equal", x.__eq__(y, deep=False), plain), ("deeply equal", x.__eq__(y, deep=True), deep), ("deeply different", x.__ne__(y, deep=True), not deep)):
            if bool(got) != want and not (deep and loose and "deep" in what):
                bad.append("[%s] against [%s]: %s is %r, expected %r" % (na, nb, what, got, want))
        for e in set(vx[0]) & set(vy[0]):
            p = vx[0][e] == vy[0][e]
            d = p and same_deep(vx[2][e], vy[2][e])
            for what, got, want in (("==", x[e] == y[e], p), ("deeply equal", x[e].__eq__(y[e], deep=True), d)):
                if bool(got) != want and not (e in loose and "deep" in what):
                    bad.append("entity %s of [%s] against [%s]: %s is %r, expected %r" % (e, na, nb, what, got, want))
        return bad

    def run(self, case, st):
        st.sample(case)
        bad = []
        if case["m"] == "frames":
            fam = [(n, dict(s, frame=case["f"])) for n, s in variants(case["k"]) if n == "base" or (": " in n and "=" in n)]
            other = dict(spec(case["k"]), frame="dask2" if case["f"] == "dask1" else case["f"])
            ref = ("base", other, build(other), views(build(dict(other, frame="pandas"))))
            for n, s in fam:
                x = (n, s, build(s), views(build(dict(s, frame="pandas"))))
                bad += self.pair(x, ref, st) + self.pair(ref, x, st)
            return bad[:3]
        fam = self.family(case["k"])
        if case["m"] == "pairs":
            for a in fam[case["i"]:case["i"] + 12]:
                for b in fam:
                    bad += self.pair(a, b, st)
                    if len(bad) > 3:
                        return bad[:3]
        elif case["m"] == "cross":
            for b in self.family(case["o"])[::1 if self.th else 5]:
                for a in fam[:1] + (fam[1::9] if self.th else []):
                    bad += self.pair(a, b, st) + self.pair(b, a, st)
        else:
            for n, s, es, v in fam[case["i"]:case["i"] + 12]:
                for how, c in (("deep copy", copy.deepcopy(es)), ("pickle", pickle.loads(pickle.dumps(es))), ("built again", build(s)), ("copy", copy.copy(es))):
                    bad += self.pair((n, s, es, v), (n + " (" + how + ")", s, c, views(c)), st)
                    bad += self.pair((n + " (" + how + ")", s, c, v), (n, s, es, v), st)
        return bad[:3]


CHECK = P32()

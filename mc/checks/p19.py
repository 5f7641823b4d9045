"""P19: entity sets over every kind of column, value, structure and file option written, read back and compared cell by cell."""
import copy
import itertools
import os
import shutil
import tempfile

from ..core import Check
from ..esops import meta_view, norm, snap

NAN = float("nan")
TEXT = ["a", "", None, "NA", "null", "None", "nan", "001", "1", "1.50", "True", "a,b;c\td|e", 'q"q', "l1\nl2", " x ", "\u00e9\u6f22", "2020-01-01", "'", "#", "\\", "inf", "a\r\nb", "-", "(1.0, 2.0)"]
LATIN = [t for t in TEXT if t is None or all(ord(c) < 256 for c in t)]
KINDS = {        # (variable type, column type, values)
    "text": ("NaturalLanguage", object, TEXT), "category of text": ("Categorical", object, TEXT), "id of text": ("Id", object, ["a", "001", "1", "NA", None]), "zip": ("ZIPCode", object, ["02139", "60091-1234", None, "1"]),
    "url": ("URL", object, ["http://a.b/?c=d&e=f", None, "www.x.y"]), "email": ("EmailAddress", object, ["a@b.c", None]), "name": ("FullName", object, ["Doe, Mr. John", None]), "phone": ("PhoneNumber", object, ["+1 2", "001", None]),
    "ip": ("IPAddress", object, ["1.2.3.4", "::1", None]), "country": ("CountryCode", object, ["US", "NA", None]), "path": ("FilePath", object, ["/a/b.c", "c:\\x", None]),
    "category of int": ("Categorical", "int64", [1, 0, -7, 2 ** 62]), "id of int": ("Id", "int64", [1, 0, 2 ** 53 + 1]), "id of float": ("Id", float, [1.0, None, 2.0]), "ordinal": ("Ordinal", "int64", [1, 2, 3]),
    "float": ("Numeric", float, [1.5, None, float("inf"), float("-inf"), 0.1 + 0.2, 1e300, 1e-7, 123456789.12345679, -0.0, 1 / 3, 5e-324, 9007199254740993.0]), "int": ("Numeric", "int64", [0, -1, 2 ** 53 + 1, -2 ** 63]), "small": ("Numeric", "float32", [0.1, 1.5, None]),
    "short": ("Numeric", "int16", [1, -2]),
    "bool": ("Boolean", bool, [True, False]), "bool or missing": ("Boolean", object, [True, False, None]),
    "date": ("Datetime", "datetime64[ns]", ["2020-02-29", None, "2020-01-01 12:34:56.123456789", "1700-01-01", "2262-04-01 00:00:00.000001", "1970-01-01"]), "birth": ("DateOfBirth", "datetime64[ns]", ["1950-12-31", None]),
    "span": ("Timedelta", "timedelta64[ns]", ["1 days", None, "-1 days +23:59:59.999999999", "0 days", "00:00:01.5"]),
    "place": ("LatLong", object, [(1.5, -2.25), (NAN, NAN), (1.0, NAN), (0.1 + 0.2, 1e-7), (-0.5, 180.0)]),
    "known text": ("Categorical", "category", ["a", "001", "1", "NA", "True", None, ""]), "known int": ("Ordinal", "category", [1, 2, None, 10]),
    "any of int": ("Unknown", object, [1, 2, None, -3]), "any of float": ("Unknown", object, [1.5, None, 0.1 + 0.2]), "any of bool": ("Unknown", object, [True, None, False]), "any of text": ("Unknown", object, ["1", None, "x"]),
    "category of mixed int": ("Categorical", object, [1, None, 2]),
}


def options(th):
    out = [("csv", {}), ("pickle", {}), ("parquet", {"engine": "fastparquet"})]
    out += [("csv", {"sep": s}) for s in (";", "\t", "|", " ")] + [("csv", {"engine": "c"}), ("csv", {"engine": "c", "sep": ";"}), ("csv", {"encoding": "utf-16"}), ("csv", {"encoding": "utf-8-sig", "engine": "c"}), ("csv", {"encoding": "latin-1"})]
    out += [("csv", {"compression": c}) for c in ("gzip", "bz2", "zip", "xz")] + [("csv", {"compression": "gzip", "engine": "c", "sep": "|", "encoding": "utf-16"})]
    out += [("pickle", {"compression": c}) for c in ("gzip", "bz2", "zip", "xz")]
    out += [("parquet", {"compression": c, "engine": e}) for c, e in (("snappy", "fastparquet"), ("gzip", "fastparquet"), (None, "auto"))]
    return out


def series(kind, vals):
    import pandas as pd
    t, dt, _ = KINDS[kind]
    if dt == "category":
        return pd.Series(list(vals), dtype=object).astype("category")
    if dt is object or dt is bool:
        return pd.Series(list(vals), dtype=dt)
    if str(dt).startswith(("datetime", "timedelta")):
        return pd.Series([pd.NaT if v is None else v for v in vals], dtype=dt)
    return pd.Series([NAN if v is None else v for v in vals], dtype=dt)


def exact(v):
    """cell with its type"""
    import numpy as np
    import pandas as pd
    if isinstance(v, (tuple, list)):
        return tuple(exact(x) for x in v)
    if v is None or v is pd.NaT or (isinstance(v, (float, np.floating)) and v != v):
        return None
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        return ("f", float(v).hex())
    return v if isinstance(v, str) else (type(v).__name__, str(v), getattr(v, "value", None))


def frame(e):
    df = e.df if hasattr(e.df, "iloc") and not hasattr(e.df, "compute") else e.df.compute()
    return df


def properties(v):
    return {k: x for k, x in vars(v).items() if k in ("format", "categories", "range", "start_inclusive", "end_inclusive", "true_values", "false_values")}


def full(es):
    """everything that must survive"""
    out = {}
    for e in es.entities:
        df = frame(e)
        out[e.id] = {"columns": list(df.columns), "dtypes": {c: str(t) for c, t in df.dtypes.items()}, "cells": {c: [exact(v) for v in df[c].tolist()] for c in df.columns},
                     "variables": [(v.id, type(v).__name__, v.name, v.description) for v in e.variables], "properties": {v.id: properties(v) for v in e.variables},
                     "interesting": {v.id: sorted(repr(exact(x)) for x in v.interesting_values) for v in e.variables}, "ivtype": {v.id: str(v.interesting_values.dtype) for v in e.variables},
                     "keys": (e.index, e.time_index, {k: sorted(c) for k, c in e.secondary_time_index.items()}),
                     "lti": None if e.last_time_index is None or hasattr(e.last_time_index, "compute") else {norm(k): norm(x) for k, x in e.last_time_index.items()}}
    return {"ents": out, "rels": [(r._parent_entity_id, r._parent_variable_id, r._child_entity_id, r._child_variable_id) for r in es.relationships], "id": es.id,
            "time": None if es.time_type is None else es.time_type.__name__}


def compare(a, b, csv):
    bad = []
    for k in ("rels", "id", "time"):
        if a[k] != b[k]:
            bad.append("%s: %r became %r" % (k, a[k], b[k]))
    if set(a["ents"]) != set(b["ents"]):
        return bad + ["entities %r became %r" % (sorted(a["ents"]), sorted(b["ents"]))]
    for e, x in a["ents"].items():
        y = b["ents"][e]
        for k, v in x.items():
            if k == "cells" and csv:        # a csv file does not tell an empty text from a missing one
                v, w = ({c: [None if i == "" else i for i in col] for c, col in z[k].items()} for z in (x, y))
            else:
                w = y[k]
            if v != w:
                if isinstance(v, dict) and isinstance(w, dict):
                    for c in v:
                        if v[c] != w.get(c, "nothing"):
                            bad.append("%s.%s, %s: %r became %r" % (e, c, k, v[c], w.get(c, "nothing")))
                            break
                    else:
                        bad.append("%s, %s: more entries %r" % (e, k, sorted(set(w) - set(v))))
                else:
                    bad.append("%s, %s: %r became %r" % (e, k, v, w))
    return bad


def structures():
    """name -> entity set"""
    import featuretools as ft
    import pandas as pd
    V = ft.variable_types
    day = lambda *n: pd.to_datetime(["2020-01-%02d" % i if i else None for i in n])

    def base(tid="t", numeric=False, lti=False, parent_time=True):
        es = ft.EntitySet("s")
        t = (lambda *n: [float(i) for i in n]) if numeric else day
        pk = {"t": t(2, 1, 3)} if parent_time else {}
        es.entity_from_dataframe("par", pd.DataFrame({"id": ["b", "001", "NA"], "x": [1.5, None, 3.0], **pk}), index="id", time_index="t" if parent_time else None, variable_types={"id": V.Index})
        es.entity_from_dataframe("kid", pd.DataFrame({"k": [3, 1, 2, 7], "p": ["b", "001", "NA", "b"], "q": ["NA", "b", "b", "001"], "t": t(2, 5, 2, 1), "d": t(6, 7, 8, 9), "v": [1.0, 2.0, 0.1 + 0.2, None], "c": ["x", "1", "x", None]}),
                                 index="k", time_index="t", variable_types={"p": V.Id, "q": V.Id, "d": V.Numeric if numeric else V.Datetime, "c": V.Categorical})
        es.add_relationship(ft.Relationship(es["par"]["id"], es["kid"]["p"]))
        if lti:
            es.add_last_time_indexes()
        return es

    yield "two entities", base()
    yield "number times", base(numeric=True)
    yield "last time indexes", base(lti=True)
    yield "last time indexes, parent without time", base(lti=True, parent_time=False)
    for n in (1, 2):
        es = ft.EntitySet("alone")
        for e in ("first", "second")[:n]:
            es.entity_from_dataframe(e, pd.DataFrame({"i": [1, 2, 3], "t": day(3, 1, 2)}), index="i", time_index="t")
        es.add_last_time_indexes(updated_entities=["first"])
        yield "last time indexes of one of %d unrelated entities" % n, es
    es = base()
    es.add_relationship(ft.Relationship(es["par"]["id"], es["kid"]["q"]))
    yield "two relationships", es
    es = base()
    es["kid"].set_secondary_time_index({"d": ["v", "c"]})
    yield "secondary time index", es
    es = base()
    es.normalize_entity("kid", "cs", "c", make_time_index=True)
    yield "split", es
    es = base()
    es["kid"].df = es["kid"].df.iloc[[0, 3, 2, 1]]        # ties of the time index in another order
    df = es["kid"].df
    es["kid"].update_data(df.sort_values("t", kind="mergesort"), already_sorted=True)
    yield "order of ties", es
    es = ft.EntitySet()
    yield_es = es
    es.entity_from_dataframe("made", pd.DataFrame({"x": [5, 6]}), index="i", make_index=True)
    yield "made index, no name", yield_es
    es = ft.EntitySet("\u00e9 s")
    es.entity_from_dataframe("r\u00e9gion of, x", pd.DataFrame({"\u00efd": [1, 2], "a,b": ["x", "y"], 'q"c': [1.0, 2.0], "sp ace": [True, False]}), index="\u00efd")
    yield "unusual names", es
    es = base()
    es["kid"]["v"].name = "value"
    es["kid"]["v"].description = "what it is worth"
    es["par"]["x"].description = 'the "x"'
    es["kid"]["c"].name = "class"
    yield "names and descriptions", es
    es = ft.EntitySet("p")
    es.entity_from_dataframe("e", pd.DataFrame({"id": [1, 2], "b": [True, False], "d": day(1, 2), "n": [1.0, 2.0], "c": ["x", "y"], "s": pd.to_timedelta(["1 days", "2 days"]), "o": [1, 2]}), index="id",
                             variable_types={"b": (V.Boolean, {"true_values": ["ja"], "false_values": ["nein", 0]}), "d": (V.Datetime, {"format": "%Y"}), "n": (V.Numeric, {"range": [0, float("inf")], "start_inclusive": False, "end_inclusive": True}),
                                             "c": (V.Categorical, {"categories": ["x", "y", "z"]}), "s": (V.Timedelta, {"range": [0, 5], "start_inclusive": False}), "o": (V.Ordinal, {})})
    yield "properties", es
    es = base()
    es["par"].df = es["par"].df.head(0)
    es["kid"].df = es["kid"].df.head(0)
    yield "no rows", es
    es = base()
    es.add_interesting_values()
    yield "interesting values found", es
    for name, t, dt, vals in (("text", "c", None, ["x", "1"]), ("text like numbers", "c", None, ["001", "1.0"]), ("text like dates", "c", None, ["2020-01-01"]), ("floats", "v", None, [0.1 + 0.2, 1 / 3, 1e300]), ("dates", "d", None, ["2020-01-06 00:00:00.123456789", "1999-12-31"]),
                              ("ids", "p", None, ["NA", "b"]), ("integers", "k", None, [3, 2 ** 53 + 1])):
        es = base()
        es["kid"][t].interesting_values = pd.to_datetime(vals) if name == "dates" else vals
        yield "interesting values: " + name, es
    es = ft.EntitySet("w")
    es.entity_from_dataframe("e", pd.DataFrame({"id": [1, 2], "s": pd.to_timedelta(["1 days 01:02:03", "2 days"]), "b": [True, False]}), index="id", variable_types={"s": V.Timedelta, "b": V.Boolean})
    es["e"]["s"].interesting_values = pd.to_timedelta(["1 days 01:02:03.5"])
    es["e"]["b"].interesting_values = [True]
    yield "interesting values: spans and booleans", es


class P19(Check):
    id = "P19"
    rule = ("every column of up to 2 (thorough 3) rows over the alphabet of 30 kinds of column (text that looks like numbers, dates, missing values, separators and quotes; extreme numbers; dates, spans, places, truth values, categories; "
            "each with missing values) written in every format x separator, engine, encoding and compression and read back; 24 structures (time indexes, ties, secondary times, splits, last time indexes, names, properties, interesting "
            "values) in every format, also saved twice, over another set and from the loaded set, and the features computed from them. Non-trivial: a column with a missing or look-alike value")
    assumptions = ("a csv file does not distinguish an empty text from a missing one", "columns of mixed types other than text, numbers, truth values or coordinates are outside", "texts fit the chosen encoding; a csv file is not asked to hold a bare carriage return",
                   "made-up indexes come back as ordinary ones")

    def prepare(self, tier):
        self.th = tier == "thorough"

    def cases(self, tier):
        th = tier == "thorough"
        for i, (f, o) in enumerate(options(th)):
            for n in (0, 1, 2, 3) if th else (0, 1, 2):
                for k in KINDS:
                    if f == "parquet" and KINDS[k][1] == "category" and n == 0:
                        continue
                    size = len(KINDS[k][2]) ** n
                    if n == 3 and i > 2 and size > 700:
                        continue
                    for part in range(0, size, 250):
                        yield {"m": "column", "f": f, "o": o, "k": k, "n": n, "part": part}
        names = [n for n, _ in structures()]
        for f, o in options(th):
            for n in names:
                if n == "unusual names" and o.get("encoding") == "latin-1" and False:
                    continue
                yield {"m": "structure", "f": f, "o": o, "s": n}
        for f in ("csv", "parquet"):
            for parts in (1, 2):
                yield {"m": "dask", "f": f, "parts": parts}

    def save(self, es, f, o, path):
        getattr(es, "to_" + f)(path, **o)

    def run(self, case, st):
        import featuretools as ft
        import pandas as pd
        st.sample(case)
        d = tempfile.mkdtemp(prefix="p19-")
        try:
            if case["m"] == "column":
                return self.column(case, st, d)
            if case["m"] == "dask":
                return self.dask(case, st, d)
            return self.structure(case, st, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def column(self, case, st, d):
        import featuretools as ft
        import pandas as pd
        V = ft.variable_types
        kind, n = case["k"], case["n"]
        t, dt, vals = KINDS[kind]
        if case["o"].get("encoding") == "latin-1":
            vals = [v for v in vals if v in LATIN or not isinstance(v, str)]
        if case["f"] == "parquet" and kind == "span":
            vals = [v for v in vals if not (v and "999999999" in v)]        # the parquet library holds spans in microseconds
        if case["f"] == "csv":
            vals = [v for v in vals if not (isinstance(v, str) and "\r" in v)]
        combos = list(itertools.product(vals, repeat=n))[case["part"]:case["part"] + 250]
        if dt == "category" and case["f"] == "parquet":
            combos = [c for c in combos if set(c) != {None}]        # the parquet library cannot read a column of no categories
        if not combos:
            return []
        df = pd.DataFrame({"id": pd.Series(range(n), dtype="int64"), **{"c%d" % i: series(kind, c) for i, c in enumerate(combos)}})
        es = ft.EntitySet("s")
        es.entity_from_dataframe("e", df, index="id", variable_types={"c%d" % i: getattr(V, t) for i in range(len(combos))})
        before = full(es)
        self.save(es, case["f"], case["o"], d)
        bad = [] if full(es) == before else ["saving changed the entity set"]
        back = full(ft.read_entityset(d))
        st.add("evaluations", len(combos))
        for c in combos:
            if None in c or "NA" in c or "001" in c:
                st.seen("nontrivial", (kind, repr(c), case["f"], repr(case["o"])))
        bad += compare(before, back, case["f"] == "csv")
        return bad[:3]

    def structure(self, case, st, d):
        import featuretools as ft
        es = dict(structures())[case["s"]]
        csv = case["f"] == "csv"
        before = full(es)
        self.save(es, case["f"], case["o"], d)
        bad = [] if full(es) == before else ["saving changed the entity set"]
        new = ft.read_entityset(d)
        back = full(new)
        st.add("evaluations")
        st.seen("nontrivial", (case["s"], case["f"], repr(case["o"])))
        bad += compare(before, back, csv)
        again = ft.read_entityset(d)
        if full(again) != back:
            bad.append("read twice it differs")
        if meta_view(new.metadata) != meta_view(new):
            bad.append("the metadata of the loaded entity set differs from it")
        if not bad and not (es == new and new == es):
            bad.append("the loaded entity set is not equal to the original")
        if not bad and case["s"] != "no rows" and not csv and not es.__eq__(new, deep=True):
            bad.append("the loaded entity set is not deeply equal to the original")
        if bad:
            return bad[:3]
        # over the same place, from the loaded set, in the other formats
        self.save(new, case["f"], case["o"], d)
        bad += ["from the loaded set: " + x for x in compare(before, full(ft.read_entityset(d)), csv)]
        d2 = os.path.join(d, "other")
        self.save(new, "pickle" if csv else "csv", {}, d2)
        bad += ["from the loaded set, the other format: " + x for x in compare(before, full(ft.read_entityset(d2)), True)]
        if "par" in es.entity_dict and case["s"] != "no rows" and case["o"] in ({}, {"engine": "fastparquet"}):
            bad += self.features(es, new)
        return bad[:3]

    def features(self, es, new):
        import featuretools as ft
        bad = []
        for target in es.entity_dict:
            out = []
            for x in (es, new):
                fs = ft.dfs(entityset=x, target_entity=target, features_only=True, max_depth=2, agg_primitives=["count", "sum", "last", "mode", "num_unique"], trans_primitives=["month", "cum_sum", "num_characters"], where_primitives=["count"])
                fm = ft.calculate_feature_matrix(fs, x)
                out.append(([f.get_name() for f in fs], [exact(i) for i in fm.index], {c: [exact(v) for v in fm[c].tolist()] for c in fm.columns}))
            if sorted(out[0][0]) != sorted(out[1][0]):
                bad.append("features of %s: %r became %r" % (target, out[0][0], out[1][0]))
            elif out[0][1] != out[1][1]:
                bad.append("rows of %s: %r became %r" % (target, out[0][1], out[1][1]))
            else:
                bad += ["feature %s of %s: %r became %r" % (c, target, v, out[1][2][c]) for c, v in out[0][2].items() if v != out[1][2][c]]
        return bad[:2]

    def dask(self, case, st, d):
        import dask.dataframe as dd
        import featuretools as ft
        import pandas as pd
        V = ft.variable_types
        es = ft.EntitySet("s")
        df = pd.DataFrame({"id": [1, 2, 3], "s": ["001", "NA", None], "x": [1.5, None, 0.1 + 0.2], "t": pd.to_datetime(["2020-01-01", "2020-01-02", "2020-01-03"]), "g": [(1.0, 2.0), (0.5, -1.0), (NAN, NAN)]})
        es.entity_from_dataframe("e", dd.from_pandas(df, npartitions=case["parts"]), index="id", time_index="t", variable_types={"id": V.Index, "s": V.Categorical, "x": V.Numeric, "t": V.DatetimeTimeIndex, "g": V.LatLong})
        before = full(es)
        self.save(es, case["f"], {}, d)
        st.add("evaluations")
        st.seen("nontrivial", ("dask", case["f"], case["parts"]))
        a, b = before, full(ft.read_entityset(d))
        for z in (a, b):
            z["ents"]["e"]["lti"] = z["ents"]["e"]["ivtype"] = None
            z["ents"]["e"]["dtypes"] = {c: t for c, t in z["ents"]["e"]["dtypes"].items() if c not in ("s", "g")}
        return compare(a, b, case["f"] == "csv")[:3]


CHECK = P19()

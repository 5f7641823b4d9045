"""P34: entity set queries: every way of asking for values, times, windows and columns on every small table, against a row model."""
import datetime
import itertools

from ..core import Check

BASE = datetime.datetime(2020, 1, 1)
IDS = ("c", "a", "d", "b")
KS = ("x", "y", None, "x")
NS = (1.0, None, 2.0, 1.0)
FS = (True, False, True, False)
COLS = ("id", "k", "n", "f", "t", "s", "v", "u")
COLUMNS = (None, ["n"], ["v", "id"], ["u", "s", "t", "k"], list(COLS[::-1]))


class World(object):
    """rows in the order of the entity, as dictionaries; time as ticks"""

    def __init__(self, times, secs, kids, kind, ti, sec, lti, cat):
        import featuretools as ft
        import pandas as pd
        from featuretools import variable_types as vt
        self.ft, self.kind, self.ti, self.lti, self.sec = ft, kind, ti, lti, sec
        n = len(times)
        # "u" is an ordinary column with a value on every row, "v" is governed by the secondary time "s"
        rows = [{"id": IDS[i], "k": KS[i], "n": NS[i], "f": FS[i], "t": times[i], "s": secs[i], "v": 10.0 + i, "u": "u%d" % i} for i in range(n)]
        T = (lambda x: pd.NaT if x is None else pd.Timestamp(BASE) + pd.Timedelta(hours=x)) if kind == "dt" else (lambda x: float("nan") if x is None else float(x))
        df = pd.DataFrame({c: [r[c] for r in rows] for c in COLS})
        for c in ("t", "s"):
            df[c] = pd.Series([T(r[c]) for r in rows], dtype="datetime64[ns]" if kind == "dt" else "float64")
        df["n"] = df["n"].astype(float)
        if cat:
            df["k"] = pd.Categorical(df["k"], categories=["x", "y", "q"])
        es = ft.EntitySet("q")
        types = {"k": vt.Categorical, "n": vt.Numeric, "f": vt.Boolean, "v": vt.Numeric, "u": vt.Categorical}
        if not ti:
            types["t"] = vt.Datetime if kind == "dt" else vt.Numeric
        es.entity_from_dataframe("p", df, index="id", time_index="t" if ti else None, variable_types=types, secondary_time_index={"s": ["v"]} if sec else None)
        kdf = pd.DataFrame({"id": list(range(len(kids))), "p_id": pd.Series([IDS[p] for p, _ in kids], dtype=object), "t": [T(x) for _, x in kids]})
        kdf["t"] = kdf["t"].astype("datetime64[ns]" if kind == "dt" else "float64")
        es.entity_from_dataframe("c", kdf, index="id", time_index="t", variable_types={"p_id": vt.Id})
        es.add_relationship(ft.Relationship(es["p"]["id"], es["c"]["p_id"]))
        if lti:
            es.add_last_time_indexes()
        self.es = es
        for i, r in enumerate(rows):
            ts = [x for p, x in kids if p == i and x is not None] + ([r["t"]] if r["t"] is not None and ti else [])
            r["lti"] = max(ts) if ts else None
        self.rows = sorted(rows, key=lambda r: (r["t"] is None, r["t"] or 0, r["id"])) if ti else rows
        self.T = T

    def time(self, x):
        return None if x is None else self.T(x)

    def want(self, values, var, cols, at, window, incl):
        out = []
        for r in self.rows:
            if values is not None and (r[var] is None or r[var] not in values):
                continue
            if self.ti and at is not None:
                t = r["t"]
                if t is None or not (t <= at if incl else t < at):
                    continue
                if window is not None:
                    lo = at - window
                    within = (lambda x: x is not None and (x > lo if incl else x >= lo))
                    if not within(t) and not (self.lti and within(r["lti"])):
                        continue
            row = dict(r)
            if self.sec and at is not None and r["s"] is not None and r["s"] >= at:
                row["s"] = row["v"] = None
            out.append((r["id"], [row[c] for c in (cols or COLS)]))
        return out

    def norm(self, v, c):
        import pandas as pd
        if v is None or v is pd.NaT or v != v:
            return None
        if c in ("t", "s"):
            return (v - pd.Timestamp(BASE)) / pd.Timedelta(hours=1) if self.kind == "dt" else float(v)
        if c == "f":
            return bool(v)
        return v


def forms(var):
    """what is asked for, and the same as plain values"""
    import numpy as np
    import pandas as pd
    vals = {"id": ("a", "d", "none"), "k": ("x", "y", "none"), "n": (1.0, 2.0, 7.0), "f": (True, False, None)}[var]
    a, b, z = vals
    out = [(None, None), (a, [a]), (z, [z]) if z is not None else (b, [b]), ([a], [a]), ([b, a], [a, b]), ([a, a, b, a], [a, b]), ([], []), ([z] if z is not None else [b, b], [z] if z is not None else [b]),
           (pd.Series([b, a], index=[9, 4], name="other"), [a, b]), (pd.Series([a, None, b], name=var), [a, b]), (pd.Series([], dtype=object), []), (pd.Series([None], dtype=object), []),
           (pd.DataFrame({"w": [0, 1], var: [a, a]}, index=["r", "s"]), [a]), (pd.DataFrame({var: [a, b], "w": [0, 1]}), [a, b]), (np.array([b, a], dtype=object), [a, b]), ((a, b), [a, b])]
    return [o for o in out if o[0] is None or not (var == "f" and isinstance(o[0], pd.Series) and o[0].isnull().any())]


class P34(Check):
    id = "P34"
    rule = ("every table of up to 3 rows over 3 times and missing, with secondary times at, before and after each of them, with and without time index, secondary time index, last time indexes, category columns and numbers for times x "
            "16 forms of values (single, lists, arrays, series, tables; repeated, unknown, missing and none) of 4 variables x 5 choices of columns x 5 times (missing too) x 4 windows x data at the time included or not (quick: all times and windows for two forms, every 7th for the others); rows, order, labels, "
            "columns and values compared with a row model, and the entity set with its state before. Non-trivial: distinct queries that select some but not all rows")
    assumptions = ("values are given in containers with an order",)

    def prepare(self, tier):
        self.th = tier == "thorough"

    def cases(self, tier):
        for n in (1, 2, 3):
            for times in itertools.product((0, 1, 2, None), repeat=n):
                k = hash_of(times)
                for j, (kind, ti, sec, lti, cat) in enumerate(itertools.product(("dt", "num"), (True, False), (True, False), (False, True), (False, True))):
                    if not self.th and n > 1 and (k + j) % (4, 17)[n - 2]:
                        continue
                    yield {"times": list(times), "kind": kind, "ti": ti, "sec": sec, "lti": lti, "cat": cat, "k": k + j}

    def run(self, case, st):
        from .. import esops
        st.sample(case)
        times = case["times"]
        n, k = len(times), case["k"]
        bad = []
        secsets = list(itertools.product((0, 1, 2, None), repeat=n))
        if not self.th:
            secsets = [secsets[(k * 7 + j * 23) % len(secsets)] for j in range(2 if n > 1 else 4)]
        for q, secs in enumerate(dict.fromkeys(secsets)):
            kids = [(i % n, (i + k + q) % 4) for i in range(n + 1)] if n else []
            w = World(times, secs, kids, case["kind"], case["ti"], case["sec"], case["lti"], case["cat"])
            before = esops.snap(w.es)
            m = 0
            for var in ("id", "k", "n", "f"):
                for fi, (ask, plain) in enumerate(forms(var)):
                    for at in (None, 0, 1, 1.5, 2):
                        for window in (None, 1, 2, 0.5) if case["kind"] == "dt" and at is not None else (None,):
                            for incl in (True, False):
                                m += 1
                                if not self.th and fi not in (0, 4) and (m + k) % 7:
                                    continue
                                cols = COLUMNS[m % len(COLUMNS)]
                                bad += self.ask(w, ask, plain, var, cols, at, window, incl, st, "%s form %d" % (case, fi), m)
                                if len(bad) > 2:
                                    return bad
            if esops.snap(w.es) != before:
                bad.append("%s: queries changed the entity set" % (case,))
        return bad

    def ask(self, w, ask, plain, var, cols, at, window, incl, st, tag, m):
        st.add("evaluations")
        kw = {}
        if at is not None:
            t = w.time(at)
            if w.kind == "dt":
                t = (t, t.to_pydatetime(), t.to_datetime64() if window is None else t)[m % 3]
            kw["time_last"] = t
        if window is not None:
            kw["training_window"] = w.ft.Timedelta(int(window * 60), "m") if m % 2 else "%d minutes" % (window * 60)
        if not incl:
            kw["include_cutoff_time"] = False
        variable = None if var == "id" and m % 2 else var
        got = w.es.query_by_values("p", ask, variable_id=variable, columns=None if cols is None else list(cols), **kw)
        want = w.want(plain, var, cols, at, window, incl)
        tag = "%s: %s in %r at %r window %r incl %r" % (tag, variable, plain, at, window, incl)
        if list(got.columns) != list(cols or w.es["p"].df.columns):
            return ["%s: columns %r, expected %r" % (tag, list(got.columns), cols)]
        names = list(got.columns)
        if cols is None:
            want = [(i, [dict(zip(COLS, r))[c] for c in names]) for i, r in want]
        have = [(i, [w.norm(v, c) for v, c in zip(r, names)]) for i, r in zip(got.index, got.values.tolist() if len(names) == 1 else zip(*[got[c] for c in names]))]
        if 0 < len(want) < len(w.rows):
            st.seen("nontrivial", tag)
        if have != want:
            return ["%s: %r, expected %r" % (tag, have[:3], want[:3])]
        if "k" in names and got["k"].dtype != w.es["p"].df["k"].dtype:
            return ["%s: type of k became %s" % (tag, got["k"].dtype)]
        return []

    def finish(self, tier, counts, sets):
        n = len(sets.get("nontrivial", ()))
        return {}, ([] if n > 2000 else ["only %d non-trivial queries" % n])


def hash_of(times):
    return sum((0 if t is None else t + 1) * 5 ** i for i, t in enumerate(times))


CHECK = P34()

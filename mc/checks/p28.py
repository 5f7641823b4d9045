"""P28: every aggregation primitive on every small column: one instance per column, values compared with the documented functions."""
import itertools
import math

from ..core import Check, Problem

UNITS = {"years": 31540000.0, "months": 2628000.0, "days": 86400.0, "hours": 3600.0, "minutes": 60.0, "seconds": 1.0, "milliseconds": 0.001, "nanoseconds": 1e-9}
BASES = {"day": "2020-01-02", "hour": "2020-01-02 05:00:00", "minute": "2020-01-02 05:07:00", "second": "2020-01-02 05:07:11"}
STEPS = (0, 1, 60, 90000)
ALPHABETS = {
    "float": [0.0, 1.0, 2.5, -1.0, None], "int": [0, 1, -2, 7], "bigint": [2 ** 53 + 1, 1, -3], "gap": [0.0, 1.0, None], "bool": [True, False], "boolgap": [True, False, None], "text": ["x", "y", "", None], "category": ["x", "y", "z", None],
    "number": [1, 2, None], "whole": [3, 1], "ordered": [1.0, 2.0, None],
}
NONE = (None,)      # "any of these values": missing


def known(x):
    return [v for v in x if v is not None]


def mean(v):
    return math.fsum(v) / len(v)


class One(object):
    """one of several acceptable values"""

    def __init__(self, *vs):
        self.vs = vs


def ref(name, x, times=None, now=None):
    v = known(x or ())
    if name == "count":
        return len(x)
    if name == "sum":
        return sum(v)
    if name == "mean":
        return mean(v) if v else None
    if name == "mean_all":
        return mean(v) if v and len(v) == len(x) else None
    if name == "min":
        return min(v) if v else None
    if name == "max":
        return max(v) if v else None
    if name == "median":
        s = sorted(v)
        return None if not s else s[len(s) // 2] if len(s) % 2 else (s[len(s) // 2 - 1] + s[len(s) // 2]) / 2.0
    if name == "std":
        return math.sqrt(mean([(y - mean(v)) ** 2 for y in v])) if v else None
    if name == "skew":
        n = len(v)
        if n < 3:
            return None
        m = mean(v)
        m2, m3 = mean([(y - m) ** 2 for y in v]), mean([(y - m) ** 3 for y in v])
        return 0.0 if m2 == 0 else math.sqrt(n * (n - 1)) / (n - 2) * m3 / m2 ** 1.5
    if name == "first":
        return x[0]
    if name == "last":
        return x[-1]
    if name in ("num_unique", "num_unique_o"):
        return len(set(v))
    if name == "mode":
        best = max([v.count(y) for y in v]) if v else 0
        return One(*[y for y in v if v.count(y) == best]) if v else None
    if name == "num_true":
        return sum(1 for y in v if y)
    if name == "percent_true":
        return sum(1 for y in v if y) / float(len(x))
    if name == "any":
        return any(v)
    if name == "all":
        return all(v) if len(v) == len(x) or not all(v) else One(True, False)
    if name.startswith("entropy"):
        drop, base = name.split("_")[1] == "drop", name.split("_")[2]
        y = v if drop else x
        if not y:
            return One(None, 0.0)
        h = -math.fsum(p * math.log(p) for p in [y.count(k) / float(len(y)) for k in set(y)])
        return h / math.log(2) if base == "2" else h
    if name.startswith("avg_time"):
        u = UNITS[name.split("_")[2]]
        return None if len(times) < 2 else (max(times) - min(times)) / float(len(times) - 1) / u
    if name.startswith("since_first"):
        return (now - times[0]) / UNITS[name.split("_")[2]]
    if name.startswith("since_last"):
        return (now - times[-1]) / UNITS[name.split("_")[2]]
    if name == "trend":
        # in units of the coarsest of day, hour, minute, second that divides the time of the first known value
        p = [(t, y) for t, y in zip(times, x) if y is not None]
        if len(p) <= 2:
            return None
        mt, my = mean([a for a, _ in p]), mean([b for _, b in p])
        s = math.fsum((a - mt) ** 2 for a, _ in p)
        if s == 0:
            return 0.0
        unit = next((u for u in (86400, 3600, 60) if p[0][0] % u == 0), 1)
        return math.fsum((a - mt) * (b - my) for a, b in p) / s * unit
    raise ValueError(name)


def nmost_ok(got, x, n):
    """the n most frequent values in order of their counts, padded with missing values"""
    v = known(x)
    counts = sorted([v.count(y) for y in set(v)], reverse=True)[:n]
    g = [y for y in got if y is not None]
    return list(got)[len(g):] == [None] * (n - len(g)) and len(g) == len(counts) and len(set(g)) == len(g) and all(y in v for y in g) and [v.count(y) for y in g] == counts


EMPTY = {"count": 0, "sum": 0, "num_true": 0, "percent_true": 0}
NUMERIC = ["count", "sum", "mean", "mean_all", "min", "max", "median", "skew", "std", "first", "last"]
DISCRETE = ["mode", "num_unique", "nmost1", "nmost2", "nmost3", "entropy_keep_e", "entropy_drop_e", "entropy_keep_2", "first", "last"]
BOOLEAN = ["any", "all", "num_true", "percent_true", "first", "last"]
FEATS = {"float": NUMERIC, "int": NUMERIC, "bigint": ["sum", "min", "max", "first", "last"], "gap": NUMERIC, "bool": BOOLEAN, "boolgap": BOOLEAN, "text": DISCRETE, "category": DISCRETE, "number": DISCRETE, "whole": DISCRETE,
         "ordered": ["mode", "num_unique", "nmost2", "first", "last"], "time": ["avg_time_" + u for u in UNITS] + ["since_first_" + u for u in UNITS] + ["since_last_" + u for u in UNITS], "trend": ["trend"]}


def primitive(fp, name):
    if name.startswith("nmost"):
        return fp.NMostCommon(n=int(name[5:]))
    if name.startswith("entropy"):
        return fp.Entropy(dropna="drop" in name, base=2 if name.endswith("2") else None)
    if name == "mean_all":
        return fp.Mean(skipna=False)
    for p, c in (("avg_time_", fp.AvgTimeBetween), ("since_first_", fp.TimeSinceFirst), ("since_last_", fp.TimeSinceLast)):
        if name.startswith(p):
            return c(unit=name[len(p):])
    return {"count": fp.Count, "sum": fp.Sum, "mean": fp.Mean, "min": fp.Min, "max": fp.Max, "median": fp.Median, "skew": fp.Skew, "std": fp.Std, "first": fp.First, "last": fp.Last, "mode": fp.Mode, "num_unique": fp.NumUnique,
            "any": fp.Any, "all": fp.All, "num_true": fp.NumTrue, "percent_true": fp.PercentTrue, "trend": fp.Trend}[name]


def series(vals, kind):
    import numpy as np
    import pandas as pd
    if kind in ("int", "bigint", "whole"):
        return pd.Series(vals, dtype="int64")
    if kind in ("float", "gap", "ordered", "trend", "number"):
        return pd.Series([np.nan if v is None else float(v) for v in vals], dtype="float64")
    if kind == "bool":
        return pd.Series(vals, dtype="bool")
    if kind == "category":
        return pd.Series(vals, dtype="object").astype("category")
    return pd.Series(vals, dtype="object")


def vtype(ft, kind):
    V = ft.variable_types
    return V.Numeric if kind in ("float", "int", "bigint", "gap", "trend") else V.Boolean if kind in ("bool", "boolgap") else V.Ordinal if kind == "ordered" else V.Categorical


def value(v):
    import math as m
    import numpy as np
    import pandas as pd
    if v is None or v is pd.NaT:
        return None
    if isinstance(v, (float, np.floating)):
        return None if m.isnan(v) else float(v)
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, np.integer):
        return int(v)
    return v


def equal(got, want, tol=1e-9):
    if isinstance(want, One):
        return any(equal(got, w) for w in want.vs)
    if got is None or want is None:
        return got is None and want is None
    if isinstance(want, (float, int)) and not isinstance(want, bool):
        if isinstance(got, bool) or isinstance(got, str):
            return False
        if isinstance(want, int) and isinstance(got, int):
            return want == got
        return abs(got - want) <= tol * max(1.0, abs(want))
    if isinstance(want, bool):
        return not isinstance(got, str) and got == want
    return got == want


def fuzz(x, ts):
    """a least squares fit over nanoseconds since 1970 has few digits: relative to the steepest change in the series"""
    p = [(t, y) for t, y in zip(ts, x) if y is not None]
    gaps = [b[0] - a[0] for a, b in zip(p, p[1:]) if b[0] > a[0]]
    if not gaps:
        return 1e-9
    unit = next((u for u in (86400, 3600, 60) if p[0][0] % u == 0), 1)
    return 1e-6 * max(1.0, (max(y for _, y in p) - min(y for _, y in p)) * unit / float(p[-1][0] - p[0][0]))


class P28(Check):
    id = "P28"
    rule = ("every column of up to 4 values (thorough: 6, 5 for the large alphabets) over 11 alphabets with missing values, in 8 kinds of storage, for every aggregation primitive and its parameters: all columns of one kind and length as children of one instance each "
            "(with an instance without rows), in ascending and descending order of instances, and each column of up to 2 values alone; every non-decreasing series of up to 4 times for the time primitives in every unit, every column with times for the trend. "
            "Non-trivial: distinct (primitive, column) with at least one known value")
    assumptions = ("which of equally frequent values is chosen is not stated", "whether missing values count for `all` is not stated", "the unit of a trend follows from the first time as in the documented example")

    def prepare(self, tier):
        self.th = tier == "thorough"

    def cases(self, tier):
        for kind, al in ALPHABETS.items():
            for n in range(1, (8 if len(al) < 3 else 7 if len(al) < 4 else 6) if self.th else 5):
                for order in ("up", "down", "mixed"):
                    yield {"kind": kind, "n": n, "order": order}
        for kind, al in ALPHABETS.items():
            for n in (1, 2, 3) if self.th else (1, 2):
                for col in itertools.product(range(len(al)), repeat=n):
                    yield {"kind": kind, "alone": list(col)}
        for n in range(1, 6 if self.th else 5):
            for b in BASES:
                yield {"kind": "time", "n": n, "base": b}
                yield {"kind": "trend", "n": n, "base": b}

    def run(self, case, st):
        st.sample(case)
        kind = case["kind"]
        now = "2020-02-01"
        if kind in ("time", "trend"):
            import pandas as pd
            t0 = pd.Timestamp(BASES[case["base"]])
            cols = []
            for steps in itertools.product(STEPS, repeat=case["n"] - 1) if case["n"] < 4 or (self.th and case["n"] < 5) else itertools.product(STEPS[::2], repeat=case["n"] - 1):
                ts = [t0.value // 10 ** 9]
                for s in steps:
                    ts.append(ts[-1] + s)
                if kind == "time":
                    cols.append((None, ts))
                else:
                    cols += [(list(x), ts) for x in itertools.product([0.0, 1.0, 5.0, None] if case["n"] < 4 or (self.th and case["n"] < 5) else [1.0, 5.0, None], repeat=case["n"])]
            return self.batch(kind, cols, "mixed", now, st)
        al = ALPHABETS[kind]
        if "alone" in case:
            return self.batch(kind, [([al[i] for i in case["alone"]], None)], "up", now, st, empty=False)
        return self.batch(kind, [(list(c), None) for c in itertools.product(al, repeat=case["n"])], case["order"], now, st, empty=kind != "bigint")

    def batch(self, kind, cols, order, now, st, empty=True):
        import featuretools as ft
        import pandas as pd
        N = len(cols)
        rows = []
        for i, (x, ts) in enumerate(cols):
            for j in range(len(x if x is not None else ts)):
                rows.append((i, j, None if x is None else x[j], None if ts is None else ts[j]))
        # rows of different instances can come one after the other or interleaved
        if order == "mixed":
            rows.sort(key=lambda r: (r[1], -r[0]) if kind not in ("time", "trend") else (r[1], r[0] * 7919 % max(N, 1)))
        elif order == "down":
            rows.sort(key=lambda r: (-r[0], r[1]))
        n = len(rows)
        ids = [1000 - k if order == "down" else k for k in range(N + (1 if empty else 0))]
        es = ft.EntitySet("e")
        es.entity_from_dataframe("A", pd.DataFrame({"id": ids}), index="id")
        d = {"id": range(n), "a": [ids[r[0]] for r in rows], "t": [pd.Timestamp("2020-01-01") + pd.Timedelta(seconds=k) if r[3] is None else pd.Timestamp(r[3] * 10 ** 9) for k, r in enumerate(rows)]}
        vt = {"a": ft.variable_types.Id}
        if kind != "time":
            d["v"] = series([r[2] for r in rows], kind)
            vt["v"] = vtype(ft, kind)
        es.entity_from_dataframe("B", pd.DataFrame(d), index="id", time_index="t", variable_types=vt)
        es.add_relationship(ft.Relationship(es["A"]["id"], es["B"]["a"]))
        names = FEATS[kind]
        fs = []
        for m in names:
            base = es["B"]["id"] if m == "count" else es["B"]["t"] if kind == "time" else [es["B"]["v"], es["B"]["t"]] if m == "trend" else es["B"]["v"]
            fs.append(ft.Feature(base, parent_entity=es["A"], primitive=primitive(ft.primitives, m)))
        fm = ft.calculate_feature_matrix(fs, es, cutoff_time=pd.Timestamp(now), instance_ids=ids[::-1] if order == "mixed" else None)
        st.add("evaluations", N * len(fs))
        fm = fm.loc[ids]
        secs = pd.Timestamp(now).value // 10 ** 9
        bad = []
        for m, f in zip(names, fs):
            outs = [[value(v) for v in fm[c].tolist()] for c in f.get_feature_names()]
            for i in range(len(ids)):
                got = tuple(o[i] for o in outs)
                if i == N:
                    if got != (EMPTY.get(m),) * len(outs):
                        bad.append(Problem("%s without any row is %r" % (m, got), "empty:" + m))
                    continue
                x, ts = cols[i]
                if m.startswith("nmost"):
                    ok, want = nmost_ok(got, x, int(m[5:])), "its most common values"
                else:
                    want = ref(m, x, ts, secs)
                    ok = equal(got[0], want, fuzz(x, ts) if m == "trend" else 1e-9)
                if known(x or ts):
                    st.seen("nontrivial", (m, kind, x, ts))
                if not ok:
                    key = None
                    if m == "std":
                        v = known(x)
                        sample = None if len(v) < 2 else math.sqrt(math.fsum((y - mean(v)) ** 2 for y in v) / (len(v) - 1))
                        if equal(got[0], sample):
                            key = "P28:std-sample"
                    show = [y.vs for y in [want] if isinstance(y, One)] or want
                    bad.append(Problem("%s of the %s column %r%s is %r instead of %r" % (m, kind, x, "" if ts is None else " at %r" % (ts,), got if len(got) > 1 else got[0], show), key))
        seen = {}
        for p in bad:
            seen.setdefault((p.key, p.msg.split(" of ")[0]), p)
        return list(seen.values())[:6]


CHECK = P28()

"""P29: every transform primitive on every small column (or pair of columns), values compared with the documented functions, row by row."""
import datetime
import itertools
import math

from ..core import Check, Problem
from .p28 import UNITS, One, known, value

D = datetime.datetime
NOW = D(2020, 3, 1, 12, 30, 15)
FAR = [(0.0, 0.0), (42.4, -71.1), (-42.4, 108.9), (90.0, 180.0), (-90.0, 0.0), (0.0, 180.0), (10.0, -179.5), (10.0, 179.5), (-1.0, -178.0), (1.0, 2.0), (None, 5.0), None]
ALPHABETS = {
    "float": [0.0, 1.0, -2.5, 3.0, None], "int": [0, 1, -3, 7], "bool": [True, False], "boolgap": [True, False, None], "text": ["x", "y", "", None], "category": ["x", "y", None], "category2": ["z", "y", None],
    "time": [D(2020, 1, 1), D(2020, 1, 1, 0, 0, 1), D(2019, 12, 31, 23), D(2020, 3, 1, 12, 30, 15), D(2021, 1, 1, 0, 0, 0, 1), None], "rank": [1.0, 2.0, 3.0, None], "rankword": ["a", "b", "c"],
    "place": FAR, "words": ["".join(w) for n in range(4) for w in itertools.product("a é", repeat=n)] + [None], "birth": [D(2000, 1, 1), D(2000, 2, 29), D(1960, 7, 1), D(2020, 2, 29), D(2020, 3, 1), None],
}
PAIRS = [("float", "float"), ("float", "int"), ("int", "float"), ("int", "int"), ("bool", "bool"), ("boolgap", "bool"), ("bool", "boolgap"), ("boolgap", "boolgap"), ("float", "bool"), ("bool", "int"), ("int", "bool"), ("text", "text"), ("text", "category"),
         ("category", "category2"), ("category", "category"), ("time", "time"), ("rank", "rank"), ("rankword", "rankword"), ("place", "place"), ("words", "birth")]
NUM, TIME, BOOL, RANK = ("float", "int"), ("time",), ("bool", "boolgap"), ("rank", "rankword")
SCALARS = {"float": [0, 1, -2.5, 2], "int": [0, 1, -3, 2.5], "time": [D(2020, 1, 1), D(2020, 3, 1)], "rank": [2.0], "rankword": ["b"], "text": ["x", ""], "category": ["x", "q"], "bool": [True], "boolgap": [False]}


def div(x, y):
    if y == 0:
        return None if x == 0 else math.copysign(math.inf, x)      # neither documented nor surprising; the sign of the zero is the caller's
    return x / float(y)


def mod(x, y):
    return None if y == 0 else x - math.floor(x / float(y)) * y


def strictly(f):
    return lambda x, y: None if x is None or y is None else f(x, y)


def compare(f, missing=False):
    return lambda x, y: missing if x is None or y is None else f(x, y)


def equality(f):
    return lambda x, y: One(True, False) if x is None and y is None else f(x, y)


def logic(f):
    def g(*xs):
        if None not in xs:
            return f(*xs)
        return One(None, *[f(*[w if v is None else v for v, w in zip(xs, ws)]) for ws in itertools.product([True, False], repeat=len(xs))])
    return g


def angle(p, q):
    """the central angle by the vector formula"""
    a, b, c, d = [math.radians(v) for v in (p[0], p[1], q[0], q[1])]
    dl = d - b
    return math.atan2(math.hypot(math.cos(c) * math.sin(dl), math.cos(a) * math.sin(c) - math.sin(a) * math.cos(c) * math.cos(dl)), math.sin(a) * math.sin(c) + math.cos(a) * math.cos(c) * math.cos(dl))


def haversine(radius):
    def f(p, q):
        if p is None or q is None or None in p or None in q:
            return None
        return radius * angle(p, q)
    return f


def week(d):
    """January 1 is in week 1; every later Monday starts a new week"""
    n, day = 1, D(d.year, 1, 1)
    while day.date() < d.date():
        day += datetime.timedelta(days=1)
        n += day.weekday() == 0
    return n


def at(f):
    return lambda x: None if x is None else f(x)


def since(unit):
    return lambda x, now: None if x is None else ((now - x).days * 86400 + (now - x).seconds + (now - x).microseconds * 1e-6) / UNITS[unit]


def age(x, now):
    if x is None:
        return None
    d = (now - x).total_seconds() / 86400.0
    return One(math.floor(d) / 365.0, math.ceil(d) / 365.0) if d < 0 else math.floor(d) / 365.0


OPS = {"gt": lambda x, y: x > y, "ge": lambda x, y: x >= y, "lt": lambda x, y: x < y, "le": lambda x, y: x <= y}
COMPARE = {"gt": "GreaterThan", "ge": "GreaterThanEqualTo", "lt": "LessThan", "le": "LessThanEqualTo"}
ARITH = {"add": ("AddNumeric", lambda x, y: x + y), "sub": ("SubtractNumeric", lambda x, y: x - y), "mul": ("MultiplyNumeric", lambda x, y: x * y), "div": ("DivideNumeric", div), "mod": ("ModuloNumeric", mod)}
SWAP = {"sub": "ScalarSubtractNumericFeature", "div": "DivideByFeature", "mod": "ModuloByFeature"}


def binary(fp, kx, ky):
    """(label, primitive, reference) for a pair of columns"""
    out = []
    if kx in NUM and ky in NUM:
        for k, (c, f) in ARITH.items():
            out.append((k, getattr(fp, c)(), strictly(f)))
    if (kx in NUM and ky in NUM) or kx == ky and kx in TIME + RANK:
        for k, c in COMPARE.items():
            out.append((k, getattr(fp, c)(), compare(OPS[k])))
    if "words" not in (kx, ky) and "place" not in (kx, ky):
        out.append(("eq", fp.Equal(), equality(lambda x, y: x == y)))
        out.append(("ne", fp.NotEqual(), equality(lambda x, y: x != y)))
    if kx in BOOL and ky in BOOL:
        out += [("and", fp.And(), logic(lambda x, y: x and y)), ("or", fp.Or(), logic(lambda x, y: x or y)), ("both", fp.MultiplyBoolean(), logic(lambda x, y: x and y))]
    elif kx in NUM + ("bool",) and ky in NUM + ("bool",) and not (kx in NUM and ky in NUM):
        out.append(("mul", fp.MultiplyNumeric(), strictly(lambda x, y: x * y)))
    if (kx, ky) == ("place", "place"):
        out += [("miles", fp.Haversine(), haversine(3958.7613)), ("km", fp.Haversine(unit="kilometers"), haversine(6371.0088))]
    return out


def unary(fp, k, now=NOW):
    """(label, primitive, reference, needs the time)"""
    out = [("is_null", fp.IsNull(), lambda x: One(True, False) if x is None and k == "place" else x is None)]
    for s in SCALARS.get(k, []):
        if k in NUM + TIME + RANK:
            for n, c in COMPARE.items():
                out.append(("%s %r" % (n, s), getattr(fp, c + "Scalar")(value=s), lambda x, n=n, s=s: x is not None and OPS[n](x, s)))
        out.append(("eq %r" % (s,), fp.EqualScalar(value=s), lambda x, s=s: x is not None and x == s))
        out.append(("ne %r" % (s,), fp.NotEqualScalar(value=s), lambda x, s=s: x is None or x != s))
        if k in NUM:
            for n, (c, f) in ARITH.items():
                out.append(("%s %r" % (n, s), getattr(fp, c + "Scalar")(value=s), lambda x, f=f, s=s: None if x is None or (f is div and s == 0 and x == 0) else f(x, s)))
            for n, c in SWAP.items():
                out.append(("%r %s" % (s, n), getattr(fp, c)(value=s), lambda x, n=n, s=s: None if x is None else ARITH[n][1](s, x)))
    for items in {"float": [[1.0, 3.0], ["x", 0.0], []], "int": [[1, 7], [2.5]], "text": [["x", ""], ["q", 1]], "category": [["y"]], "bool": [[True]], "time": [[D(2020, 1, 1)]]}.get(k, []):
        out.append(("in %r" % (items,), fp.IsIn(list_of_outputs=items), lambda x, i=items: x is not None and x in i))
    if k in NUM:
        out += [("abs", fp.Absolute(), at(abs)), ("neg", fp.Negate(), at(lambda x: -x))]
    if k in BOOL:
        out.append(("not", fp.Not(), logic(lambda x: not x)))
    if k in TIME:
        out += [("day", fp.Day(), at(lambda d: d.day)), ("hour", fp.Hour(), at(lambda d: d.hour)), ("minute", fp.Minute(), at(lambda d: d.minute)), ("second", fp.Second(), at(lambda d: d.second)), ("month", fp.Month(), at(lambda d: d.month)),
                ("year", fp.Year(), at(lambda d: d.year)), ("weekday", fp.Weekday(), at(lambda d: d.weekday())), ("weekend", fp.IsWeekend(), lambda d: One(None, False) if d is None else d.weekday() in (5, 6)), ("week", fp.Week(), at(week))]
        out += [("since " + u, fp.TimeSince(unit=u), lambda x, u=u: since(u)(x, now)) for u in UNITS]
    if k == "place":
        out += [("lat", fp.Latitude(), lambda p: None if p is None else p[0]), ("long", fp.Longitude(), lambda p: None if p is None else p[1])]
    if k == "words":
        out += [("letters", fp.NumCharacters(), lambda s: One(None, 0) if s is None else len(s)), ("words", fp.NumWords(), lambda s: One(None, 0, 1) if s is None else s.count(" ") + 1)]
    if k == "birth":
        out.append(("age", fp.Age(), lambda x: age(x, now)))
    return out


FULL = {"float": ["cum_sum", "cum_mean", "cum_min", "cum_max", "diff", "percentile"], "int": ["cum_sum", "cum_mean", "cum_min", "cum_max", "diff", "percentile"], "text": ["cum_count"], "time": ["previous " + u for u in UNITS]}
FULLALPHA = {"float": [0.0, 1.0, -2.0, None], "int": [0, 1, -2], "text": ["x", "y", None], "time": [0, 1, 60, 90000]}


def full_primitive(fp, m):
    if m.startswith("previous"):
        return fp.TimeSincePrevious(unit=m.split()[1])
    return {"cum_sum": fp.CumSum, "cum_mean": fp.CumMean, "cum_min": fp.CumMin, "cum_max": fp.CumMax, "diff": fp.Diff, "percentile": fp.Percentile, "cum_count": fp.CumCount}[m]()


def full_ref(m, x):
    out = []
    for i, v in enumerate(x):
        before = known(x[:i + 1])
        if m == "cum_count":
            out.append(i + 1)
        elif m.startswith("previous"):
            out.append(None if i == 0 else (x[i] - x[i - 1]) / UNITS[m.split()[1]])
        elif m == "diff":
            out.append(None if i == 0 or v is None or x[i - 1] is None else v - x[i - 1])
        elif v is None:
            out.append(None)
        elif m == "percentile":
            less, same, n = sum(1 for y in known(x) if y < v), sum(1 for y in known(x) if y == v), float(len(known(x)))
            out.append(One((less + 1) / n, (less + same) / n, (less + (1 + same) / 2.0) / n))
        else:
            out.append({"cum_sum": sum(before), "cum_mean": sum(before) / float(i + 1), "cum_min": min(before), "cum_max": max(before)}[m])
    return out


def same(got, want):
    if isinstance(want, One):
        return any(same(got, w) for w in want.vs)
    if got is None or want is None:
        return got is None and want is None
    if isinstance(want, bool):
        return not isinstance(got, str) and got == want
    if isinstance(want, (int, float)):
        if isinstance(got, str):
            return False
        if math.isinf(want) or math.isinf(got):
            return got == want or want == -got and math.isinf(want)
        return abs(got - want) <= 1e-9 * max(1.0, abs(want))
    return got == want


def far(got, want):
    """distances: half a metre; near opposite points the haversine formula is less exact"""
    if got is None or want is None:
        return got is None and want is None
    return abs(got - want) <= 5e-4


def series(vals, kind):
    import numpy as np
    import pandas as pd
    if kind == "int":
        return pd.Series(vals, dtype="int64")
    if kind in ("float", "rank"):
        return pd.Series([np.nan if v is None else float(v) for v in vals], dtype="float64")
    if kind == "bool":
        return pd.Series(vals, dtype="bool")
    if kind.startswith("category"):
        return pd.Series(vals, dtype="object").astype("category")
    if kind in ("time", "birth"):
        return pd.to_datetime(pd.Series(vals, dtype="object"))
    if kind == "place":
        return pd.Series([v if v is None or None not in v else tuple(np.nan if w is None else w for w in v) for v in vals], dtype="object")
    return pd.Series(vals, dtype="object")


def vtype(V, kind):
    return {"float": V.Numeric, "int": V.Numeric, "bool": V.Boolean, "boolgap": V.Boolean, "rank": V.Ordinal, "rankword": V.Ordinal, "time": V.Datetime, "birth": V.DateOfBirth, "place": V.LatLong, "words": V.NaturalLanguage}.get(kind, V.Categorical)


def shuffle(n, order):
    """a fixed arrangement of n things"""
    if order == "down":
        return list(range(n))[::-1]
    if order == "mixed":
        step = next(s for s in range(max(n // 3, 1), 2 * n + 2) if math.gcd(s, n) == 1)
        return [(i * step + 1) % n for i in range(n)]
    return list(range(n))


class P29(Check):
    id = "P29"
    rule = ("elementwise primitives: every pair of values of the alphabets of 20 pairs of column kinds (missing values, places on opposite sides, all texts of up to 3 letters, every day around 30 new years) as the rows of one entity, in 3 arrangements of rows and 3 kinds of index, "
            "read directly and through a relationship with missing and unknown parents, asked for all rows, every second row and backwards, each pair alone as the only row, and the primitive called on the lists themselves; primitives over the whole entity: every column of up to 4 values (thorough: 5) as one group each "
            "and each column of up to 3 values alone. Non-trivial: distinct (primitive, inputs) with a known value")
    assumptions = ("whether two missing values are equal is not stated", "truth values with missing inputs are only held to what every completion gives, or to missing", "division and remainder by zero follow floating point or are missing", "text counts of missing text are not stated", "equal values may share any of their ranks as percentile")

    def prepare(self, tier):
        self.th = tier == "thorough"

    def cases(self, tier):
        for kx, ky in PAIRS:
            for order, index, via, ask in itertools.product(("up", "down", "mixed"), ("plain", "shifted", "text"), ("own", "parent"), ("all", "half", "back")):
                yield {"mode": "pair", "kinds": [kx, ky], "order": order, "index": index, "via": via, "ask": ask}
            n = len(ALPHABETS[kx]) * len(ALPHABETS[ky])
            for i in range(n):
                for via in ("own", "parent") if self.th else ("own",):
                    yield {"mode": "pair", "kinds": [kx, ky], "order": "up", "index": "plain", "via": via, "ask": "all", "only": [i]}
            if self.th and n <= 40:
                for i, j in itertools.permutations(range(n), 2):
                    yield {"mode": "pair", "kinds": [kx, ky], "order": "up", "index": "shifted", "via": "own", "ask": "all", "only": [i, j]}
        for first in range(1970, 2100) if self.th else range(1999, 2030):
            yield {"mode": "days", "year": first}
        for kind in FULL:
            for n in range(1, 6 if self.th else 5):
                for order, ask in itertools.product(("up", "mixed"), ("all", "half", "back")):
                    yield {"mode": "full", "kind": kind, "n": n, "order": order, "ask": ask}
            for n in range(1, 5 if self.th else 4):
                for col in itertools.product(range(len(FULLALPHA[kind])), repeat=n):
                    yield {"mode": "full", "kind": kind, "alone": list(col), "order": "up", "ask": "all"}

    def run(self, case, st):
        import featuretools as ft
        st.sample(case)
        bad = getattr(self, "run_" + case["mode"])(case, st, ft)
        seen = {}
        for p in bad:
            seen.setdefault((p.key, p.msg.split(" of ")[0]), p)
        return list(seen.values())[:6]

    def run_days(self, case, st, ft):
        import pandas as pd
        y = case["year"]
        days = []
        if self.th:
            d = D(y, 1, 1)
            while d.year == y:
                days.append(d)
                d += datetime.timedelta(days=1)
        else:
            days = [D(y, 12, 24) + datetime.timedelta(days=k) for k in range(21)] + [D(y, 2, 27) + datetime.timedelta(days=k) for k in range(4)] + [D(y, m, k) for m in (4, 7, 10) for k in (1, 15, 30)]
        days = [d + s for d in days for s in (datetime.timedelta(0), datetime.timedelta(hours=23, minutes=59, seconds=59, microseconds=999999))] + [None]
        es = ft.EntitySet("e")
        es.entity_from_dataframe("A", pd.DataFrame({"id": range(len(days)), "x": series(days, "time")}), index="id", variable_types={"x": ft.variable_types.Datetime})
        ops = [o for o in unary(ft.primitives, "time") if o[0] in ("day", "hour", "minute", "second", "month", "year", "weekday", "weekend", "week")]
        fm = ft.calculate_feature_matrix([ft.Feature(es["A"]["x"], primitive=p) for _, p, _ in ops], es, cutoff_time=pd.Timestamp(NOW))
        return self.judge([(o, [(d,) for d in days], fm.iloc[:, k].tolist()) for k, o in enumerate(ops)], st)

    def judge(self, columns, st, direct=False):
        bad = []
        for (label, prim, f), rows, got in columns:
            st.add("evaluations", len(rows))
            eq = far if label in ("miles", "km") else same
            for r, g in zip(rows, got):
                g = value(g)
                want = f(*r)
                if any(v is not None for v in r):
                    st.seen("nontrivial", (label, r))
                if not eq(g, want):
                    key = None
                    if label == "week" and g == r[0].isocalendar()[1]:
                        key = "P29:week-iso"
                    bad.append(Problem("%s of %s is %r instead of %r%s" % (label, ", ".join(repr(v) if not isinstance(v, D) else str(v) for v in r), g, want.vs if isinstance(want, One) else want, " when called on the values" if direct else ""), key))
        return bad

    def run_pair(self, case, st, ft):
        import pandas as pd
        V = ft.variable_types
        kx, ky = case["kinds"]
        rows = list(itertools.product(ALPHABETS[kx], ALPHABETS[ky]))
        if "only" in case:
            rows = [rows[i] for i in case["only"]]
        n = len(rows)
        rows = [rows[i] for i in shuffle(n, case["order"])]
        ids = [{"plain": i, "shifted": 1000 - 7 * i, "text": "r%d" % (i * 37 % 101 + 101 * (i // 101))}[case["index"]] for i in range(n)]
        if case["via"] == "parent" and case["index"] != "text":
            ids = [float(i) for i in ids]
        es = ft.EntitySet("e")
        es.entity_from_dataframe("A", pd.DataFrame({"id": ids, "x": series([r[0] for r in rows], kx), "y": series([r[1] for r in rows], ky)}), index="id", variable_types={"x": vtype(V, kx), "y": vtype(V, ky)})
        x, y, target = ft.Feature(es["A"]["x"]), ft.Feature(es["A"]["y"]), "A"
        ops2, opsx, opsy = binary(ft.primitives, kx, ky), unary(ft.primitives, kx), unary(ft.primitives, ky)
        bad = []
        if case["index"] == "plain" and case["via"] == "own" and case["ask"] == "all":
            # the primitive as a function on lists
            xs, ys = series([r[0] for r in rows], kx), series([r[1] for r in rows], ky)
            cols = []
            for ops, args, pick in ((ops2, (xs, ys), lambda r: r), (opsx, (xs,), lambda r: r[:1])):
                for o in ops:
                    kw = {"time": pd.Timestamp(NOW)} if o[1].uses_calc_time else {}
                    cols.append((o, [pick(r) for r in rows], list(o[1](*args, **kw))))
            bad += self.judge(cols, st, direct=True)
        if case["via"] == "parent":
            # rows of a child see the values of their parents; some have no parent
            parents = []
            for k, i in enumerate(ids):
                parents += [i] * (1 + k % 2) + ([None] if k % 3 == 1 else []) + (["zz" if case["index"] == "text" else -5] if k % 5 == 2 else [])
            parents += [None]
            val = dict(zip(ids, rows))
            rows = [val.get(p, (None, None)) for p in parents]
            ids = [{"plain": i, "shifted": 1000 - 7 * i, "text": "c%d" % (i * 37 % 101 + 101 * (i // 101))}[case["index"]] for i in range(len(parents))]
            es.entity_from_dataframe("B", pd.DataFrame({"id": ids, "a": series(parents, "text") if case["index"] == "text" else series(parents, "float")}), index="id", variable_types={"a": V.Id})
            es.add_relationship(ft.Relationship(es["A"]["id"], es["B"]["a"]))
            x, y, target = ft.Feature(x, es["B"]), ft.Feature(y, es["B"]), "B"
        ops = [(o, [x, y], lambda r: r) for o in ops2] + [(o, x, lambda r: r[:1]) for o in opsx] + ([(o, y, lambda r: r[1:]) for o in opsy] if ky != kx else [])
        fs = [ft.Feature(b, primitive=o[1]) for o, b, _ in ops]
        ask = {"all": None, "half": ids[::2], "back": ids[::-1]}[case["ask"]]
        fm = ft.calculate_feature_matrix(fs, es, cutoff_time=pd.Timestamp(NOW), instance_ids=ask)
        val = dict(zip(ids, rows))
        if sorted(fm.index.tolist()) != sorted(ask or ids):
            return [Problem("rows %r asked for, rows %r returned" % (ask or ids, fm.index.tolist()))]
        got = [val[i] for i in fm.index]
        return bad + self.judge([(o, [pick(r) for r in got], fm[f.get_name()].tolist()) for f, (o, _, pick) in zip(fs, ops)], st)

    def run_full(self, case, st, ft):
        import pandas as pd
        V = ft.variable_types
        kind = case["kind"]
        al = FULLALPHA[kind]
        cols = [[al[i] for i in case["alone"]]] if "alone" in case else [list(c) for c in itertools.product(al, repeat=case["n"])]
        if kind == "time":
            cols = [list(itertools.accumulate(c)) for c in cols]
        rows = [(i, j) for i, c in enumerate(cols) for j in range(len(c))]
        if case["order"] == "mixed":
            rows.sort(key=lambda r: (r[1], r[0] * 7919 % len(cols)))
        n = len(rows)
        ids = [5000 - 3 * k for k in range(n)]
        t0 = pd.Timestamp("2020-01-01")
        d = {"id": ids, "g": [100 - r[0] for r in rows], "t": [t0 + pd.Timedelta(seconds=cols[i][j] if kind == "time" else k) for k, (i, j) in enumerate(rows)]}
        vt = {"g": V.Id}
        if kind != "time":
            d["v"] = series([cols[i][j] for i, j in rows], kind)
            vt["v"] = vtype(V, kind)
        df = pd.DataFrame(d)
        es = ft.EntitySet("e")
        # rows of equal times stay in the order of their index values
        es.entity_from_dataframe("A", df.iloc[shuffle(n, case["order"])] if kind != "time" else df, index="id", time_index="t", variable_types=vt)
        bad, fs = [], []
        base = es["A"]["t" if kind == "time" else "v"]
        for m in FULL[kind]:
            fs.append(ft.Feature(base, primitive=full_primitive(ft.primitives, m), **({} if "alone" in case else {"groupby": es["A"]["g"]})))
        ask = {"all": None, "half": ids[::2], "back": ids[::-1]}[case["ask"]]
        fm = ft.calculate_feature_matrix(fs, es, cutoff_time=pd.Timestamp("2021-01-01"), instance_ids=ask)
        if sorted(fm.index.tolist()) != sorted(ask or ids):
            return [Problem("rows %r asked for, rows %r returned" % (ask or ids, fm.index.tolist()))]
        where = dict(zip(ids, rows))
        if kind == "time":
            # rows of one group with the same time follow each other in the order of the entity
            pos = {k: p for p, k in enumerate(es["A"].df["id"])}
            where = {}
            for g in set(d["g"]):
                mine = sorted([k for k, gg in zip(ids, d["g"]) if gg == g], key=pos.get)
                for j, k in enumerate(mine):
                    where[k] = (100 - g, j)
        for f, m in zip(fs, FULL[kind]):
            st.add("evaluations", len(fm))
            refs = [full_ref(m, c) for c in cols]
            for k, g in zip(fm.index, fm[f.get_name()].tolist()):
                i, j = where[k]
                if known(cols[i]):
                    st.seen("nontrivial", (m, kind, cols[i]))
                g, want = value(g), refs[i][j]
                if not same(g, want):
                    bad.append(Problem("%s of the %s column %r at place %d is %r instead of %r" % (m, kind, cols[i], j, g, want.vs if isinstance(want, One) else want)))
        return bad


CHECK = P29()

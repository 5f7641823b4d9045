"""P30: entity sets on partitioned tables give the values of the same data in memory, for every partitioning."""
import itertools
import math

from ..core import Check, Problem
from .p28 import value
from .p29 import ALPHABETS as ELEMENTS, PAIRS, binary, unary, series as element_series, vtype as element_vtype

KINDS = {"float": [1.0, 2.5, None], "int": [0, 1, -3], "bool": [True, False], "boolgap": [True, False, None], "text": ["x", "y", None], "category": ["x", "y", None]}
AGGS = {"float": ["count", "sum", "mean", "min", "max", "std", "num_unique_of_discrete"], "int": ["count", "sum", "mean", "min", "max", "std"], "bool": ["any", "all", "num_true", "percent_true"], "boolgap": ["any", "all", "num_true", "percent_true"], "text": ["num_unique"], "category": ["num_unique"]}


def to_parts(df, cuts):
    """the rows df in partitions; cuts: for each partition its number of rows"""
    import dask.dataframe as dd
    from dask import delayed
    out, p = [], 0
    for n in cuts:
        out.append(df.iloc[p:p + n])
        p += n
    assert p == len(df)
    meta = df.iloc[:0]
    return dd.from_delayed([delayed(lambda x: x, pure=False)(x) for x in out], meta=meta, verify_meta=False)


def compositions(n, limit=None):
    """all ways to cut n rows into non-empty partitions"""
    for bits in itertools.product((0, 1), repeat=max(n - 1, 0)):
        out = [1]
        for b in bits:
            if b:
                out.append(1)
            else:
                out[-1] += 1
        yield out if n else [0]


def cell(v):
    v = value(v)
    if isinstance(v, bool):
        return float(v)
    if isinstance(v, int):
        return float(v) if abs(v) < 2 ** 53 else v
    return v


def same(a, b):
    a, b = cell(a), cell(b)
    if isinstance(a, float) and isinstance(b, float):
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= 1e-9 * max(1.0, abs(a))
    return a == b


def in_order(reverse):
    """a scheduler that runs one ready task after the other: the first or the last in the order of their names"""
    def get(dsk, keys, **kw):
        from dask.core import get_dependencies, flatten
        import dask.core
        dsk = dict(dsk)
        deps = {k: set(get_dependencies(dsk, k)) for k in dsk}
        done = {}
        todo = sorted(dsk, key=str, reverse=reverse)
        while todo:
            k = next(k for k in todo if deps[k] <= set(done))
            done[k] = dask.core._execute_task(dsk[k], done)
            todo.remove(k)

        def pick(ks):
            return type(ks)(pick(k) for k in ks) if isinstance(ks, list) else done[ks]
        return pick(keys)
    return get


class P30(Check):
    id = "P30"
    rule = ("every aggregation supported on partitioned tables over every column of up to 3 values and every placement of its rows in 3 partitions (one instance each); every assignment of keys of 2 rows each to 1-2 parents (some missing or unknown) in a schema of three entities, with every placement of all rows in 2 partitions, for 30 kinds of features "
            "(values, transforms, parents' values, aggregations with conditions, across two relationships and stacked) at single, early, excluded and several cutoff times with passed columns; every way to cut tables of 3 rows (and with empty partitions), with two extreme orders of the tasks; every pair of values of 16 pairs of column kinds for the transforms; "
            "every split of a table of 3 rows (thorough: 4) into two entities. Each compared with the same call on the data in memory (which P02-P29 compare with models). Non-trivial: distinct (feature, rows, placement)")
    technique = "bounded exhaustive exploration of the implementation: every placement of rows in partitions, each result compared with the same request on data in memory"
    assumptions = ("instances that are not known at their cutoff time have no row in partitioned results", "tables that are split are in the order of time", "multiply_boolean with missing truth values is rejected by Dask")

    def prepare(self, tier):
        self.th = tier == "thorough"
        import dask
        dask.config.set(scheduler="synchronous")

    def cases(self, tier):
        for kind in KINDS:
            for n in (1, 2, 3):
                yield {"mode": "agg", "kind": kind, "n": n}
        for kx, ky in PAIRS:
            if "place" not in (kx, ky) and kx != "words":
                for parts in (1, 2, 3, 7) if self.th else (1, 3, 7):
                    for shift in (0, 1):
                        yield {"mode": "element", "kinds": [kx, ky], "parts": parts, "shift": shift}
        yield {"mode": "element", "kinds": ["words", "birth"], "parts": 2, "shift": 0}
        for keys in itertools.product((0, 1, None), repeat=4 if self.th else 3):
            for cuts in compositions(len(keys)):
                for target in "GB":
                    yield {"mode": "split", "keys": list(keys), "cuts": cuts, "target": target, "first": target == "G" or keys[0] == 0}
        for text in (True, False):
            for target in "AB":
                for time in ("none", "first", "mid", "late", "two", "pass"):
                    for pattern in range(3):
                        if self.th:
                            yield {"mode": "union", "n": [2, 2, 2], "parts": 2, "pattern": pattern, "target": target, "time": time, "text": text}
                        elif (pattern == 0 or time in ("first", "pass")) and (not text or pattern == 2 or time == "two"):
                            yield {"mode": "union", "n": [2, 2, 1] if time == "mid" else [1, 2, 2], "parts": 2, "pattern": pattern, "target": target, "time": time, "text": text}
        for target in "AB":
            for ca in compositions(3):
                for cb in list(compositions(3)) + [[0, 2, 1], [1, 0, 2], [3, 0]]:
                    yield {"mode": "small", "keys": [0, 1, 0], "kids": [0, 0, 2], "cuts": [ca, cb, [1, 0, 1, 1] if len(ca) > 1 else [3]], "target": target, "time": "pass", "text": True, "tasks": ["first", "last"][(len(ca) + len(cb)) % 2]}

    def run(self, case, st):
        st.sample(case)
        import dask
        with dask.config.set(scheduler=in_order(case["tasks"] == "last") if "tasks" in case else "synchronous"):
            return getattr(self, "run_" + case["mode"])(case, st)

    def both(self, st, make, features, label, **kw):
        """calculate on the data in memory and on the partitioned data"""
        import featuretools as ft
        out = []
        for parts in (False, True):
            es = make(parts)
            fs = features(ft, es)
            fm = ft.calculate_feature_matrix(fs, es, cutoff_time_in_index=not parts, **{k: v.copy() if hasattr(v, "columns") else v for k, v in kw.items()})
            if parts:
                if hasattr(fm, "compute"):
                    fm = fm.compute()
                fm = fm.set_index(es[fs[0].entity.id].index) if es[fs[0].entity.id].index in fm else fm
            out.append((fs, fm))
        (fs, a), (_, b) = out
        return a, b, fs

    def run_agg(self, case, st):
        import featuretools as ft
        import pandas as pd
        from .p28 import primitive, series, vtype
        kind, n = case["kind"], case["n"]
        inst = [(col, where) for col in itertools.product(KINDS[kind], repeat=n) for where in itertools.product(range(3), repeat=n)]
        rows = sorted([(where[j], i, j, col[j]) for i, (col, where) in enumerate(inst) for j in range(n)], key=lambda r: (r[0], r[2], r[1]))
        cuts = [sum(1 for r in rows if r[0] == w) for w in range(3)]
        V = ft.variable_types
        a = pd.DataFrame({"id": range(len(inst) + 1)})
        b = pd.DataFrame({"id": range(len(rows)), "a": [r[1] for r in rows], "v": series([r[3] for r in rows], kind)})
        third = len(a) // 3

        def make(parts):
            es = ft.EntitySet("e")
            es.entity_from_dataframe("A", to_parts(a, [third, third, len(a) - 2 * third]) if parts else a.copy(), index="id", variable_types={"id": V.Index})
            es.entity_from_dataframe("B", to_parts(b, cuts) if parts else b.copy(), index="id", variable_types={"id": V.Index, "a": V.Id, "v": vtype(ft, kind)})
            es.add_relationship(ft.Relationship(es["A"]["id"], es["B"]["a"]))
            return es

        names = [m for m in AGGS[kind] if m != "num_unique_of_discrete"]

        def features(ft, es):
            return [ft.Feature(es["B"]["id" if m == "count" else "v"], parent_entity=es["A"], primitive=primitive(ft.primitives, m)) for m in names]
        x, y, fs = self.both(st, make, features, "agg")
        x.index = x.index.get_level_values(0)
        bad = []
        st.add("evaluations", len(a) * len(names))
        if sorted(y.index.tolist()) != sorted(x.index.tolist()):
            return [Problem("rows differ")]
        y = y.loc[x.index]
        for m, f in zip(names, fs):
            for i, u, v in zip(x.index, x[f.get_name()].tolist(), y[f.get_name()].tolist()):
                d = inst[i] if i < len(inst) else ((), ())
                st.seen("nontrivial", (kind, m, d))
                if not same(u, v):
                    bad.append(Problem("%s of the %s column %r over partitions %r is %r, in memory %r" % (m, kind, d[0], d[1], v, u)))
                    break
        return bad


    def run_split(self, case, st):
        """an entity split off a partitioned one, with last time indexes"""
        import pandas as pd
        keys, cuts = case["keys"], case["cuts"]
        T0 = pd.Timestamp("2020-01-01")
        n = len(keys)
        df = pd.DataFrame({"id": range(n), "g": [None if k is None else "ab"[k] for k in keys], "h": [None if k is None else 10.0 + k for k in keys], "v": [1.0, None, 4.0, 2.0][:n], "t": [T0 + pd.Timedelta(days=d) for d in (0, 1, 2, 3)[:n]]})     # in the order of time: featuretools does not sort partitioned tables

        def make(parts):
            import featuretools as ft
            V = ft.variable_types
            es = ft.EntitySet("e")
            es.entity_from_dataframe("B", to_parts(df, cuts) if parts else df.copy(), index="id", time_index="t", variable_types={"id": V.Index, "g": V.Id, "h": V.Numeric, "v": V.Numeric, "t": V.DatetimeTimeIndex})
            es.normalize_entity("B", "G", "g", additional_variables=["h"], make_time_index=case["first"])
            es.add_last_time_indexes()
            return es

        def features(ft, es):
            P, F = ft.primitives, ft.Feature
            G, B = es["G"], es["B"]
            if case["target"] == "G":
                return [F(G["h"]), F(B["id"], parent_entity=G, primitive=P.Count), F(B["v"], parent_entity=G, primitive=P.Sum), F(B["v"], parent_entity=G, primitive=P.Max)] + ([F(G["first_B_time"]), F(G["first_B_time"], primitive=P.TimeSince)] if case["first"] else [])
            return [F(B["v"]), F(G["h"], B), F(F(B["id"], parent_entity=G, primitive=P.Count), B), F(F(B["v"], parent_entity=G, primitive=P.Mean), B)]
        bad = []
        for day in (1, 9):
            x, y, fs = self.both(st, make, features, "split", cutoff_time=T0 + pd.Timedelta(days=day))
            x.index = x.index.get_level_values(0)
            st.add("evaluations", len(x) * len(fs))
            # a group key that is missing is no instance
            x, y = x[[v == v and v is not None for v in x.index]], y[[v == v and v is not None for v in y.index]]
            if sorted(y.index) != sorted(x.index):
                return bad + [Problem("instances %r instead of %r at day %d" % (sorted(y.index), sorted(x.index), day))]
            y = y.loc[x.index]
            for f in fs:
                for i, u, v in zip(x.index, x[f.get_name()].tolist(), y[f.get_name()].tolist()):
                    st.seen("nontrivial", (case, i))
                    if not same(u, v):
                        bad.append(Problem("%s of %r at day %d is %r on partitioned data, %r in memory" % (f.get_name(), i, day, v, u)))
        lti = [self.lti(make(parts), case["target"]) for parts in (False, True)]
        if lti[0] != lti[1]:
            bad.append(Problem("last time index of %s is %r on partitioned data, %r in memory" % (case["target"], lti[1], lti[0])))
        return bad[:3]

    def lti(self, es, e):
        s, df = es[e].last_time_index, es[e].df
        if s is None:
            return None
        if hasattr(s, "compute"):
            s = s.compute()
        return {k: cell(v) for k, v in s.items() if k == k and k is not None}

    def run_element(self, case, st):
        """every pair of values as rows, spread over partitions"""
        import pandas as pd
        from featuretools.utils.gen_utils import Library
        kx, ky = case["kinds"]
        rows = list(itertools.product(ELEMENTS[kx], ELEMENTS[ky]))
        n, P = len(rows), case["parts"]
        k = case["shift"]
        rows = rows[k:] + rows[:k]
        df = pd.DataFrame({"id": range(n), "x": element_series([r[0] for r in rows], kx), "y": element_series([r[1] for r in rows], ky)})
        step = -(-n // P)

        def make(parts):
            import featuretools as ft
            V = ft.variable_types
            es = ft.EntitySet("e")
            es.entity_from_dataframe("A", to_parts(df, [len(df.iloc[q:q + step]) for q in range(0, n, step)]) if parts else df.copy(), index="id", variable_types={"id": V.Index, "x": element_vtype(V, kx), "y": element_vtype(V, ky)})
            return es

        def features(ft, es):
            x, y = ft.Feature(es["A"]["x"]), ft.Feature(es["A"]["y"])
            ops = [([x, y], o) for o in binary(ft.primitives, kx, ky)] + [(x, o) for o in unary(ft.primitives, kx)]
            return [ft.Feature(b, primitive=o[1]) for b, o in ops if Library.DASK in o[1].compatibility and not (o[0] == "both" and "boolgap" in (kx, ky))]
        x, y, fs = self.both(st, make, features, "element", cutoff_time=pd.Timestamp("2020-03-01 12:30:15"))
        x.index = x.index.get_level_values(0)
        if sorted(y.index) != sorted(x.index):
            return [Problem("rows differ")]
        y = y.loc[x.index]
        bad = []
        st.add("evaluations", len(x) * len(fs))
        for f in fs:
            for i, u, v in zip(x.index, x[f.get_name()].tolist(), y[f.get_name()].tolist()):
                st.seen("nontrivial", (f.get_name(), kx, ky, str(rows[i])))
                if not same(u, v):
                    bad.append(Problem("%s of %r (%s, %s) is %r on partitioned data, %r in memory" % (f.get_name(), rows[i], kx, ky, v, u)))
                    break
        return bad

    def world(self, keys, kids, na, text, base=0, pattern=0):
        """rows of the three tables; keys[j]: the parent of the j-th row of B (na stands for an unknown parent, None for none), kids[j] the same for C and B"""
        import numpy as np
        import pandas as pd
        nb = len(keys)

        def key(k, names):
            return None if k is None else "%s%d" % (names[k], base) if text else float(base * 8 + k)

        def day(d, h=0):
            return pd.Timestamp("2020-01-01") + pd.Timedelta(days=d, hours=h)
        V = [([1.0, None, -2.0, 4.0], [True, False, None, True], (2, 0, 1, 2)), ([2.0, 2.5, None, -1.0], [None, True, True, False], (0, 1, 0, 2)), ([None, None, 3.0, 0.0], [False, False, True, None], (1, 0, 2, 0))][pattern]
        a = [(key(k, "abcz"), [1.0, np.nan, 3.0][(k + pattern) % 3], ["p", "q", None][k % 3], day((0, 1, 0)[k]), [day(2), day(3), pd.NaT][(k + pattern) % 3], 5.0 + k) for k in range(na)]
        b = [(key(j, "klmn"), key(k, "abcz"), V[0][j], (2, 0, 2, 1)[j], V[1][j], ["p", "q", "p", None][(j + pattern) % 4], day(V[2][j])) for j, k in enumerate(keys)]
        c = [(base * 8 + j, key(k, "klmnz"), [1.0, 3.0, None, 7.0][(j + pattern) % 4], day((1, 2, 0, 1)[j], 1)) for j, k in enumerate(kids)]
        return a, b, c

    def frames(self, a, b, c):
        import pandas as pd
        A = pd.DataFrame(a, columns=["id", "x", "s", "born", "end", "cost"])
        B = pd.DataFrame(b, columns=["id", "a", "v", "w", "f", "s", "t"])
        B["f"] = B["f"].astype(object)
        B["v"] = B["v"].astype(float)
        C = pd.DataFrame(c, columns=["id", "b", "u", "t"])
        C["u"] = C["u"].astype(float)
        for d in (A, B, C):
            d[[k for k in ("born", "end", "t") if k in d]] = d[[k for k in ("born", "end", "t") if k in d]].apply(pd.to_datetime)
        return A, B, C

    def run_small(self, case, st):
        a, b, c = self.frames(*self.world(case["keys"], case["kids"], 3, case["text"]))
        return self.compare(case, st, a, b, c, case["cuts"])

    def run_union(self, case, st):
        """every small world and every placement of its rows in partitions, side by side in one entity set"""
        na, nb, nc, P = case["n"] + [case["parts"]]
        rows, base = ([], [], []), 0
        for keys in itertools.product(list(range(na)) + [None, na], repeat=nb):
            for kids in itertools.product(list(range(nb)) + [None], repeat=nc):
                for place in itertools.product(range(P), repeat=na + nb + nc):
                    w = self.world(keys, kids, na, case["text"], base, case["pattern"])
                    k = 0
                    for table, new in zip(rows, w):
                        for r in new:
                            table.append((place[k],) + r)
                            k += 1
                    st.seen("nontrivial", (keys, kids, place, case["pattern"], case["time"], case["target"]))
                    base += 1
        cuts, tables = [], []
        for table in rows:
            table.sort(key=lambda r: r[0])
            cuts.append([sum(1 for r in table if r[0] == q) for q in range(P)])
            tables.append([r[1:] for r in table])
        return self.compare(case, st, *self.frames(*tables), cuts=cuts)

    def compare(self, case, st, a, b, c, cuts):
        import pandas as pd
        target, time = case["target"], case["time"]
        T0 = pd.Timestamp("2020-01-01")

        def make(parts):
            import featuretools as ft
            V = ft.variable_types
            es = ft.EntitySet("e")
            A, B, C = [to_parts(d, k) if parts else d.copy() for d, k in zip((a, b, c), cuts)]
            es.entity_from_dataframe("A", A, index="id", time_index="born", secondary_time_index={"end": ["cost"]}, variable_types={"id": V.Index, "x": V.Numeric, "s": V.Categorical, "born": V.DatetimeTimeIndex, "end": V.Datetime, "cost": V.Numeric})
            es.entity_from_dataframe("B", B, index="id", time_index="t", variable_types={"id": V.Index, "a": V.Id, "v": V.Numeric, "w": V.Numeric, "f": V.Boolean, "s": V.Categorical, "t": V.DatetimeTimeIndex})
            es.entity_from_dataframe("C", C, index="id", time_index="t", variable_types={"id": V.Index, "b": V.Id, "u": V.Numeric, "t": V.DatetimeTimeIndex})
            es.add_relationship(ft.Relationship(es["A"]["id"], es["B"]["a"]))
            es.add_relationship(ft.Relationship(es["B"]["id"], es["C"]["b"]))
            return es

        def features(ft, es):
            P, F = ft.primitives, ft.Feature
            A, B, C = es["A"], es["B"], es["C"]
            count = F(C["id"], parent_entity=B, primitive=P.Count)
            total = F(C["u"], parent_entity=B, primitive=P.Sum)
            top = F(C["u"], parent_entity=B, primitive=P.Max)
            if target == "B":
                cost, bv = F(A["cost"], B), F(B["v"])
                mean = F(B["v"], parent_entity=A, primitive=P.Mean)
                return [bv, F(B["s"]), F(B["f"]), F(B["t"]), count, total, top, F(C["u"], parent_entity=B, primitive=P.Mean), F(C["u"], parent_entity=B, primitive=P.Std), F(B["w"]),
                        F(A["x"], B), F(A["s"], B), cost, F(mean, B), F(F(B["id"], parent_entity=A, primitive=P.Count), B), F(F(count, parent_entity=A, primitive=P.Sum), B),
                        F([bv, B["w"]], primitive=P.AddNumeric), F([bv, cost], primitive=P.SubtractNumeric), F([B["w"], count], primitive=P.DivideNumeric), F(bv, primitive=P.Absolute), F(bv, primitive=P.IsNull), F(F(A["x"], B), primitive=P.IsNull), F(B["t"], primitive=P.TimeSince), F(B["t"], primitive=P.Day),
                        F([B["s"], F(A["s"], B)], primitive=P.Equal), F([bv, top], primitive=P.GreaterThan), F(B["f"], primitive=P.Not), F(C["u"], parent_entity=B, primitive=P.Sum, where=F(C["u"], primitive=P.GreaterThanScalar(2))), F(C["id"], parent_entity=B, primitive=P.Count, where=F(F(B["w"], C), primitive=P.EqualScalar(2)))]
            bs = F(B["v"], primitive=P.Absolute)
            q = F(B["s"], primitive=P.EqualScalar("p"))
            out = [F(A["x"]), F(A["s"]), F(A["cost"]), F(A["end"]), F(B["id"], parent_entity=A, primitive=P.Count)]
            out += [F(B["v"], parent_entity=A, primitive=p) for p in (P.Sum, P.Mean, P.Min, P.Max, P.Std)]
            out += [F(B["w"], parent_entity=A, primitive=p) for p in (P.Sum, P.Mean, P.Min, P.Max, P.Std)]
            out += [F(B["f"], parent_entity=A, primitive=p) for p in (P.Any, P.All, P.NumTrue, P.PercentTrue)]
            out += [F(B["s"], parent_entity=A, primitive=P.NumUnique), F(bs, parent_entity=A, primitive=P.Sum), F(B["v"], parent_entity=A, primitive=P.Sum, where=q), F(B["id"], parent_entity=A, primitive=P.Count, where=q), F(B["f"], parent_entity=A, primitive=P.Any, where=q),
                    F(F(B["v"], primitive=P.IsNull), parent_entity=A, primitive=P.PercentTrue), F(F([B["v"], B["w"]], primitive=P.GreaterThan), parent_entity=A, primitive=P.NumTrue)]
            out += [F(count, parent_entity=A, primitive=P.Max), F(total, parent_entity=A, primitive=P.Mean), F(top, parent_entity=A, primitive=P.Std), F(C["id"], parent_entity=A, primitive=P.Count), F(C["u"], parent_entity=A, primitive=P.Mean), F(F(A["x"], B), parent_entity=A, primitive=P.Sum),
                    F([F(B["w"], parent_entity=A, primitive=P.Sum), A["x"]], primitive=P.MultiplyNumeric), F(F(B["v"], parent_entity=A, primitive=P.Mean), primitive=P.IsNull), F(F(C["u"], parent_entity=A, primitive=P.Max), primitive=P.Negate), F(F(B["id"], parent_entity=A, primitive=P.Count), primitive=P.GreaterThanScalar(1))]
            return out
        df = {"A": a, "B": b}[target]
        birth = dict(zip(df["id"], df["born" if target == "A" else "t"]))
        days = {"first": [0], "mid": [1], "late": [9], "none": [30], "two": [2, 1], "pass": [1, 9]}.get(time)
        kw = {}
        if time in ("none", "first", "mid", "late"):
            kw["cutoff_time"] = T0 + pd.Timedelta(days=days[0])
            if time == "late":
                kw["instance_ids"] = df["id"].tolist()[::-2]
            if time == "mid":
                kw["include_cutoff_time"] = False
        else:
            pairs = [(i, T0 + pd.Timedelta(days=d)) for i in df["id"] for d in days]
            kw["cutoff_time"] = pd.DataFrame(pairs, columns=["instance_id", "time"])
            if time == "pass":
                kw["cutoff_time"]["k"] = range(len(pairs))
        x, y, fs = self.both(st, make, features, "small", **kw)
        names = [f.get_name() for f in fs] + (["k"] if time == "pass" else [])
        st.add("evaluations", len(x) * len(names))
        bad = []
        if [c for c in y.columns if c not in names] or [c for c in names if c not in y.columns]:
            return [Problem("columns %r instead of %r" % (y.columns.tolist(), names))]

        def table(fm, timed):
            rows = {}
            columns = [[cell(v) for v in fm[n].tolist()] for n in names]
            for i, r in zip(fm.index.tolist(), zip(*columns)):
                i, t = i if timed else (i, None)
                rows.setdefault(i, []).append((t, r))
            return rows

        X, Y = table(x[names], isinstance(x.index, pd.MultiIndex)), table(y[names], False)
        for i in X:
            # only instances known at their cutoff times have rows in partitioned data
            seen = [r for t, r in X[i] if t is None or birth[i] <= t and (time != "mid" or birth[i] < t)]
            got = [r for _, r in Y.get(i, [])]
            if time == "pass":
                got = [r for r in got if r[-1] in [q[-1] for q in seen]]
            if len(got) != len(seen):
                bad.append(Problem("%d rows of instance %r instead of %d" % (len(got), i, len(seen))))
                continue
            for r in seen:
                near = [g for g in got if all(same(u, v) for u, v in zip(r, g))]
                if near:
                    got.remove(near[0])
                    continue
                g = got[-1] if time != "pass" else [g for g in got if g[-1] == r[-1]][0]
                k = [n for n, u, v in zip(names, r, g) if not same(u, v)]
                bad.append(Problem("%s of instance %r is %r on partitioned data, %r in memory" % (k[0], i, g[names.index(k[0])], r[names.index(k[0])])))
        for i in Y:
            if i not in X:
                bad.append(Problem("instance %r should not have a row" % (i,)))
        st.seen("nontrivial", case)
        return bad[:3]

CHECK = P30()

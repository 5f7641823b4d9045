"""P09: shape, order, labels and pass-through columns of the feature matrix for every way of writing a request."""
import itertools

from .. import model
from ..core import Check, Problem
from ..model import Table, World
from .p02 import A, idf
from .p04 import D, T

PAIRS = [(0, 2), (1, 2), (0, 1), (2, 2), (3, 1), (1, 0)]        # (root, tick); root 3 is unknown to the entity set
EXTRA = {"label": ["p", "q", "r", "s", "u", "v"], "num": [1.5, None, 3.5, 4.0, None, 6.0], "flag": [True, False, True, True, False, False],
         "target_time": [10, 20, 30, 40, 50, 60], "when": None, "kind": None, "index": [7, 8, 9, 10, 11, 12]}
NAMES = [("instance_id", "time"), ("id", "t"), ("instance_id", "t"), ("id", "time")]
INDEXES = ("range", "reversed", "same", "str", "multi")


def world(idk, numeric):
    ids = {"int": [30, 10, 20], "str": ["b", "c", "a"], "cat": ["b", "c", "a"], "neg": [-1, 0, 5]}[idk]
    unknown = {"int": 99, "str": "zz", "cat": "a", "neg": 77}[idk]
    kind = {"int": "iid", "neg": "iid", "str": "id", "cat": "cid"}[idk]
    R = Table("R", "id", [("id", kind), ("t", "time"), ("w", "num"), ("c", "cat")],
              [{"id": ids[k], "t": (0, 0, 1)[k], "w": 2.0 ** k, "c": "xyz"[k]} for k in range(3)], "t")
    C = Table("C", "id", [("id", "iid"), ("r_id", kind), ("t", "time"), ("x", "num")],
              [{"id": 100 + k, "r_id": ids[p], "t": t, "x": float(2 ** k)} for k, (p, t) in enumerate([(0, 0), (1, 1), (0, 2), (2, 1), (1, 2), (0, 1), (2, 2)])], "t")
    return World([R, C], [("R", "C", "r_id")], "num" if numeric else "dt", 3600), ids + [unknown]


def trees(target, n):
    x, w = idf("C", "x"), idf("R", "w")
    if target == "R":
        fs = [w, A("sum", [x]), A("minmax", [x]), idf("R", "c"), A("count", [idf("C", "id")]), T("negate", A("sum", [x]))]
    else:
        fs = [x, D(A("sum", [x]), 0), D(w, 0), T("negate", D(A("max", [x]), 0)), D(A("minmax", [x]), 0), D(A("count", [idf("C", "id")]), 0)]
    return [[fs[1]], fs[:3], fs[::-1], [fs[4], fs[0]]][n]


def extra_values(pd, name, idx):
    if name == "when":
        return [pd.Timestamp("2021-05-05") + pd.Timedelta(days=i) for i in idx]
    if name == "kind":
        return pd.Categorical(["k%d" % (i % 2) for i in idx])
    return [EXTRA[name][i] for i in idx]


class P09(Check):
    id = "P09"
    technique = "bounded exhaustive enumeration of the ways to write a request, each executed on the implementation and compared with the request itself and the reference evaluator"
    rule = ("every ordered selection of up to 4 of 6 (instance, cutoff) pairs, column names x column orders x row indexes x extra columns (names, types, missing values) "
            "x cutoff_time_in_index x chunk sizes x approximation x identifier types x time types x feature lists; single cutoffs with instance ids in every container; "
            "all ambiguous, missing and duplicate requests must be rejected. Non-trivial: distinct requests with at least two rows or an extra column")
    assumptions = ("one world of 3 roots and 7 children", "an extra column does not carry the name of a requested feature")

    def prepare(self, tier):
        self.th = tier == "thorough"
        self.cache = {}

    def ctx(self, idk, numeric):
        if (idk, numeric) not in self.cache:
            w, ids = world(idk, numeric)
            self.cache[idk, numeric] = (w, ids, model.to_es(w), {})
        return self.cache[idk, numeric]

    def cases(self, tier):
        out = []
        n = 0
        base = dict(idk="int", numeric=False, target="R", names=0, cols=0, index="range", extra=[], inindex=True, chunk=None, approx=None, feats=1, excl=False, sub=False)
        sels = [list(s) for k in (1, 2, 3) + ((4,) if self.th else ()) for s in itertools.permutations(range(6), k)] + [[5, 3, 1, 0, 4, 2], [0, 1, 2, 3, 4, 5], [3, 5, 4, 2, 1, 0]]
        idks = [("int", False), ("str", False), ("cat", False), ("neg", False), ("int", True), ("str", True)]
        extras = [[], ["label"], ["num", "flag"], ["target_time"], ["when", "kind", "label"], ["kind"], ["index"], ["flag"]]
        chunks = [None, 1, 2, 3, 0.5]
        # every selection of pairs in rotation with every other dimension
        for rep in range(7 if self.th else 2):
            for s in sels:
                n += 1
                idk, num = idks[n % 6]
                m = n // 6 + rep
                out.append(dict(base, sel=s, idk=idk, numeric=num, target="RC"[m % 2], names=(n + rep) % 4, cols=n % 24, index=INDEXES[(n + m) % 5],
                                extra=extras[(n + 3 * rep) % 8], inindex=bool((n // 2) % 2), chunk=chunks[(n // 3) % 5],
                                approx=None if num else (None, "1h", "2h", "1d", "30m")[(n + m) % 5], feats=(n + m) % 4, excl=bool(m % 3 == 0), sub=n % 7 == 0))
        # full products of the dimensions on two selections
        for s in ([2, 0, 4, 1], [0, 3, 5]):
            for names, index, extra, inindex, approx, target in itertools.product(range(4), INDEXES, extras, (True, False), (None, "2h"), "RC"):
                n += 1
                if self.th or n % 3 == 0:
                    out.append(dict(base, sel=s, names=names, index=index, extra=extra, inindex=inindex, approx=approx, target=target, cols=n % 24, chunk=chunks[n % 5]))
            for cols, chunk, extra in itertools.product(range(24), chunks, extras):
                n += 1
                if self.th or n % 3 == 0:
                    out.append(dict(base, sel=s, cols=cols, chunk=chunk, extra=extra, inindex=bool(n % 2), idk=idks[n % 4][0], names=n % 4))
        # single cutoffs
        for idk, num in idks:
            for s in [list(s) for k in (1, 2, 3, 4) for s in itertools.permutations(range(4), k)]:
                for box in ("list", "series", "named", "array", "none", "tuple"):
                    n += 1
                    if idk == "cat" and 3 in s:      # the unknown id of a categorical index has no category
                        continue
                    if self.th or n % 4 == 0 or (box == "none" and len(s) == 1):
                        out.append(dict(base, single=True, sel=s, box=box, tick=(1, 2, 0)[n % 3], idk=idk, numeric=num, target="RC"[(n // 3) % 2], inindex=bool(n % 2),
                                        chunk=chunks[(n // 2) % 5], approx=None if num else (None, "2h")[(n // 5) % 2], feats=n % 4, excl=bool(n % 3 == 0)))
        for bad in ("dup", "dup2", "both ids", "both times", "no id", "no time", "list", "no features", "wrong time type"):
            for idk, num in idks:
                for target in "RC":
                    for approx in (None, "2h"):
                        out.append(dict(base, bad=bad, idk=idk, numeric=num, target=target, sel=[0, 2, 3], approx=None if num else approx))
        return out

    def ids_of(self, case, w, ids):
        if case["target"] == "R":
            return lambda r: ids[r]
        return lambda r: [102, 104, 103, 555][r]

    def run(self, case, st):
        import featuretools as ft
        import pandas as pd
        w, ids, es, memo = self.ctx(case["idk"], case["numeric"])
        key = (case["target"], case["feats"])
        if key not in memo:
            ts = trees(*key)
            memo[key] = (ts, model.to_features(es, w, ts))
        ts, fs = memo[key]
        rid = self.ids_of(case, w, ids)
        kw = {}
        if case["inindex"]:
            kw["cutoff_time_in_index"] = True
        if case["chunk"]:
            kw["chunk_size"] = case["chunk"]
        if case["approx"]:
            kw["approximate"] = case["approx"]
        if case["excl"]:
            kw["include_cutoff_time"] = False
        sel = case["sel"]
        names = [n for f in fs for n in f.get_feature_names()]
        st.add("calls")
        if case.get("bad"):
            return self.rejected(case, w, es, fs, rid, kw, st)
        if case.get("single"):
            want = [(rid(r), case["tick"]) for r in sel]
            if case["box"] == "none":
                tb = w.tables[case["target"]]
                want = [(r["id"], case["tick"]) for r in model.ordered(tb) if r["t"] < case["tick"] + (0 if case["excl"] else 1)]
                if not want:
                    return []
                iids = None
            else:
                vals = [i for i, _ in want]
                iids = {"list": lambda: list(vals), "tuple": lambda: tuple(vals), "series": lambda: pd.Series(vals, index=range(len(vals), 0, -1)),
                        "named": lambda: pd.Series(vals, index=["z"] * len(vals), name="id"), "array": lambda: pd.Series(vals).values}[case["box"]]()
                if case["box"] == "tuple":
                    iids = list(iids)
            fm = ft.calculate_feature_matrix(fs, es, cutoff_time=w.time(case["tick"]), instance_ids=iids, **kw)
            extra = {}
        else:
            want = [(rid(PAIRS[k][0]), PAIRS[k][1]) for k in sel]
            if case["idk"] == "cat" and case["target"] == "R":
                seen, u, s2 = set(), [], []
                for p, k in zip(want, sel):
                    if p not in seen:
                        seen.add(p)
                        u.append(p)
                        s2.append(k)
                want, sel = u, s2
            idc, tc = NAMES[case["names"]]
            d = {idc: [i for i, _ in want], tc: [w.time(t) for _, t in want]}
            extra = {e: extra_values(pd, e, sel) for e in case["extra"]}
            d.update(extra)
            cols = list(d)
            perms = list(itertools.permutations(range(len(cols)))) if len(cols) < 5 else [tuple(range(5)), (4, 3, 2, 1, 0), (2, 0, 4, 1, 3)]
            cols = [cols[k] for k in perms[case["cols"] % len(perms)]]
            df = pd.DataFrame(d, columns=cols)
            m = len(df)
            df.index = {"range": pd.RangeIndex(m), "reversed": pd.Index(range(m))[::-1], "same": pd.Index([5] * m), "str": pd.Index(["row%d" % (m - k) for k in range(m)]),
                        "multi": pd.MultiIndex.from_tuples([(m - k, "a") for k in range(m)])}[case["index"]]
            if case["sub"]:
                class Sub(pd.DataFrame):
                    @property
                    def _constructor(self):
                        return Sub
                df = Sub(df)
            fm = ft.calculate_feature_matrix(fs, es, cutoff_time=df, **kw)
            extra = {c: extra[c] for c in cols if c in extra}
        if len(want) > 1 or extra:
            st.seen("nontrivial", case)
        st.sample(case)
        bad = []
        if list(fm.columns) != names + list(extra):
            return ["columns %r, expected %r" % (list(fm.columns), names + list(extra))]
        if len(fm) != len(want):
            return ["%d rows for %d requested pairs" % (len(fm), len(want))]
        if case["inindex"]:
            got = [(model.norm(a), model.norm(b)) for a, b in fm.index]
            exp = [(model.norm(i), model.nref(model.Tick(t), w)) for i, t in want]
            lab = ["id", "time"]
        else:
            got = [model.norm(a) for a in fm.index]
            exp = [model.norm(i) for i, t in want]
            lab = ["id"]
        if got != exp:
            bad.append("rows labelled %r, requested %r" % (got, exp))
        if list(fm.index.names) != lab:
            bad.append("index named %r, expected %r" % (list(fm.index.names), lab))
        for e, vals in extra.items():
            a, b = [model.norm(v) for v in fm[e]], [model.norm(v) for v in vals]
            if a != b:
                bad.append("extra column %s is %r, given %r" % (e, a, b))
        # the values sit on the right rows
        if not case["approx"]:
            refs = {}
            for pos, (i, t) in enumerate(want):
                ref = refs.setdefault(t, model.Ref(w, t, None, not case["excl"], None))
                for tree, f in zip(ts, fs):
                    v = ref.target(tree, i)
                    ns = f.get_feature_names()
                    for n, x in zip(ns, v if len(ns) > 1 else [v]):
                        st.add("evaluations")
                        if not model.close(model.norm(fm[n].iloc[pos]), model.nref(x, w)):
                            bad.append("%s of %r is %r, expected %r" % (n, (i, t), model.norm(fm[n].iloc[pos]), model.nref(x, w)))
        return bad[:3]

    def rejected(self, case, w, es, fs, rid, kw, st):
        import featuretools as ft
        import pandas as pd
        rows = [(rid(PAIRS[k][0]), PAIRS[k][1]) for k in case["sel"]]
        bad = case["bad"]
        if bad == "dup":
            rows = [rows[0], rows[1], rows[0]]
        if bad == "dup2":
            rows = [rows[2], rows[2]]
        d = {"instance_id": [i for i, _ in rows], "time": [w.time(t) for _, t in rows]}
        if bad == "dup":
            d["label"] = list(range(len(rows)))
        if bad == "both ids":
            d["id"] = d["instance_id"][::-1]
        if bad == "both times":
            d["t"] = d["time"][::-1]
        if bad == "no id":
            d["other"] = d.pop("instance_id")
        if bad == "no time":
            d["when"] = d.pop("time")
        if bad == "wrong time type":
            d["time"] = list(range(len(rows))) if not case["numeric"] else [pd.Timestamp("2020-01-01")] * len(rows)
        ct = pd.DataFrame(d)
        if bad == "list":
            ct = d["time"]
        st.add("evaluations")
        try:
            fm = ft.calculate_feature_matrix([] if bad == "no features" else fs, es, cutoff_time=ct, **kw)
        except Exception:
            st.seen("nontrivial", case)
            return []
        return ["a request with %s was answered with rows %r" % (bad, list(fm.index)[:5])]

    def finish(self, tier, counts, sets):
        n = len(sets.get("nontrivial", ()))
        return {}, ([] if n > 1000 else ["only %d non-trivial requests" % n])


CHECK = P09()

"""P24: encoding every small categorical column under every option, against a direct definition and against calculating the encoded features."""
import itertools

from ..core import Check
from .p25 import isnull

KINDS = {"text": ["a", "b", "B c", None], "int": [1, 2, 10, None], "bool": [True, False, None], "float": [0.5, -1.0, 2.0, None], "category": ["a", "b", "c", None], "odd": ["", "unknown", "nan", None]}


def series(col, kind):
    import pandas as pd
    if kind == "int" and None not in col:
        return pd.Series([int(v) for v in col], dtype="int64")
    if kind in ("int", "float"):
        return pd.Series([float("nan") if v is None else float(v) for v in col], dtype="float64")
    if kind == "category":
        return pd.Series(col, dtype="object").astype("category")
    return pd.Series(list(col), dtype="object")


def build(col, pcol, kind):
    import featuretools as ft
    import pandas as pd
    V = ft.variable_types
    es = ft.EntitySet("e")
    es.entity_from_dataframe("A", pd.DataFrame({"id": [10, 20], "c": series(pcol, kind), "o": pd.Series(["u", "v"], dtype="object")}), index="id", variable_types={"c": V.Categorical, "o": V.Ordinal})
    n = len(col)
    es.entity_from_dataframe("B", pd.DataFrame({"id": range(n), "t": pd.date_range("2020-01-01", periods=n), "a": [10, 20, 10, 20, 20, 10][:n], "c": series(col, kind), "n": [float(i % 3) for i in range(n)]}), index="id", time_index="t",
                             variable_types={"a": V.Id, "c": V.Categorical, "n": V.Numeric})
    es.add_relationship(ft.Relationship(es["A"]["id"], es["B"]["a"]))
    return es


def lists(es, which):
    import featuretools as ft
    A, B = es["A"], es["B"]
    if which == "B":
        return [ft.Feature(B["n"]), ft.Feature(B["c"]), ft.Feature(A["c"], B), ft.Feature(B["n"]) > 1]
    if which == "B2":
        return [ft.Feature(B["c"]).rename("index"), ft.Feature(B["a"]), ft.Feature(A["o"], B).rename("level_0")]
    return [ft.Feature(B["c"], parent_entity=A, primitive=ft.primitives.Mode), ft.Feature(B["c"], parent_entity=A, primitive=ft.primitives.NMostCommon(n=2)), ft.Feature(B["c"], parent_entity=A, primitive=ft.primitives.NumUnique), ft.Feature(A["c"])]


def discrete(f):
    import featuretools as ft
    return f.number_output_features == 1 and issubclass(f.variable_type, ft.variable_types.Discrete)


def labels(values, k, drop):
    seen = []
    for v in values:
        if not isnull(v) and v == v and v not in seen:
            seen.append(v)
    count = {v: sum(1 for x in values if not isnull(x) and x == v) for v in seen}
    order = sorted(seen, reverse=True)
    order.sort(key=lambda v: -count[v])
    if drop:
        k = max(min(len(order), k) - 1, 1)
    return order[:k]


def scalar(v):
    """values as they are listed"""
    import pandas as pd
    if v is None or v is pd.NaT or (isinstance(v, float) and v != v):
        return None
    return v


def columns(fm, name):
    return [scalar(v) for v in fm[name].tolist()]


class P24(Check):
    id = "P24"
    rule = ("every column of up to 3 (thorough: 5) values over up to three values and missing, in 6 kinds of data, as own variable, parent's variable and through aggregations, x every combination of top-n (numbers and dictionaries), unknown, drop-first, columns to encode and in-place (text columns of up to 2 rows; thorough: text, whole numbers and categories up to 3 rows, others up to 2) or every 17th of them, starting at another one for each column; "
            "the encoded features are calculated again on the same data, on other data and at cutoff times. Non-trivial: distinct (column, options) with at least one indicator")
    assumptions = ("names of features and of their indicators are distinct", "categories without occurrences are not generated", "drop-first with a top-n of 0 is unspecified")

    def prepare(self, tier):
        self.th = tier == "thorough"

    def cases(self, tier):
        for n in range(1, 6 if self.th else 4):
            for kind in KINDS if n < 5 else ("text", "int"):
                vals = KINDS[kind]
                for col in itertools.product(range(len(vals)), repeat=n):
                    yield {"kind": kind, "col": list(col), "p": [col[0], col[-1]], "full": n < 4 if self.th and kind in ("text", "int", "category") else n < 3 if self.th else n < 3 and kind == "text", "timed": n < 4}
        # longer columns, for the default number of values
        for k in (9, 10, 11, 12):
            yield {"kind": "many", "k": k}

    def run(self, case, st):
        st.sample(case)
        if case["kind"] == "many":
            return self.many(case, st)
        vals = KINDS[case["kind"]]
        col, pcol = [vals[i] for i in case["col"]], [vals[i] for i in case["p"]]
        es = build(col, pcol, case["kind"])
        other = build([vals[(i + 1) % len(vals)] for i in case["col"]] + [vals[0]], pcol[::-1], case["kind"])
        bad = []
        for which in ("B", "A", "B2"):
            bad += self.explore(es, other, which, case, st)
            if bad:
                return bad[:3]
        return bad

    def explore(self, es, other, which, case, st):
        import featuretools as ft
        import pandas as pd
        fs = lists(es, which)
        fm = ft.calculate_feature_matrix(fs, es)
        enc = [f.get_name() for f in fs if discrete(f)]
        bad = []
        menu = list(itertools.product([None, 0, 1, 2, 3, {}, {enc[0]: 1}, {enc[0]: 2, enc[-1]: 1, "x": 3}], (True, False), (True, False), [None] + [list(x) for k in range(len(enc) + 1) for x in itertools.combinations(enc, k)], (True, False)))
        step = 1 if case["full"] else 17
        if which == "B2":
            step *= 5
        # where not every combination is taken, neighbouring columns take other ones
        menu = menu[sum(case["col"]) * 5 % step::step]
        for i, (top, unk, drop, to, inp) in enumerate(menu):
            if top == 0 and drop:
                continue
            kw = {"include_unknown": unk, "drop_first": drop, "inplace": inp}
            if top is not None:
                kw["top_n"] = top
            if to is not None:
                kw["to_encode"] = to
            m = fm.copy()
            if i % 3 == 1:
                m.insert(0, "label", range(len(m)))
            got, gf = ft.encode_features(m, list(fs), **kw)
            st.add("evaluations")
            what = "%s column %r, features %s, %r" % (case["kind"], case.get("col"), which, kw)
            bad += self.judge(what, fm, m if inp else None, m, fs, got, gf, kw, st, i % 3 == 1)
            if i % (9 if case["full"] else 7) == 1:
                bad += self.again(what, es, other, which, fm, got, gf, fs, kw, st)
            if bad:
                return bad
        if which == "B" and case["timed"]:
            bad += self.timed(es, fs, st, case)
        return bad

    def expected(self, fm, fs, kw):
        """[(name, values or None)] and the labels of each encoded feature"""
        top, unk, drop, to = kw.get("top_n", 10), kw["include_unknown"], kw["drop_first"], kw.get("to_encode")
        out, used = [], {}
        for f in fs:
            n = f.get_name()
            if not discrete(f) or (to is not None and n not in to):
                out += [(c, columns(fm, c)) for c in f.get_feature_names()]
                continue
            vals = columns(fm, n)
            k = top.get(n, 10) if isinstance(top, dict) else top
            used[n] = labels(vals, k, drop)
            for v in used[n]:
                out.append(("%s = %s" % (n, v), [x is not None and x == v for x in vals]))
            if unk:
                out.append((n + " is unknown", [x is None or x not in used[n] for x in vals]))
        return out, used

    def judge(self, what, fm, inplace, m, fs, got, gf, kw, st, label):
        want, used = self.expected(fm, fs, kw)
        bad = []
        names = [n for n, _ in want]
        if used and any(used.values()):
            st.seen("nontrivial", what)
        if list(got.columns) != names + (["label"] if label else []):
            return ["%s: columns %r instead of %r" % (what, list(got.columns), names)]
        if list(got.index) != list(fm.index) or got.index.name != fm.index.name:
            bad.append("%s: rows %r" % (what, list(got.index)))
        for n, vs in want:
            g = columns(got, n)
            if g != vs or (n not in fm.columns and got[n].dtype != bool):
                bad.append("%s: %s is %r (%s) instead of %r" % (what, n, g, got[n].dtype, vs))
            if n in fm.columns and got[n].dtype != fm[n].dtype:
                bad.append("%s: %s changes from %s to %s" % (what, n, fm[n].dtype, got[n].dtype))
        if label and list(got["label"]) != list(range(len(fm))):
            bad.append("%s: other columns change" % what)
        if [n for f in gf for n in f.get_feature_names()] != names:
            bad.append("%s: features %r instead of %r" % (what, [f.get_name() for f in gf], names))
        if inplace is not None:
            if set(m.columns) != set(got.columns) or any(columns(m, c) != columns(got, c) for c in got.columns):
                bad.append("%s: the matrix encoded in place has columns %r" % (what, list(m.columns)))
        elif list(m.columns) != (["label"] if label else []) + list(fm.columns) or any(columns(m, c) != columns(fm, c) for c in fm.columns):
            bad.append("%s: the matrix given is changed: %r" % (what, list(m.columns)))
        return bad[:2]

    def again(self, what, es, other, which, fm, got, gf, fs, kw, st):
        """calculated again: on the same data, and on other data with the labels found here"""
        import featuretools as ft
        bad = []
        re = ft.calculate_feature_matrix(gf, es)
        st.add("recalculated")
        cols = [c for c in got.columns if c != "label"]
        if list(re.columns) != cols or list(re.index) != list(got.index):
            return ["%s: calculated again the columns are %r instead of %r" % (what, list(re.columns), cols)]
        for c in cols:
            if columns(re, c) != columns(got, c) or (re[c].dtype != got[c].dtype):
                bad.append("%s: calculated again %s is %r (%s) instead of %r (%s)" % (what, c, columns(re, c), re[c].dtype, columns(got, c), got[c].dtype))
        want, used = self.expected(fm, fs, kw)
        fm2 = ft.calculate_feature_matrix(fs, other)
        re2 = ft.calculate_feature_matrix(gf, other)
        for f in fs:
            n = f.get_name()
            if n not in used:
                continue
            vals = columns(fm2, n)
            for v in used[n]:
                g = columns(re2, "%s = %s" % (n, v))
                if g != [x is not None and x == v for x in vals]:
                    bad.append("%s: on other data %s = %s is %r for %r" % (what, n, v, g, vals))
            if kw["include_unknown"] and columns(re2, n + " is unknown") != [x is None or x not in used[n] for x in vals]:
                bad.append("%s: on other data %s is unknown is %r for %r" % (what, n, columns(re2, n + " is unknown"), vals))
        return bad[:2]

    def timed(self, es, fs, st, case):
        import featuretools as ft
        import pandas as pd
        n = len(case["col"])
        ct = pd.DataFrame({"id": [i for i in range(n) for _ in (0, 1)][::-1], "time": [pd.Timestamp("2020-01-%02d" % (i + 1 if early else 9)) for i in range(n) for early in (1, 0)][::-1], "lab": range(2 * n)})
        fm = ft.calculate_feature_matrix(fs, es, cutoff_time=ct, cutoff_time_in_index=True)
        kw = {"include_unknown": True, "drop_first": False, "inplace": False, "top_n": 2}
        got, gf = ft.encode_features(fm, list(fs), **kw)
        st.add("evaluations")
        want, used = self.expected(fm, fs, kw)
        if list(got.columns) != [c for c, _ in want] + ["lab"] or any(columns(got, c) != v for c, v in want) or list(got.index) != list(fm.index) or list(got["lab"]) != list(fm["lab"]):
            return ["matrix at cutoff times %r: encoded %r" % (case["col"], got.to_dict("list"))]
        re = ft.calculate_feature_matrix(gf, es, cutoff_time=ct, cutoff_time_in_index=True)
        bad = [c for c in got.columns if columns(re, c) != columns(got, c) or re[c].dtype != got[c].dtype]
        return ["matrix at cutoff times %r: calculated again %s is %r instead of %r" % (case["col"], c, columns(re, c), columns(got, c)) for c in bad[:1]] + \
            ([] if list(re.columns) == list(got.columns) and list(re.index) == list(got.index) else ["matrix at cutoff times: calculated again it has other rows or columns"])

    def many(self, case, st):
        import featuretools as ft
        import pandas as pd
        k = case["k"]
        bad = []
        for extra in range(k):
            col = ["v%02d" % (i * 7 % k) for i in range(k)] + ["v%02d" % extra]
            es = ft.EntitySet("e")
            es.entity_from_dataframe("B", pd.DataFrame({"id": range(k + 1), "c": col, "d": col[::-1]}), index="id", variable_types={"c": ft.variable_types.Categorical, "d": ft.variable_types.Categorical})
            fs = [ft.Feature(es["B"]["c"]), ft.Feature(es["B"]["d"])]
            fm = ft.calculate_feature_matrix(fs, es)
            for top in (None, {}, {"c": 3}, {"d": 12}, 9, 11):
                for drop in (False, True):
                    kw = {"include_unknown": True, "drop_first": drop, "inplace": False}
                    if top is not None:
                        kw["top_n"] = top
                    got, gf = ft.encode_features(fm, list(fs), **kw)
                    st.add("evaluations")
                    bad += self.judge("%d values, %r" % (k, kw), fm, None, fm, fs, got, gf, kw, st, False)
        return bad[:3]


CHECK = P24()

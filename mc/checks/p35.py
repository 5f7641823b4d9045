"""P35: interesting values of every small column (and of columns around the thresholds for many values), against counting."""
import itertools
from collections import Counter

from ..core import Check

VALUES = {"text": ("x", "y", "z"), "cat": ("x", "y", "z"), "ints": (3, 1, 2), "float": (0.5, 1.0, -2.0), "bool": (True, False), "mixed": ("x", 1, 2.5)}
TYPES = {"text": ("Categorical", "ZIPCode", "Id", "Ordinal", "CountryCode", "SubRegionCode"), "cat": ("Categorical",), "ints": ("Ordinal", "Categorical"), "float": ("Ordinal",), "bool": ("Categorical",), "mixed": ("Categorical",)}
OTHERS = ("Numeric", "NaturalLanguage", "Datetime", "Boolean")


def answer_ok(found, column, most):
    """the most frequent values, up to `most`; of 25 or more values only those whose share lies strictly between 5 % and 95 %, from the most frequent on"""
    c = Counter(v for v in column if v is not None)
    total = sum(c.values())
    if len(found) != len(set(found)) or any(v not in c for v in found):
        return False
    ranks = sorted(c.values(), reverse=True)[:max(most, 0)]
    if len(c) >= 25:
        keep = []
        for r in ranks:
            if not (r * 20 > total and r * 20 < total * 19):
                break
            keep.append(r)
        ranks = keep
    return [c[v] for v in found] == ranks


class P35(Check):
    id = "P35"
    rule = ("every column of up to 5 (thorough: 6) rows over 3 values and missing in 6 kinds of data and 6 discrete types x 0 to 4 (and 10) values asked for, once, again with another number, and after setting values by hand; columns of 23 to 26 "
            "values whose two most frequent have every count around 5 and 95 percent; variables of relationships and of other types. Non-trivial: distinct (column, number) with several values")
    assumptions = ("which of equally frequent values is chosen is not stated",)
    PACK = 64

    def prepare(self, tier):
        self.th = tier == "thorough"

    def columns(self, kind, n):
        return list(itertools.product(VALUES[kind] + ((None,) if kind not in ("ints",) else ()), repeat=n))

    def cases(self, tier):
        for n in range(1, 7 if self.th else 6):
            for kind in sorted(VALUES):
                for lo in range(0, len(self.columns(kind, n)), self.PACK):
                    for ty in TYPES[kind]:
                        if ty in ("Categorical", "Ordinal") or n < 5 or (lo // self.PACK) % 4 == 0:
                            yield {"kind": kind, "n": n, "from": lo, "type": ty}
        for d in (23, 24, 25, 26):
            yield {"many": d}
        for order in ("set first", "found first"):
            yield {"history": order}
        yield {"keys": True}

    def entity(self, columns, kind, ty):
        import featuretools as ft
        import pandas as pd
        df = pd.DataFrame({"id": range(len(columns[0]))})
        for j, col in enumerate(columns):
            if kind == "cat":
                df["c%d" % j] = pd.Categorical(col, categories=["unused", "z", "y", "x"])
            else:
                df["c%d" % j] = pd.Series(col, dtype={"ints": "int64", "float": "float64"}.get(kind, object))
        es = ft.EntitySet("i")
        es.entity_from_dataframe("e", df, index="id", variable_types={"c%d" % j: getattr(ft.variable_types, ty) for j in range(len(columns))})
        return es

    def run(self, case, st):
        st.sample(case)
        if "many" in case:
            return self.many(case["many"], st)
        if "keys" in case:
            return self.keys(st)
        if "history" in case:
            return self.history(case["history"], st)
        cols = self.columns(case["kind"], case["n"])[case["from"]:case["from"] + self.PACK]
        bad = []
        for most in (0, 1, 2, 3, 4, 10):
            es = self.entity(cols, case["kind"], case["type"])
            df = es["e"].df.copy()
            st.add("evaluations", len(cols))
            (es if most % 2 else es["e"]).add_interesting_values(max_values=most)
            if not es["e"].df.equals(df):
                bad.append("%s: adding interesting values changed the data" % (case,))
            bad += self.judge(es, cols, most, case, st)
            if case["n"] < 4:
                es["e"].add_interesting_values(max_values=2)
                bad += self.judge(es, cols, 2, "%s, again after %d" % (case, most), st)
            if len(bad) > 2:
                break
        return bad[:3]

    def judge(self, es, cols, most, tag, st):
        bad = []
        meta = es.metadata
        for j, col in enumerate(cols):
            found = list(es["e"]["c%d" % j].interesting_values)
            if len(found) > 1:
                st.seen("nontrivial", (col, most, str(tag)))
            if not answer_ok(found, col, most):
                bad.append("%s: the interesting values of %r are %r, asked for %d" % (tag, col if len(col) < 9 else Counter(col).most_common(4), found, most))
            elif list(meta["e"]["c%d" % j].interesting_values) != found:
                bad.append("%s: the metadata lists %r, not %r" % (tag, list(meta["e"]["c%d" % j].interesting_values), found))
        return bad[:2]

    def many(self, d, st):
        """d values; the first two occur a and b times, the others once; shares exactly at, just above and below 5 and 95 percent"""
        bad = []
        pairs = [(a, b) for a in (1, 2, 3, 4) for b in (1, 2, 3)] + [(a, 1) for a in range(19 * (d - 1) - 2, 19 * (d - 1) + 3)]
        pairs += [(a, b) for b in (4, 5, 6, 7) for a in range(20 * b - (d - 2) - b - 1, 20 * b - (d - 2) - b + 3) if a >= b]
        for k, (a, b) in enumerate(sorted(set(pairs))):
            for missing in (0, 40):
                col = ["top"] * a + ["next"] * b + ["v%d" % i for i in range(d - 2)] + [None] * missing
                col = tuple(col[1::2] + col[0::2])
                for most in (1, 2, 5, 30):
                    st.add("evaluations")
                    es = self.entity([col], "text", "Categorical")
                    es.add_interesting_values(max_values=most)
                    bad += self.judge(es, [col], most, "%d values, %d and %d times, %d missing" % (d, a, b, missing), st)
        return bad[:3]

    def history(self, order, st):
        cols = [("x", "x", "y"), ("y", None, "z"), ("z", "z", "z")]
        bad = []
        for most in (0, 1, 2, 3):
            st.add("evaluations")
            es = self.entity(cols, "text", "Categorical")
            if order == "found first":
                es.add_interesting_values(max_values=most)
            for j in range(3):
                es["e"]["c%d" % j].interesting_values = ["by hand", "x", "x"]
                if list(es["e"]["c%d" % j].interesting_values) != ["by hand", "x"]:
                    bad.append("values set by hand are %r" % list(es["e"]["c%d" % j].interesting_values))
            if order == "set first":
                es.add_interesting_values(max_values=most)
                bad += self.judge(es, cols, most, "after values set by hand", st)
        return bad[:3]

    def keys(self, st):
        """variables of relationships have none; variables that are not discrete keep theirs"""
        import featuretools as ft
        import pandas as pd
        bad = []
        for later in (False, True):
            for who in ("entityset", "parent", "child"):
                st.add("evaluations")
                es = ft.EntitySet("k")
                p = pd.DataFrame({"id": ["a", "b"], "z": ["u", "u"]})
                c = pd.DataFrame({"id": [0, 1, 2], "p": ["a", "a", "b"], "other": ["q", "r", "q"], "n": [1.0, 1.0, 2.0], "w": ["some text", "more", "more"], "t": pd.to_datetime(["2020-01-01"] * 3), "b": [True, True, False]})
                es.entity_from_dataframe("p", p, index="id")
                es.entity_from_dataframe("c", c, index="id", variable_types={"p": ft.variable_types.Id, "other": ft.variable_types.Id, "n": ft.variable_types.Numeric, "w": ft.variable_types.NaturalLanguage,
                                                                             "t": ft.variable_types.Datetime, "b": ft.variable_types.Boolean})
                if later:
                    es.add_interesting_values()
                es.add_relationship(ft.Relationship(es["p"]["id"], es["c"]["p"]))
                es["c"]["n"].interesting_values = [2.0]
                {"entityset": es, "parent": es["p"], "child": es["c"]}[who].add_interesting_values()
                got = {v.id: list(v.interesting_values) for v in es["c"].variables}
                want = {"id": [], "p": [], "other": ["q", "r"], "n": [2.0], "w": [], "t": [], "b": []}
                if who == "parent" and not later:
                    want["other"] = []
                if who == "parent" and later:
                    want["p"] = ["a", "b"]
                if got != want or list(es["p"]["id"].interesting_values):
                    bad.append("%s (earlier: %s): %r, expected %r" % (who, later, got, want))
                if who != "child" and list(es["p"]["z"].interesting_values) != ["u"]:
                    bad.append("parent's values: %r" % list(es["p"]["z"].interesting_values))
        return bad[:3]

    def finish(self, tier, counts, sets):
        n = len(sets.get("nontrivial", ()))
        return {}, ([] if n > 2000 else ["only %d non-trivial columns" % n])


CHECK = P35()

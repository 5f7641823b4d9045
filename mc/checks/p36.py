"""P36: every expression of two operators over features and numbers, as features and as arithmetic on every row."""
import itertools

from ..core import Check, Problem

KEY = "P36:operator-names-without-parentheses"
A, B, C = (None, -2.0, 0.0, 3.0), (None, -3.0, 0.5, 2.0), (None, 1.0, -2.0)
ARITH, COMP = ("+", "-", "*", "/", "%"), ("<", "<=", ">", ">=", "==", "!=")
NUM, CONST = ("a", "b", "c"), ("2", "-3", "0.5", "0")


class Open(Exception):
    """the value is not specified"""


class V(object):
    """a value of one row; missing operands give missing results, comparisons with them are open"""

    def __init__(self, v):
        self.v = v

    def num(self, o, f, flip=False):
        o = o.v if isinstance(o, V) else o
        x, y = (o, self.v) if flip else (self.v, o)
        if x is None or y is None:
            return V(None)
        try:
            return V(f(float(x), float(y)))
        except ZeroDivisionError:
            raise Open()

    def cmp(self, o, f):
        o = o.v if isinstance(o, V) else o
        if self.v is None or o is None:
            raise Open()
        return V(f(self.v, o))

    def __add__(self, o): return self.num(o, lambda x, y: x + y)
    def __radd__(self, o): return self.num(o, lambda x, y: x + y, True)
    def __sub__(self, o): return self.num(o, lambda x, y: x - y)
    def __rsub__(self, o): return self.num(o, lambda x, y: x - y, True)
    def __mul__(self, o):
        if isinstance(o, V) and isinstance(self.v, bool) and isinstance(o.v, bool):
            return V(self.v and o.v)
        return self.num(o, lambda x, y: x * y)
    def __rmul__(self, o): return self.num(o, lambda x, y: x * y, True)
    def __truediv__(self, o): return self.num(o, lambda x, y: x / y)
    def __rtruediv__(self, o): return self.num(o, lambda x, y: x / y, True)
    def __mod__(self, o): return self.num(o, lambda x, y: x % y)
    def __rmod__(self, o): return self.num(o, lambda x, y: x % y, True)
    def __lt__(self, o): return self.cmp(o, lambda x, y: x < y)
    def __le__(self, o): return self.cmp(o, lambda x, y: x <= y)
    def __gt__(self, o): return self.cmp(o, lambda x, y: x > y)
    def __ge__(self, o): return self.cmp(o, lambda x, y: x >= y)
    def __eq__(self, o): return self.cmp(o, lambda x, y: x == y)
    def __ne__(self, o): return self.cmp(o, lambda x, y: x != y)
    def __and__(self, o): return V(self.v and o.v)
    def __or__(self, o): return V(self.v or o.v)
    def __invert__(self): return V(not self.v)
    def AND(self, o): return V(self.v and o.v)
    def OR(self, o): return V(self.v or o.v)
    def NOT(self): return V(not self.v)
    def __abs__(self): return V(None if self.v is None else abs(self.v))
    def __neg__(self): return V(None if self.v is None else -self.v)
    def is_null(self): return V(self.v is None)

    def isin(self, vals):
        if self.v is None:
            raise Open()
        return V(self.v in vals)

    def rename(self, name): return self


def expressions():
    """(text, kind) of everything with up to two operators"""
    one = ["%s %s %s" % (x, op, y) for op in ARITH for x in NUM for y in NUM + CONST if x != y] + ["%s %s %s" % (x, op, y) for op in ARITH for x in CONST for y in NUM] + ["-a", "abs(b)", "-c"]
    cmp1 = ["%s %s %s" % (x, op, y) for op in COMP for x, y in [("a", "b"), ("b", "a"), ("a", "c"), ("a", "2"), ("c", "-2"), ("2", "b"), ("0", "a"), ("t", "u"), ("u", "t"), ("t", "T1"), ("T1", "u"), ("a", "a")]]
    cmp1 += ["k == 'x'", "k != 'y'", "k == l", "l != k", "p == q", "p != q", "a.isin([3.0, 0.0])", "k.isin(['x', 'q'])", "k.isin([])", "a.is_null()", "k.is_null()", "t.is_null()"]
    logic = ["p & q", "q | p", "~p", "p * q", "p.AND(q)", "q.OR(p)", "p.NOT()", "p & p"]
    two = ["(%s) %s %s" % (e, op, z) for e in one for op in ARITH for z in ("a", "b", "2")] + ["%s %s (%s)" % (z, op, e) for e in one for op in ARITH for z in ("b", "c", "0.5")]
    two += ["(%s) %s %s" % (e, op, z) for e in one for op in COMP for z in ("c", "0")] + ["0.5 %s (%s)" % (op, e) for e in one[::3] for op in COMP]
    two += ["-(%s)" % e for e in one] + ["abs(%s)" % e for e in one] + ["(%s).is_null()" % e for e in one]
    known = [e for e in cmp1 if "is_null" not in e]
    two += ["(%s) %s %s" % (e, op, z) for e in known for op in ("&", "|") for z in ("p", "(a > 0)")] + ["q %s (%s)" % (op, e) for e in known for op in ("&", "|", "*")]
    two += ["~(%s)" % e for e in cmp1 + logic] + ["(%s) %s %s" % (e, op, z) for e in logic for op in ("&", "|", "==", "*") for z in ("q", "~q")]
    two += ["(a + b).rename('other') * 2", "((a - b) - c).rename('r1') - (a - (b - c)).rename('r2')", "-(-a)", "abs(-b) + abs(c)"]
    return list(dict.fromkeys(NUM + ("p", "k") + tuple(one + cmp1 + logic + two)))


def collisions():
    """pairs of different expressions that carry the same name"""
    out = []
    for o1, o2 in itertools.product(ARITH, repeat=2):
        for x, y, z in (("a", "b", "c"), ("b", "2", "a")):
            out.append(("(%s %s %s) %s %s" % (x, o1, y, o2, z), "%s %s (%s %s %s)" % (x, o1, y, o2, z)))
    return [p for p in out if "2 %s a" not in p[1]]


class P36(Check):
    id = "P36"
    rule = ("every expression of up to two operators (arithmetic, modulo, comparison, logic, negation, absolute value, membership, missing test, renaming, in both orders with numbers, texts, times and truth values on either side) over variables of an "
            "entity whose rows are all combinations of small alphabets with missing values; each also on an entity's parent through a direct feature and below an aggregation; each compared with the arithmetic on every row. "
            "Non-trivial: distinct expressions with a known value")
    assumptions = ("comparison and logic with missing operands and division by zero are open (P29)", "features with different definitions and equal names: see known findings")
    PACK = 40

    def prepare(self, tier):
        self.th = tier == "thorough"
        self.ex = expressions()

    def cases(self, tier):
        for lo in range(0, len(self.ex), self.PACK):
            yield {"from": lo}
        for lo in range(0, len(self.ex), self.PACK):
            if self.th or lo % (self.PACK * 4) == 0:
                yield {"from": lo, "via": "parent"}
                yield {"from": lo, "via": "alone"}
        for i in range(len(collisions())):
            yield {"names": i}

    def world(self):
        import featuretools as ft
        import pandas as pd
        vt = ft.variable_types
        rows = []
        for i, (a, b, c) in enumerate(itertools.product(A, B, C)):
            rows.append({"id": i, "a": a, "b": b, "c": c, "p": i % 2 == 0, "q": i % 3 == 0, "k": ("x", "y", None)[i % 3], "l": ("y", "x", "x", "y")[i % 4],
                         "t": (None, 0, 1, 2)[i % 4], "u": (1, 0, 2, None, 1)[i % 5]})
        df = pd.DataFrame(rows)
        for x in "tu":
            df[x] = pd.Series([pd.NaT if r[x] is None else pd.Timestamp(2020, 1, 1 + r[x]) for r in rows])
        for x in "abc":
            df[x] = df[x].astype(float)
        es = ft.EntitySet("o")
        es.entity_from_dataframe("e", df, index="id", variable_types={"a": vt.Numeric, "b": vt.Numeric, "c": vt.Numeric, "p": vt.Boolean, "q": vt.Boolean, "k": vt.Categorical, "l": vt.Categorical, "t": vt.Datetime, "u": vt.Datetime})
        n = len(rows)
        kid = pd.DataFrame({"id": range(n + 2), "e_id": [(i * 7) % n for i in range(n)] + [None, None]})
        kid["e_id"] = kid["e_id"].astype(float).astype("Int64").astype(object).where(kid["e_id"].notnull(), None)
        return es, rows, kid

    def run(self, case, st):
        import featuretools as ft
        import pandas as pd
        es, rows, kid = self.world()
        env = {v: ft.Feature(es["e"][v]) for v in "abcpqkltu"}
        env["T1"] = pd.Timestamp(2020, 1, 2)
        if "names" in case:
            return self.named(ft, es, rows, env, collisions()[case["names"]], st)
        texts = self.ex[case["from"]:case["from"] + self.PACK]
        st.sample({"from": texts[:3]})
        via = case.get("via")
        bad, feats, used, names = [], [], [], set()
        for x in texts:
            f = eval(x, {}, dict(env))
            if f.entity.id != "e" or not isinstance(f, ft.FeatureBase):
                bad.append("%s is %r" % (x, f))
            if f.get_name() in names or any(d.get_name() in names and d.get_name() not in "abcpqkltu" for d in f.get_dependencies(deep=True)):
                # (a calculation of several features of one name is the subject of the cases about names)
                bad += self.values(ft, es, rows, [x], [f], st)
                continue
            names |= {f.get_name()} | {d.get_name() for d in f.get_dependencies(deep=True)}
            feats.append(f)
            used.append(x)
        if via == "alone":
            for x, f in zip(used[::3], feats[::3]):
                bad += self.values(ft, es, rows, [x], [f], st)
        elif via == "parent":
            bad += self.below(ft, es, rows, used, feats, st)
        else:
            bad += self.values(ft, es, rows, used, feats, st)
        return bad[:3]

    def expected(self, x, row):
        env = {v: V(row[v]) for v in "abcpqkltu"}
        env["T1"] = 1
        try:
            r = eval(x, {}, env)
        except Open:
            return Open
        return r.v

    def same(self, got, want):
        import math
        if want is Open:
            return True
        missing = got is None or got != got
        if want is None:
            return missing
        if missing:
            return False
        if isinstance(want, bool):
            return bool(got) is want and got in (0, 1)
        if isinstance(want, str):
            return got == want
        return math.isclose(float(got), want, rel_tol=1e-9, abs_tol=1e-12)

    def values(self, ft, es, rows, texts, feats, st):
        fm = ft.calculate_feature_matrix(feats, es, instance_ids=[r["id"] for r in rows])
        bad = []
        for x, f in zip(texts, feats):
            col = list(fm[f.get_name()])
            st.add("evaluations", len(col))
            for r, got in zip(rows, col):
                want = self.expected(x, r)
                if want is not Open and want is not None:
                    st.seen("nontrivial", x)
                if not self.same(got, want):
                    bad.append("%s of %r is %r, expected %r" % (x, {k: r[k] for k in "abcpqkltu" if k in x}, got, want))
                    break
        return bad

    def below(self, ft, es, rows, texts, feats, st):
        """seen from a child, and the number of children's expressions that are true or their sum"""
        import pandas as pd
        n = len(rows)
        pairs = [(i, (i * 7) % n) for i in range(n)] + [(n, 0), (n + 1, 5)]
        es.entity_from_dataframe("kid", pd.DataFrame({"id": [i for i, _ in pairs], "e_id": [j for _, j in pairs]}), index="id", variable_types={"e_id": ft.variable_types.Id})
        es.add_relationship(ft.Relationship(es["e"]["id"], es["kid"]["e_id"]))
        top = [ft.Feature(f, es["kid"]) for f in feats]
        fm = ft.calculate_feature_matrix(top, es, instance_ids=[i for i, _ in pairs])
        bad = []
        for x, f in zip(texts, top):
            st.add("evaluations", len(pairs))
            for (i, j), got in zip(pairs, fm[f.get_name()]):
                want = self.expected(x, rows[j])
                if not self.same(got, want):
                    bad.append("%s of the parent %r is %r, expected %r" % (x, rows[j], got, want))
                    break
        return bad

    def named(self, ft, es, rows, env, pair, st):
        one, two = (eval(x, {}, dict(env)) for x in pair)
        st.add("evaluations")
        if one.get_name() != two.get_name():
            return []
        other = (-two).rename("other")
        fm = ft.calculate_feature_matrix([one, other], es)
        for x, col, sign in ((pair[0], one.get_name(), 1), (pair[1], "other", -1)):
            for r, got in zip(rows, fm[col]):
                want = self.expected(x, r)
                if want is not Open and not self.same(got, None if want is None else sign * want):
                    return [Problem("%s requested together with -(%s) is %r for %r, expected %r" % (pair[0], pair[1], got, r, want), KEY)]
        return []

    def finish(self, tier, counts, sets):
        n = len(sets.get("nontrivial", ()))
        return {}, ([] if n > 1000 else ["only %d non-trivial expressions" % n])


CHECK = P36()

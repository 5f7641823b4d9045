"""P33: stacking rules of primitives, every combination of them, and primitives made from functions."""
import itertools

from ..core import Check
from ..dfsops import build, kind, nodes, synth

LISTS = (None, "empty", "partner", "other")
INPUTS = ("aggregation", "aggregation with two outputs", "transform", "group-by", "itself", "subclass")


def total(*xs):
    return sum(float(x.sum()) for x in xs)


def both(*xs):
    return [total(*xs), total(*xs) + 1]


def scaled(x):
    return x * 2.0


def world():
    return build([("A", "B"), ("B", "C")], 3, interesting=False, cols=("n", "c"))


def make_pair(case):
    """the input's primitive, the aggregation that may be applied to it, and one that has nothing to do with either"""
    import featuretools as ft
    V, P = ft.variable_types, ft.primitives
    num = V.Numeric
    other = P.make_agg_primitive(total, [num], num, name="other", default_value=0.0)
    on, ex, base, bex = (None if case[k] is None else [] for k in ("stack_on", "stack_on_exclude", "base_of", "base_of_exclude"))
    outer = P.make_agg_primitive(total, [num] * case["arity"], num, name="outer", default_value=0.0, stack_on=on, stack_on_exclude=ex, stack_on_self=case["self"])
    k = case["input"]
    rules = dict(base_of=base, base_of_exclude=bex)
    if k == "aggregation":
        inner = P.make_agg_primitive(total, [num], num, name="inner", default_value=0.0, **rules)
    elif k == "aggregation with two outputs":
        inner = P.make_agg_primitive(both, [num], num, name="inner", default_value=0.0, number_output_features=2, **rules)
    elif k in ("transform", "group-by"):
        inner = P.make_trans_primitive(scaled, [num], num, name="inner", cls_attributes=rules)
    else:
        inner = outer
        if k == "subclass":
            inner = type("inner", (outer,), {"name": "inner"})
        inner.base_of, inner.base_of_exclude = base, bex
    for key, lst, partner in (("stack_on", on, inner), ("stack_on_exclude", ex, inner), ("base_of", base, outer), ("base_of_exclude", bex, outer)):
        if case[key] == "partner":
            lst.append(partner)
        if case[key] == "other":
            lst.append(other)
    return inner, outer, other


def verdict(agg, inputs):
    """'never', 'always' or 'either' from the documented meaning of the rules"""
    out = "always"
    for f in inputs:
        p, a = f.primitive, type(agg)
        if kind(f) in ("IdentityFeature", "DirectFeature"):
            continue
        own = isinstance(p, a)
        if own and agg.stack_on_self is False:
            return "never"
        if agg.stack_on_exclude and isinstance(p, tuple(agg.stack_on_exclude)):
            return "never"
        if p.base_of_exclude and isinstance(agg, tuple(p.base_of_exclude)):
            return "never"
        if own and agg.stack_on_self is True:
            continue
        white = [None if w is None else hit for w, hit in ((agg.stack_on, agg.stack_on is not None and isinstance(p, tuple(agg.stack_on))), (p.base_of, p.base_of is not None and a in p.base_of))]
        if True in white or white == [None, None]:
            continue
        if None not in white:
            return "never"
        out = "either"
    return out


def functions():
    """name -> function of columns (and calculation time), by kind"""
    import pandas as pd

    def agg_plain(x):
        return float(x.sum()) if len(x) else 0.0

    def agg_two(x, y):
        return float((x * 10 - y).sum())

    def agg_k(x, k=2):
        return float(x.sum()) * k

    def agg_time(x, time=None):
        return float(x.sum()) + (pd.Timestamp(time) - pd.Timestamp("2020-01-01")).days * 100

    def agg_k_time(x, k=2, time=None):
        return float(x.sum()) * k + (pd.Timestamp(time) - pd.Timestamp("2020-01-01")).days * 100

    def agg_out(x):
        return [float(x.sum()), float(x.max())]

    def agg_list(x, seen=[]):
        seen.append(1)
        return float(len(seen) > 0) + float(x.sum())

    def tr_plain(x):
        return x * 3

    def tr_two(x, y):
        return x * 10 - y

    def tr_k(x, k=2):
        return x * k

    def tr_time(x, time=None):
        return x + (pd.Timestamp(time) - pd.Timestamp("2020-01-01")).days * 100

    def tr_k_time(x, k=2, time=None):
        return x * k + (pd.Timestamp(time) - pd.Timestamp("2020-01-01")).days * 100

    def tr_out(x):
        return x + 1, x * 2

    def tr_array(x):
        return x.values + 5

    return {f.__name__: f for f in (agg_plain, agg_two, agg_k, agg_time, agg_k_time, agg_out, agg_list, tr_plain, tr_two, tr_k, tr_time, tr_k_time, tr_out, tr_array)}


class P33(Check):
    id = "P33"
    rule = ("every combination of stack_on and stack_on_exclude (none, empty, naming the partner, naming another), stack_on_self, base_of and base_of_exclude (same) x six kinds of input (aggregation, one with two outputs, transform, group-by transform, itself, a subclass) "
            "x one or two inputs (thorough: also with conditions): synthesis over a chain of three entities, each aggregation in the result judged by the rules and each combination that no rule excludes looked for; "
            "every made primitive (aggregation, transform or group-by; 1 or 2 inputs, 1 or 2 outputs, arguments, calculation time, default value) calculated and compared with calling its function. Non-trivial: distinct rule combinations that exclude something, and calculations")
    technique = "bounded exhaustive exploration of the implementation: every combination of stacking rules and every kind of made primitive, each result judged by the documented rules and by the function itself"
    assumptions = ("a whitelist on one side only does not decide about combinations it does not name (documented as a whitelist, but raw columns and primitives without rules pass it)", "made primitives with different arguments share their name, so their features are renamed")

    def prepare(self, tier):
        self.th = tier == "thorough"

    def cases(self, tier):
        for k in INPUTS:
            for ar in (1, 2):
                for on, ex in itertools.product(LISTS, LISTS):
                    yield {"what": "rules", "input": k, "arity": ar, "stack_on": on, "stack_on_exclude": ex}
        for n in sorted(functions()):
            yield {"what": "made", "function": n}

    def run(self, case, st):
        if case["what"] == "made":
            return self.made(case, st)
        out = []
        for own in (True, False):
            for b, bx in itertools.product(LISTS, LISTS):
                c = dict(case, self=own, base_of=b, base_of_exclude=bx)
                for w in ((False, True) if self.th else (case["arity"] == 1,)):
                    out += ["%s%s" % (m, " [%s]" % ", ".join("%s=%s" % (k, c[k]) for k in ("stack_on", "stack_on_exclude", "self", "base_of", "base_of_exclude"))) for m in self.rules(c, w, st)]
                if len(out) > 2:
                    return out[:3]
        return out

    def rules(self, c, where, st):
        es = world()
        inner, outer, other = make_pair(c)
        if where:
            es["B"]["c"].interesting_values = ["a"]
        k = c["input"]
        trans = k in ("transform", "group-by")
        aggs = [outer, other] + ([] if trans or k == "itself" else [inner])
        fs = synth(es, "A", agg_primitives=aggs, trans_primitives=[inner] if k == "transform" else [], groupby_trans_primitives=[inner] if k == "group-by" else [], where_primitives=[outer] if where else [], max_depth=3 if k == "aggregation with two outputs" else 2)
        st.add("evaluations")
        st.add("syntheses")
        st.sample(c)
        out = []
        have = set()
        for f in fs:
            for x in nodes(f):
                if kind(x) != "AggregationFeature":
                    continue
                v = verdict(x.primitive, x.base_features)
                if v == "never":
                    out.append("%s is built although its rules exclude it" % x.get_name())
                if x.entity.id == "A":
                    have.add((type(x.primitive), tuple(b.get_name() for b in x.base_features), x.where is not None, tuple(r.child_entity.id for _, r in x.relationship_path)))
        # every aggregation of the children of the target over one or two distinct features of depth one
        cands = self.candidates(es, inner, outer, other, k)
        excluded = 0
        for agg, n in ((outer, c["arity"]), (other, 1)) + (() if trans or k == "itself" else ((inner, c["arity"] if k == "subclass" else 1),)):
            for bs in itertools.permutations(cands, n):
                if all(kind(b) == "IdentityFeature" for b in bs):
                    if any(b.variable.id == "f0" for b in bs):
                        continue
                v = verdict(agg(), bs)
                excluded += v == "never"
                if v != "always":
                    continue
                names = tuple(b.get_name() for b in bs)
                for w in (False, True) if where and agg is outer or where and issubclass(agg, outer) else (False,):
                    if w and agg is not outer:
                        continue
                    if (agg, names, w, ("B",)) not in have:
                        out.append("%s of %r%s is missing although no rule excludes it" % (agg.name, names, " with a condition" if w else ""))
        if excluded:
            st.seen("nontrivial", sorted((a, str(b)) for a, b in c.items()))
        return out[:2]

    def candidates(self, es, inner, outer, other, k):
        import featuretools as ft
        n = ft.Feature(es["B"]["n"])
        out = [n]
        if k == "transform":
            out.append(ft.Feature([n], primitive=inner))
        elif k == "group-by":
            out.append(ft.Feature([n], groupby=ft.Feature(es["B"]["f0"]), primitive=inner))
        elif k == "aggregation":
            out.append(ft.Feature(es["C"]["n"], parent_entity=es["B"], primitive=inner))
        elif k == "aggregation with two outputs":
            f = ft.Feature(es["C"]["n"], parent_entity=es["B"], primitive=inner)
            out += [f[0], f[1]]
        out.append(ft.Feature(es["C"]["n"], parent_entity=es["B"], primitive=other))
        if len(outer.input_types) == 1:
            out.append(ft.Feature(es["C"]["n"], parent_entity=es["B"], primitive=outer))
            if k == "subclass":
                out.append(ft.Feature(es["C"]["n"], parent_entity=es["B"], primitive=inner))
        return out

    def made(self, case, st):
        import featuretools as ft
        import numpy as np
        import pandas as pd
        V, P = ft.variable_types, ft.primitives
        name = case["function"]
        fn = functions()[name]
        agg = name.startswith("agg")
        nin, nout = (2 if "two" in name else 1), (2 if "out" in name else 1)
        uses_time = "time" in name
        givens = [{}] + ([{"k": 3}, {"k": 0}] if "_k" in name else [])
        out = []
        values = {"n": [1.0, 2.0, 4.0, 8.0], "m": [3.0, 1.0, 5.0, 7.0]}
        days = [pd.Timestamp("2020-01-%02d" % d) for d in (2, 3, 5)]
        for perm in itertools.permutations(range(4)) if self.th else [(0, 1, 2, 3), (3, 1, 0, 2), (1, 2, 3, 0)]:
            for keys in itertools.product((1, 2, 3), repeat=4) if self.th else itertools.product((1, 2), repeat=4):
                es = ft.EntitySet("e")
                es.entity_from_dataframe("p", pd.DataFrame({"id": [1, 2, 3]}), index="id")
                d = pd.DataFrame({"id": list(perm), "p": list(keys), "n": values["n"], "m": values["m"]})
                es.entity_from_dataframe("c", d, index="id", variable_types={"p": V.Id})
                es.add_relationship(ft.Relationship(es["p"]["id"], es["c"]["p"]))
                bases = [ft.Feature(es["c"][v]) for v in ("n", "m")[:nin]]
                for dv in ((None, -7.0) if agg else (None,)):
                    kw = dict(uses_calc_time=uses_time, number_output_features=nout)
                    if agg:
                        cls = P.make_agg_primitive(fn, [V.Numeric] * nin, V.Numeric, default_value=dv, **kw)
                    else:
                        cls = P.make_trans_primitive(fn, [V.Numeric] * nin, V.Numeric, **kw)
                    feats, want, t = [], {}, days[sum(keys) % 3]
                    for i, g in enumerate(givens):
                        args = dict(g, **({"time": t} if uses_time else {}))
                        if agg:
                            f = ft.Feature(bases if nin > 1 else bases[0], parent_entity=es["p"], primitive=cls(**g)).rename("f%d" % i)
                            default = dv if dv is not None else cls.default_value
                            per = {}
                            for p in (1, 2, 3):
                                rows = d[d["p"] == p]
                                per[p] = fn(*[rows[v] for v in ("n", "m")[:nin]], **args) if len(rows) else [default] * nout if nout > 1 else default
                            self.put(want, f, nout, [per[p] for p in (1, 2, 3)])
                            feats.append((f, es["p"]))
                        else:
                            f = ft.Feature(bases if nin > 1 else bases[0], primitive=cls(**g)).rename("f%d" % i)
                            cols = fn(*[d[v] for v in ("n", "m")[:nin]], **args)
                            self.put(want, f, nout, list(zip(*[np.asarray(c) for c in cols])) if nout > 1 else list(np.asarray(cols)))
                            h = ft.Feature(bases if nin > 1 else bases[0], groupby=ft.Feature(es["c"]["p"]), primitive=cls(**g)).rename("g%d" % i)
                            self.put(want, h, nout, list(zip(*[np.asarray(c) for c in cols])) if nout > 1 else list(np.asarray(cols)))
                            feats += [(f, es["c"]), (h, es["c"])]
                    ids = [1, 2, 3] if agg else list(perm)
                    fm = ft.calculate_feature_matrix([f for f, _ in feats], es, cutoff_time=t, instance_ids=ids)
                    st.add("evaluations")
                    st.add("calculations")
                    st.seen("nontrivial", (name, perm, keys, dv))
                    for col, w in want.items():
                        g = [float(x) for x in fm[col]]
                        if not all(a == b or (a != a and b != b) for a, b in zip(g, [float(x) for x in w])):
                            out.append("%s made from a function: %s is %r, the function gives %r (rows %r, keys %r, at %s, default %r)" % (name, col, g, w, perm, keys, t, dv))
                            if len(out) > 2:
                                return out
        return out

    def put(self, want, f, nout, rows):
        for i, n in enumerate(f.get_feature_names()):
            want[n] = [r[i] for r in rows] if nout > 1 else rows


CHECK = P33()

"""P23: per-primitive options: the synthesised features are those of the unrestricted synthesis whose every node its primitive's options allow."""
import copy
import itertools

from ..core import Check
from ..dfsops import build, kind, leaves, nodes, schemas, synth
from .p21 import CLASS, classes

MENU = {
    "plain": dict(agg_primitives=["sum", "count"], trans_primitives=["add_numeric"], groupby_trans_primitives=["cum_sum"], where_primitives=["count"]),
    "multi": dict(agg_primitives=["trend", "n_most_common"], trans_primitives=["divide_numeric", "day"], groupby_trans_primitives=["cum_count"], where_primitives=["n_most_common"]),
}
COLS = ("n", "m", "c")
WIDE = ("n", "c")     # the variables options are about in quick runs


def norm(o):
    return o if isinstance(o, list) else [o]


def both(a, b):
    """False wins over unknown (None)"""
    return False if a is False or b is False else (None if a is None or b is None else True)


def all3(xs):
    out = True
    for x in xs:
        out = both(out, x)
    return out


def any3(xs):
    xs = list(xs)
    return True if True in xs else (None if None in xs else False)


def entity_ok(e, o):
    if "include_entities" in o:
        return e in o["include_entities"]
    return e not in o.get("ignore_entities", ())


def input_ok(f, o):
    """may the feature be an input under one option dictionary?"""
    out = True
    for x in nodes(f):
        e = x.entity.id
        if kind(x) == "IdentityFeature":
            v = x.variable.id
            if e in o.get("include_variables", {}):
                out = both(out, v in o["include_variables"][e])
                continue
            if v in o.get("ignore_variables", {}).get(e, ()):
                out = both(out, False)
            out = both(out, entity_ok(e, o))
        elif e in o.get("include_variables", {}):
            out = both(out, True if entity_ok(e, o) else None)
        else:
            out = both(out, entity_ok(e, o))
    return out


def key_ok(g, o, Id, Discrete):
    """may the feature be a group key?"""
    inc, ign = o.get("include_groupby_variables", {}), o.get("ignore_groupby_variables", {})
    if kind(g) == "IdentityFeature":
        e, v = g.entity.id, g.variable.id
        if not issubclass(g.variable_type, Discrete):
            return False
        if e in inc:
            return v in inc[e]
        if not issubclass(g.variable_type, Id) or v in ign.get(e, ()):
            return False
        if "include_groupby_entities" in o:
            return e in o["include_groupby_entities"]
        return e not in o.get("ignore_groupby_entities", ())
    for e, v in leaves(g):
        if e in inc:
            if v not in inc[e]:
                return False
        elif v in ign.get(e, ()) or ("include_groupby_entities" in o and e not in o["include_groupby_entities"]) or ("include_groupby_entities" not in o and e in o.get("ignore_groupby_entities", ())):
            return False
    return None


def rule(f, opts, Id, Discrete):
    """opts: function from a primitive to its list of option dictionaries (or None)"""
    out = True
    for x in nodes(f):
        if kind(x) not in ("AggregationFeature", "TransformFeature", "GroupByTransformFeature"):
            continue
        if type(x.primitive).__name__ == "EqualScalar":
            continue
        o = opts(x.primitive)
        bases = list(x.base_features)
        g = bases.pop() if kind(x) == "GroupByTransformFeature" else None
        if g is not None:
            out = both(out, all3(key_ok(g, y, Id, Discrete) for y in o or [{}]))
        if not o:
            continue
        if len(o) == 1:
            out = both(out, all3(input_ok(b, o[0]) for b in bases))
        else:
            orders = itertools.permutations(bases) if x.primitive.commutative else [bases]
            out = both(out, any3(all3(input_ok(b, y) for b, y in zip(p, o)) for p in orders))
        # whether a condition may be about something excluded is not stated
        w = getattr(x, "where", None)
        if w is not None and not all(input_ok(w, y) for y in o):
            out = both(out, None)
    return out


def canon(f):
    bs = [canon(b) for b in f.base_features]
    if f.primitive.commutative and kind(f) != "GroupByTransformFeature":
        bs = sorted(bs, key=repr)
    w = getattr(f, "where", None)
    return (kind(f), f.entity.id, type(f.primitive).__name__, (str(getattr(f.primitive, "value", None)), getattr(f.primitive, "n", None)), tuple((a, r.child_entity.id, r.child_variable.id) for a, r in f.relationship_path), tuple(bs),
            None if w is None else canon(w), f.variable.id if kind(f) == "IdentityFeature" else (f.n if kind(f) == "FeatureOutputSlice" else None))


def subsets(xs, lo=1, hi=None):
    for k in range(lo, (len(xs) if hi is None else hi) + 1):
        for c in itertools.combinations(xs, k):
            yield list(c)


def dictionaries(names, vs, th):
    """option dictionaries about inputs, simplest first"""
    one = [{"include_entities": s} for s in subsets(names)] + [{"ignore_entities": s} for s in subsets(names)]
    var = [{e: s} for e in names for s in subsets(vs)]
    two = [{e: [v], g: [w]} for e, g in itertools.combinations(names, 2) for v in vs for w in vs] if th else [{names[0]: [vs[0]], names[-1]: [vs[-1]]}]
    one += [{k: d} for k in ("include_variables", "ignore_variables") for d in var + two]
    one += [{"include_variables": {e: []}} for e in names]
    for o in one:
        yield o
    # two kinds at once
    sv = [{e: [vs[0]]} for e in names]
    se = [[e] for e in names]
    for d, s in itertools.product(sv, se):
        for a in ("include_variables", "ignore_variables"):
            for b in ("include_entities", "ignore_entities"):
                yield {a: d, b: s}
    for d, g in itertools.product(sv, [{e: [v] for v in (vs if th else vs[-1:])} for e in names] + sv):
        yield {"include_variables": d, "ignore_variables": g}
    for s, r in itertools.product(se, se):
        yield {"include_entities": s, "ignore_entities": r}


def keys(names, t, cols, fks, th):
    vs = ["c", "n"] + fks.get(t, [])
    other = [e for e in names if e != t]
    yield {}
    for k in ("include_groupby_entities", "ignore_groupby_entities"):
        for s in subsets(names, 1, 3 if th else 1):
            yield {k: s}
    for s in subsets(vs, 0):
        yield {"include_groupby_variables": {t: s}}
        if s:
            yield {"ignore_groupby_variables": {t: s}}
    for e in other:
        for v in ["c"] + fks.get(e, []):
            yield {"include_groupby_variables": {e: [v]}}
            yield {"ignore_groupby_variables": {e: [v]}}
    for v in vs:
        yield {"include_groupby_variables": {t: [v]}, "ignore_groupby_entities": [t]}
        yield {"include_groupby_variables": {t: [v]}, "ignore_groupby_variables": {t: [v]}}
        yield {"include_groupby_variables": {t: [v]}, "ignore_entities": other[:1]}
        yield {"ignore_groupby_variables": {t: [v]}, "include_entities": [t]}
        yield {"include_groupby_variables": {t: [v]}, "include_variables": {t: ["n"]}}
        yield {"include_groupby_variables": {t: [v]}, "ignore_variables": {t: [v]}}


class P23(Check):
    id = "P23"
    rule = ("every connected tree of relationships on 2 and 3 entities and the double relationship (thorough: also all other multigraphs on 3 entities, more variables, depth 3) x every target x two sets of primitives x every primitive x every option dictionary of the menu "
            "(all entity sets; variables of one and two entities; pairs of kinds), every pair of dictionaries from a smaller menu per input, group-by options over every key, each spelling of the primitive (name, class, instance, tuple), "
            "pairs of primitives with options, global and specific options together. Non-trivial: distinct (schema, target, options) that remove a feature")
    assumptions = ("whether a condition of a primitive with options may be about an excluded variable is unspecified", "which keys of parent entities are used as group keys by default is unspecified",
                   "features of a globally ignored variable or entity that another primitive includes are unspecified unless made by a primitive whose own options decide")

    def prepare(self, tier):
        self.th = tier == "thorough"
        self.bases = {}
        self.known = None

    def cases(self, tier):
        shapes = [(2, 1), (2, 2), (3, 2)] + ([(3, 3)] if self.th else [])
        for n, e in shapes:
            for s in schemas(n, e):
                for t in "ABC"[:n]:
                    for menu in MENU:
                        prims = [p for k in ("agg_primitives", "trans_primitives", "groupby_trans_primitives") for p in MENU[menu][k]]
                        base = {"n": n, "s": [list(x) for x in s], "t": t, "menu": menu}
                        for p in prims:
                            yield dict(base, m="single", p=p)
                        for p in MENU[menu]["groupby_trans_primitives"]:
                            yield dict(base, m="keys", p=p)
                        for p in {"plain": ["add_numeric"], "multi": ["trend", "divide_numeric"]}[menu]:
                            yield dict(base, m="lists", p=p)
                        yield dict(base, m="spellings")
                        yield dict(base, m="overall")
                        yield dict(base, m="pairs")
                        yield dict(base, m="together")
                        if e == 2 and len({tuple(x) for x in s}) == e:
                            for p in prims:
                                yield dict(base, m="deep", p=p)

    def base(self, case):
        """the unrestricted synthesis, with every variable allowed as group key"""
        k = (repr(case["s"]), case["n"], case["t"], case["menu"], case["m"] == "deep")
        if k not in self.bases:
            self.bases.clear()
            s = [tuple(x) for x in case["s"]]
            es = build(s, case["n"], cols=COLS)
            every = {e.id: [v.id for v in e.variables] for e in es.entities}
            K = MENU[case["menu"]]
            depth = 3 if case["m"] == "deep" or (self.th and case["n"] == 2 and len(s) == 1) else 2
            po = {p: {"include_groupby_variables": every} for p in K["groupby_trans_primitives"]}
            self.bases[k] = (es, s, depth, synth(es, case["t"], max_depth=depth, primitive_options=po, **K))
        return self.bases[k]

    def run(self, case, st):
        st.sample(case)
        import featuretools as ft
        from featuretools.primitives.utils import get_aggregation_primitives, get_transform_primitives
        self.lib = dict(get_aggregation_primitives(), **get_transform_primitives())
        self.Id, self.Discrete = ft.variable_types.Id, ft.variable_types.Discrete
        es, s, depth, base = self.base(case)
        self.names = "ABC"[:case["n"]]
        self.fks = {}
        for i, (p, c) in enumerate(s):
            self.fks.setdefault(c, []).append("f%d" % i)
        bad = self.complete(es, case, base) if case["m"] == "keys" else []
        for what, kw, opts in getattr(self, case["m"])(case):
            K = dict(MENU[case["menu"]], **kw)
            saved = repr(kw)
            got = synth(es, case["t"], max_depth=depth, **K)
            st.add("evaluations")
            if hasattr(opts, "extra"):
                K2 = dict(K, primitive_options={p: {"include_groupby_variables": {e.id: [v.id for v in e.variables] for e in es.entities}} for p in K["groupby_trans_primitives"]})
                whole = synth(es, case["t"], max_depth=depth, **{k: v for k, v in K2.items() if not k.startswith("ignore")})
            else:
                whole = base
            bad += ["%s of %s, %s: %s" % (case["t"], s, what, m) for m in self.judge(whole, got, opts, kw, st, (case["s"], case["t"], case["menu"], what))]
            if repr(kw) != saved:
                bad.append("%s: the arguments were changed" % what)
            if len(bad) > 2:
                break
        return bad[:3]

    def complete(self, es, case, base):
        """every variable of the entity that can be a group key is one when asked for"""
        t = es[case["t"]]
        p = self.lib[case["p"]]()
        types = p.input_types[0] if isinstance(p.input_types[0], list) else p.input_types
        want = {(v.id, g.id) for v in t.variables for g in t.variables if issubclass(type(v), types[0]) and issubclass(type(g), self.Discrete)}
        got = {(f.base_features[0].variable.id, f.groupby.variable.id) for f in base if kind(f) == "GroupByTransformFeature" and all(kind(b) == "IdentityFeature" for b in f.base_features)}
        return [] if want == got else ["group keys asked for: %r missing, %r additional" % (sorted(want - got)[:3], sorted(got - want)[:3])]

    def judge(self, base, got, opts, kw, st, key):
        ig_e, ig_v = set(kw.get("ignore_entities", ())), {(e, v) for e, vs in kw.get("ignore_variables", {}).items() for v in vs}
        first = {}
        if self.known is None or self.known[0] is not base:
            self.known = (base, [(f, f.unique_name(), canon(f)) for f in base])
        base = self.known[1]
        for f, n, c in base:
            first.setdefault(n, c)
        names = {}
        bad = []
        for f in got:
            c = canon(f)
            names[f.unique_name()] = c
            r = rule(f, opts, self.Id, self.Discrete)
            if r is False:
                bad.append("%s is not allowed" % f.get_name())
            elif first.get(f.unique_name(), None) != c:
                # of two definitions with one name only one is synthesised
                if f.unique_name() not in first and not f.primitive.commutative and not any(x.primitive.commutative or kind(x) == "GroupByTransformFeature" for x in nodes(f)):
                    bad.append("%s is not a feature of the unrestricted synthesis" % f.get_name())
        cs = set(names.values())
        removed = False
        for f, n, c in base:
            r = rule(f, opts, self.Id, self.Discrete)
            removed = removed or r is False
            if r is True and c not in cs and n not in names:
                if ig_e or ig_v:
                    r = self.overall_rule(f, opts, ig_e, ig_v)
                if r is True:
                    bad.append("%s is missing" % f.get_name())
        if ig_e or ig_v:
            bad += ["%s uses what is ignored" % f.get_name() for f in got if self.overall_rule(f, opts, ig_e, ig_v) is False]
        if removed:
            st.seen("nontrivial", key)
        return bad[:2]

    def overall_rule(self, f, opts, ig_e, ig_v):
        """global options, overridden by the options of a primitive that includes"""
        out = True
        deep = list(nodes(f))
        inside = set()
        for x in deep:
            if kind(x) in ("AggregationFeature", "TransformFeature", "GroupByTransformFeature") and type(x.primitive).__name__ != "EqualScalar":
                o = opts(x.primitive) or [{}]
                bases = list(x.base_features)
                if kind(x) == "GroupByTransformFeature":
                    g = bases.pop()
                    if any(y.entity.id in ig_e or (kind(y) == "IdentityFeature" and (y.entity.id, y.variable.id) in ig_v) for y in nodes(g)):
                        out = both(out, None)
                for b in bases:
                    for y in nodes(b):
                        e = y.entity.id
                        v = y.variable.id if kind(y) == "IdentityFeature" else None
                        listed = all(v in z.get("include_variables", {}).get(e, ()) for z in o) if v else False
                        entity_in = all(e in z.get("include_entities", ()) or e in z.get("include_variables", {}) for z in o)
                        some = any(e in z.get("include_entities", ()) or e in z.get("include_variables", {}) for z in o)
                        if v and (e, v) in ig_v and not listed:
                            out = both(out, None if some else False)
                        if e in ig_e and not listed and not entity_in:
                            out = both(out, None if some else False)
                if getattr(x, "where", None) is not None:
                    w = x.where
                    if any(y.entity.id in ig_e or (kind(y) == "IdentityFeature" and (y.entity.id, y.variable.id) in ig_v) for y in nodes(w)):
                        out = both(out, None)
                if kind(x) == "AggregationFeature":
                    for _, r in x.relationship_path:
                        if {r.parent_entity.id, r.child_entity.id} & ig_e:
                            # crossed: judged only when nothing includes it
                            inc = any(e in z.get("include_entities", ()) or e in z.get("include_variables", {}) for z in self.every(opts) for e in ig_e)
                            out = both(out, None if inc else False)
        if f is deep[0]:
            used = {x.entity.id for x in deep} & ig_e
            raw = {(x.entity.id, x.variable.id) for x in deep if kind(x) == "IdentityFeature"} & ig_v
            chain = all(kind(x) in ("IdentityFeature", "DirectFeature") for x in deep)
            if chain and (used or raw):
                inc_v = {(e, v) for z in self.every(opts) for e, vs in z.get("include_variables", {}).items() for v in vs}
                inc_e = {e for z in self.every(opts) for e in list(z.get("include_entities", ())) + list(z.get("include_variables", {}))}
                out = both(out, None if (used <= inc_e and raw <= inc_v) else False)
        return out

    def every(self, opts):
        return [z for n in sorted(self.lib) for z in (opts(self.lib[n]) or ())]

    def lookup(self, table):
        """options by class name"""
        t = {CLASS[k]: norm(v) for k, v in table.items()}

        def opts(p):
            return t.get(p.__name__ if isinstance(p, type) else type(p).__name__)
        return opts

    def one(self, what, p, o, **kw):
        table = {p: copy.deepcopy(o)}
        return (what, dict(kw, primitive_options=table), self.lookup({p: o}))

    def single(self, case):
        vs = list(COLS if self.th else WIDE)
        for o in dictionaries(self.names, vs, self.th):
            yield self.one("%s: %r" % (case["p"], o), case["p"], o)

    def keys(self, case):
        for o in keys(self.names, case["t"], COLS, self.fks, self.th):
            yield self.one("%s: %r" % (case["p"], o), case["p"], o)

    def lists(self, case):
        n = self.names
        small = [{}] + [{"include_entities": [e]} for e in n] + [{"ignore_entities": [e]} for e in n] + [{k: {e: [v]}} for k in ("include_variables", "ignore_variables") for e in n for v in (("n", "m", "t") if self.th else ("n",))]
        if case["p"] == "trend":
            small += [{"include_variables": {n[-1]: ["t"]}}, {"ignore_variables": {n[-1]: ["t"]}}]
        if case["p"] != "trend":
            small.append({"include_variables": {n[0]: ["m"], n[-1]: ["n", "m"]}})
        for a, b in itertools.product(small, repeat=2):
            yield self.one("%s: %r" % (case["p"], [a, b]), case["p"], [a, b])

    def spellings(self, case):
        K = MENU[case["menu"]]
        p = K["agg_primitives"][-1]
        q = K["trans_primitives"][0]
        n = self.names
        for o in ({"ignore_entities": [n[-1]]}, {"include_entities": [n[0]]}, {"ignore_variables": {e: ["n", "c"] for e in n}}, {"include_variables": {n[-1]: ["m"]}}):
            other = {"ignore_variables": {n[-1]: ["m"]}}
            cls = self.lib[p]
            inst = cls()
            agg = [x for x in K["agg_primitives"] if x != p]
            want = self.lookup({p: o})
            yield ("class %s: %r" % (p, o), {"primitive_options": {cls: copy.deepcopy(o)}}, want)
            yield ("class in a tuple %s: %r" % (p, o), {"primitive_options": {(cls, q): copy.deepcopy(o)}}, self.lookup({p: o, q: o}))
            yield ("names in a tuple %s: %r" % (p, o), {"primitive_options": {(p, q): copy.deepcopy(o)}}, self.lookup({p: o, q: o}))
            for where in ("agg", "both"):
                kw = {"agg_primitives": agg + [inst]}
                if where == "both":
                    kw["where_primitives"] = [inst]
                yield ("instance %s: %r" % (p, o), dict(kw, primitive_options={inst: copy.deepcopy(o)}), want)
                if where == "agg":
                    yield ("instance before name %s: %r" % (p, o), dict(kw, primitive_options={inst: copy.deepcopy(o), p: copy.deepcopy(other)}), want)
                    yield ("name with an instance in use %s: %r" % (p, o), dict(kw, primitive_options={p: copy.deepcopy(o)}), want)
            yield ("options for a primitive that is not used: %r" % (o,), {"primitive_options": {"max": copy.deepcopy(o)}}, self.lookup({}))
            if case["menu"] == "multi":
                # two instances of one class, options for one of them
                a, b = cls(n=2), cls(n=3)

                def opts(x, a=a, o=o):
                    return [o] if getattr(x, "n", None) == 2 and not isinstance(x, type) else None
                yield ("one of two instances: %r" % (o,), {"agg_primitives": agg + [inst, a], "primitive_options": {a: copy.deepcopy(o)}}, self.only_two(opts, a))

    def only_two(self, opts, a):
        def f(x):
            return opts(x)
        f.extra = a
        return f

    def overall(self, case):
        """options of the whole call together with options of a primitive"""
        K = MENU[case["menu"]]
        n = self.names
        ps = K["agg_primitives"] + K["trans_primitives"][:1]
        rest = [e for e in n if e != case["t"]]
        for p in ps:
            for g in [{"ignore_variables": {e: ["n"]}} for e in n] + [{"ignore_variables": {e: ["n", "c"] for e in n}}] + [{"ignore_entities": [e]} for e in rest]:
                for o in [{}] + [{"include_entities": [e]} for e in n] + [{"ignore_entities": [e]} for e in n] + [{"include_variables": {e: ["n"]}} for e in n] + [{"ignore_variables": {e: ["m"]}} for e in n] + [{"include_variables": {e: ["n", "c"] for e in n}}]:
                    yield self.one("%r with %s: %r" % (g, p, o), p, o, **copy.deepcopy(g))

    def deep(self, case):
        n = self.names
        for o in [{k: [e]} for k in ("include_entities", "ignore_entities") for e in n] + [{k: {e: [v]}} for k in ("include_variables", "ignore_variables") for e in n for v in (COLS if self.th else ("n",))]:
            yield self.one("%s: %r" % (case["p"], o), case["p"], o)

    def together(self, case):
        """options of the whole call, one primitive that includes and another one with options of its own; instances that have options besides their class"""
        K = MENU[case["menu"]]
        n = self.names
        rest = [e for e in n if e != case["t"]]
        ps = K["agg_primitives"] + K["trans_primitives"][:1]
        for p, q in itertools.permutations(ps, 2):
            for e in n:
                for b in ({"ignore_variables": {e: ["m"]}}, {"ignore_variables": {x: ["m"] for x in n}}, {"ignore_entities": [n[-1]]}, {"include_variables": {e: ["m"]}}, {"include_variables": {n[n.index(e) - 1]: ["m"]}}, {"ignore_variables": {n[0]: ["c"]}}):
                    tries = [({"ignore_variables": {e: ["n"]}}, {"include_variables": {e: ["n"]}}), ({"ignore_variables": {x: ["n", "c"] for x in n}}, {"include_variables": {e: ["n"]}})]
                    if e in rest:
                        tries.append(({"ignore_entities": [e]}, {"include_entities": [e, case["t"]]}))
                        tries.append(({"ignore_entities": [e]}, {"include_variables": {e: ["n", "m"]}}))
                    for g, a in tries:
                        yield ("%r, %s: %r, %s: %r" % (g, p, a, q, b), dict(copy.deepcopy(g), primitive_options={p: copy.deepcopy(a), q: copy.deepcopy(b)}), self.lookup({p: a, q: b}))
        for p in K["agg_primitives"]:
            for e in n:
                for g in ({"ignore_variables": {e: ["n"]}}, {"ignore_entities": rest[-1:]}):
                    for a, b in itertools.permutations([{"include_variables": {e: ["n"]}}, {"ignore_variables": {e: ["m"]}}, {"include_entities": list(n)}, {"ignore_entities": [case["t"]]}], 2):
                        inst = self.lib[p]()
                        kw = dict(copy.deepcopy(g), agg_primitives=[x for x in K["agg_primitives"] if x != p] + [inst], where_primitives=[], primitive_options={inst: copy.deepcopy(a), p: copy.deepcopy(b)})
                        opts = self.lookup({p: a})
                        opts.extra = True
                        yield ("%r, instance of %s: %r, its class: %r" % (g, p, a, b), kw, opts)

    def pairs(self, case):
        """two primitives with options"""
        K = MENU[case["menu"]]
        n = self.names
        ps = K["agg_primitives"] + K["trans_primitives"][:1] + K["groupby_trans_primitives"]
        small = [{"include_entities": [n[0]]}, {"ignore_entities": [n[-1]]}, {"include_variables": {n[-1]: ["n"]}}, {"ignore_variables": {n[0]: ["n"], n[-1]: ["c"]}}, {"include_variables": {n[0]: ["c"]}}]
        for p, q in itertools.combinations(ps, 2):
            for a, b in itertools.product(small, repeat=2):
                yield ("%s: %r, %s: %r" % (p, a, q, b), {"primitive_options": {p: copy.deepcopy(a), q: copy.deepcopy(b)}}, self.lookup({p: a, q: b}))


CHECK = P23()

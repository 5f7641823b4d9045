"""Small entity sets of every shape, and what a synthesised feature is made of (read from its inputs, not from its name)."""
import itertools


def schemas(n, edges):
    """every connected acyclic multigraph on n entities with that many relationships (parent, child)"""
    names = "ABCD"[:n]
    for es in itertools.combinations_with_replacement(list(itertools.combinations(names, 2)), edges):
        got = {"A"}
        for _ in names:
            for a, b in es:
                if (a in got) != (b in got):
                    got |= {a, b}
        if got == set(names):
            yield es


COLS = ("n", "m", "c", "b")


def build(edges, n=None, interesting=True, cols=COLS):
    import featuretools as ft
    import pandas as pd
    V = ft.variable_types
    names = "ABCD"[:n or len({x for e in edges for x in e})]
    es = ft.EntitySet("e")
    t = pd.to_datetime(["2020-01-01", "2020-01-02", "2020-01-04"])
    data = {"n": [1.0, 2.0, 4.0], "m": [3.0, 1.0, 1.0], "c": ["a", "b", "a"], "b": [True, False, True]}
    types = {"n": V.Numeric, "m": V.Numeric, "c": V.Categorical, "b": V.Boolean}
    for k in names:
        d = {"id": [1, 2, 3], "t": t}
        d.update({c: data[c] for c in cols})
        vt = {c: types[c] for c in cols}
        for i, (p, c) in enumerate(edges):
            if c == k:
                d["f%d" % i] = [1, 1, 2]
                vt["f%d" % i] = V.Id
        es.entity_from_dataframe(k, pd.DataFrame(d), index="id", time_index="t", variable_types=vt)
    for i, (p, c) in enumerate(edges):
        es.add_relationship(ft.Relationship(es[p]["id"], es[c]["f%d" % i]))
    if interesting:
        for k in names:
            es[k]["c"].interesting_values = ["a", "b"]
    return es


def kind(f):
    return type(f).__name__


def tree(f):
    """the whole definition as nested tuples"""
    k = kind(f)
    x = ()
    if k == "IdentityFeature":
        x = (f.variable.id,)
    elif k == "AggregationFeature":
        x = (None if f.where is None else tree(f.where), str(f.use_previous))
    elif k == "FeatureOutputSlice":
        x = (f.n,)
    return (k, f.entity.id, type(f.primitive).__name__, f.primitive.get_args_string(), tuple((a, r.parent_entity.id, r.child_entity.id, r.child_variable.id) for a, r in f.relationship_path), tuple(tree(b) for b in f.base_features)) + x


def depth(f, seeds=()):
    """primitives and relationships crossed on the way to the furthest input; conditions and outputs of one feature do not count"""
    if f.unique_name() in seeds or not f.base_features:
        return 0
    d = max(depth(b, seeds) for b in f.base_features)
    return d if kind(f) == "FeatureOutputSlice" else d + 1


def nodes(f, where=True):
    yield f
    for b in f.base_features:
        for x in nodes(b, where):
            yield x
    if where and getattr(f, "where", None) is not None:
        for x in nodes(f.where):
            yield x


def leaves(f, where=True):
    """(entity, variable) of everything it is made of"""
    return {(x.entity.id, x.variable.id) for x in nodes(f, where) if kind(x) == "IdentityFeature"}


def touched(f):
    out = set()
    for x in nodes(f):
        out.add(x.entity.id)
        for _, r in x.relationship_path:
            out |= {r.parent_entity.id, r.child_entity.id}
    return out


def paths(f, start):
    """sequences of entities walked from the start"""
    out = set()

    def go(x, p):
        for forward, r in x.relationship_path if kind(x) != "FeatureOutputSlice" else ():
            p = p + ((r.parent_entity if forward else r.child_entity).id,)
        out.add(p)
        for b in x.base_features:
            go(b, p)
        if getattr(x, "where", None) is not None:
            go(x.where, p)
    go(f, (start,))
    return out


def backward_paths(edges, target):
    """every way down from the target, as lists of relationship numbers"""
    out = []

    def go(e, p):
        for i, (a, b) in enumerate(edges):
            if a == e:
                out.append(p + [i])
                go(b, p + [i])
    go(target, [])
    return out


def synth(es, target, **kw):
    import featuretools as ft
    import warnings
    kw.setdefault("return_variable_types", "all")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return ft.dfs(entityset=es, target_entity=target, features_only=True, **kw)

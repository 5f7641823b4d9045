"""Boring reference model: tables are lists of dicts, a missing value is None, times are integer ticks.

Nothing here uses pandas or featuretools to *compute*; `to_es` / `to_features` only translate a world or a feature
tree into the library's objects, `norm` translates the library's values back.

Feature trees (plain tuples / lists, JSON-able):
  ("id",  entity, column)
  ("agg", prim, bases, entity, path, where, use_previous)   path: relationship numbers from `entity` down to the child
  ("dir", base, rel)                                        value of `base` on the parent of relationship number `rel`
  ("tr",  prim, bases)
  ("gb",  prim, bases, groupby)
  ("slice", base, i)                                        i-th output of a multi-output feature
use_previous: None, ("t", [(n, unit), ...]) or ("o", n)
"""
import datetime as _dt
import math

BASE = _dt.datetime(2020, 1, 1)
UNIT = {"s": 1, "m": 60, "h": 3600, "d": 86400, "w": 7 * 86400}


class Table(object):
    def __init__(self, name, index, cols, rows, time_index=None, secondary=None):
        self.name, self.index, self.cols, self.rows = name, index, list(cols), rows
        self.time_index, self.secondary = time_index, secondary or {}
        self.kinds = dict(cols)


class World(object):
    """tables: {name: Table}; rels: [(parent, child, child column)] (the parent column is the parent's index)."""

    def __init__(self, tables, rels, time_kind="dt", tick=3600):
        self.tables = {t.name: t for t in tables}
        self.rels, self.time_kind, self.tick = rels, time_kind, tick

    def time(self, k):
        """tick -> the library's time value"""
        if k is None:
            return None
        if self.time_kind == "num":
            return k
        return BASE + _dt.timedelta(seconds=k * self.tick)


# ------------------------------------------------------------------------------------------------ translation

def series(pd, np, world, kind, vals):
    if kind in ("time", "dt"):
        if world.time_kind == "num" and kind == "time":
            return pd.Series([np.nan if v is None else v for v in vals], dtype="float64" if None in vals else "int64")
        return pd.Series([pd.NaT if v is None else pd.Timestamp(world.time(v)) for v in vals], dtype="datetime64[ns]")
    if kind == "num":
        return pd.Series([np.nan if v is None else float(v) for v in vals], dtype="float64")
    if kind == "int":
        return pd.Series(vals, dtype="int64")
    if kind == "iid":
        return pd.Series([np.nan if v is None else v for v in vals], dtype="float64" if None in vals else "int64")
    if kind in getattr(world, "cats", ()):
        return pd.Series([np.nan if v is None else v for v in vals], dtype=pd.CategoricalDtype(world.cats[kind]))
    if kind == "cid":
        return pd.Series([np.nan if v is None else v for v in vals], dtype="category")
    if kind == "bool":
        if None in vals:
            return pd.Series([np.nan if v is None else bool(v) for v in vals], dtype=object)
        return pd.Series(vals, dtype=bool)
    return pd.Series([np.nan if v is None else v for v in vals], dtype=object)      # id, cat, str


def frame(world, t):
    import numpy as np
    import pandas as pd
    return pd.DataFrame({c: series(pd, np, world, k, [r[c] for r in t.rows]) for c, k in t.cols},
                        columns=[c for c, _ in t.cols])


def vtype(ft, kind):
    v = ft.variable_types
    return {"num": v.Numeric, "int": v.Numeric, "cat": v.Categorical, "bool": v.Boolean, "id": v.Id, "iid": v.Id, "cid": v.Id, "cidR": v.Id, "cidC": v.Id, "cidG": v.Id, "dt": v.Datetime,
            "str": v.NaturalLanguage, "ord": v.Ordinal}.get(kind)


def to_es(world, lti=False, name="es"):
    import featuretools as ft
    es = ft.EntitySet(name)
    for t in world.tables.values():
        vt = {}
        for c, k in t.cols:
            if c != t.index and c != t.time_index and vtype(ft, k):
                vt[c] = vtype(ft, k)
            if k == "time" and c != t.time_index:
                vt[c] = ft.variable_types.Datetime if world.time_kind == "dt" else ft.variable_types.Numeric
        es.entity_from_dataframe(t.name, frame(world, t), index=t.index, time_index=t.time_index, variable_types=vt,
                                 secondary_time_index={k: list(v) for k, v in t.secondary.items()} or None)
    for p, c, cv in world.rels:
        es.add_relationship(ft.Relationship(es[p][world.tables[p].index], es[c][cv]))
    if lti:
        es.add_last_time_indexes()
    return es


_CUSTOM = {}


def prim(name):
    """featuretools primitive (class or instance) for a model primitive name such as 'sum' or 'mean:skipna=False'"""
    from featuretools import primitives as fp
    from . import prims
    return prims.build(fp, name)


def to_features(es, world, trees):
    import featuretools as ft
    memo = {}

    def rec(f):
        key = repr(f)
        if key in memo:
            return memo[key]
        k = f[0]
        if k == "id":
            r = ft.Feature(es[f[1]][f[2]])
        elif k == "agg":
            _, pr, bases, entity, path, where, up = f
            kw = {}
            if where is not None:
                kw["where"] = rec(where)
            if up is not None:
                if up[0] == "o":
                    kw["use_previous"] = ft.Timedelta(up[1], "observations")
                elif len(up[1]) == 1:
                    kw["use_previous"] = ft.Timedelta(up[1][0][0], up[1][0][1])
                else:
                    kw["use_previous"] = ft.Timedelta({u: n for n, u in up[1]})
            kw["relationship_path"] = rel_path(es, [(False, es.relationships[i]) for i in path])
            r = ft.feature_base.AggregationFeature([rec(b) for b in bases], es[entity], primitive=prim(pr), **kw)
        elif k == "dir":
            rel = es.relationships[f[2]]
            r = ft.feature_base.DirectFeature(rec(f[1]), rel.child_entity, relationship=rel)
        elif k == "tr":
            r = ft.Feature([rec(b) for b in f[2]], primitive=prim(f[1]))
        elif k == "gb":
            r = ft.Feature([rec(b) for b in f[2]], groupby=rec(f[3]), primitive=prim(f[1]))
        elif k == "slice":
            r = rec(f[1])[f[2]]
        elif k == "named":
            r = rec(f[1]).rename(f[2])
        else:
            raise ValueError(k)
        memo[key] = r
        return r
    return [rec(f) for f in trees]


def rel_path(es, edges):
    from featuretools.entityset.relationship import RelationshipPath
    return RelationshipPath(edges)


def norm(v, world=None):
    """library value -> model value (None, float/int/bool as float, str, ('t', seconds))"""
    import numpy as np
    import pandas as pd
    if v is None or v is pd.NaT:
        return None
    if isinstance(v, (tuple, list, set, dict)):
        return tuple(norm(x) for x in v)
    if isinstance(v, (bool, np.bool_)):
        return float(v)
    if isinstance(v, (int, float, np.integer, np.floating)):
        f = float(v)
        return None if math.isnan(f) else f
    if isinstance(v, (pd.Timestamp, _dt.datetime, np.datetime64)):
        v = pd.Timestamp(v)
        if v is pd.NaT:
            return None
        return ("t", (v.value - pd.Timestamp(BASE).value) / 1e9)
    if isinstance(v, (pd.Timedelta, _dt.timedelta, np.timedelta64)):
        return ("d", pd.Timedelta(v).total_seconds())
    try:
        if pd.isnull(v):
            return None
    except Exception:
        pass
    return v if isinstance(v, str) else str(v)


def nref(v, world, kind=None):
    """model value -> comparable value in the space of `norm`"""
    if v is None:
        return None
    if isinstance(v, bool):
        return float(v)
    if isinstance(v, Tick):
        return ("t", float(v.k * world.tick)) if world.time_kind == "dt" else float(v.k)
    if isinstance(v, (int, float)):
        return None if (isinstance(v, float) and math.isnan(v)) else float(v)
    return v


def close(a, b, tol=1e-6):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, float) and isinstance(b, float):
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(close(x, y, tol) if not isinstance(x, str) else x == y for x, y in zip(a, b))
    return a == b


class Tick(object):
    """a time value inside the reference model"""
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, Tick) and self.k == o.k

    def __hash__(self):
        return hash(("tick", self.k))

    def __lt__(self, o):
        return self.k < o.k

    def __repr__(self):
        return "T%s" % self.k


# ------------------------------------------------------------------------------------------------ reference evaluation

def ordered(t):
    """rows in entity order: by (time, index) when there is a time index (missing times last), else as given"""
    if not t.time_index:
        return list(t.rows)
    return sorted(t.rows, key=lambda r: (r[t.time_index] is None, r[t.time_index] or 0, r[t.index]))


def last_times(world):
    """{table: {id: tick or None}}: latest own time or time of any descendant"""
    memo = {}

    def lt(tname, rid):
        k = (tname, rid)
        if k in memo:
            return memo[k]
        memo[k] = None
        t = world.tables[tname]
        best = None
        for r in t.rows:
            if r[t.index] == rid:
                if t.time_index:
                    best = r[t.time_index]
                break
        for p, c, cv in world.rels:
            if p == tname:
                ct = world.tables[c]
                for cr in ct.rows:
                    if cr[cv] is not None and cr[cv] == rid:
                        x = lt(c, cr[ct.index])
                        if x is not None and (best is None or x > best):
                            best = x
        memo[k] = best
        return best
    return {n: {r[t.index]: lt(n, r[t.index]) for r in t.rows} for n, t in world.tables.items()}


class Ref(object):
    def __init__(self, world, t, window=None, incl=True, lti=None):
        """t: cutoff tick (None = everything); window: length in ticks or None; lti: result of last_times or None"""
        from . import prims
        self.P = prims
        self.w, self.t, self.window, self.incl = world, t, window, incl
        self.rows, self.by_id, self.kids = {}, {}, {}
        for n, tb in world.tables.items():
            out = []
            for r in ordered(tb):
                if t is not None and not self.visible(tb, r, lti[n][r[tb.index]] if lti else None):
                    continue
                r = dict(r)
                if t is not None:
                    for sec, cols in tb.secondary.items():
                        if r[sec] is not None and r[sec] >= t:
                            for c in list(cols) + [sec]:
                                r[c] = None
                out.append(r)
            self.rows[n] = out
            self.by_id[n] = {r[tb.index]: r for r in out}
        for i, (p, c, cv) in enumerate(world.rels):
            d = {}
            for r in self.rows[c]:
                if r[cv] is not None:
                    d.setdefault(r[cv], []).append(r)
            self.kids[i] = d
        self.cols = {}
        self.memo = {}
        self.defaults = {}

    def visible(self, tb, r, lti):
        if not tb.time_index:
            return True
        x = r[tb.time_index]
        if x is None:
            return False
        if not (x <= self.t if self.incl else x < self.t):
            return False
        if self.window is None:
            return True
        lo = self.t - self.window

        def inside(y):
            return y is not None and (y > lo if self.incl else y >= lo)
        return inside(x) or inside(lti)

    # -- structure
    def entity(self, f):
        k = f[0]
        if k == "id":
            return f[1]
        if k == "agg":
            return f[3]
        if k == "dir":
            return self.w.rels[f[2]][1]
        if k in ("tr", "gb"):
            return self.entity(f[2][0])
        return self.entity(f[1])

    def n_out(self, f):
        if f[0] in ("agg", "tr", "gb"):
            return self.P.n_out(f[1])
        if f[0] in ("dir", "named"):
            return self.n_out(f[1])
        return 1

    def default(self, f):
        key = repr(f)
        if key not in self.defaults:
            self.defaults[key] = self._default(f)
        return self.defaults[key]

    def _default(self, f):
        k = f[0]
        if k in ("agg", "tr", "gb"):
            d = self.P.default(f[1])
        elif k in ("dir", "slice", "named"):
            d = self.default(f[1])
            if k == "slice" and isinstance(d, tuple):
                d = d[0]
            return d
        else:
            d = None
        n = self.n_out(f)
        return d if n == 1 else tuple([d] * n)

    # -- values
    def target(self, f, rid):
        """value of f for the requested instance rid"""
        r = self.by_id[self.entity(f)].get(rid)
        if r is None:
            return self.default(f)
        return self.value(f, r)

    def value(self, f, r):
        e = self.entity(f)
        rid = r[self.w.tables[e].index]
        return self.column(f)[rid] if self.is_column(f) else self._row(f, r, rid)

    def is_column(self, f):
        return f[0] in ("tr", "gb")

    def _row(self, f, r, rid):
        key = (repr(f), rid)
        if key in self.memo:
            return self.memo[key]
        v = self._eval(f, r)
        self.memo[key] = v
        return v

    def fill(self, f, v):
        """values that are missing take the feature's default"""
        d = self.default(f)
        if isinstance(v, tuple) and isinstance(d, tuple):
            return tuple(y if x is None else x for x, y in zip(v, d))
        return d if v is None else v

    def _eval(self, f, r):
        k = f[0]
        w = self.w
        if k == "id":
            v = r[f[2]]
            if v is not None and w.tables[f[1]].kinds[f[2]] in ("time", "dt"):
                return Tick(v)
            return v
        if k == "named":
            return self.value(f[1], r)
        if k == "slice":
            return self.value(f[1], r)[f[2]]
        if k == "dir":
            p, c, cv = w.rels[f[2]]
            pr = self.by_id[p].get(r[cv]) if r[cv] is not None else None
            if pr is None:
                return self.default(f)
            return self.fill(f, self.value(f[1], pr))
        if k == "agg":
            _, pname, bases, entity, path, where, up = f
            rows = self.descend(r, entity, path)
            child = w.rels[path[-1]][1]
            if where is not None:
                rows = [x for x in rows if self.value(where, x) in (True, 1.0)]
            ti = w.tables[child].time_index
            if up is not None:
                if up[0] == "o":
                    rows = rows[-up[1]:]
                elif ti is not None:
                    lo = self.t - sum(n * UNIT[u] for n, u in up[1]) / float(w.tick)
                    rows = [x for x in rows if x[ti] >= lo]
            if not rows:
                return self.default(f)
            args = [[self.value(b, x) for x in rows] for b in bases]
            return self.fill(f, self.P.agg(pname, args, self.t, w))
        raise ValueError(k)

    def descend(self, r, entity, path):
        """visible rows at the end of a downward path, in entity order, through visible rows only"""
        ids = {r[self.w.tables[entity].index]}
        rows = [r]
        for i in path:
            p, c, cv = self.w.rels[i]
            ids = {x[self.w.tables[p].index] for x in rows}
            sel = set()
            for pid in ids:
                for x in self.kids[i].get(pid, ()):
                    sel.add(x[self.w.tables[c].index])
            ci = self.w.tables[c].index
            if len(sel) <= 64:
                order = self._order(c)
                rows = sorted((self.by_id[c][s] for s in sel), key=lambda x: order[x[ci]])
            else:
                rows = [x for x in self.rows[c] if x[ci] in sel]
        return rows

    def _order(self, c):
        if c not in self.cols:
            ci = self.w.tables[c].index
            self.cols[c] = {x[ci]: n for n, x in enumerate(self.rows[c])}
        return self.cols[c]

    def column(self, f):
        """{row id: value} over all visible rows, for transforms"""
        key = ("col", repr(f))
        if key in self.memo:
            return self.memo[key]
        e = self.entity(f)
        rows = self.rows[e]
        ix = self.w.tables[e].index
        out = {}
        if f[0] == "tr":
            args = [[self.value(b, x) for x in rows] for b in f[2]]
            vals = self.P.tr(f[1], args, self.t, self.w)
            for x, v in zip(rows, vals):
                out[x[ix]] = v
        else:
            groups = {}
            for x in rows:
                g = self.value(f[3], x)
                if g is None:
                    out[x[ix]] = self.default(f)
                else:
                    groups.setdefault(g, []).append(x)
            for g, xs in groups.items():
                args = [[self.value(b, x) for x in xs] for b in f[2]]
                vals = self.P.tr(f[1], args, self.t, self.w)
                for x, v in zip(xs, vals):
                    out[x[ix]] = v
        self.memo[key] = out
        return out


# ------------------------------------------------------------------------------------------------ comparison

def compare(world, ref_of, trees, features, fm, rows, stats=None, tag=None):
    """rows: [(position in fm, instance id, ref key)]; ref_of(key) -> Ref.  Returns list of mismatch strings."""
    bad = []
    cols = []
    for tree, feat in zip(trees, features):
        cols.append((tree, feat.get_feature_names()))
    want_cols = [n for _, ns in cols for n in ns]
    got_cols = [c for c in fm.columns][:len(want_cols)]
    if got_cols != want_cols:
        return ["columns %r, expected %r" % (list(fm.columns), want_cols)]
    values = {n: list(fm[n]) for n in want_cols}
    cells = non = 0
    for pos, rid, key in rows:
        ref = ref_of(key)
        some = False
        for tree, names in cols:
            exp = ref.target(tree, rid)
            if exp is not None and exp != ref.default(tree):
                some = True
            exps = list(exp) if len(names) > 1 else [exp]
            for n, x in zip(names, exps):
                got = norm(values[n][pos])
                want = nref(x, world)
                cells += 1
                if not close(got, want):
                    bad.append("%s of %r at %r: got %r, expected %r" % (n, rid, key, got, want))
                    if len(bad) >= 6:
                        return bad
        if some and stats is not None:
            stats.seen("nontrivial", repr((tag, rid, key)))
    if stats is not None:
        stats.add("evaluations", cells)
    return bad

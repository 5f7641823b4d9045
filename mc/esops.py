"""Operation sequences on entity sets: initial states, the operation menu, plain snapshots and the table model they are compared with."""
import copy
import datetime as dtm
import math


def norm(v):
    """plain, comparable form of a cell"""
    import numpy as np
    import pandas as pd
    if v is None or v is pd.NaT:
        return None
    if isinstance(v, (tuple, list)):
        return tuple(norm(x) for x in v)
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (pd.Timestamp, np.datetime64, dtm.datetime)):
        v = pd.Timestamp(v)
        return None if v is pd.NaT else "@" + v.isoformat()
    if isinstance(v, (float, np.floating)):
        if math.isnan(v):
            return None
        return int(v) if float(v).is_integer() else float(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    return v


def snap_entity(e):
    df = e.df
    cols = list(df.columns)
    lti = e.last_time_index
    return {"vars": [(v.id, type(v).__name__) for v in e.variables], "index": e.index, "ti": e.time_index,
            "sti": {k: sorted(c) for k, c in e.secondary_time_index.items()}, "cols": cols,
            "labels": [norm(i) for i in df.index],
            "rows": [{c: norm(v) for c, v in zip(cols, r)} for r in df.itertuples(index=False, name=None)],
            "dtypes": {c: str(d) for c, d in df.dtypes.items()},
            "lti": None if lti is None else {norm(k): norm(v) for k, v in lti.items()},
            "iv": {v.id: sorted(map(str, (norm(x) for x in v.interesting_values))) for v in e.variables},
            "desc": {v.id: v.description for v in e.variables}}


def snap(es):
    return {"ents": {k: snap_entity(e) for k, e in es.entity_dict.items()},
            "rels": [(r._parent_entity_id, r._parent_variable_id, r._child_entity_id, r._child_variable_id) for r in es.relationships],
            "tt": None if es.time_type is None else es.time_type.__name__}


def meta_view(es):
    """what metadata must tell, read from an entity set (or from a metadata entity set)"""
    return {"ents": {k: {"vars": sorted((v.id, type(v).__name__) for v in e.variables), "index": e.index, "ti": e.time_index,
                         "sti": {a: sorted(c) for a, c in e.secondary_time_index.items()},
                         "iv": {v.id: sorted(map(str, (norm(x) for x in v.interesting_values))) for v in e.variables},
                         "desc": {v.id: v.description for v in e.variables}}
                     for k, e in es.entity_dict.items()},
            "rels": sorted((r._parent_entity_id, r._parent_variable_id, r._child_entity_id, r._child_variable_id) for r in es.relationships)}


def T(k):
    import pandas as pd
    return pd.NaT if k is None else pd.Timestamp("2020-01-01") + pd.Timedelta(hours=k)


# ------------------------------------------------------------------ data

def frames():
    import numpy as np
    import pandas as pd
    return {
        "cust": pd.DataFrame({"name": ["x", "y", "x"], "id": ["c2", "c1", "c3"], "since": [T(5), T(1), T(2)], "score": [1.5, np.nan, 3]}),
        "tx": pd.DataFrame({"tid": [4, 1, 3, 2], "cid": ["c1", "c2", "c1", "c9"], "t": [T(3), T(1), T(1), T(2)], "amt": [1.0, np.nan, 3.0, 4.0],
                            "kind": ["a", "b", "a", "b"], "flag": [True, False, False, True], "d": [T(4), T(3), T(2), None], "code": [7, 8, 7, 7]}),
        "visit": pd.DataFrame({"vid": [2, 1], "cid": ["c1", "c1"], "when": [T(6), T(2)], "kind": ["b", "b"]}),
        "store": pd.DataFrame({"region": ["n", "s"], "sid": ["b", "a"]}),
        "ev": pd.DataFrame({"eid": [1, 2, 3], "k": [10, 20, 10], "g": ["p", "q", None], "tn": [5, 3, 3], "un": [1.5, 2.5, 2.5]}),
        "grp": pd.DataFrame({"k": [20, 10], "w": [1, 2], "tm": [9, 8]}),
    }


def add(es, name, **kw):
    f = frames()[name]
    args = {"cust": dict(index="id"), "tx": dict(index="tid", time_index="t", secondary_time_index={"d": ["amt"]}),
            "visit": dict(index="vid", time_index="when"), "store": dict(index="sid"), "ev": dict(index="eid", time_index="tn"), "grp": dict(index="k", time_index="tm")}[name]
    args.update(kw)
    es.entity_from_dataframe(entity_id=args.pop("as_", name), dataframe=f, **args)
    return es


def initial(name):
    import featuretools as ft
    es = ft.EntitySet("e")
    if name == "A":
        add(add(es, "cust"), "tx")
    elif name == "AR":
        add(add(es, "cust"), "tx")
        es.add_relationship(ft.Relationship(es["cust"]["id"], es["tx"]["cid"]))
        es.add_last_time_indexes()
    elif name == "N":
        add(es, "ev")
    elif name == "NG":
        add(add(es, "ev"), "grp")
        es.add_relationship(ft.Relationship(es["grp"]["k"], es["ev"]["k"]))
        es["ev"]["g"].interesting_values = ["p"]
    return es


# ------------------------------------------------------------------ operations
TIMED = ("Numeric", "Datetime", "NumericTimeIndex", "DatetimeTimeIndex")

# each: name -> (applicable(snapshot), do(es) -> es or None, expect(snapshot) -> snapshot or "refuse")

def has(s, e, *vs):
    return e in s["ents"] and all(v in s["ents"][e]["cols"] for v in vs)


def keys_of(s, e):
    """variables of e which are its keys (index, time index) or join it to others"""
    x = s["ents"][e]
    out = {x["index"], x["ti"]}
    for pe, pv, ce, cv in s["rels"]:
        if pe == e:
            out.add(pv)
        if ce == e:
            out.add(cv)
    return out


def rows_of(s, e):
    return {r[s["ents"][e]["index"]]: r for r in s["ents"][e]["rows"]}


def tsort(rows, ti, index):
    if ti is None:
        return rows
    big = [r for r in rows if r[ti] is None]
    return sorted([r for r in rows if r[ti] is not None], key=lambda r: (r[ti], str(r[index]))) + big


def new_ent(name, index, ti, sti, rows):
    return {"index": index, "ti": ti, "sti": sti, "rows": rows, "ordered": ti is None}


def frame_rows(name):
    f = frames()[name]
    return [{c: norm(v) for c, v in zip(f.columns, r)} for r in f.itertuples(index=False, name=None)]


TYPES = {"cust": None, "store": None, "tx": "DatetimeTimeIndex", "visit": "DatetimeTimeIndex", "ev": "NumericTimeIndex", "grp": "NumericTimeIndex"}
ARGS = {"cust": ("id", None, {}), "tx": ("tid", "t", {"d": ["amt", "d"]}), "visit": ("vid", "when", {}), "store": ("sid", None, {}), "ev": ("eid", "tn", {}), "grp": ("k", "tm", {})}


def op_add(name):
    def app(s):
        return name not in s["ents"]

    def expect(s):
        if TYPES[name] and s["tt"] not in (None, TYPES[name]):
            return "refuse"
        n = copy.deepcopy(s)
        i, t, sti = ARGS[name]
        n["ents"][name] = new_ent(name, i, t, sti, frame_rows(name))
        if TYPES[name]:
            n["tt"] = TYPES[name]
        return n
    return app, (lambda es: add(es, name)), expect


def op_add_bad(which):
    import numpy as np

    def do(es):
        f = frames()["visit"]
        if which == "dup":
            f["vid"] = [1, 1]
            es.entity_from_dataframe("bad", f, index="vid", time_index="when")
        elif which == "text_time":
            f["when"] = ["soon", "later"]
            es.entity_from_dataframe("bad", f, index="vid", time_index="when")
        elif which == "no_time":
            es.entity_from_dataframe("bad", f, index="vid", time_index="nope")
        elif which == "mixed":
            f["num"] = [1, 2]
            es.entity_from_dataframe("bad", f, index="vid", time_index="when", secondary_time_index={"num": ["kind"]})
        elif which == "mixed2":
            f["num"] = [1, 2]
            es.entity_from_dataframe("bad", f, index="vid", time_index="num", secondary_time_index={"when": ["kind"]})
        elif which == "same":
            es.entity_from_dataframe("bad", f, index="vid", time_index="vid")
    return (lambda s: True), do, (lambda s: "refuse")


def op_rel(pe, pv, ce, cv, ok=True):
    def app(s):
        return has(s, pe, pv) and has(s, ce, cv) and s["ents"][pe]["index"] == pv

    def do(es):
        import featuretools as ft
        es.add_relationship(ft.Relationship(es[pe][pv], es[ce][cv]))

    def expect(s):
        if not ok:
            return "refuse"
        n = copy.deepcopy(s)
        if (pe, pv, ce, cv) not in n["rels"]:
            n["rels"].append((pe, pv, ce, cv))
        return n
    return app, do, expect


def op_norm(base, new, index, move=(), copy_=(), mti=None, msti=None, ok=True, nti=None):
    def app(s):
        return has(s, base, index, *(list(move) + list(copy_))) and new not in s["ents"] and index != s["ents"][base]["ti"] and (not msti or all(has(s, base, k, *v) for k, v in msti.items()))

    def do(es):
        es.normalize_entity(base, new, index, additional_variables=list(move), copy_variables=list(copy_), make_time_index=mti,
                            make_secondary_time_index=copy.deepcopy(msti), new_entity_time_index=nti)

    def expect(s):
        b = s["ents"][base]
        if not ok or index == b["index"] or set(move) & keys_of(s, base):
            return "refuse"
        n = copy.deepcopy(s)
        ti = b["ti"]
        use = mti if isinstance(mti, str) else ti if (mti or (mti is None and ti)) else None
        if mti is True and ti is None:
            return "refuse"
        first, last, order = {}, {}, []
        for r in b["rows"]:
            if r[index] not in first:
                first[r[index]] = r
                order.append(r[index])
            last[r[index]] = r
        cols = [index] + list(move) + list(copy_)
        name = None
        if use:
            name = use if isinstance(mti, str) else (nti or "first_%s_time" % base)
        out = []
        for k in order:
            row = {c: first[k][c] for c in cols if c != use}
            if use:
                row[name] = first[k][use]
            if msti:
                for a, vs in msti.items():
                    for c in [a] + list(vs):
                        row[c] = last[k][c]
            out.append(row)
        n["ents"][new] = new_ent(new, index, name, {a: sorted(set(vs) | {a}) for a, vs in (msti or {}).items()}, out)
        for r in n["ents"][base]["rows"]:
            for c in move:
                r.pop(c)
        n["ents"][base]["sti"] = {a: [c for c in vs if c not in move] for a, vs in b["sti"].items() if a not in move}
        n["rels"].append((new, index, base, index))
        return n
    return app, do, expect


def op_update(e, how):
    def app(s):
        return e in s["ents"] and len(s["ents"][e]["rows"]) >= 2

    def do(es):
        import pandas as pd
        df = es[e].df.copy()
        if how == "reverse":
            df = df.iloc[::-1]
            df = df[list(df.columns)[::-1]]
        elif how == "drop":
            df = df.iloc[1:]
        elif how == "add":
            row = df.iloc[[0]].copy()
            i = es[e].index
            row[i] = [bigger(df[i])]
            df = pd.concat([row, df])
        elif how == "dup":
            df = pd.concat([df, df.iloc[[0]]])
        elif how == "short":
            df = df[list(df.columns)[:-1]]
        elif how == "other":
            df = df.rename(columns={df.columns[-1]: "zzz"})
        elif how == "badtime":
            df[es[e].time_index] = 5 if str(df[es[e].time_index].dtype).startswith("datetime") else T(1)
        es[e].update_data(df)

    def bigger(vals):
        m = max(vals)
        return m + "z" if isinstance(m, str) else m + 1

    def expect(s):
        if how in ("dup", "short", "other") or (how == "badtime" and s["ents"][e]["ti"]):
            return "refuse"
        n = copy.deepcopy(s)
        x = n["ents"][e]
        rows = x["rows"]
        if how == "reverse":
            rows = rows[::-1]
        elif how == "drop":
            rows = rows[1:]
        elif how == "add":
            rows = [dict(rows[0], **{x["index"]: bigger([r[x["index"]] for r in rows])})] + rows
        x["rows"] = rows
        x["ordered"] = x["ti"] is None
        return n
    if how == "badtime":
        return (lambda s: app(s) and s["ents"][e]["ti"] is not None), do, expect
    return app, do, expect


def op_conv(e, v, t, data=True, ok=True, change=None):
    def app(s):
        return has(s, e, v) and v not in keys_of(s, e) and v not in s["ents"][e]["sti"]

    def do(es):
        import featuretools as ft
        es[e].convert_variable_type(v, getattr(ft.variable_types, t), convert_data=data)

    def expect(s):
        if not ok:
            return "refuse"
        n = copy.deepcopy(s)
        n.setdefault("types", {})[(e, v)] = t
        if change:
            for r in n["ents"][e]["rows"]:
                r[v] = change(r[v])
        return n
    return app, do, expect


def op_del(e, vs, ok=True):
    def app(s):
        return e in s["ents"] and (not ok or (has(s, e, *vs) and not set(vs) & keys_of(s, e) and len(s["ents"][e]["cols"]) > len(vs)))

    def do(es):
        es[e].delete_variables(list(vs))

    def expect(s):
        if not ok:
            return "refuse"
        n = copy.deepcopy(s)
        x = n["ents"][e]
        for r in x["rows"]:
            for v in vs:
                r.pop(v)
        x["sti"] = {a: [c for c in cs if c not in vs] for a, cs in x["sti"].items() if a not in vs}
        return n
    return app, do, expect


def op_ti(e, v, ok=True):
    def app(s):
        return has(s, e, v) and (v == s["ents"][e]["ti"] or v not in keys_of(s, e))

    def do(es):
        es[e].set_time_index(v)

    def expect(s):
        if not ok:
            return "refuse"
        tt = "DatetimeTimeIndex" if e in ("cust", "tx", "visit") else "NumericTimeIndex"
        if s["tt"] not in (None, tt):
            return "refuse"
        n = copy.deepcopy(s)
        n["tt"] = tt
        n["ents"][e]["ti"] = v
        n["ents"][e]["ordered"] = False
        return n
    return app, do, expect


def op_sti(e, d):
    def app(s):
        return e in s["ents"] and all(has(s, e, a, *c) and dict(s["ents"][e]["vars"])[a] in TIMED for a, c in d.items())

    def do(es):
        es[e].set_secondary_time_index(copy.deepcopy(d))

    def expect(s):
        n = copy.deepcopy(s)
        tt = "DatetimeTimeIndex" if e in ("cust", "tx", "visit") else "NumericTimeIndex"
        if d and n["tt"] not in (None, tt):
            return "refuse"
        if d:
            n["tt"] = tt
        n["ents"][e]["sti"] = {a: sorted(set(c) | {a}) for a, c in d.items()}
        return n
    return app, do, expect


def shifted(es):
    """an entity set of the same structure: every entity without its first row and with a copy of it under a new index value, other values altered"""
    import pandas as pd
    other = copy.deepcopy(es)
    for e in other.entities:
        df = e.df.copy()
        i = e.index
        m = max(df[i])
        row = df.iloc[[0]].copy()
        row[i] = [m + "s" if isinstance(m, str) else m + 100]
        for c in df.columns:
            if c != i and c != e.time_index and str(df[c].dtype) == "float64":
                df[c] = df[c] + 1000
        e.update_data(pd.concat([df.iloc[1:], row]))
    return other


def op_concat(inplace):
    def app(s):
        return len(s["ents"]) > 0 and all(len(e["rows"]) for e in s["ents"].values())

    def do(es):
        other = shifted(es)
        before = snap(es), snap(other)
        out = es.concat(other, inplace=inplace)
        if not inplace and snap(es) != before[0]:
            raise Broken("concat changed its first argument")
        if snap(other) != before[1]:
            raise Broken("concat changed its second argument")
        return out

    def expect(s):
        n = copy.deepcopy(s)
        for k, x in n["ents"].items():
            i = x["index"]
            m = max(r[i] for r in x["rows"])
            x["rows"] = x["rows"] + [dict(x["rows"][0], **{i: m + "s" if isinstance(m, str) else m + 100})]
            x["ordered"] = False
        return n
    return app, do, expect


class Broken(Exception):
    pass


def op_same(do, app=None):
    """an operation that changes no table"""
    return (app or (lambda s: len(s["ents"]) > 0)), do, copy.deepcopy


def _lti(es):
    es.add_last_time_indexes()


def _iv(es):
    es.add_interesting_values(max_values=2)


def _seti(es):
    for e in es.entities:
        v = e.variables[-1]
        v.interesting_values = list(e.df[v.id].dropna().iloc[:1]) if len(v.interesting_values) == 0 else []


def _desc(es):
    e = es.entities[-1]
    v = e.variables[-1]
    v.description = "described" if v.description != "described" else "other"


def _nolti(es):
    for e in es.entities:
        e.last_time_index = None


def menu(init):
    m = {}
    for bad in ("dup", "text_time", "no_time", "mixed", "mixed2", "same"):
        m["add_bad:" + bad] = op_add_bad(bad)
    if init in ("0", "A", "AR"):
        for n in ("visit", "store") + (("cust", "tx") if init == "0" else ()):
            m["add:" + n] = op_add(n)
        if init != "0":
            m["add:ev"] = op_add("ev")
        m["rel:cust-tx"] = op_rel("cust", "id", "tx", "cid")
        m["rel:cust-visit"] = op_rel("cust", "id", "visit", "cid")
        m["rel:bad_dtype"] = op_rel("cust", "id", "tx", "code", ok=False)
        m["rel:bad_index"] = op_rel("cust", "id", "tx", "tid", ok=False)
        m["norm:kind"] = op_norm("tx", "kinds", "kind", move=["flag"], copy_=["code"])
        m["norm:kind_s"] = op_norm("tx", "kinds", "kind", move=["code"], msti={"d": ["amt"]})
        m["norm:code"] = op_norm("tx", "codes", "code", move=["amt"], mti=False)
        m["norm:code_d"] = op_norm("tx", "codes", "code", copy_=["d", "kind"], mti="d")
        m["norm:name"] = op_norm("cust", "names", "name", move=["since"])
        m["norm:cid"] = op_norm("tx", "c2", "cid", nti="began")
        m["norm:bad_index"] = op_norm("tx", "k3", "tid", ok=False)
        m["norm:bad_time"] = op_norm("tx", "k3", "kind", move=["t"])
        m["norm:bad_key"] = op_norm("tx", "k3", "kind", move=["tid"])
        m["norm:fk"] = op_norm("tx", "k3", "kind", move=["cid"])
        for e in ("tx", "cust"):
            for h in ("reverse", "drop", "add", "dup", "short", "other", "badtime"):
                m["update:%s:%s" % (e, h)] = op_update(e, h)
        m["conv:kind"] = op_conv("tx", "kind", "NaturalLanguage", data=False)
        m["conv:score"] = op_conv("cust", "score", "Categorical")
        m["conv:code"] = op_conv("tx", "code", "Numeric")
        m["conv:name"] = op_conv("cust", "name", "Numeric", ok=False)
        m["conv:kind_text"] = op_conv("tx", "kind", "NaturalLanguage", ok=False)
        m["conv:none"] = (lambda s: "tx" in s["ents"]), (lambda es: es["tx"].convert_variable_type("nope", type(es["tx"].variables[0]))), (lambda s: "refuse")
        m["del:flag"] = op_del("tx", ["flag"])
        m["del:amt"] = op_del("tx", ["amt", "code"])
        m["del:d"] = op_del("tx", ["d"])
        m["del:name"] = op_del("cust", ["name"])
        m["del:none"] = op_del("tx", ["kind", "nope"], ok=False)
        m["ti:since"] = op_ti("cust", "since")
        m["ti:d"] = op_ti("tx", "d")
        m["ti:text"] = op_ti("tx", "kind", ok=False)
        m["sti:since"] = op_sti("cust", {"since": ["score"]})
        m["sti:none"] = op_sti("tx", {})
    if init in ("N", "NG", "0"):
        if init != "0":
            m["add:grp"] = op_add("grp")
            m["add:visit"] = op_add("visit")
        m["add:ev"] = op_add("ev")
        m["rel:grp-ev"] = op_rel("grp", "k", "ev", "k")
        if init != "0":
            m["rel:bad"] = op_rel("grp", "k", "ev", "un", ok=False)
            m["norm:k"] = op_norm("ev", "ks", "k", move=["un"])
            m["norm:un"] = op_norm("ev", "us", "un", copy_=["k", "tn"], mti="tn")
            m["norm:g"] = op_norm("ev", "gs", "un", copy_=["g"], mti=False)
            for e in ("ev", "grp"):
                for h in ("reverse", "drop", "add", "dup", "other", "badtime"):
                    m["update:%s:%s" % (e, h)] = op_update(e, h)
            m["conv:un"] = op_conv("ev", "un", "Categorical")
            m["conv:g"] = op_conv("ev", "g", "Numeric", ok=False)
            m["conv:un_dt"] = op_conv("ev", "un", "Ordinal", data=False)
            m["del:g"] = op_del("ev", ["g"])
            m["del:w"] = op_del("grp", ["w"])
            m["ti:un"] = op_ti("ev", "un")
            m["ti:g"] = op_ti("ev", "g", ok=False)
            m["sti:un"] = op_sti("ev", {"un": ["g"]})
    m["concat"] = op_concat(False)
    m["concat_in"] = op_concat(True)
    m["lti"] = op_same(_lti)
    m["iv"] = op_same(_iv)
    m["setiv"] = op_same(_seti)
    m["desc"] = op_same(_desc)
    m["nolti"] = op_same(_nolti)
    return m


# ------------------------------------------------------------------ invariants and comparison

def invariants(es):
    """consistency of the public state of one entity set; list of messages"""
    import featuretools as ft
    bad = []
    for k, e in es.entity_dict.items():
        ids = [v.id for v in e.variables]
        df = e.df
        if e.id != k:
            bad.append("entity %s is stored as %s" % (e.id, k))
        if len(ids) != len(set(ids)) or list(df.columns) != ids:
            bad.append("%s: columns %r but variables %r" % (k, list(df.columns), ids))
            continue
        if not ids or ids[0] != e.index:
            bad.append("%s: first variable is %r, index is %r" % (k, ids[:1], e.index))
            continue
        if type(e[e.index]).__name__ != "Index":
            bad.append("%s: index variable has type %s" % (k, type(e[e.index]).__name__))
        vals = [norm(v) for v in df[e.index]]
        if len(set(map(repr, vals))) != len(vals):
            bad.append("%s: index values repeat: %r" % (k, vals))
        if [norm(v) for v in df.index] != vals:
            bad.append("%s: rows labelled %r, index values %r" % (k, list(df.index), vals))
        if e.time_index is not None:
            if e.time_index not in ids:
                bad.append("%s: time index %r is no variable" % (k, e.time_index))
                continue
            if not isinstance(e[e.time_index], (ft.variable_types.DatetimeTimeIndex, ft.variable_types.NumericTimeIndex)):
                bad.append("%s: time index has type %s" % (k, type(e[e.time_index]).__name__))
            elif es.time_type is not None and not isinstance(e[e.time_index], es.time_type):
                bad.append("%s: time index has type %s in an entity set of %s" % (k, type(e[e.time_index]).__name__, es.time_type.__name__))
            ts = [norm(v) for v in df[e.time_index]]
            known = [t for t in ts if t is not None]
            if known != sorted(known) or None in ts[:len(known)]:
                bad.append("%s: rows are not in time order: %r" % (k, ts))
        for a, cs in e.secondary_time_index.items():
            for c in [a] + list(cs):
                if c not in ids:
                    bad.append("%s: secondary time index names %r, which is no variable" % (k, c))
            if a not in cs or len(cs) != len(set(cs)):
                bad.append("%s: secondary time index %s governs %r" % (k, a, cs))
        for v in e.variables:
            if v.entity is not e or v.entity_id != k:
                bad.append("%s: variable %s belongs to another entity" % (k, v.id))
        if e.entityset is not es:
            bad.append("%s belongs to another entity set" % k)
        if e.last_time_index is not None and len(df) and set(map(norm, e.last_time_index.index)) - set(vals):
            bad.append("%s: last time index for rows that do not exist" % k)
    for r in es.relationships:
        pe, pv, ce, cv = r._parent_entity_id, r._parent_variable_id, r._child_entity_id, r._child_variable_id
        name = "%s.%s -> %s.%s" % (ce, cv, pe, pv)
        if r.entityset is not es:
            bad.append("relationship %s belongs to another entity set" % name)
        if pe not in es.entity_dict or ce not in es.entity_dict or pv not in es[pe].df.columns or cv not in es[ce].df.columns:
            bad.append("relationship %s joins what does not exist" % name)
            continue
        if es[pe].index != pv:
            bad.append("relationship %s does not refer to the index of its parent" % name)
        if es[pe].df[pv].dtype != es[ce].df[cv].dtype:
            bad.append("relationship %s joins %s to %s" % (name, es[ce].df[cv].dtype, es[pe].df[pv].dtype))
        if not isinstance(es[ce][cv], ft.variable_types.Id):
            bad.append("relationship %s: child variable has type %s" % (name, type(es[ce][cv]).__name__))
    if len(set(es.relationships)) != len(es.relationships):
        bad.append("a relationship is listed twice")
    return bad


def differs(got, want):
    """compare a snapshot with what the table model expects; list of messages"""
    bad = []
    if list(got["ents"]) != list(want["ents"]):
        return ["entities are %r, expected %r" % (list(got["ents"]), list(want["ents"]))]
    if got["rels"] != want["rels"]:
        bad.append("relationships are %r, expected %r" % (got["rels"], want["rels"]))
    if got["tt"] != want["tt"]:
        bad.append("time type is %r, expected %r" % (got["tt"], want["tt"]))
    for k, w in want["ents"].items():
        g = got["ents"][k]
        for f in ("index", "ti"):
            if g[f] != w[f]:
                bad.append("%s: %s is %r, expected %r" % (k, f, g[f], w[f]))
        if {a: sorted(c) for a, c in g["sti"].items()} != {a: sorted(c) for a, c in w["sti"].items()}:
            bad.append("%s: secondary time index is %r, expected %r" % (k, g["sti"], w["sti"]))
        rows = {r[w["index"]]: r for r in w["rows"]}
        have = {r.get(w["index"]): r for r in g["rows"]}
        if len(g["rows"]) != len(w["rows"]) or set(map(repr, rows)) != set(map(repr, have)):
            bad.append("%s: rows %r, expected %r" % (k, list(have), list(rows)))
            continue
        if w.get("ordered") and [r[w["index"]] for r in g["rows"]] != [r[w["index"]] for r in w["rows"]]:
            bad.append("%s: rows in the order %r, expected %r" % (k, list(have), list(rows)))
        if "cols" in w and not w.get("free") and w["rows"] and set(w["rows"][0]) == set(w["cols"]) and g["cols"] != w["cols"]:
            bad.append("%s: columns are %r, expected %r" % (k, g["cols"], w["cols"]))
        for i, r in rows.items():
            if have[i] != r:
                bad.append("%s: row %r is %r, expected %r" % (k, i, have[i], r))
                break
    for (e, v), t in want.get("types", {}).items():
        if (v, t) not in got["ents"][e]["vars"]:
            bad.append("%s.%s has type %r, expected %s" % (e, v, dict(got["ents"][e]["vars"]).get(v), t))
    return bad

"""P17: every small table split by every choice of options, compared with a row model of the split."""
import copy
import itertools

from ..core import Check


def day(n):
    import pandas as pd
    return pd.NaT if n is None else pd.Timestamp("2020-01-01") + pd.Timedelta(days=n)


def same(x, y):
    import pandas as pd
    if pd.isnull(x) and pd.isnull(y):
        return True
    return x == y


def table(case):
    """rows in input order; ids run backwards so that input order, id order and time order all differ"""
    n = len(case["k"])
    rows = []
    for i in range(n):
        r = {"id": n - i, "v": case["k"][i], "w": "w%s" % case["k"][i] if case["k"][i] else None, "a": None if case["miss"] >> i & 1 else "a%d" % i, "c": 10.0 + i, "o": 1 + i % 2, "d": day(20 + (i * 7) % 5)}
        if case["time"]:
            t = case["t"][i]
            r["t"] = day(t) if case["time"] == "date" else float("nan") if t is None else t
            if case["time"] == "number":
                r["d"] = 20 + (i * 7) % 5
        rows.append(r)
    return rows


def build(case):
    import featuretools as ft
    import pandas as pd
    V = ft.variable_types
    rows = table(case)
    df = pd.DataFrame(rows)
    vt = {"v": V.Id if case.get("child") else V.Categorical, "w": V.Categorical, "a": V.NaturalLanguage, "c": V.Numeric, "o": V.Ordinal}
    if case["time"] == "number":
        vt["d"] = V.Numeric
    else:
        vt["d"] = V.Datetime
    es = ft.EntitySet("s")
    kw = {"time_index": "t"} if case["time"] else {}
    es.entity_from_dataframe("b", df, index="id", variable_types=vt, **kw)
    if case["time"]:
        rows = sorted(rows, key=lambda r: (pd.isnull(r["t"]), r["t"] if not pd.isnull(r["t"]) else 0, r["id"]))
    return es, rows


OPTS = []
for moved in ((), ("a",), ("w",), ("a", "c"), ("d",), ("o", "w")):
    for copied in ((), ("a",), ("c",), ("t",), ("id",), ("c", "t"), ("d",)):
        if set(moved) & set(copied):
            continue
        for mti in (None, True, False, "d", "t"):
            if isinstance(mti, str) and mti not in moved + copied:
                continue
            for name in ((None, "when") if mti in (None, True) else (None,)):
                OPTS.append({"move": moved, "copy": copied, "mti": mti, "name": name, "sec": None, "sname": None})
for moved in ((), ("a",)):
    for copied in ((), ("w",), ("t",)):
        for mti in (None, False, "t"):
            if mti == "t" and "t" not in copied:
                continue
            for sec in ({"d": ["c"]}, {"d": []}, {"t": ["c"]}, {"d": ["c", "o"]}):
                if "t" in sec and "t" in copied:
                    continue
                for sname in (None, "later"):
                    OPTS.append({"move": moved, "copy": copied, "mti": mti, "name": None, "sec": sec, "sname": sname})
FEW = [o for o in OPTS if (o["move"], o["copy"], o["mti"], o["name"], o["sec"], o["sname"]) in
       ((("a",), ("c",), None, None, None, None), (("d", ), (), "d", None, None, None), (("a",), ("w",), None, None, {"d": ["c"]}, None), (("w",), (), False, None, None, None))]


class P17(Check):
    id = "P17"
    rule = ("tables of up to 3 (thorough 4) rows over all split keys (2 values and missing) x all times (2 values and missing, ties included) x missing patterns of a moved variable, with date, number and no time index, split with "
            "representative options; every combination of moved and copied variables, time index options, secondary time index options and new names on tables of 3 rows; splits of splits. Non-trivial: a key with several rows")
    assumptions = ("rows are taken in the entity's time order, ties by index, rows without a time last", "rows whose split value is missing belong to no row of the new entity that is judged")

    def cases(self, tier):
        th = tier == "thorough"
        N = (1, 2, 3, 4) if th else (1, 2, 3)
        for n in N:
            for k in itertools.product(("x", "y", None), repeat=n):
                if "y" in k and (("x" not in k) or k.index("y") < k.index("x")):
                    continue
                for t in itertools.product((1, 2, None) if n < 4 else (1, 2), repeat=n):
                    for miss in (range(2 ** n) if th else sorted({0, 1, 2 ** n - 2})):
                        yield {"m": "data", "k": k, "t": t, "miss": miss, "time": "date"}
        for n in (2, 3):
            for k in itertools.product(("x", "y"), repeat=n):
                for t in sorted(set(itertools.permutations((1, 2, 3, 3)[:n + 1], n))):
                    for time in ("date", "number", None):
                        for miss in (0, 1) if th else (0,):
                            if k[0] == "x":
                                yield {"m": "opts", "k": k, "t": t, "miss": miss, "time": time, "all": th}
        for k in itertools.product(("x", "y"), repeat=3):
            for t in itertools.product((1, 2), repeat=3):
                yield {"m": "again", "k": k, "t": t, "miss": 0, "time": "date"}

    def run(self, case, st):
        st.sample(case)
        opts = FEW if case["m"] == "data" else OPTS
        if case["m"] == "again":
            return self.again(case, st)
        if case["m"] == "opts" and not case["all"]:
            r = sum(ord(x) for x in "".join(case["k"])) + sum(case["t"]) + len(case["k"])
            opts = OPTS[r % 3::3]           # every option with a third of the tables
        bad = []
        for o in opts:
            if not case["time"] and (o["mti"] in (True, "t") or "t" in o["copy"] or (o["sec"] and "t" in o["sec"])):
                continue
            es, rows = build(case)
            bad += self.split(es, rows, o, case, st)
            if bad:
                return bad[:3]
        return []

    def split(self, es, rows, o, case, st, base="b", new="n", key="v", ti="t"):
        import featuretools as ft
        import pandas as pd
        V = ft.variable_types
        tag = "%r" % o
        ti = ti if case["time"] else None
        before = {e.id: (e.df.copy(), dict(e.variable_types), e.time_index) for e in es.entities}
        rels = list(es.relationships)
        args = dict(additional_variables=list(o["move"]), copy_variables=list(o["copy"]), make_time_index=o["mti"], make_secondary_time_index=copy.deepcopy(o["sec"]),
                    new_entity_time_index=o["name"], new_entity_secondary_time_index=o["sname"])
        kept = copy.deepcopy(args)
        st.add("evaluations")
        es.normalize_entity(base, new, key, **args)
        bad = []
        if args != kept:
            bad.append("%s: the arguments became %r" % (tag, args))
        # the model
        first, last = {}, {}
        for r in rows:
            if r[key] is not None:
                first.setdefault(r[key], r)
                last[r[key]] = r
        if len(first) < len([r for r in rows if r[key] is not None]):
            st.seen("nontrivial", (repr(case["k"]), repr(case["t"]), case["miss"], repr(o)))
        use = o["mti"] if isinstance(o["mti"], str) else ti if (o["mti"] or o["mti"] is None) else None
        name = None
        cols = {key: lambda k: k}
        types = {}
        for c in o["move"] + o["copy"]:
            cols[c] = lambda k, c=c: first[k][c]
            types[c] = before[base][1][c]
        if use:
            name = use if isinstance(o["mti"], str) else o["name"] or "first_%s_time" % base
            cols[name] = lambda k: first[k][use]
        for a, vs in (o["sec"] or {}).items():
            for c in [a] + vs:
                n = o["sname"] if c == a and o["sname"] else c
                cols[n] = lambda k, c=c: last[k][c]
                types[n] = before[base][1][c]
        ent, b = es[new], es[base]
        df = ent.df
        got = {r[key]: r for r in df.to_dict("records") if not pd.isnull(r[key])}
        if set(got) != set(first) or len(df[~df[key].isnull()]) != len(first):
            bad.append("%s: rows of the new entity %r for the values %r" % (tag, df[key].tolist(), sorted(first)))
        if set(df.columns) != set(cols) or {v.id for v in ent.variables} != set(cols):
            bad.append("%s: columns %r, variables %r, expected %r" % (tag, sorted(df.columns), sorted(v.id for v in ent.variables), sorted(cols)))
        if bad:
            return bad
        for k in first:
            for c, f in cols.items():
                if not same(got[k][c], f(k)):
                    bad.append("%s: %s of %s is %r, expected %r" % (tag, c, k, got[k][c], f(k)))
        if ent.index != key or ent.time_index != name:
            bad.append("%s: index %r, time index %r (expected %r)" % (tag, ent.index, ent.time_index, name))
        if name:
            seen = [x for x in df[name].tolist()]
            vals = [x for x in seen if not pd.isnull(x)]
            if vals != sorted(vals) or any(pd.isnull(x) for x in seen[:len(vals)]):
                bad.append("%s: rows out of time order %r" % (tag, seen))
        want = {(o["sname"] or a): {(o["sname"] if c == a and o["sname"] else c) for c in [a] + vs} for a, vs in (o["sec"] or {}).items()}
        if {a: set(vs) for a, vs in ent.secondary_time_index.items()} != want:
            bad.append("%s: secondary time index %r, expected %r" % (tag, ent.secondary_time_index, want))
        back = {V.DatetimeTimeIndex: V.Datetime, V.NumericTimeIndex: V.Numeric, V.Index: V.Id}
        vt = ent.variable_types
        for c, t in types.items():
            if c != name and vt[c] is not back.get(t, t):
                bad.append("%s: type of %s is %s, in the base it is %s" % (tag, c, vt[c].__name__, t.__name__))
        if [c for c, t in vt.items() if issubclass(t, V.Index)] != [key] or [c for c, t in vt.items() if issubclass(t, V.TimeIndex)] != ([name] if name else []):
            bad.append("%s: key types of the new entity %r" % (tag, vt))
        # the base entity
        odf, otypes, oti = before[base]
        keep = [c for c in odf.columns if c not in o["move"]]
        if list(b.df.columns) != keep or [v.id for v in b.variables if v.id in keep] != [c for c in otypes if c in keep] or len(b.variables) != len(keep):
            bad.append("%s: base has %r / %r" % (tag, list(b.df.columns), [v.id for v in b.variables]))
        elif not b.df.equals(odf[keep]):
            bad.append("%s: rows of the base changed to\n%s\nfrom\n%s" % (tag, b.df, odf[keep]))
        for c in keep:
            if b.variable_types[c] is not (V.Id if c == key else otypes[c]):
                bad.append("%s: type of %s in the base is %s" % (tag, c, b.variable_types[c]))
        if b.time_index != oti:
            bad.append("%s: time index of the base is %r" % (tag, b.time_index))
        for e, (d, ts, t) in before.items():
            if e != base and (not es[e].df.equals(d) or es[e].variable_types != ts or es[e].time_index != t):
                bad.append("%s: entity %s changed" % (tag, e))
        added = [r for r in es.relationships if r not in rels]
        if [r for r in es.relationships if r in rels] != rels or len(added) != 1 or \
                (added[0].parent_entity.id, added[0].parent_variable.id, added[0].child_entity.id, added[0].child_variable.id) != (new, key, base, key):
            bad.append("%s: relationships %r" % (tag, es.relationships))
        if bad:
            return bad
        # what moved can be recovered through the link when constant per value
        const = [c for c in o["move"] if all(same(r[c], first[r[key]][c]) for r in rows if r[key] is not None)]
        if const and (case["m"] != "data" or o is FEW[0]) and all(r[key] is not None and None not in (case["t"] if case["time"] else ()) for r in rows):
            orig = {r["id"]: r for r in rows}
            fs = [ft.Feature(ent[c], b) for c in const]
            fm = ft.calculate_feature_matrix(fs, es)
            for f, c in zip(fs, const):
                for i, v in fm[f.get_name()].items():
                    if not same(v, orig[i][c]) and not (isinstance(v, float) and v == orig[i][c]):
                        bad.append("%s: %s recovered through the link is %r for row %r, was %r" % (tag, c, v, i, orig[i][c]))
        return bad

    def again(self, case, st):
        """b -> n (by v), then n -> m (by w, moved before), then b -> q (by o)"""
        bad = []
        for o1 in ({"move": ("w", "a"), "copy": ("c",), "mti": None, "name": None, "sec": None, "sname": None}, {"move": ("w",), "copy": (), "mti": False, "name": None, "sec": None, "sname": None}):
            es, rows = build(case)
            bad += self.split(es, rows, o1, case, st)
            if bad:
                return bad[:2]
            df = es["n"].df
            rows2 = [{c: None if x is None else x for c, x in r.items()} for r in df.to_dict("records")]
            o2 = {"move": ("a",) if "a" in df else (), "copy": (), "mti": None, "name": None, "sec": None, "sname": None}
            t2 = "first_b_time" if o1["mti"] is None else None
            case2 = dict(case, time=case["time"] if t2 else None, m="data")
            bad += self.split(es, rows2, o2, case2, st, base="n", new="m", key="w", ti=t2)
            if bad:
                return bad[:2]
            order = es["b"].df["id"].tolist()
            rows3 = [r for i in order for r in rows if r["id"] == i]
            o3 = {"move": ("d",), "copy": ("c",) , "mti": None, "name": "when", "sec": None, "sname": None}
            bad += self.split(es, rows3, o3, case, st, base="b", new="q", key="o")
            if bad:
                return bad[:2]
        return []


CHECK = P17()

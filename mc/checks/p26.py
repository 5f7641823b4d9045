"""P26: every spelling of every small span, shifted over boundary dates, compared with calendar arithmetic; equality, names and dictionaries."""
import datetime as dtm
import itertools
import json

from ..core import Check, Problem

UNITS = {"ms": ("millisecond", "milliseconds"), "s": ("second", "seconds"), "m": ("minute", "minutes"), "h": ("hour", "hours"), "d": ("day", "days"), "w": ("week", "weeks"),
         "mo": ("month", "months"), "Y": ("year", "years"), "o": ("observation", "observations")}
FIXED = {"ms": dtm.timedelta(milliseconds=1), "s": dtm.timedelta(seconds=1), "m": dtm.timedelta(minutes=1), "h": dtm.timedelta(hours=1), "d": dtm.timedelta(days=1), "w": dtm.timedelta(days=7)}
DATES = [dtm.datetime(2019, 1, 31), dtm.datetime(2020, 1, 31, 12, 30), dtm.datetime(2020, 2, 29), dtm.datetime(2019, 3, 31, 23, 59, 59, 999000), dtm.datetime(2020, 12, 31), dtm.datetime(2019, 2, 28, 6),
         dtm.datetime(2021, 3, 1), dtm.datetime(2020, 8, 30)]
BUSINESS = dtm.datetime(2021, 7, 2)


def month_shift(d, n):
    y, m = divmod(d.year * 12 + d.month - 1 + n, 12)
    last = [31, 29 if (y % 4 == 0 and y % 100) or y % 400 == 0 else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m]
    return d.replace(year=y, month=m + 1, day=min(d.day, last))


def shift(d, parts, sign):
    months = parts.get("mo", 0) + 12 * parts.get("Y", 0)
    d = month_shift(d, sign * months)
    for u, v in parts.items():
        if u in FIXED:
            d = d + sign * v * FIXED[u]
    return d


def texts(v, u):
    out = []
    sing, plur = UNITS[u]
    for w in (sing, plur):
        for f in (w, w.capitalize(), w.upper()):
            out += ["%d %s" % (v, f), "%d%s" % (v, f)]
    out += ["%d %s" % (v, u), "%d%s" % (v, u)]
    if len(u) > 1:
        out += ["%d %s" % (v, u.upper()), "%d%s" % (v, u.capitalize())]
    return out


def spellings(v, u):
    """(description, maker) of every way to say v u"""
    import featuretools as ft
    from featuretools.utils.wrangle import _check_timedelta
    T = ft.Timedelta
    out = []
    if isinstance(v, int) and v >= 0:
        for t in texts(v, u):
            out += [("Timedelta(%r)" % t, lambda t=t: T(t)), ("text %r" % t, lambda t=t: _check_timedelta(t))]
    for w in (u,) + UNITS[u]:
        for f in {w, w.capitalize() if len(w) > 1 else w}:
            out += [("Timedelta(%r, %r)" % (v, f), lambda f=f: T(v, f)), ("Timedelta({%r: %r})" % (f, v), lambda f=f: T({f: v})),
                    ("from_dictionary(%r, %r)" % (f, v), lambda f=f: T.from_dictionary({"unit": f, "value": v}))]
    return out


class P26(Check):
    id = "P26"
    rule = ("every unit x values 0-3, 12, negative and fractional where defined x every text, number-with-unit, mapping and dictionary spelling; every pair of units x values as a two-part span; every combination shifted forwards "
            "and backwards from 8 boundary dates and compared with calendar arithmetic; all pairs of spans compared for equality; every span converted to a dictionary, JSON and (single unit) name and back; spans given as "
            "use_previous and training_window over events around month ends. Non-trivial: distinct (span, date) with a shift")
    assumptions = ("text spellings carry non-negative whole numbers", "two-part spans have no observations")

    def prepare(self, tier):
        self.th = tier == "thorough"

    def cases(self, tier):
        for u in UNITS:
            for v in (0, 1, 2, 3, 12) + ((-1, -2) if u != "o" else ()) + ((1.5, 0.5) if u in FIXED else ()):
                yield {"m": "one", "u": u, "v": v}
        us = [u for u in UNITS if u != "o"]
        for a, b in itertools.permutations(us, 2):
            yield {"m": "two", "u": [a, b]}
        yield {"m": "eq"}
        yield {"m": "offsets"}
        for u in us:
            yield {"m": "use", "u": u}

    def shifts(self, td, parts, tag, st):
        import pandas as pd
        bad = []
        for d in DATES:
            for sign, f in ((1, lambda x: x + td), (-1, lambda x: x - td)):
                want = pd.Timestamp(shift(d, parts, sign))
                for kind, x in (("Timestamp", pd.Timestamp(d)), ("datetime", d)):
                    try:
                        got = pd.Timestamp(f(x))
                    except Exception as e:
                        got = "%s: %s" % (type(e).__name__, e)
                    st.add("evaluations")
                    st.seen("nontrivial", (sorted(parts.items()), str(d), sign))
                    if got != want:
                        bad.append("%s: %s %s it is %s, expected %s" % (tag, x, "plus" if sign > 0 else "minus", got, want))
        return bad

    def trips(self, td, parts, tag, single, st):
        import featuretools as ft
        T = ft.Timedelta
        bad = []
        forms = [("dictionary", lambda: T.from_dictionary(td.get_arguments())), ("JSON", lambda: T.from_dictionary(json.loads(json.dumps(td.get_arguments()))))]
        v = list(parts.values())[0]
        if single and isinstance(v, int) and v >= 0:
            forms += [("name", lambda: T(td.get_name())), ("lower case name", lambda: T(td.get_name().lower()))]
        for n, f in forms:
            st.add("evaluations")
            try:
                back = f()
            except Exception as e:
                bad.append("%s: its %s cannot be read back: %s: %s" % (tag, n, type(e).__name__, e))
                continue
            if back != td or back.times != td.times or back.get_name() != td.get_name():
                bad.append("%s: read back from its %s it is %r, not %r" % (tag, n, back.times, td.times))
            elif "o" not in parts:
                bad += self.shifts(back, parts, tag + " read back from its " + n, st)
        return bad

    def run(self, case, st):
        import featuretools as ft
        import pandas as pd
        T = ft.Timedelta
        st.sample(case)
        bad = []
        if case["m"] == "one":
            u, v = case["u"], case["v"]
            ref = T(v, u)
            for name, make in spellings(v, u):
                try:
                    td = make()
                except Exception as e:
                    bad.append("%s is not understood: %s: %s" % (name, type(e).__name__, e))
                    continue
                st.add("evaluations")
                if td != ref or not (td == ref) or td.times != {u: v} or td.get_units() != [u] or td.get_value() != v or td.get_value(u) != v:
                    bad.append("%s means %r, expected %r" % (name, td.times, {u: v}))
                if td.is_absolute() != (u in FIXED) or td.has_no_observations() != (u != "o") or td.has_multiple_units():
                    bad.append("%s: wrong kind of span" % name)
                if td.get_name() != "%s %s" % (v, UNITS[u][1].capitalize()):
                    bad.append("%s is called %r" % (name, td.get_name()))
                if u == "o":
                    for f in (lambda: pd.Timestamp(DATES[0]) + td, lambda: pd.Timestamp(DATES[0]) - td):
                        try:
                            bad.append("%s: observations shifted a time to %s" % (name, f()))
                        except Exception:
                            pass
                else:
                    bad += self.shifts(td, {u: v}, name, st)
                    bad += self.shifts(-td, {u: -v}, "minus " + name, st)
                    if (-td).times != {u: -v} or -(-td) != td:
                        bad.append("%s: negated twice it is %r" % (name, (-(-td)).times))
                bad += self.trips(td, {u: v}, name, True, st)
                if bad:
                    return bad[:3]
            return []
        if case["m"] == "two":
            a, b = case["u"]
            for va, vb in itertools.product((1, 2, 13) if self.th else (1, 2), (1, 3, -1)):
                parts = {a: va, b: vb}
                for name, make in (("Timedelta(%r)" % parts, lambda: T(dict(parts))), ("long names of %r" % parts, lambda: T({UNITS[u][1]: v for u, v in parts.items()})),
                                   ("singular names of %r" % parts, lambda: T({UNITS[u][0].capitalize(): v for u, v in parts.items()})),
                                   ("from_dictionary(%r)" % parts, lambda: T.from_dictionary({"unit": list(parts), "value": list(parts.values())}))):
                    td = make()
                    if td.times != parts or td != T(dict(parts)) or not td.has_multiple_units():
                        bad.append("%s means %r" % (name, td.times))
                    bad += self.shifts(td, parts, name, st)
                    bad += self.shifts(-td, {u: -v for u, v in parts.items()}, "minus " + name, st)
                    bad += self.trips(td, parts, name, False, st)
                    words = td.get_name().lower().split()
                    if words[::2] != [str(v) for v in parts.values()] or [w.rstrip("s") for w in words[1::2]] != [UNITS[u][0] for u in parts]:
                        bad.append("%s is called %r" % (name, td.get_name()))
                    if bad:
                        return bad[:3]
            return []
        if case["m"] == "eq":
            spans = [{u: v} for u in UNITS for v in (0, 1, 2, 7, 60)] + [{a: x, b: y} for a, b in itertools.permutations(["h", "d", "mo", "Y", "m"], 2) for x, y in ((1, 1), (1, 2))]
            for p, q in itertools.product(spans, repeat=2):
                st.add("evaluations")
                x, y = T(dict(p)), T(dict(q))
                if (x == y) != (p == q) or (x != y) != (p != q):
                    bad.append("%r == %r is %r" % (p, q, x == y))
            for p in spans:
                for other in (None, "1 d", 1, pd.Timedelta("1d")):
                    if T(dict(p)) == other:
                        bad.append("%r equals %r" % (p, other))
            return bad[:3]
        if case["m"] == "offsets":
            from featuretools.utils.wrangle import _check_timedelta
            for off, parts in [(pd.Timedelta(v, u), {u: v}) for u in FIXED for v in (0, 1, 3, 1.5)] + [(pd.DateOffset(**{UNITS[u][1]: v}), {u: v}) for u in UNITS for v in (1, 2, 14) if u not in ("o", "ms")] + \
                    [(pd.DateOffset(months=1, days=2), {"mo": 1, "d": 2}), (pd.DateOffset(years=1, hours=3), {"Y": 1, "h": 3})]:
                td = _check_timedelta(off)
                bad += self.shifts(td, parts, repr(off), st)
                back = T.from_dictionary(td.get_arguments())
                bad += self.shifts(back, parts, "%r read back from its dictionary" % off, st)
                if back != td:
                    bad.append("%r read back from its dictionary is %r" % (off, back.times))
                if isinstance(off, pd.DateOffset) and td != T(dict(parts)):
                    bad.append("%r is %r" % (off, td.times))
            return bad[:3]
        return self.use(case["u"], st)

    def use(self, u, st):
        """the span selects the same rows however it is given"""
        import featuretools as ft
        import pandas as pd
        T = ft.Timedelta
        bad = []
        times = sorted({shift(d, {u: k}, s) + e for d in DATES for k in (0, 1, 2) for s in (1, -1) for e in (dtm.timedelta(0), dtm.timedelta(milliseconds=1), -dtm.timedelta(milliseconds=1))})
        es = ft.EntitySet("u")
        es.entity_from_dataframe("p", pd.DataFrame({"id": ["a"]}), index="id")
        es.entity_from_dataframe("k", pd.DataFrame({"id": range(len(times)), "p": ["a"] * len(times), "t": times}), index="id", time_index="t")
        es.add_relationship(ft.Relationship(es["p"]["id"], es["k"]["p"]))
        es.add_last_time_indexes()
        cut = pd.DataFrame({"instance_id": ["a"] * len(DATES), "time": DATES})
        for v in (1, 2):
            want = [sum(1 for t in times if shift(d, {u: v}, -1) <= t <= d) for d in DATES]      # the edge of use_previous belongs to it
            after = [sum(1 for t in times if shift(d, {u: v}, -1) < t <= d) for d in DATES]      # the edge of a training window does not
            forms = [f for f in spellings(v, u)][::1 if self.th else 3] + [("", lambda: T({u: v}))]
            fs = []
            for i, (name, make) in enumerate(forms):
                f = ft.Feature(es["k"]["id"], parent_entity=es["p"], use_previous=make(), primitive=ft.primitives.Count)
                fs.append(f.rename("f%d" % i))
            fs2 = [ft.Feature(es["k"]["id"], parent_entity=es["p"], use_previous=t, primitive=ft.primitives.Count).rename("g%d" % i) for i, t in enumerate(texts(v, u))]
            fm = ft.calculate_feature_matrix(fs + fs2, es, cut, cutoff_time_in_index=True)
            for c in fm:
                got = [int(x) for x in fm[c]]
                st.add("evaluations")
                st.seen("nontrivial", (u, v))
                if got != want:
                    bad.append("use_previous of %d %s (%s) counts %r, expected %r" % (v, u, c, got, want))
            whole = ft.Feature(es["k"]["id"], parent_entity=es["p"], primitive=ft.primitives.Count)
            for w in texts(v, u)[::1 if self.th else 4] + [T(v, u), T({UNITS[u][1]: v})]:
                fm = ft.calculate_feature_matrix([whole], es, cut, cutoff_time_in_index=True, training_window=w)
                got = [int(x) for x in fm[whole.get_name()]]
                st.add("evaluations")
                if got != after:
                    bad.append("training_window %r counts %r, expected %r" % (w, got, after))
            if bad:
                return bad[:3]
        return []


CHECK = P26()

"""Calling calculate_feature_matrix on a world and comparing every cell with the reference evaluator."""
from . import model
from .core import Problem


def cutoff_df(world, rows, idcol="instance_id", timecol="time", extra=None):
    import pandas as pd
    d = {idcol: [r[0] for r in rows], timecol: [world.time(r[1]) for r in rows]}
    if extra:
        d.update(extra)
    return pd.DataFrame(d)


def window_arg(world, ticks):
    import featuretools as ft
    if ticks is None:
        return None
    if world.time_kind == "num":
        return ft.Timedelta(ticks, "observations") if False else None
    sec = int(ticks * world.tick)
    if sec % 86400 == 0:
        return ft.Timedelta(sec // 86400, "d")
    if sec % 3600 == 0:
        return ft.Timedelta(sec // 3600, "h")
    return ft.Timedelta(sec, "s")


class Refs(object):
    def __init__(self, world, window=None, incl=True, lti=None):
        self.world, self.window, self.incl, self.lti, self.memo = world, window, incl, lti, {}

    def __call__(self, t):
        if t not in self.memo:
            self.memo[t] = model.Ref(self.world, t, self.window, self.incl, self.lti)
        return self.memo[t]


def check_calc(world, trees, rows, st, es=None, feats=None, window=None, incl=True, lti=False, key=None, label="", **kw):
    """rows: [(instance id, cutoff tick)], every pair distinct. Returns list of Problems."""
    import featuretools as ft
    es = es if es is not None else model.to_es(world, lti=lti)
    feats = feats if feats is not None else model.to_features(es, world, trees)
    lt = model.last_times(world) if lti else None
    refs = Refs(world, window, incl, lt)
    args = dict(kw)
    if window is not None:
        args["training_window"] = window_arg(world, window)
    if not incl:
        args["include_cutoff_time"] = False
    fm = ft.calculate_feature_matrix(feats, es, cutoff_time=cutoff_df(world, rows), cutoff_time_in_index=True, **args)
    got = [(model.norm(a), model.norm(b)) for a, b in fm.index]
    want = [(model.norm(r[0]), model.nref(model.Tick(r[1]), world)) for r in rows]
    if got != want:
        return [Problem("%s rows are not the requested ones: got %r..., expected %r..." % (label, got[:6], want[:6]), key)]
    cells = [(i, r[0], r[1]) for i, r in enumerate(rows)]
    bad = model.compare(world, refs, trees, feats, fm, cells, st, label)
    return [Problem(label + " " + b, key) for b in bad[:3]]

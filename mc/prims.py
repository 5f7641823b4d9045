"""Reference meaning of the primitives used in explored feature trees (from their documentation), over plain lists.

A primitive is named "name" or "name:param=value,..."; a missing value is None; times are Tick objects.
"""
import datetime
import math

_EPOCH = datetime.datetime(1970, 1, 1)
YEARS = {"years": 31540000, "months": 2628000, "days": 86400, "hours": 3600, "minutes": 60, "seconds": 1,
         "milliseconds": 0.001, "nanoseconds": 1e-9}


def parse(name):
    if ":" not in name:
        return name, {}
    n, rest = name.split(":", 1)
    kw = {}
    for part in rest.split(","):
        k, v = part.split("=", 1)
        if v in ("True", "False"):
            v = v == "True"
        else:
            try:
                v = int(v)
            except ValueError:
                try:
                    v = float(v)
                except ValueError:
                    pass
        kw[k] = v
    return n, kw


_CLASS = {"count": "Count", "sum": "Sum", "mean": "Mean", "min": "Min", "max": "Max", "mode": "Mode", "last": "Last", "first": "First",
          "num_unique": "NumUnique", "num_true": "NumTrue", "percent_true": "PercentTrue", "nmost": "NMostCommon", "avg_time": "AvgTimeBetween",
          "median": "Median", "std": "Std", "skew": "Skew", "any": "Any", "all": "All", "since_last": "TimeSinceLast",
          "since_first": "TimeSinceFirst", "trend": "Trend", "entropy": "Entropy",
          "negate": "Negate", "absolute": "Absolute", "is_null": "IsNull", "not": "Not", "add": "AddNumeric", "sub": "SubtractNumeric",
          "mul": "MultiplyNumeric", "div": "DivideNumeric", "gt": "GreaterThan", "ge": "GreaterThanEqualTo", "lt": "LessThan",
          "le": "LessThanEqualTo", "eq": "Equal", "ne": "NotEqual", "and": "And", "or": "Or", "mod": "ModuloNumeric",
          "gt_s": "GreaterThanScalar", "ge_s": "GreaterThanEqualToScalar", "lt_s": "LessThanScalar", "le_s": "LessThanEqualToScalar",
          "eq_s": "EqualScalar", "ne_s": "NotEqualScalar", "add_s": "AddNumericScalar", "mul_s": "MultiplyNumericScalar",
          "cum_sum": "CumSum", "cum_count": "CumCount", "cum_mean": "CumMean", "cum_min": "CumMin", "cum_max": "CumMax", "diff": "Diff",
          "percentile": "Percentile", "since_prev": "TimeSincePrevious", "time_since": "TimeSince", "day": "Day", "hour": "Hour",
          "weekday": "Weekday", "month": "Month", "year": "Year"}
_cache = {}


def build(fp, name):
    n, kw = parse(name)
    if n in CUSTOM:
        return custom(n)
    cls = getattr(fp, _CLASS[n])
    return cls(**kw) if kw else cls


def custom(n):
    """user-defined primitives (the public extension interface)"""
    if n in _cache:
        return _cache[n]
    from featuretools.primitives import AggregationPrimitive, TransformPrimitive
    from featuretools.variable_types import Numeric, Discrete

    if n == "minmax":
        class MinMax(AggregationPrimitive):
            name = "minmax"
            input_types = [Numeric]
            return_type = Numeric
            number_output_features = 2

            def get_function(self, agg_type=None):
                def minmax(x):
                    return [x.min(), x.max()]
                return minmax
        r = MinMax
    elif n == "wsum":
        class WSum(AggregationPrimitive):
            name = "wsum"
            input_types = [Numeric, Numeric]
            return_type = Numeric

            def get_function(self, agg_type=None):
                def wsum(x, y):
                    return (x * y).sum()
                return wsum
        r = WSum
    elif n == "pair":
        class Pair(TransformPrimitive):
            name = "pair"
            input_types = [Numeric]
            return_type = Numeric
            number_output_features = 2

            def get_function(self):
                def pair(x):
                    return [x * 2, x + 1]
                return pair
        r = Pair
    elif n == "cumpair":
        class CumPair(TransformPrimitive):
            name = "cumpair"
            input_types = [Numeric]
            return_type = Numeric
            uses_full_entity = True
            number_output_features = 2

            def get_function(self):
                def cumpair(x):
                    return [x.cumsum(), x.cummax()]
                return cumpair
        r = CumPair
    elif n == "dfl7":
        class SumDefault7(AggregationPrimitive):
            name = "sum_default_7"
            input_types = [Numeric]
            return_type = Numeric
            default_value = 7

            def get_function(self, agg_type=None):
                def sum7(x):
                    return x.sum()
                return sum7
        r = SumDefault7
    _cache[n] = r
    return r


CUSTOM = {"minmax", "wsum", "pair", "cumpair", "dfl7"}


def n_out(name):
    n, kw = parse(name)
    if n == "nmost":
        return kw.get("n", 3)
    return {"minmax": 2, "pair": 2, "cumpair": 2}.get(n, 1)


def default(name):
    n, _ = parse(name)
    return {"count": 0, "sum": 0, "num_true": 0, "percent_true": 0, "dfl7": 7}.get(n)


def full(name):
    return parse(name)[0] in FULL


FULL = {"cum_sum", "cum_count", "cum_mean", "cum_min", "cum_max", "diff", "percentile", "since_prev", "cumpair"}


def _nn(xs):
    return [x for x in xs if x is not None]


def _sec(a, w):
    """tick difference -> seconds"""
    return a * w.tick


def agg(name, args, t, w):
    n, kw = parse(name)
    x = args[0]
    v = _nn(x)
    if n == "count":
        return len(v)
    if n in ("sum", "dfl7"):
        return sum(v)
    if n == "mean":
        if kw.get("skipna", True):
            return sum(v) / len(v) if v else None
        return sum(v) / len(v) if v and len(v) == len(x) else None
    if n == "min":
        return min(v) if v else None
    if n == "max":
        return max(v) if v else None
    if n == "mode":
        if not v:
            return None
        best = max(v.count(y) for y in v)
        return min(y for y in v if v.count(y) == best)
    if n == "num_unique":
        return len(set(v))
    if n == "num_true":
        return sum(1 for y in v if y)
    if n == "percent_true":
        return sum(1 for y in v if y) / float(len(x))
    if n == "last":
        return x[-1]
    if n == "first":
        return x[0]
    if n == "median":
        if not v:
            return None
        s = sorted(v)
        k = len(s)
        return s[k // 2] if k % 2 else (s[k // 2 - 1] + s[k // 2]) / 2.0
    if n == "std":
        # what the library computes for grouped data; its documentation shows the population value (P28 reports that)
        if len(v) < 2:
            return None
        m = sum(v) / float(len(v))
        return math.sqrt(sum((y - m) ** 2 for y in v) / (len(v) - 1.0))
    if n == "any":
        return any(bool(y) for y in v)
    if n == "all":
        return all(bool(y) for y in v)
    if n == "nmost":
        # ties are kept out of explored worlds where their order matters; first occurrence wins here
        k = kw.get("n", 3)
        vals = []
        for y in v:
            if y not in vals:
                vals.append(y)
        vals.sort(key=lambda y: (-v.count(y), v.index(y)))
        vals = vals[:k]
        return tuple(vals + [None] * (k - len(vals)))
    if n == "avg_time":
        s = [y.k for y in v]
        if len(s) < 2:
            return None
        return _sec(max(s) - min(s), w) / float(len(s) - 1) / YEARS[kw.get("unit", "seconds")]
    if n == "since_last":
        return None if x[-1] is None else _sec(t - x[-1].k, w) / YEARS[kw.get("unit", "seconds")]
    if n == "since_first":
        return None if x[0] is None else _sec(t - x[0].k, w) / YEARS[kw.get("unit", "seconds")]
    if n == "minmax":
        return (min(v), max(v)) if v else (None, None)
    if n == "wsum":
        return sum(a * b for a, b in zip(args[0], args[1]) if a is not None and b is not None)
    if n == "trend":
        pts = [(b.k, a) for a, b in zip(args[0], args[1]) if a is not None and b is not None]
        if len(pts) <= 2:
            return None
        mx = sum(p[0] for p in pts) / float(len(pts))
        my = sum(p[1] for p in pts) / float(len(pts))
        sxx = sum((p[0] - mx) ** 2 for p in pts)
        if sxx == 0:
            return 0
        slope = sum((p[0] - mx) * (p[1] - my) for p in pts) / sxx          # per tick
        # convention of the library: the unit of time is the coarsest one that divides the first time stamp
        from . import model
        first = int((model.BASE - _EPOCH).total_seconds()) + pts[0][0] * w.tick
        unit = next((u for u in (86400, 3600, 60) if first % u == 0), 1)
        return slope / w.tick * unit
    raise ValueError(n)


def _ew(fn):
    def g(args):
        return [fn(*xs) for xs in zip(*args)]
    return g


def _arith(fn):
    return _ew(lambda a, b: None if a is None or b is None else fn(a, b))


def _cmp(fn, empty=False):
    return _ew(lambda a, b: empty if a is None or b is None else fn(_k(a), _k(b)))


def _k(a):
    return a.k if hasattr(a, "k") else a


def tr(name, args, t, w):
    n, kw = parse(name)
    x = args[0]
    val = kw.get("value")
    if n == "negate":
        return [None if y is None else -y for y in x]
    if n == "absolute":
        return [None if y is None else abs(y) for y in x]
    if n == "is_null":
        return [y is None for y in x]
    if n == "not":
        return [None if y is None else (not y) for y in x]
    if n == "add":
        return _arith(lambda a, b: a + b)(args)
    if n == "sub":
        return _arith(lambda a, b: a - b)(args)
    if n == "mul":
        return _arith(lambda a, b: a * b)(args)
    if n == "div":
        def d(a, b):
            if b == 0:
                return None if a == 0 else math.copysign(float("inf"), a)
            return a / float(b)
        return _arith(d)(args)
    if n == "gt":
        return _cmp(lambda a, b: a > b)(args)
    if n == "ge":
        return _cmp(lambda a, b: a >= b)(args)
    if n == "lt":
        return _cmp(lambda a, b: a < b)(args)
    if n == "le":
        return _cmp(lambda a, b: a <= b)(args)
    if n == "eq":
        return _cmp(lambda a, b: a == b)(args)
    if n == "ne":
        return _cmp(lambda a, b: a != b, True)(args)
    if n == "and":
        return [bool(a) and bool(b) for a, b in zip(*args)]
    if n == "or":
        return [bool(a) or bool(b) for a, b in zip(*args)]
    if n == "gt_s":
        return [y is not None and y > val for y in x]
    if n == "ge_s":
        return [y is not None and y >= val for y in x]
    if n == "lt_s":
        return [y is not None and y < val for y in x]
    if n == "le_s":
        return [y is not None and y <= val for y in x]
    if n == "eq_s":
        return [y is not None and y == val for y in x]
    if n == "ne_s":
        return [y is None or y != val for y in x]
    if n == "add_s":
        return [None if y is None else y + val for y in x]
    if n == "mul_s":
        return [None if y is None else y * val for y in x]
    if n == "pair":
        return [(None, None) if y is None else (y * 2, y + 1) for y in x]
    if n == "cum_count":
        return list(range(1, len(x) + 1))
    if n in ("cum_sum", "cum_min", "cum_max", "cum_mean", "cumpair"):
        out, acc, mx, mn = [], 0, None, None
        for i, y in enumerate(x):
            if y is None:
                out.append((None, None) if n == "cumpair" else None)
                continue
            acc += y
            mx = y if mx is None else max(mx, y)
            mn = y if mn is None else min(mn, y)
            out.append({"cum_sum": acc, "cum_min": mn, "cum_max": mx, "cum_mean": acc / float(i + 1), "cumpair": (acc, mx)}[n])
        return out
    if n == "diff":
        return [None] + [None if a is None or b is None else b - a for a, b in zip(x, x[1:])] if x else []
    if n == "since_prev":
        u = YEARS[kw.get("unit", "seconds")]
        return [None] + [None if a is None or b is None else _sec(b.k - a.k, w) / u for a, b in zip(x, x[1:])] if x else []
    if n == "percentile":
        v = _nn(x)
        k = float(len(v))
        out = []
        for y in x:
            if y is None:
                out.append(None)
            else:
                less = sum(1 for z in v if z < y)
                same = sum(1 for z in v if z == y)
                out.append((less + (same + 1) / 2.0) / k)
        return out
    if n == "time_since":
        u = YEARS[kw.get("unit", "seconds")]
        return [None if y is None else _sec(t - y.k, w) / u for y in x]
    if n in ("day", "hour", "weekday", "month", "year"):
        from . import model

        def g(y):
            d = model.BASE + datetime.timedelta(seconds=y.k * w.tick)
            return {"day": d.day, "hour": d.hour, "weekday": d.weekday(), "month": d.month, "year": d.year}[n]
        return [None if y is None else g(y) for y in x]
    raise ValueError(n)

"""Bounded spaces of relational worlds, packed: many independent root instances share one entity set.

A scenario describes one root instance: (root tick, [child, ...]), child = (tick, value, [grandchild, ...]),
grandchild = (tick, value).  A third entry of a scenario and a fourth of a child set the extra date column `d`.  Everything else (ids, weights, categories, flags) is derived from position and value, so a
list of scenarios determines a world.  `w` is a distinct power of two per row below a root: a sum over `w` identifies
the exact set of rows that were used.
"""
import itertools

from .model import Table, World


def seqs(symbols, lo, hi):
    for n in range(lo, hi + 1):
        for s in itertools.product(symbols, repeat=n):
            yield s


def permute(rows, order):
    if order == "asc":
        return rows
    if order == "desc":
        return rows[::-1]
    if order == "mix":          # odd positions first, then even ones backwards
        return rows[1::2] + rows[0::2][::-1]
    raise ValueError(order)


CATS = {None: None, 0: "a", 1: "b", 2: "c", 3: "d", -1: "e"}


def row(d, tick, x, pos):
    d.update(t=tick, x=x, w=2 ** (pos % 50), y=(pos * 7) % 5 - 2, c=CATS.get(x, "z"),
             b=None if x is None else x in (1, 3), f=(pos % 3 != 1), d=None if tick is None else (tick * 5 + pos * 3) % 11)
    return d


COLS = [("t", "time"), ("x", "num"), ("w", "num"), ("y", "num"), ("c", "cat"), ("b", "bool"), ("f", "bool"), ("d", "dt")]


def tree_world(scens, depth=2, order="asc", idk="str", ti=("C", "G"), dangling=True, time_kind="dt", tick=3600, secondary=None,
               bool_missing=False):
    """R <- C [<- G]"""
    def rid(i):
        return i + 1 if idk == "int" else "r%04d" % i

    def cid(i):
        return 5000 + i if idk == "int" else "c%05d" % i

    def gid(i):
        return 90000 + i if idk == "int" else "g%05d" % i
    R, C, G = [], [], []
    for i, (rt, kids, *more) in enumerate(scens):
        R.append(row({"id": rid(i)}, rt, (i % 3), i))
        if more:
            R[-1]["d"] = more[0]
        n = m = 0
        for (ct, cx, *rest) in kids:
            me = cid(len(C))
            C.append(row({"id": me, "r_id": rid(i)}, ct, cx, n))
            if len(rest) > 1:
                C[-1]["d"] = rest[1]
            n += 1
            for (gt, gx) in (rest[0] if rest else ()):
                G.append(row({"id": gid(len(G)), "c_id": me}, gt, gx, m))
                m += 1
    if dangling:
        unknown = 4999 if idk == "int" else "r9999"
        C.append(row({"id": cid(len(C)), "r_id": 4998 if idk == "int" else None}, 0, 1, 0))
        C.append(row({"id": cid(len(C)), "r_id": unknown}, 0, 2, 1))
        if depth == 3:
            G.append(row({"id": gid(len(G)), "c_id": 89998 if idk == "int" else None}, 0, 1, 0))
            G.append(row({"id": gid(len(G)), "c_id": 89999 if idk == "int" else "c99999"}, 0, 2, 1))
    k = {n: "iid" if idk == "int" else "cid" + n if idk == "cat" else "id" for n in "RCG"}
    cols = [(n, "time" if n == "d" and secondary and time_kind == "num" else kk) for n, kk in COLS]
    if not bool_missing:
        for rows in (R, C, G):
            for r in rows:
                if r["b"] is None:
                    r["b"] = False
    sec = secondary or {}
    tables = [Table("R", "id", [("id", k["R"])] + cols, permute(R, order), "t" if "R" in ti else None, sec.get("R")),
              Table("C", "id", [("id", k["C"]), ("r_id", k["R"])] + cols, permute(C, order), "t" if "C" in ti else None, sec.get("C"))]
    rels = [("R", "C", "r_id")]
    if depth == 3:
        tables.append(Table("G", "id", [("id", k["G"]), ("c_id", k["C"])] + cols, permute(G, order), "t" if "G" in ti else None, sec.get("G")))
        rels.append(("C", "G", "c_id"))
    w = World(tables, rels, time_kind, tick)
    if idk == "cat":
        # the ids of a table are categories, some of them without a row, in the order that sorting rows by id uses
        w.cats = {"cidR": ["r9999", "nobody"] + sorted(r["id"] for r in R),
                  "cidC": sorted(r["id"] for r in C) + ["c99999", "nobody"], "cidG": ["nobody"] + sorted(r["id"] for r in G)}
    return w


def multi_world(blocks, shape, order="asc", ti=("G",), time_kind="dt", tick=3600):
    """blocks of two roots each, G rows linking to one or the other in two ways.

    shape "diamond": R <- A <- G and R <- B <- G (one A and one B per root)
    shape "double":  R <- G twice (g.p_id, g.q_id)
    shape "direct":  R <- G (g.p_id) and R <- A <- G (g.q_id -> A)
    shape "under":  R <- A <- G twice (g.p_id, g.q_id -> A)
    shape "over":   R <- A twice (a.r_id, a.s_id), A <- G (g.p_id)
    block: sequence of G rows (p, q, tick) with p, q in {0, 1, None}: which root of the block the row belongs to
    """
    R, A, B, G = [], [], [], []
    for i, block in enumerate(blocks):
        for j in (0, 1):
            R.append(row({"id": "r%04d%d" % (i, j)}, 0, j, 2 * i + j))
            A.append(row({"id": "a%04d%d" % (i, j), "r_id": "r%04d%d" % (i, j)}, 1 - j, j, j))
            if shape == "over":
                A[-1]["s_id"] = "r%04d1" % i
            B.append(row({"id": "b%04d%d" % (i, j), "r_id": "r%04d%d" % (i, j)}, j, j, j))
        for n, (p, q, tk) in enumerate(block):
            pre = {"diamond": ("a", "b"), "double": ("r", "r"), "direct": ("r", "a"), "under": ("a", "a"), "over": ("a", "a")}[shape]
            G.append(row({"id": "g%05d" % len(G),
                          "p_id": None if p is None else "%s%04d%d" % (pre[0], i, p),
                          "q_id": None if q is None else "%s%04d%d" % (pre[1], i, q)}, tk, (n + (p or 0)) % 3, n))
    T = {"R": Table("R", "id", [("id", "id")] + COLS, permute(R, order), "t" if "R" in ti else None),
         "A": Table("A", "id", [("id", "id"), ("r_id", "id")] + ([("s_id", "id")] if shape == "over" else []) + COLS, permute(A, order), "t" if "A" in ti else None),
         "B": Table("B", "id", [("id", "id"), ("r_id", "id")] + COLS, permute(B, order), "t" if "B" in ti else None),
         "G": Table("G", "id", [("id", "id"), ("p_id", "id"), ("q_id", "id")] + COLS, permute(G, order), "t" if "G" in ti else None)}
    for t in T.values():
        for r in t.rows:
            if r["b"] is None:
                r["b"] = False
    if shape == "diamond":
        return World([T["R"], T["A"], T["B"], T["G"]],
                     [("R", "A", "r_id"), ("R", "B", "r_id"), ("A", "G", "p_id"), ("B", "G", "q_id")], time_kind, tick)
    if shape == "double":
        return World([T["R"], T["G"]], [("R", "G", "p_id"), ("R", "G", "q_id")], time_kind, tick)
    if shape == "under":
        return World([T["R"], T["A"], T["G"]], [("R", "A", "r_id"), ("A", "G", "p_id"), ("A", "G", "q_id")], time_kind, tick)
    if shape == "over":
        return World([T["R"], T["A"], T["G"]], [("R", "A", "r_id"), ("R", "A", "s_id"), ("A", "G", "p_id")], time_kind, tick)
    return World([T["R"], T["A"], T["G"]], [("R", "A", "r_id"), ("R", "G", "p_id"), ("A", "G", "q_id")], time_kind, tick)


def chunks(it, n):
    it = iter(it)
    while True:
        b = list(itertools.islice(it, n))
        if not b:
            return
        yield b

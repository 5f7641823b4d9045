"""P16: operation sequences with metadata reads interleaved at every position; every read must describe the entity set as it is."""
import copy

from .. import esops
from ..core import Check, Problem
from .p15 import apply

# operations that alter what metadata tells
OPS = ("add:visit", "add:store", "add:cust", "add:tx", "add:ev", "add:grp", "rel:cust-tx", "rel:cust-visit", "rel:grp-ev", "rel:bad_dtype", "norm:kind", "norm:kind_s", "norm:code", "norm:name", "norm:cid",
       "norm:k", "norm:un", "norm:bad_key", "update:tx:add", "update:ev:dup", "update:tx:dup", "conv:kind", "conv:score", "conv:un", "conv:name", "del:flag", "del:amt", "del:d", "del:name", "del:g", "del:w",
       "del:none", "ti:since", "ti:d", "ti:un", "sti:since", "sti:none", "sti:un", "concat", "concat_in", "lti", "iv", "setiv", "desc", "add_bad:dup")
CORE = ("rel:cust-tx", "norm:kind", "norm:k", "conv:score", "del:d", "del:g", "ti:d", "ti:un", "sti:since", "concat", "concat_in", "iv", "setiv", "desc")
FIRST = ("norm:kind", "norm:k", "conv:score", "del:g", "ti:d", "concat_in", "setiv")


def diff(a, b):
    if a["rels"] != b["rels"]:
        return "relationships %r, metadata has %r" % (a["rels"], b["rels"])
    if set(a["ents"]) != set(b["ents"]):
        return "entities %r, metadata has %r" % (sorted(a["ents"]), sorted(b["ents"]))
    for k, e in a["ents"].items():
        for f in e:
            if e[f] != b["ents"][k][f]:
                return "%s of %s: %r, metadata has %r" % (f, k, e[f], b["ents"][k][f])
    return None


class P16(Check):
    id = "P16"
    level = "model_checking"
    technique = "explicit-state search over operation sequences with metadata reads interleaved at every position; the metadata of every state compared with the entity set itself"
    rule = ("all sequences of operations from 5 initial entity sets, metadata read or not read before each, to depth 2 with the whole menu (about 45 operations) and deeper, read at every position, with a core menu; "
            "a state is the entity set together with whether metadata was read since; in every state the metadata is read from a copy and compared with the entity set")
    assumptions = ("names of variables and the data itself are no part of the metadata compared",)

    def prepare(self, tier):
        self.th = tier == "thorough"

    def cases(self, tier):
        for init in ("A", "AR", "N", "NG", "0"):
            for n in esops.menu(init):
                if n in OPS:
                    yield {"init": init, "first": n}

    def look(self, es, tag, st):
        st.add("reads")
        d = diff(esops.meta_view(es), esops.meta_view(es.metadata))
        return ["%s: %s" % (tag, d)] if d else []

    def run(self, case, st):
        m = {k: v for k, v in esops.menu(case["init"]).items() if k in OPS}
        st.sample(case)
        seen = set()

        def extend(nodes, name):
            """successors of a state by one operation; the state is given as (entity set, trace, metadata read before?), once unread and once just read"""
            out = []
            for es, tag, read in nodes:
                before = esops.snap(es)
                if not m[name][0](before):
                    continue
                nxt = copy.deepcopy(es)
                t = tag + (" > read" if read else "") + " > " + name
                nxt, err = apply(nxt, m[name])
                st.add("transitions")
                st.add("traces")
                after = esops.snap(nxt)
                told = copy.deepcopy(nxt)
                d = self.look(told, t, st)
                if d:
                    return d, []
                key = repr((after, read))
                if key in seen:
                    continue
                seen.add(key)
                st.seen("states", key)
                out.append([(nxt, t, read), (told, t, True)])
            return [], out
        es = esops.initial(case["init"])
        told = copy.deepcopy(es)
        bad = self.look(told, case["init"], st)
        if bad:
            return bad
        bad, front = extend([(es, case["init"], False), (told, case["init"], True)], case["first"])
        if bad:
            return bad
        for depth in range(2, (4 if self.th else 3) + 1):
            if depth > 2 and (case["first"] not in CORE or (not self.th and (case["init"] not in ("A", "NG") or case["first"] not in FIRST))):
                break
            use = [n for n in m if depth == 2 or n in CORE]
            nxt = []
            for nodes in front:
                for n in use:
                    # beyond depth 2 metadata is read at every position
                    bad, more = extend(nodes if depth == 2 else nodes[1:], n)
                    if bad:
                        return bad
                    nxt += more
            front = nxt
        return []


CHECK = P16()

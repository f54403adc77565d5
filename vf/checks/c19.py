"""Incentive criteria match their graphical definitions."""
import pycid

from vf import oracle, paths, reduced
from vf.build import skeleton
from vf.core import expect_raises, require
from vf.gen import gen_graph
from vf.worker import Part

ASSUMPTIONS = [
    "With several decisions, value of information is the criterion on the requisite graph: the added observation link "
    "is not removed.",
    "Indirect value of control conditions on the decision and all its original observations, as in the published "
    "criterion, and uses one utility for the path through the decision and for the back-door path.",
]


def gen(src):
    kind = src.int(0, 9)
    cls = "CID" if kind < 8 else ("MACIDBase" if kind == 8 else "MACID")
    return gen_graph(src, cls=cls, max_nodes=8, n_agents=(1, 1) if kind == 8 else (2, 2), n_decisions=(1, 3),
                     n_utilities=src.pick([(1, 3), (1, 3), (3, 5)]), recall=src.bool(2, 3))


def criteria(spec):
    """the expected answers {(function, args): bool} of a diagram with one agent and sufficient recall"""
    nodes, parents = spec["nodes"], spec["parents"]
    decs, utils = oracle.all_decisions(spec), oracle.all_utilities(spec)
    req = reduced.requisite_graph(spec)
    below = {v: oracle.descendants(nodes, req, v) for v in nodes}
    res = {}
    for v in nodes:
        voc = v not in decs and any(u == v or u in below[v] for u in utils)
        res["admits_voc", v] = voc
        res["admits_dir_voc", v] = voc and any(
            not set(p) & set(decs) for u in utils for p in paths.directed_paths(nodes, req, v, u))
        for d in decs:
            if v == d or v in oracle.descendants(nodes, parents, d):
                res["admits_voi", d, v] = False
            else:
                ext = {x: list(p) for x, p in parents.items()}
                if v not in ext[d]:
                    ext[d].append(v)
                res["admits_voi", d, v] = v in reduced.requisite_graph(spec, ext)[d]
            res["admits_ri", d, v] = v != d and d in below[v]
            res["admits_ici", d, v] = any(
                v in p for u in utils for p in paths.directed_paths(nodes, parents, d, u))
            given = {x for x in [d] + parents[d] if x != v}
            indirect = False
            for u in utils:
                through = any(d in p for p in paths.directed_paths(nodes, req, v, u))
                if voc and through and any(
                        p[1] in req[p[0]] and paths.is_active(nodes, req, p, given)
                        for p in paths.undirected_paths(nodes, req, v, u) if len(p) > 1):
                    indirect = True
            res["admits_indir_voc", d, v] = indirect
    return res


LISTS = {
    "admits_voi": "admits_voi_list", "admits_voc": "admits_voc_list", "admits_dir_voc": "admits_dir_voc_list",
    "admits_indir_voc": "admits_indir_voc_list", "admits_ri": "admits_ri_list", "admits_ici": "admits_ici_list",
}
NEEDS_RECALL = ("admits_voi", "admits_voc", "admits_dir_voc", "admits_indir_voc", "admits_ri")


def check(spec, note):
    nodes = spec["nodes"]
    m = skeleton(spec)
    decs = oracle.all_decisions(spec)
    if len(spec["utilities"]) > 1:
        for name in LISTS:
            args = (nodes[0],) if name in ("admits_voc", "admits_dir_voc") else (decs[0], nodes[0])
            expect_raises(ValueError, lambda: getattr(pycid, name)(m, *args), "%s with several agents", name)
        note.hit("several agents rejected")
        return
    d = decs[0]
    for name in LISTS:
        f = getattr(pycid, name)
        if name in ("admits_voc", "admits_dir_voc"):
            expect_raises(KeyError, lambda: f(m, "no such node"), "%s of an unknown node", name)
        else:
            expect_raises(KeyError, lambda: f(m, d, "no such node"), "%s of an unknown node", name)
            expect_raises(KeyError, lambda: f(m, "no such node", nodes[0]), "%s of an unknown decision", name)
    recall = oracle.sufficient_recall(spec)
    expected = criteria(spec)
    for (name, *args), value in expected.items():
        f = getattr(pycid, name)
        if not recall and name in NEEDS_RECALL:
            expect_raises(ValueError, lambda: f(m, *args), "%s without sufficient recall", name)
            note.hit("insufficient recall rejected")
            continue
        got = f(m, *args)
        require(bool(got) == bool(value), "%s(%s) is %r, the criterion says %r", name, ", ".join(args), got, value)
        if value:
            note.hit(name)
    for name, list_name in LISTS.items():
        if not recall and name in NEEDS_RECALL:
            continue
        f = getattr(pycid, list_name)
        for group in ([()] if name in ("admits_voc", "admits_dir_voc") else [(x,) for x in decs]):
            want = sorted(v for v in nodes if expected[(name,) + group + (v,)])
            got = f(m, *group)
            require(sorted(got) == want, "%s(%s): %r, expected %r", list_name, ", ".join(group), sorted(got), want)


PARTS = [
    Part("criteria", gen, check, 3200, 80000,
         "random diagrams with 2-8 nodes and 1-3 decisions, all nodes and decisions; non-trivial = some incentive is "
         "admitted or a rejection was required"),
]

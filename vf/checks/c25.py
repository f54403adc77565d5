"""Answers follow the present content of a model, whatever was asked and changed before."""
import warnings

import networkx as nx
import pycid
from pgmpy.factors.base import BaseFactor
from pycid.core import get_paths
from pycid.core.causal_bayesian_network import CausalBayesianNetwork

from vf import ops, oracle
from vf.build import OBJECT_KINDS, build, relationship, skeleton
from vf.checks.c02 import reseed, small
from vf.checks.c23 import FREE, GRAPHICAL, NO_RECALL, SOLVERS, answer, exact, no_rounding
from vf.core import CaseTimeout, require
from vf.gen import BIG, gen_cbn, gen_graph, gen_macid, gen_row
from vf.worker import Part

ASSUMPTIONS = [
    "Orders of collections do not count, and where one of several answers is chosen only its value is compared.",
    "Models of 2-9 nodes; at most 8 changes, with up to 3 questions before each.",
    "Relationships that are functions of the parents are given anew when the parents change.",
]
EXTRA = "Extra"


# ---- structures -----------------------------------------------------------------------------------------------------


def gen_structure(src):
    cls = src.pick(["CID", "CID", "MACID", "MACID", "MACIDBase"])
    spec = gen_graph(src, cls=cls, max_nodes=src.pick([5, 7, 9]), n_agents=(1, 3), n_decisions=(1, 4), big=BIG)
    spec["dom"] = {v: [0, 1] for v in spec["nodes"]}
    names = [o for o in ops.OF_CLASS[cls] if o not in FREE and o in GRAPHICAL]
    spec["ops"] = [ops.gen_op(src, spec, names) for _ in range(src.int(1, 5))]
    edges = [tuple(e) for e in spec["edges"]]
    nodes = list(spec["nodes"])
    roles = {v: role_of(spec, v) for v in nodes}
    labels = list(spec["decisions"])
    steps = []
    for _ in range(src.int(1, 6)):  # backwards: edges, nodes and roles become those of the model before the step
        kind = src.pick(["extra edge", "missing edge", "move edge", "role", "swap roles", "extra node", "copy"])
        step = None
        if kind in ("missing edge", "move edge") and edges:
            e = src.pick(edges)
            edges.remove(e)
            step = [["add_edge", *e]]
        if kind in ("extra edge", "move edge"):
            free = [(a, b) for a in nodes for b in nodes if a != b and (a, b) not in edges]
            free = [e for e in src.sample(free, min(3, len(free))) if oracle.is_acyclic(nodes, set(edges) | {e})]
            if free:
                edges.append(free[0])
                step = [["remove_edge", *free[0]]] + (step or [])
        if kind == "role":
            v = src.pick(nodes)
            if v != EXTRA:
                step = [["role", v, roles[v]]]
                roles[v] = src.pick([["C"]] + [[r, a] for r in "DU" for a in labels])
        if kind == "swap roles" and len(nodes) > 1:
            v, w = src.sample([n for n in nodes if n != EXTRA] + [nodes[0]], 2)
            if v != w:
                step = [["role", v, roles[v]], ["role", w, roles[w]]]
                roles[v], roles[w] = roles[w], roles[v]
        if kind == "extra node" and EXTRA not in nodes:
            nodes.append(EXTRA)
            roles[EXTRA] = src.pick([["C"], ["C"], ["D", labels[0]], ["U", labels[0]]])
            for v in src.sample(nodes[:-1], src.int(0, 2)):
                edges.append((EXTRA, v))
            for v in src.sample(nodes[:-1], src.int(0, 2)):
                if (EXTRA, v) not in edges and oracle.is_acyclic(nodes, set(edges) | {(v, EXTRA)}):
                    edges.append((v, EXTRA))
            step = [["remove_node", EXTRA]]
        if kind == "copy":
            step = [["copy"]]
        if step:
            steps.append([questions(src, len(spec["ops"])), step])
    steps.reverse()
    spec["start"] = {"edges": [list(e) for e in edges], "nodes": nodes, "roles": roles}
    spec["steps"] = steps
    spec["spoil"] = src.bool()
    return spec


def questions(src, n):
    return list(range(n)) if src.bool() else src.sample(range(n), src.int(0, min(3, n)))


def role_of(spec, v):
    for key, r in (("decisions", "D"), ("utilities", "U")):
        for a, x in spec[key].items():
            if v in x:
                return [r, a]
    return ["C"]


def with_roles(spec, nodes, edges, roles):
    res = dict(spec, nodes=list(nodes), edges=[list(e) for e in edges])
    for key, r in (("decisions", "D"), ("utilities", "U")):
        res[key] = {a: [v for v in nodes if roles[v] == [r, a]] for a in spec["decisions"]}
    res["isolated"] = [v for v in nodes if not any(v in e for e in edges)]
    return res


def change(model, step):
    kind = step[0]
    if kind == "copy":
        return model.copy()
    if kind == "role":
        v, role = step[1:]
        if role[0] == "C":
            model.make_chance(v)
        else:
            getattr(model, "make_decision" if role[0] == "D" else "make_utility")(v, role[1])
    else:
        getattr(model, kind)(*step[1:])
    return model


def ask(model, op, args, spoil):
    """ask, and possibly do something with the answer"""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            reseed()
            res = RAW.get(op, ops.OPS[op])(model, *[ops.copy_arg(a) for a in args])
            if spoil and res is not model:
                ruin(res)
        except CaseTimeout:
            raise
        except (ValueError, KeyError, RuntimeError, IndexError, AttributeError, TypeError, AssertionError,
                nx.NetworkXError):
            pass


# the answers themselves, of questions whose answers are put in order elsewhere
RAW = {
    "get_valid_order": lambda m, vs: m.get_valid_order(vs),
    "decs_in_each_maid_subgame": lambda m: m.decs_in_each_maid_subgame(),
    "CondensedRelevanceGraph": lambda m: pycid.CondensedRelevanceGraph(m),
    "find_all_dir_paths": lambda m, a, b: list(get_paths.find_all_dir_paths(m, a, b)),
    "find_all_undir_paths": lambda m, a, b: list(get_paths.find_all_undir_paths(m, a, b)),
    "find_active_path": lambda m, a, b, o: get_paths.find_active_path(m, a, b, o),
    "admits_voi_list": lambda m, d: pycid.admits_voi_list(m, d),
    "admits_voc_list": lambda m: pycid.admits_voc_list(m),
    "admits_dir_voc_list": lambda m: pycid.admits_dir_voc_list(m),
    "admits_indir_voc_list": lambda m, d: pycid.admits_indir_voc_list(m, d),
    "admits_ri_list": lambda m, d: pycid.admits_ri_list(m, d),
    "admits_ici_list": lambda m, d: pycid.admits_ici_list(m, d),
    "get_reasoning_patterns": lambda m: pycid.get_reasoning_patterns(m),
}


def ruin(res):
    if isinstance(res, (list, dict, set)):
        for x in list(res.values() if isinstance(res, dict) else res):
            if isinstance(x, (list, dict, set)):
                x.clear()
            elif isinstance(x, tuple):
                for c in x:
                    ruin(c)
            elif isinstance(x, BaseFactor):
                ruin(x)
        res.clear()
    elif isinstance(res, CausalBayesianNetwork):
        for v in list(res.nodes)[:2]:
            res.remove_node(v)
    elif isinstance(res, nx.Graph):
        res.remove_nodes_from(list(res.nodes))
    elif isinstance(res, BaseFactor):
        res.values[...] = 0


def check_structure(spec, note):
    start = spec["start"]
    model = skeleton(with_roles(spec, start["nodes"], start["edges"], start["roles"]))
    for questions, step in spec["steps"]:
        for i in questions:
            ask(model, *spec["ops"][i], spoil=spec["spoil"])
        for s in step:
            model = change(model, s)
    compare(spec, model, skeleton(spec), note, [s[0] for _, step in spec["steps"] for s in step])


def compare(spec, model, fresh, note, kinds):
    trivial = any(len(spec["dom"][d]) == 1 for d in oracle.all_decisions(spec))
    asked = {i for questions, _ in spec["steps"] for i in questions}
    inv = {}
    for i, (op, args) in enumerate(spec["ops"]):
        if "cpd" in spec and op in ops.HEAVY_OPS and not small(spec, op, args):
            note.seen("too large")
            continue
        a = answer(model, op, args, inv)
        b = answer(fresh, op, args, inv)
        if a != b and trivial and NO_RECALL in (a, b):
            continue
        if a != b and op in SOLVERS and not no_rounding(dict(spec, names=[Same(), Same()], second={}), op, args):
            continue
        require(a == b, "after %r, %s%r is answered %.600r, by a model built afresh %.600r", kinds, op, tuple(args), a, b)
        if i in asked and spec["steps"] and not (isinstance(b, list) and b[:1] == ["exception"]):
            note.hit(op)
    for k in kinds:
        note.seen(k)


class Same(dict):
    def __missing__(self, key):
        return key

    def get(self, key, default=None):
        return key


# ---- models with distributions --------------------------------------------------------------------------------------


def gen_model(src):
    cls = src.pick(["CBN", "CID", "CID", "MACID", "MACID", "MACIDBase"])
    if cls == "CBN":
        spec = gen_cbn(src, max_nodes=6)
    else:
        spec = gen_macid(src, cls=cls, max_nodes=6, policies=src.pick([0, 0, 1, 2]), connected=src.bool(3, 4),
                         max_rules=9, max_dec_parents=src.pick([1, 1, 2]))
    for rows in spec["rows"].values():
        for row in rows or []:
            exact(row)
    names = [o for o in ops.OF_CLASS[cls] if o not in FREE]
    spec["ops"] = [ops.gen_op(src, spec, names) for _ in range(src.int(1, 4))]
    now = {v: {"parents": list(spec["parents"][v]), "rows": spec["rows"][v], "cpd": spec["cpd"][v]} for v in
           spec["nodes"]}
    nodes = spec["nodes"]
    decs = oracle.all_decisions(spec)
    roles = {v: role_of(spec, v) for v in nodes}
    steps = []
    for _ in range(src.int(1, 5)):
        kind = src.pick(["relationship", "relationship", "extra edge", "missing edge", "intervene", "impute", "copy",
                         "extra node"] + (["role", "other utility", "other utility"] if cls != "CBN" else []))
        v = src.pick(nodes)
        step = None
        if kind == "relationship":
            step = [["set", v, now[v]]]
            now[v] = other(src, spec, now[v], v, now[v]["parents"], decs)
        elif kind == "extra edge":
            more = [u for u in nodes[:nodes.index(v)] if u not in now[v]["parents"]]
            if more and len(now[v]["parents"]) < 3:
                u = src.pick(more)
                step = [["remove_edge", u, v], ["set", v, now[v]]]
                now[v] = other(src, spec, now[v], v, now[v]["parents"] + [u], decs)
        elif kind == "missing edge":
            if now[v]["parents"]:
                u = src.pick(now[v]["parents"])
                step = [["add_edge", u, v], ["set", v, now[v]]]
                now[v] = other(src, spec, now[v], v, [p for p in now[v]["parents"] if p != u], decs)
        elif kind == "intervene":
            if not (v in decs and now[v]["rows"] is None) or src.bool():
                step = [["intervene", {v: src.pick(spec["dom"][v])}]]
                step += [["ask"]] + [["add_edge", p, v] for p in now[v]["parents"]] + [["set", v, now[v]]]
        elif kind == "impute" and decs:
            v = src.pick(decs)
            step = [["impute_random_decision", v], ["ask"], ["set", v, now[v]]]
        elif kind == "role":
            v = src.pick([u for u in nodes if u not in decs])
            step = [["role", v, roles[v]]]
            roles[v] = src.pick([["C"]] + [["U", a] for a in spec["decisions"]] * numeric(spec, v))
        elif kind == "other utility":
            us = [u for u in nodes if roles[u][0] == "U"]
            others = [u for u in nodes if roles[u] == ["C"] and numeric(spec, u)]
            if us and others:
                u, w = src.pick(us), src.pick(others)
                step = [["role", u, roles[u]], ["role", w, roles[w]]]
                roles[u], roles[w] = roles[w], roles[u]
        elif kind == "extra node" and EXTRA not in [s[1] for _, x in steps for s in x if len(s) > 1]:
            ps = src.sample(nodes, src.int(0, min(2, len(nodes))))
            step = [["remove_node", EXTRA]]
            spec["extra"] = ps
        elif kind == "copy":
            step = [["copy"]]
        if step:
            steps.append([questions(src, len(spec["ops"])), step])
    steps.reverse()
    spec["start"] = now
    spec["start roles"] = roles
    spec["steps"] = steps
    spec["spoil"] = src.bool()
    return spec


def numeric(spec, v):
    return all(isinstance(o, (int, float)) for o in spec["dom"][v])


def other(src, spec, current, v, parents, decs):
    """another relationship of v with these parents, as a function"""
    n = 1
    for p in parents:
        n *= len(spec["dom"][p])
    if v in decs and src.bool():
        return {"parents": list(parents), "rows": None, "cpd": {"kind": "domain"}}
    k = len(spec["dom"][v])
    res = {"parents": list(parents), "rows": [gen_row(src, k, False) for _ in range(n)],
           "cpd": {"kind": "policy" if v in decs else src.pick(["func", "object"])}}
    for row in res["rows"]:
        exact(row)
    return res


def state(spec, now):
    res = dict(spec, parents={v: now[v]["parents"] for v in spec["nodes"]},
               rows={v: now[v]["rows"] for v in spec["nodes"]}, cpd={v: now[v]["cpd"] for v in spec["nodes"]})
    res["edges"] = [[p, v] for v in spec["nodes"] for p in now[v]["parents"]]
    res["isolated"] = [v for v in spec["nodes"] if not any(v in e for e in res["edges"])]
    return res


def give(model, spec, v, rel):
    one = dict(spec, parents=dict(spec["parents"], **{v: rel["parents"]}), rows={v: rel["rows"]}, cpd={v: rel["cpd"]})
    r = relationship(one, v, model)
    if rel["cpd"]["kind"] == "policy":
        model.add_cpds(**{v: list(spec["dom"][v])})
    if rel["cpd"]["kind"] in OBJECT_KINDS or rel["cpd"]["kind"].startswith("table"):
        model.add_cpds(r)
    else:
        model.add_cpds(**{v: r})


def check_model(spec, note):
    start = state(spec, spec["start"])
    if spec["kind"] != "CBN":
        start = with_roles(start, start["nodes"], start["edges"], spec["start roles"])
    model = build(start)
    if any(s[:2] == ["remove_node", EXTRA] for _, step in spec["steps"] for s in step):
        model.add_node(EXTRA)
        for p in spec["extra"]:
            model.add_edge(p, EXTRA)
        model.add_cpds(**{EXTRA: lambda **pv: {0: 0.25, 1: 0.75}})
    now = dict(spec["start"])
    for questions, step in spec["steps"]:
        for s in [["ask"]] + step:
            if s[0] == "ask":
                here = state(spec, now)
                for i in questions:
                    op, args = spec["ops"][i]
                    if op not in ops.HEAVY_OPS or small(here, op, args):
                        ask(model, op, args, spec["spoil"])
            elif s[0] == "set":
                now[s[1]] = s[2]
                give(model, spec, s[1], s[2])
            else:
                model = change(model, s)
    compare(spec, model, build(spec), note, [s[0] for _, step in spec["steps"] for s in step])


PARTS = [
    Part("structures", gen_structure, check_structure, 4000, 80000,
         "random diagrams that reach their final edges, nodes and roles by 1-6 changes, with questions in between; "
         "non-trivial = a question asked before is answered in the end"),
    Part("models", gen_model, check_model, 2400, 50000,
         "random models of all classes that reach their final relationships and edges by 1-5 changes, with questions in "
         "between; non-trivial as above"),
]

"""Copies are equivalent and independent; constructors do not keep their arguments."""
import copy

import numpy as np
from pgmpy.factors.discrete import TabularCPD
from pycid import CID, MACID, CausalBayesianNetwork
from pycid.core.macid_base import MACIDBase

from vf import oracle
from vf.build import CLASSES, build, factor_dict, make_function, skeleton
from vf.core import require
from vf.gen import BIG, gen_cbn, gen_macid
from vf.snap import difference, snapshot
from vf.worker import Part

ASSUMPTIONS = []


def gen_mutation(src, spec):
    nodes = spec["nodes"]
    kind = src.pick(["replace", "remove_cpds", "intervene", "add_edge", "remove_edge", "remove_node", "add_node",
                     "in_place", "in_place", "role", "role", "random", "domain", "options", "constant", "new_agent"])
    return [kind, src.pick(nodes), src.pick(nodes), src.int(0, 7), src.pick(["decision", "utility", "chance"])]


def gen(src):
    if src.bool(1, 4):
        spec = gen_cbn(src, max_nodes=5)
    else:
        spec = gen_macid(src, cls=src.pick(["CID", "MACID", "MACIDBase"]), policies=1, max_nodes=6,
                         n_decisions=(0, 3), n_utilities=(0, 3), big=dict(BIG, maxcard=2))
        if spec["kind"] != "CID":
            if src.bool(1, 3):
                spec["utilities"]["onlooker"] = []
                if src.bool():
                    spec["decisions"]["onlooker"] = []
            if src.bool(1, 3):
                a = src.pick(list(spec["decisions"]))
                if not spec["utilities"].get(a):
                    spec["utilities"].pop(a, None)
    # leave some nodes without distribution, without touching what depends on them
    missing = []
    if src.bool(1, 3):
        for v in reversed(spec["nodes"]):
            children = [c for c in spec["nodes"] if v in spec["parents"][c]]
            if src.bool(1, 3) and all(c in missing or spec["cpd"][c]["kind"] in ("func", "named", "domain", "funcval")
                                      for c in children):
                missing.append(v)
    spec["missing"] = missing
    spec["mutations"] = [gen_mutation(src, spec) for _ in range(src.int(1, 5))]
    spec["side"] = src.bool()
    spec["deep"] = src.bool(1, 4)
    spec["first"] = [gen_mutation(src, spec)] if src.bool(1, 3) else []
    return spec


def build_partial(spec):
    if not spec["missing"]:
        return build(spec)
    rest = dict(spec, add_order=[v for v in spec["add_order"] if v not in spec["missing"]])
    model = skeleton(spec)
    from vf.build import OBJECT_KINDS, relationship

    def ready(v):
        return all(p not in spec["missing"] and ready(p) for p in spec["parents"][v])

    first = {v: relationship(spec, v, model) for v in rest["add_order"] if spec["cpd"][v]["kind"] not in OBJECT_KINDS}
    model.add_cpds(*[r for r in first.values() if isinstance(r, TabularCPD)],
                   **{v: r for v, r in first.items() if not isinstance(r, TabularCPD)})
    for v in spec["nodes"]:
        if v in spec["missing"] or spec["cpd"][v]["kind"] not in OBJECT_KINDS or not ready(v):
            continue
        if spec["cpd"][v]["kind"] == "policy":
            model.add_cpds(**{v: list(spec["dom"][v])})
        model.add_cpds(relationship(spec, v, model))
    return model


def mutate(model, spec, mutation):
    """apply one change; what it does to `model` itself is the subject of other checks"""
    kind, v, w, k, role = mutation
    dom = spec["dom"]
    if v not in model.nodes or w not in model.nodes:
        return False
    try:
        if kind == "replace":
            model.add_cpds(**{v: lambda **pv: {0: 0.5, 1: 0.5}})
        elif kind == "constant":
            model.add_cpds(**{v: {k: 1.0}})
        elif kind == "remove_cpds":
            model.remove_cpds(v)
        elif kind == "intervene":
            model.intervene({v: dom[v][k % len(dom[v])] if k < 4 else 99})
        elif kind == "add_edge":
            if v == w or v in oracle.ancestors({n: model.get_parents(n) for n in model.nodes}, [v]) and \
                    w in oracle.ancestors({n: model.get_parents(n) for n in model.nodes}, [v]):
                return False
            model.add_edge(v, w)
        elif kind == "remove_edge":
            edges = list(model.edges)
            if not edges:
                return False
            model.remove_edge(*edges[k % len(edges)])
        elif kind == "remove_node":
            model.remove_node(v)
        elif kind == "add_node":
            model.add_node("extra")
            model.add_edge("extra", v)
            model.add_cpds(extra={0: 1.0})
        elif kind == "in_place":
            cpd = model.get_cpds(v)
            if cpd is None:
                return False
            if k % 2 and len(cpd.variables) > 1:
                cpd.marginalize(list(cpd.variables[1:]))
            else:
                cpd.values[...] = np.roll(cpd.values, 1, axis=0)
        elif kind == "domain":
            if v not in model.model.domain:
                return False
            model.model.domain[v] = list(model.model.domain[v]) + ["another outcome"]
        elif kind == "options":
            if not isinstance(model, MACIDBase) or v not in model.decisions:
                return False
            model.add_cpds(**{v: [0, 1, 2]})
        elif kind == "role":
            if not isinstance(model, MACIDBase):
                return False
            agent = 0 if isinstance(model, CID) else (list(model.agents) + ["z"])[k % (len(model.agents) + 1)]
            if role == "decision":
                model.make_decision(v, agent)
            elif role == "utility":
                model.make_utility(v, agent)
            else:
                model.make_chance(v)
        elif kind == "new_agent":
            if not isinstance(model, MACIDBase) or isinstance(model, CID):
                return False
            model.make_utility(v, "another agent")
        elif kind == "random":
            if not isinstance(model, MACIDBase) or v not in model.decisions or v not in model.model.domain:
                return False
            model.impute_random_decision(v)
    except Exception:  # noqa - e.g. a relationship that no longer fits; the other side must not notice
        return True
    return True


def answers(model, nodes, limit=3):
    res = []
    for v in nodes[:limit]:
        try:
            f = model.query([v], {})
            res.append({k: round(p, 9) for k, p in factor_dict(f, [v]).items()})
        except ValueError:
            res.append("rejected")
    if isinstance(model, MACIDBase):
        for d in sorted(model.decisions)[:2]:
            res.append(sorted(x for x in nodes if model.decision_agent[d] in model.agent_utilities
                              and model.is_r_reachable(d, x)))
    return res


def compare_copies(m, c, what, with_cpds=True):
    a, b = snapshot(m, False), snapshot(c, False)
    if not with_cpds:
        require(not b["specified"] and not b["tables"], "%s has distributions", what)
        for k in ("specified", "domain", "tables", "number of tables"):
            a.pop(k)
            b.pop(k)
    d = difference(a, b)
    require(d is None, "%s differs from the original: %s", what, d)


def check(spec, note):
    m = build_partial(spec)
    for mutation in spec["first"]:  # a model with a history
        if mutation[0] in ("intervene", "role", "constant", "random", "options"):
            mutate(m, spec, mutation)
    nodes = list(spec["nodes"])
    before = snapshot(m)
    c = copy.deepcopy(m) if spec.get("deep") else m.copy()
    if spec.get("deep"):
        note.seen("deep copy")
    require(c is not m, "copy() returned the model itself")
    compare_copies(m, c, "the copy")
    compare_copies(m, m.copy_without_cpds(), "the copy without distributions", with_cpds=False)
    require(snapshot(m) == before, "copying changed the model: %s", difference(before, snapshot(m)))
    complete = not spec["missing"] and not spec["first"]
    if complete:
        require(answers(m, nodes) == answers(c, nodes), "the copy answers %r, the original %r", answers(c, nodes),
                answers(m, nodes))
        compare_copies(m, c, "the copy after queries")
    compare_copies(c, c.copy(), "the copy of the copy")
    if spec["missing"]:
        note.hit("partially specified")
    changed, kept = (m, c) if spec["side"] else (c, m)
    reference = snapshot(kept)
    was = answers(kept, nodes) if complete else None
    for mutation in spec["mutations"]:
        if mutate(changed, spec, mutation):
            note.hit(("original: " if spec["side"] else "copy: ") + mutation[0])
        d = difference(reference, snapshot(kept))
        require(d is None, "after %s of the %s, the other one has changed: %s", mutation,
                "original" if spec["side"] else "copy", d)
    compare_copies(kept, kept.copy(), "after changes of the %s, a copy of the other one"
                   % ("original" if spec["side"] else "copy"))
    if complete:
        now = answers(kept, nodes)
        require(now == was, "after changes of the %s, the other one answers %r instead of %r",
                "original" if spec["side"] else "copy", now, was)
        # a new domain for one node of the kept model must still reach its children
        roots = [v for v in nodes if not spec["parents"][v] and spec["cpd"][v]["kind"] in ("func", "named", "dict")]
        if roots and was and not any(x == "rejected" for x in was):
            try:
                f = kept.query([nodes[-1]], {}, intervention={roots[0]: spec["dom"][roots[0]][0]})
                factor_dict(f, [nodes[-1]])
            except ValueError:
                pass


def gen_args(src):
    spec = gen_macid(src, cls=src.pick(["CID", "MACID", "MACIDBase"]), max_nodes=6)
    spec["calls"] = [[src.pick(["make_decision", "make_utility", "make_chance", "remove_node"]), src.pick(spec["nodes"])]
                     for _ in range(src.int(1, 4))]
    spec["tamper"] = src.pick(["append", "clear", "agent"])
    return spec


def check_args(spec, note):
    cls = CLASSES[spec["kind"]]
    edges = [tuple(e) for e in spec["edges"]]
    given_edges = list(edges)
    if cls is CID:
        args = {"decisions": list(spec["decisions"][0]), "utilities": list(spec["utilities"][0])}
    else:
        args = {"agent_decisions": {a: list(x) for a, x in spec["decisions"].items()},
                "agent_utilities": {a: list(x) for a, x in spec["utilities"].items()}}
    kept = copy.deepcopy(args)
    m = cls(edges, **args)
    for v in spec["isolated"]:
        m.add_node(v)
    other = cls(edges, **args)
    for v in spec["isolated"]:
        other.add_node(v)
    other_before = snapshot(other)
    for call, v in spec["calls"]:
        if v in m.nodes:
            getattr(m, call)(v)
            note.hit(call)
    require(args == kept, "the arguments of the constructor became %r, were %r", args, kept)
    require(edges == given_edges, "the edges given to the constructor were changed")
    d = difference(other_before, snapshot(other))
    require(d is None, "another model built from the same arguments changed: %s", d)
    for x in args.values():
        if isinstance(x, dict):
            for y in x.values():
                if spec["tamper"] == "append":
                    y.append("intruder")
                else:
                    y.clear()
            if spec["tamper"] == "agent":
                x["intruder"] = []
        elif spec["tamper"] == "append":
            x.append("intruder")
        else:
            x.clear()
    edges.append(("intruder", "x"))
    d = difference(other_before, snapshot(other))
    require(d is None, "changing the arguments after construction changed the model: %s", d)


PARTS = [
    Part("copies", gen, check, 3000, 80000,
         "random complete and partial (MA)CIDs and CBNs; copied, compared, then 1-5 changes of either side; non-trivial "
         "= a change was applied or the model is partial"),
    Part("arguments", gen_args, check_args, 1500, 20000,
         "models built from lists and dicts that are compared after role changes, and changed afterwards; non-trivial = "
         "a role changed"),
]

"""Condensed relevance graphs and subgames follow their definitions."""
import itertools

import numpy as np
from pycid import CondensedRelevanceGraph
from pycid.core.cpd import DecisionDomain

from vf import oracle
from vf.build import build, make_function, skeleton
from vf.core import require, require_close
from vf.gen import BIG, gen_graph, gen_macid, gen_row, n_contexts
from vf.oracle import Net
from vf.snap import rows
from vf.worker import Part
from pycid import StochasticFunctionCPD

ASSUMPTIONS = [
    "Conditional utilities in a subgame are compared for decision sets that are closed under relevance, in contexts that "
    "are possible in the full model when the decisions outside are played as given, or fully mixed if open.",
]


def components(spec):
    decs = oracle.all_decisions(spec)
    edges = oracle.relevance_edges(spec, decs)
    closure = oracle.transitive_closure(decs, edges)
    comps = {frozenset(b for b in decs if b in closure[a] and a in closure[b]) for a in decs}
    return decs, edges, closure, comps


def gen(src):
    spec = gen_graph(src, cls=src.pick(["MACID", "MACID", "MACIDBase", "CID"]), max_nodes=9, n_decisions=(1, 5),
                     n_utilities=(1, 4), max_parents=3, n_agents=(1, 3), big=BIG)
    return spec


def check(spec, note):
    m = skeleton(spec)
    decs, edges, closure, comps = components(spec)
    crg = CondensedRelevanceGraph(m)
    members = crg.get_decisions_in_scc()
    got = [frozenset(x) for x in members.values()]
    require(len(got) == len(comps) and set(got) == comps and sum(len(list(x)) for x in members.values()) == len(decs),
            "components %r, expected %r", members, sorted(map(sorted, comps)))
    require(set(crg.nodes) == set(members), "nodes of the condensed relevance graph")
    expected = {(i, j) for i in members for j in members if i != j
                and any((a, b) in edges for a in members[i] for b in members[j])}
    require(set(crg.edges) == expected, "edges of the condensed relevance graph: %r between %r, expected %r",
            sorted(crg.edges), members, sorted(expected))
    order = [list(x) for x in crg.get_scc_topological_ordering()]
    require(sorted(map(sorted, order)) == sorted(map(sorted, comps)), "the ordering %r is not a partition", order)
    for i, late in enumerate(order):
        for early in order[i + 1:]:
            require(not any((a, b) in edges for a in early for b in late),
                    "the ordering %r puts %r before %r, which relies on it", order, late, early)
    if len(comps) > 1 and edges:
        note.hit("several components with relevance")
    if any(len(c) > 1 for c in comps):
        note.hit("cyclic component")
    if spec["kind"] == "MACID" and len(comps) <= 5:
        closed = set()
        for k in range(1, len(comps) + 1):
            for combo in itertools.combinations(comps, k):
                union = frozenset().union(*combo)
                if all(closure[d] <= union for d in union):
                    closed.add(union)
        got = [frozenset(x) for x in m.decs_in_each_maid_subgame()]
        require(len(got) == len(set(got)), "decs_in_each_maid_subgame() has duplicates: %r", got)
        require(set(got) == closed, "decs_in_each_maid_subgame(): %r, expected %r", sorted(map(sorted, got)),
                sorted(map(sorted, closed)))
        if len(closed) > 1:
            note.hit("several subgames")


def gen_subgame(src):
    spec = gen_macid(src, cls="MACID", max_nodes=7, n_agents=(1, 3), n_decisions=(1, 3), n_utilities=(1, 3),
                     policies=src.pick([0, 0, 1]))
    decs = oracle.all_decisions(spec)
    spec["ask"] = src.shuffle(decs)[:src.int(1, len(decs))]
    spec["close"] = src.bool(3, 4)
    spec["container"] = src.pick(["list", "set", "keys"])
    spec["fill"] = {d: [mixed(src, len(spec["dom"][d])) for _ in range(n_contexts(spec, d))] for d in decs}
    return spec


def mixed(src, k):
    w = [src.int(1, 4) for _ in range(k)]
    return [x / sum(w) for x in w]


def check_subgame(spec, note):
    nodes, parents = spec["nodes"], spec["parents"]
    decs, edges, closure, comps = components(spec)
    ask = list(spec["ask"])
    if spec["close"]:
        ask = [d for d in decs if any(d in closure[a] for a in ask)]
    model = build(spec)
    container = {"list": list, "set": set, "keys": lambda x: dict.fromkeys(x).keys()}[spec["container"]](ask)
    sg = model.create_subgame(container)
    relevant = {v for v in nodes if any(oracle.r_reachable(spec, d, v) for d in ask)}
    inner = relevant | set(ask)
    expected = inner | {p for v in inner for p in parents[v]}
    require(set(sg.nodes) == expected, "the subgame of %r has the nodes %r, expected %r", ask, sorted(sg.nodes),
            sorted(expected))
    want = {(p, v) for v in inner for p in parents[v]}
    require(set(sg.edges) == want, "the subgame of %r has the edges %r, expected %r", ask, sorted(sg.edges), sorted(want))
    require(sorted(sg.decisions) == sorted(ask), "decisions of the subgame: %r", sorted(sg.decisions))
    for d in ask:
        require(sg.decision_agent[d] == oracle.agent_of(spec, d), "owner of %r in the subgame", d)
    us = {u: a for a, x in spec["utilities"].items() for u in x}
    require({u: sg.utility_agent[u] for u in sg.utilities} == {u: a for u, a in us.items() if u in relevant},
            "utilities of the subgame: %r", dict(sg.utility_agent))
    dom = {v: list(sg.model.domain[v]) for v in sg.nodes}
    for v in sg.nodes:
        require(sorted(dom[v], key=repr) == sorted(spec["dom"][v], key=repr), "outcomes of %r in the subgame: %r", v,
                dom[v])
    outside_rows = {d: spec["rows"][d] if spec["rows"][d] is not None else oracle.uniform_rows(spec, d) for d in decs}
    for v in inner:
        cpd = sg.get_cpds(v)
        require(cpd is not None, "%r has no distribution in the subgame", v)
        got = rows(cpd, parents[v], spec["dom"], domain=dom)
        exp = spec["rows"][v] if spec["rows"][v] is not None else oracle.uniform_rows(spec, v)
        require(np.allclose(got, exp, atol=1e-9), "the distribution of %r in the subgame is %r, expected %r", v,
                got.tolist(), exp)
        if v in ask:
            require(isinstance(cpd, DecisionDomain) == (spec["rows"][v] is None), "%r in the subgame is a %s", v,
                    type(cpd).__name__)
    for v in expected - inner:
        cpd = sg.get_cpds(v)
        require(cpd is not None and not sg.get_parents(v), "%r should have an unconditional distribution", v)
        got = rows(cpd, [], spec["dom"], domain=dom)[0]
        require(abs(got.sum() - 1) < 1e-9 and (got >= 0).all(), "the distribution of %r is %r", v, got.tolist())
        full = np.array(outside_rows[v] if spec["rows"][v] is None else spec["rows"][v])
        for o, p, column in zip(spec["dom"][v], got, full.T):
            require((p > 1e-12) == bool((column > 1e-12).any()), "in the subgame %r=%r has the probability %r, but in the "
                    "model %r", v, o, p, column.tolist())
    if expected - inner:
        note.hit("marginalised parents")
    if set(expected) != set(nodes):
        note.hit("smaller than the model")
    if not spec["close"]:
        return
    # conditional expectations under a fully mixed profile of the active decisions
    for d in ask:
        sg.add_cpds(StochasticFunctionCPD(d, make_function(dict(spec, rows=spec["fill"]), d), sg,
                                          domain=list(spec["dom"][d])))
    net = Net.of(spec).with_rows(dict({d: outside_rows[d] for d in decs}, **{d: spec["fill"][d] for d in ask}))
    sub = Net.of({
        "nodes": [v for v in nodes if v in expected], "parents": {v: sg.get_parents(v) for v in expected}, "dom": dom,
        "rows": {v: rows(sg.get_cpds(v), sg.get_parents(v), dom, domain=dom) for v in expected}})
    for d in ask:
        agent = oracle.agent_of(spec, d)
        below = [u for u in spec["utilities"].get(agent, []) if u in oracle.descendants(nodes, parents, d)]
        if not below:
            continue
        for context in oracle.contexts(spec, d):
            if net.prob(context) <= 1e-12:
                continue
            require(sub.prob(context) > 0, "the context %r of %r cannot occur in the subgame", context, d)
            for o in spec["dom"][d]:
                c = dict(context, **{d: o})
                e = net.eu(below, c)
                require_close(sub.eu(below, c), e, "E[%s|%s] in the subgame of %r", below, c, ask)
                note.hit("conditional utilities")
        c = dict(context, **{d: spec["dom"][d][0]})
        if net.prob(c) > 1e-12:
            got = sum(sg.expected_value([u], c)[0] for u in below)
            require_close(got, net.eu(below, c), "E[%s|%s] asked in the subgame of %r", below, c, ask)


PARTS = [
    Part("components", gen, check, 2000, 60000,
         "random (MA)CID structures with up to 5 decisions; non-trivial = cyclic or several related components, several "
         "subgames"),
    Part("subgames", gen_subgame, check_subgame, 1600, 40000,
         "random parameterised MACIDs, subgames of random and of closed decision sets; non-trivial = the subgame is "
         "smaller, has marginalised parents, or conditional utilities were compared"),
]
del gen_row

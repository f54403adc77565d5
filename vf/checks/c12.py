"""Reachability, relevance graphs, recall, d-connection, mechanism graphs and valid orders follow their definitions."""
from pycid.core.macid_base import MechanismGraph
from pycid.core.relevance_graph import RelevanceGraph

from vf import oracle
from vf.build import skeleton
from vf.core import expect_raises, require
from vf.gen import BIG, gen_graph
from vf.worker import Part

ASSUMPTIONS = ["Every agent that owns a decision is declared with a (possibly empty) list of utilities."]


def gen(src):
    if src.bool(1, 4):  # many decisions, some agents observe their past
        spec = gen_graph(src, cls=src.pick(["MACID", "MACID", "CID"]), min_nodes=5, max_nodes=11, n_decisions=(3, 8),
                         n_utilities=(1, 4), n_agents=src.pick([(1, 3), (1, 3), (4, 5)]), recall=src.subset(range(5), 4, 5))
    else:
        spec = gen_graph(src, cls=src.pick(["MACID", "CID", "MACIDBase"]), max_nodes=8, n_decisions=(1, 4),
                         n_utilities=(0, 3), recall=src.bool(1, 4), big=BIG)
    nodes = spec["nodes"]
    spec["observed"] = [src.subset(nodes, 1, 3) for _ in range(3)]
    spec["sets"] = [(src.subset(oracle.all_decisions(spec)), src.subset(nodes)) for _ in range(2)]
    spec["order"] = src.subset(nodes)
    return spec


def check(spec, note):
    nodes, parents = spec["nodes"], spec["parents"]
    m = skeleton(spec)
    decs = oracle.all_decisions(spec)
    reach = {}
    for d in decs:
        for v in nodes:
            if v == d and False:
                continue
            reach[d, v] = oracle.r_reachable(spec, d, v)
            got = m.is_r_reachable(d, v)
            require(got == reach[d, v], "is_r_reachable(%r, %r) is %r, the definition says %r", d, v, got, reach[d, v])
            if reach[d, v]:
                note.hit("r-reachable")
            if v in decs:
                got = m.is_s_reachable(d, v)
                require(got == reach[d, v], "is_s_reachable(%r, %r) is %r, the definition says %r", d, v, got,
                        reach[d, v])
    for ds, vs in spec["sets"]:
        expected = any(reach[d, v] for d in ds for v in vs)
        got = m.is_r_reachable(list(ds), list(vs))
        require(got == expected, "is_r_reachable(%r, %r) is %r, expected %r", ds, vs, got, expected)
        if len(ds) > 1 or len(vs) > 1:
            note.hit("sets of decisions or nodes")
        for v in vs[:1]:
            got = m.is_r_reachable(set(ds), v)
            require(got == any(reach[d, v] for d in ds), "is_r_reachable(%r, %r) is %r", ds, v, got)
    # relevance graphs
    for group in [None] + [list(x) for x in spec["decisions"].values()] + [list(spec["sets"][0][0])]:
        rg = RelevanceGraph(m) if group is None else RelevanceGraph(m, list(group))
        members = decs if group is None else group
        expected = {(a, b) for a in members for b in members if a != b and reach[a, b]}
        require(set(rg.nodes) == set(members), "the relevance graph of %r has the nodes %r", members, list(rg.nodes))
        require(set(rg.edges) == expected, "relevance graph of %r: edges %r, expected %r", members, sorted(rg.edges),
                sorted(expected))
        acyclic = oracle.is_acyclic(members, expected)
        require(rg.is_acyclic() == acyclic, "is_acyclic() of the relevance graph of %r", members)
        closure = oracle.transitive_closure(members, expected)
        sccs = {frozenset(b for b in members if b in closure[a] and a in closure[b]) for a in members}
        got = [frozenset(x) for x in rg.get_sccs()]
        require(len(got) == len(sccs) and set(got) == sccs, "get_sccs() of %r: %r, expected %r", members, got, sccs)
        if not acyclic:
            note.hit("cyclic relevance")
    # recall
    for a in spec["utilities"]:
        expected = oracle.sufficient_recall(spec, a)
        require(m.sufficient_recall(a) == expected, "sufficient_recall(%r) is not %r", a, expected)
        note.hit("recall of an agent with several decisions", len(spec["decisions"][a]) > 1)
    require(m.sufficient_recall() == oracle.sufficient_recall(spec), "sufficient_recall() is not %r",
            oracle.sufficient_recall(spec))
    expect_raises(ValueError, lambda: m.sufficient_recall("nobody"), "sufficient_recall of an unknown agent")
    # d-connection
    mg_possible = not any(v + "mec" in nodes for v in nodes)
    mg = MechanismGraph(m) if mg_possible else None
    if mg is not None:
        require(set(mg.nodes) == set(nodes) | {v + "mec" for v in nodes}, "nodes of the mechanism graph")
        expected = {(p, v) for v in nodes for p in parents[v]} | {(v + "mec", v) for v in nodes}
        require(set(mg.edges) == expected, "edges of the mechanism graph: %r", sorted(mg.edges))
    for obs in spec["observed"]:
        for i, a in enumerate(nodes):
            if a in obs:
                continue
            connected = {b for b in nodes if b != a and b not in obs and not oracle.d_separated(parents, [a], [b], obs)}
            got = set(m.active_trail_nodes(a, list(obs))[a]) - {a}
            require(got == connected, "active_trail_nodes(%r, %r): %r, expected %r", a, obs, got, connected)
            if obs:
                note.hit("d-connection given observations")
            for b in nodes:
                if b == a or b in obs:
                    continue
                got = m.is_dconnected(a, b, observed=set(obs) if i % 2 else list(obs))
                require(got == (b in connected), "is_dconnected(%r, %r, %r) is %r", a, b, obs, got)
                if not obs:
                    require(m.is_dconnected(a, b) == (b in connected), "is_dconnected(%r, %r)", a, b)
        if mg is not None:
            for v in nodes:
                ext = oracle.with_mechanism(parents, v)
                for b in nodes:
                    if b in obs:
                        continue
                    expected = not oracle.d_separated(ext, ["@mech"], [b], obs)
                    got = mg.is_dconnected(v + "mec", b, observed=list(obs))
                    require(got == expected, "is_dconnected(mechanism of %r, %r, %r) is %r", v, b, obs, got)
    # orders
    for wanted, got in ((spec["order"], m.get_valid_order(list(spec["order"]))), (decs, m.get_valid_order())):
        require(sorted(got) == sorted(wanted), "get_valid_order(%r) returns %r", wanted, got)
        for i, a in enumerate(got):
            for b in got[i + 1:]:
                require(b not in oracle.ancestors(parents, [a]), "get_valid_order: %r comes before its ancestor %r",
                        a, b)
    expect_raises(KeyError, lambda: m.get_valid_order(["no such node"]), "get_valid_order of an unknown node")


PARTS = [
    Part("graphs", gen, check, 4000, 100000,
         "random (MA)CID structures with 2-10 nodes; non-trivial = some node is r-reachable, or sets, cyclic relevance "
         "or d-connection given observations were compared with the moral-graph criterion"),
]

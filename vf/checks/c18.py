"""Requisite observations and the requisite graph follow their definition."""
from pycid import requisite, requisite_graph, requisite_list

from vf import oracle, reduced
from vf.build import build, skeleton
from vf.core import expect_raises, require, require_close
from vf.gen import BIG, gen_graph, gen_macid
from vf.worker import Part

ASSUMPTIONS = []


def gen(src):
    return gen_graph(src, cls=src.pick(["MACID", "CID", "MACIDBase", "CID"]), max_nodes=8, n_decisions=(1, 4),
                     n_utilities=(1, 3), recall=src.bool(2, 3), big=dict(BIG, max_parents=3))


def check(spec, note):
    nodes, parents = spec["nodes"], spec["parents"]
    m = skeleton(spec)
    for d in oracle.all_decisions(spec):
        expected = [p for p in parents[d] if reduced.requisite(spec, parents, d, p)]
        for p in parents[d]:
            got = requisite(m, d, p)
            require(got == (p in expected), "requisite(%r, %r) is %r", d, p, got)
        got = requisite_list(m, d)
        require(sorted(got) == sorted(expected), "requisite_list(%r): %r, expected %r", d, got, expected)
        if 0 < len(expected) < len(parents[d]):
            note.hit("some observations are requisite")
        for v in nodes:
            if v not in parents[d]:
                expect_raises(KeyError, lambda: requisite(m, d, v), "requisite(%r, %r), not a parent", d, v)
                break
    g = requisite_graph(m)
    expected = reduced.requisite_graph(spec)
    require(set(g.nodes) == set(nodes), "nodes of the requisite graph: %r", sorted(g.nodes))
    require(set(g.edges) == reduced.edges(expected), "edges of the requisite graph: %r, expected %r", sorted(g.edges),
            sorted(reduced.edges(expected)))
    require(set(m.edges) == reduced.edges(parents), "the model has lost edges")
    require(set(g.decisions) == set(m.decisions) and set(g.utilities) == set(m.utilities)
            and {d: g.decision_agent[d] for d in g.decisions} == {d: m.decision_agent[d] for d in m.decisions}
            and {d: g.utility_agent[d] for d in g.utilities} == {d: m.utility_agent[d] for d in m.utilities},
            "roles in the requisite graph")
    one_pass = {p for d in oracle.all_decisions(spec) for p in parents[d]
                if not reduced.requisite(spec, parents, d, p)}
    if reduced.edges(expected) != reduced.edges(parents):
        note.hit("links removed")
    removed = reduced.edges(parents) - reduced.edges(expected)
    if any(reduced.requisite(spec, parents, d, p) for p, d in removed):
        note.hit("links that become non-requisite")
    del one_pass


def gen_values(src):
    return gen_macid(src, cls="CID", max_nodes=6, n_decisions=(1, 2), n_utilities=(1, 2), max_dec_parents=2,
                     max_rules=64)


def check_values(spec, note):
    best = oracle.max_eu(spec, oracle.all_decisions(spec), oracle.all_utilities(spec), limit=5000)
    if best is None or not oracle.sufficient_recall(spec) or not spec["utilities"][0]:
        note.seen("outside the bounds")
        return
    parents = reduced.requisite_graph(spec)
    if reduced.edges(parents) != reduced.edges(spec["parents"]):
        note.hit("links removed")
    model = build(spec)
    g = requisite_graph(model)
    small = dict(spec, parents={v: list(g.get_parents(v)) for v in spec["nodes"]})
    if any(set(small["parents"][v]) != set(spec["parents"][v]) for v in spec["nodes"]
           if v not in oracle.all_decisions(spec)):
        require(False, "the requisite graph has changed the parents of a node that is not a decision")
    small["parents"].update({v: spec["parents"][v] for v in spec["nodes"] if v not in oracle.all_decisions(spec)})
    value = oracle.max_eu(small, oracle.all_decisions(spec), oracle.all_utilities(spec), limit=5000)[0]
    require_close(value, best[0], "the maximal expected utility in the requisite graph")
    from vf.gen import is_connected
    if is_connected(dict(spec, parents=parents)):
        g.impute_optimal_policy()
        require_close(g.expected_utility({}), best[0], "expected utility after solving the requisite graph")
        note.hit("solved the requisite graph", False)


PARTS = [
    Part("structure", gen, check, 4000, 100000,
         "random (MA)CID structures with 2-8 nodes; non-trivial = observation links were removed, or a decision has "
         "both requisite and other observations"),
    Part("values", gen_values, check_values, 800, 20000,
         "parameterised CIDs with sufficient recall, all policies enumerated before and after; non-trivial = links "
         "were removed"),
]

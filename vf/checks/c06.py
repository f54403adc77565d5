"""Role bookkeeping: a stateful check against a dictionary node -> role."""
from pycid import CID, MACID
from pycid.core.macid_base import MACIDBase, MechanismGraph

from vf.core import expect_raises, require
from vf.gen import gen_names
from vf.worker import Part

ASSUMPTIONS = ["Roles are changed through make_decision, make_utility and make_chance, not by editing the dictionaries."]

AGENTS = [0, 1, "alice", "bob", ("t", 1)]


def gen(src):
    names = gen_names(src, src.int(1, 7))
    cls = src.pick(["CID", "MACID", "MACIDBase"])
    agents = [0] if cls == "CID" else src._sample(AGENTS, src.int(1, src.pick([3, 3, min(6, len(AGENTS))])))
    roles = {}
    for v in names:
        r = src.int(0, 3)
        roles[v] = ["chance"] if r < 2 else [("decision", "utility")[r - 2], src.pick(agents)]
    edges = [[a, b] for i, b in enumerate(names) for a in names[:i] if src.bool(1, 3)]
    ops = []
    for _ in range(src.int(1, 12)):
        kind = src.pick(["make_decision", "make_utility", "make_chance", "make_decision", "make_utility",
                         "remove_node", "add_node", "remove_nodes_from", "unknown", "copy", "add_edge"])
        v = src.pick(names + ["extra0", "extra1"])
        ops.append([kind, v, src.pick(agents if cls == "CID" else AGENTS), src.bool(), src.pick(names)])
    return {"cls": cls, "nodes": names, "agents": agents, "roles": roles, "edges": src.shuffle(edges), "ops": ops}


def compare(model, roles, agents, what):
    require(sorted(model.nodes) == sorted(roles), "%s: nodes %r, expected %r", what, list(model.nodes), sorted(roles))
    for kind, per_agent, owner, everything in (
        ("decision", model.agent_decisions, model.decision_agent, model.decisions),
        ("utility", model.agent_utilities, model.utility_agent, model.utilities),
    ):
        want = {v: r[1] for v, r in roles.items() if r[0] == kind}
        require(dict(owner) == want, "%s: owners of the %s nodes: %r, expected %r", what, kind, dict(owner), want)
        require(sorted(everything) == sorted(want), "%s: set of %s nodes: %r", what, kind, list(everything))
        flat = [v for vs in per_agent.values() for v in vs]
        require(sorted(flat) == sorted(want), "%s: %s nodes per agent: %r, expected %r", what, kind, per_agent, want)
        for a, vs in per_agent.items():
            for v in vs:
                require(want[v] == a, "%s: %r is listed as a %s of %r, but belongs to %r", what, v, kind, a, want[v])
    with_utility = {r[1] for r in roles.values() if r[0] == "utility"}
    require(with_utility <= set(model.agents), "%s: agents %r lack some of %r", what, list(model.agents), with_utility)
    require(set(model.agents) <= set(agents), "%s: agents %r, of which some were never mentioned", what,
            list(model.agents))
    require(len(list(model.agents)) == len(set(model.agents)), "%s: duplicate agents", what)


def check(spec, note):
    cls = {"CID": CID, "MACID": MACID, "MACIDBase": MACIDBase}[spec["cls"]]
    roles = {v: list(r) for v, r in spec["roles"].items()}
    edges = [tuple(e) for e in spec["edges"]]
    dec = {a: [v for v in spec["nodes"] if roles[v] == ["decision", a]] for a in spec["agents"]}
    uti = {a: [v for v in spec["nodes"] if roles[v] == ["utility", a]] for a in spec["agents"]}
    if cls is CID:
        model = cls(edges, decisions=dec[0], utilities=uti[0])
    else:
        model = cls(edges, agent_decisions=dec, agent_utilities=uti)
    model.add_nodes_from(spec["nodes"])
    mentioned = set(spec["agents"])
    compare(model, roles, mentioned, "initially")
    for op in spec["ops"]:
        kind, v, agent, default, other = op
        if default:
            agent = 0
        if kind in ("make_decision", "make_utility"):
            call = getattr(model, kind)

            def act():
                return call(v) if default else call(v, agent)

            if v in roles:
                act()
                if roles[v][0] != "chance" and roles[v] != [kind[5:], agent]:
                    note.hit("the role or agent changes")
                if roles[v] == [kind[5:], agent]:
                    note.hit("the same role again")
                roles[v] = [kind[5:], agent]
                mentioned.add(agent)
            else:
                expect_raises(KeyError, act, "%s of an unknown node", kind)
                note.hit("unknown node")
        elif kind == "make_chance":
            if v in roles:
                model.make_chance(v)
                note.hit("role removed", roles[v][0] != "chance")
                roles[v] = ["chance"]
            else:
                expect_raises(KeyError, lambda: model.make_chance(v), "make_chance of an unknown node")
        elif kind == "remove_node":
            if v in roles:
                model.remove_node(v)
                note.hit("node with a role removed", roles[v][0] != "chance")
                del roles[v]
        elif kind == "remove_nodes_from":
            group = [x for x in {v, other} if x in roles]
            model.remove_nodes_from(group)
            for x in group:
                note.hit("node with a role removed", roles[x][0] != "chance")
                del roles[x]
        elif kind == "add_node":
            if v not in roles:
                roles[v] = ["chance"]
            model.add_node(v)  # adding a node that is there changes nothing
        elif kind == "add_edge":
            if v in roles and other in roles and v != other and not model.has_edge(other, v):
                try:
                    model.add_edge(other, v)
                except ValueError:
                    pass  # would create a loop
        elif kind == "unknown":
            for name in ("make_decision", "make_utility", "make_chance"):
                expect_raises(KeyError, lambda: getattr(model, name)("no such node"), "%s of an unknown node", name)
        elif kind == "copy":
            model = model.copy()
        compare(model, roles, mentioned, "after %s(%r, agent %r)" % (kind, v, agent))
    if not any(v + "mec" in roles for v in roles):
        mg = MechanismGraph(model)
        want = dict(roles, **{v + "mec": ["chance"] for v in roles})
        compare(mg, want, mentioned, "mechanism graph")
        for v in roles:
            mg.make_chance(v)
        compare(model, roles, mentioned, "after role changes in the mechanism graph")


PARTS = [
    Part("histories", gen, check, 4000, 100000,
         "sequences of 1-12 role changes, node additions and removals on models with 1-7 nodes; non-trivial = a role or "
         "agent changed, was given again or removed, or a node with a role was removed"),
]

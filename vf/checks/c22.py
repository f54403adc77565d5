"""Random generators deliver what was asked for."""
import random

import numpy as np
from pycid import CID, MACID
from pycid.core.cpd import DecisionDomain
from pycid.core.macid_base import MACIDBase
from pycid.random.random_cid import random_cid, random_cids
from pycid.random.random_cpd import RandomCPD
from pycid.random.random_dag import random_dag
from pycid.random.random_macid import random_macid, random_macids
from pycid.random.random_macidbase import random_macidbase

from vf import oracle
from vf.core import require
from vf.worker import Part

ASSUMPTIONS = [
    "At least one node, a maximal in-degree of at least 1, an edge density of 0-1; agents that have decisions also have "
    "utilities.",
    "A ValueError that says that the constraints cannot be met is accepted, unless the constraints are easily met "
    "(some hundred attempts for small requirements).",
]


def seed(spec):
    random.seed(spec["seed"])
    np.random.seed(spec["seed"])


def spec_of(graph):
    """plain data from a graph with or without roles"""
    parents = {v: sorted(u for u, w in graph.edges if w == v) for v in graph.nodes}
    nodes = []
    while len(nodes) < len(parents):
        ready = [v for v in sorted(parents) if v not in nodes and all(p in nodes for p in parents[v])]
        require(ready, "the graph has a cycle: %r", sorted(graph.edges))
        nodes += ready
    spec = {"nodes": nodes, "parents": parents}
    if hasattr(graph, "agent_decisions"):
        spec["decisions"] = {a: list(x) for a, x in graph.agent_decisions.items()}
        spec["utilities"] = {a: list(x) for a, x in graph.agent_utilities.items()}
    return spec


def connected(spec):
    seen, stack = set(), spec["nodes"][:1]
    while stack:
        v = stack.pop()
        if v not in seen:
            seen.add(v)
            stack += [w for w in spec["nodes"] if v in spec["parents"][w] or w in spec["parents"][v]]
    return len(seen) == len(spec["nodes"])


def wanted_edges(n, density, max_in):
    return min(int(density * (n * (n - 1) / 2)), sum(min(i, max_in) for i in range(n)))


def check_shape(spec, n, density, max_in, exact=True):
    require(len(spec["nodes"]) == n, "%d nodes instead of %d: %r", len(spec["nodes"]), n, spec["nodes"])
    require(connected(spec), "the graph is not connected: %r", spec["parents"])
    worst = max(spec["nodes"], key=lambda v: len(spec["parents"][v]))
    require(len(spec["parents"][worst]) <= max_in, "%r has %d parents, the maximum is %d", worst,
            len(spec["parents"][worst]), max_in)
    edges = sum(len(p) for p in spec["parents"].values())
    want = wanted_edges(n, density, max_in)
    require(edges >= want, "%d edges, the density %r asks for %d", edges, density, want)
    if exact:
        require(edges <= max(want, n - 1), "%d edges, the density %r asks for %d", edges, density, want)
    return edges


def gen_density(src):
    return src.pick([0.0, 0.1, 0.2, 0.3, 0.4, 0.4, 0.5, 0.7, 0.9, 1.0])


def gen_dag(src):
    return {"n": src.int(1, 14), "density": gen_density(src), "max_in": src.int(1, 6), "seed": src.int(0, 10 ** 6),
            "default": src.bool(1, 6)}


def check_dag(spec, note):
    seed(spec)
    if spec["default"]:
        n, density, max_in = 5, 0.4, 4
        dag = random_dag()
    else:
        n, density, max_in = spec["n"], spec["density"], spec["max_in"]
        dag = random_dag(number_of_nodes=n, edge_density=density, max_in_degree=max_in)
    edges = check_shape(spec_of(dag), n, density, max_in)
    if edges > n - 1:
        note.hit("denser than a tree")
    if wanted_edges(n, density, 10 ** 6) > wanted_edges(n, density, max_in):
        note.hit("density limited by the in-degree")
    if n == 1:
        note.seen("one node")


def gen_diagram(src):
    kind = src.pick(["base", "base", "cid", "macid", "macid"])
    agents = 1 if kind == "cid" else src.int(1, 3)
    ds = [src.int(0 if src.bool(1, 4) else 1, 3) for _ in range(agents)]
    us = [src.int(0 if not d and src.bool() else 1, 3) for d in ds]
    n = src.int(1, 4) + sum(ds) + sum(us) - 1
    return {"kind": kind, "n": max(n, 1), "ds": ds, "us": us, "cpds": src.bool(), "recall": src.bool(2, 3),
            "density": gen_density(src), "max_in": src.int(1, 6), "attempts": src.pick([5, 50]),
            "seed": src.int(0, 10 ** 6)}


def draw(spec):
    kw = dict(number_of_nodes=spec["n"], add_cpds=spec["cpds"], sufficient_recall=spec["recall"],
              edge_density=spec["density"], max_in_degree=spec["max_in"], max_resampling_attempts=spec["attempts"])
    if spec["cpds"] == (spec["kind"] == "cid"):
        kw.pop("add_cpds")  # the default
    if spec["kind"] == "cid":
        return random_cid(number_of_decisions=spec["ds"][0], number_of_utilities=spec["us"][0], **kw)
    make = random_macid if spec["kind"] == "macid" else random_macidbase
    return make(agent_decisions_num=tuple(spec["ds"]), agent_utilities_num=tuple(spec["us"]), **kw)


def check_diagram(spec, note):
    seed(spec)
    try:
        model = draw(spec)
    except ValueError as e:
        require("constraints" in str(e), "unexpected ValueError: %s", e)
        note.seen("constraints not met")
        return
    judge(spec, model, note)


def judge(spec, model, note):
    cls = {"cid": CID, "macid": MACID, "base": MACIDBase}[spec["kind"]]
    require(type(model) is cls, "a %s instead of a %s", type(model).__name__, cls.__name__)
    s = spec_of(model)
    check_shape(s, spec["n"], spec["density"], spec["max_in"], exact=not spec["recall"])
    ds = [len(s["decisions"].get(a, [])) for a in range(len(spec["ds"]))]
    us = [len(s["utilities"].get(a, [])) for a in range(len(spec["us"]))]
    require(ds == spec["ds"] and us == spec["us"], "numbers of decisions %r and utilities %r, expected %r and %r", ds, us,
            spec["ds"], spec["us"])
    require(set(model.agents) == set(range(len(spec["ds"]))), "agents %r", list(model.agents))
    decs, utils = oracle.all_decisions(s), oracle.all_utilities(s)
    require(len(set(decs + utils)) == len(decs + utils) and set(decs + utils) <= set(s["nodes"]),
            "decisions %r and utilities %r of the nodes %r", decs, utils, s["nodes"])
    require(set(model.decisions) == set(decs) and set(model.utilities) == set(utils), "roles")
    for u in utils:
        require(not any(u in p for p in s["parents"].values()), "the utility %r has children", u)
    for a, x in s["decisions"].items():
        for d in x:
            require(set(s["utilities"][a]) & oracle.descendants(s["nodes"], s["parents"], d),
                    "the decision %r has no utility of its agent downstream", d)
    if spec["recall"]:
        for a in s["decisions"]:
            require(oracle.sufficient_recall(s, a), "agent %r has no sufficient recall: %r", a, sorted(model.edges))
        if any(d > 1 for d in spec["ds"]):
            note.hit("several decisions with recall")
    if spec["cpds"]:
        for v in s["nodes"]:
            cpd = model.get_cpds(v)
            require(cpd is not None, "%r has no distribution", v)
            require(isinstance(cpd, DecisionDomain) == (v in decs), "the distribution of %r is a %s", v,
                    type(cpd).__name__)
            require(len(model.model.domain[v]) == 2, "domain of %r: %r", v, model.model.domain[v])
            values = np.asarray(cpd.values, dtype=float)
            require(np.all(values >= 0) and np.allclose(values.sum(axis=0), 1), "distribution of %r: %r", v,
                    values.tolist())
        for d in decs:
            model.impute_random_decision(d)
        if utils:
            model.expected_value([utils[0]], {})
        note.hit("with distributions")
    else:
        require(not list(model.model), "distributions %r, although none were requested", list(model.model))
    note.seen(spec["kind"])
    if len(spec["ds"]) > 1:
        note.hit("several agents")


def gen_easy(src):
    """requirements that a few attempts meet: an error is not acceptable"""
    kind = src.pick(["base", "cid", "macid"])
    agents = 1 if kind == "cid" else src.int(1, 2)
    ds = [src.int(1, 2) for _ in range(agents)]
    us = [1] * agents
    return {"kind": kind, "n": 2 * sum(ds) + sum(us) + 2, "ds": ds, "us": us, "cpds": False, "recall": src.bool(),
            "density": src.pick([0.2, 0.3, 0.4]), "max_in": src.int(4, 6), "attempts": 2000, "seed": src.int(0, 10 ** 6)}


def check_easy(spec, note):
    seed(spec)
    judge(spec, draw(spec), note)
    note.hit("delivered")


def gen_many(src):
    return {"kind": src.pick(["cid", "macid"]), "low": src.int(6, 8), "more": src.int(0, 2), "ds": src.int(1, 2),
            "us": src.int(1, 2), "n": src.int(1, 3), "recall": src.bool(2, 3), "cpds": src.bool(),
            "density": src.pick([0.3, 0.4]), "seed": src.int(0, 10 ** 6)}


def check_many(spec, note):
    try:
        deliver_many(spec, note)
    except ValueError as e:
        require("constraints" in str(e), "unexpected ValueError: %s", e)
        note.seen("constraints not met")


def deliver_many(spec, note):
    seed(spec)
    lo, hi = spec["low"], spec["low"] + spec["more"]
    if spec["kind"] == "cid":
        models = random_cids(total_nodes_range=(lo, hi), num_decs_range=(1, spec["ds"]), num_utils_range=(1, spec["us"]),
                             add_cpds=spec["cpds"], sufficient_recall=spec["recall"], edge_density=spec["density"],
                             n_cids=spec["n"])
    else:
        models = random_macids(total_nodes_range=(lo + 6, hi + 6), num_decs_range=(1, spec["ds"] + 1),
                               num_utils_range=(1, spec["us"] + 1), add_cpds=spec["cpds"],
                               sufficient_recall=spec["recall"], edge_density=spec["density"], n_macids=spec["n"])
        lo, hi = lo + 6, hi + 6
    require(len(models) == spec["n"], "%d models instead of %d", len(models), spec["n"])
    for m in models:
        require(type(m) is (CID if spec["kind"] == "cid" else MACID), "a %s", type(m).__name__)
        s = spec_of(m)
        require(lo <= len(s["nodes"]) <= hi, "%d nodes", len(s["nodes"]))
        if spec["kind"] == "cid":
            require(1 <= len(m.decisions) <= spec["ds"] and 1 <= len(m.utilities) <= spec["us"], "%d decisions, %d "
                    "utilities", len(m.decisions), len(m.utilities))
        else:
            require(1 <= len(m.agents) <= 3, "agents %r", list(m.agents))
            for a in m.agents:  # whether the upper bound is included is not documented
                require(1 <= len(m.agent_decisions[a]) <= spec["ds"] + 1 and
                        1 <= len(m.agent_utilities[a]) <= spec["us"] + 1, "roles %r %r", m.agent_decisions,
                        m.agent_utilities)
        if spec["recall"]:
            require(all(oracle.sufficient_recall(s, a) for a in s["decisions"]), "no sufficient recall: %r",
                    sorted(m.edges))
        require(bool(m.get_cpds()) == spec["cpds"], "distributions: %r", m.get_cpds())
    note.hit("%d models" % len(models))


def gen_cpd(src):
    dom = src.pick([None, [0, 1], ["a", "b", "c"], [3, 1, 2], [0], [0, 1, 2, 3, 4]])
    names = src.sample(["A", "B", "C", "X_1", "D^0_1"], src.int(0, 3))
    return {"dom": dom, "smooth": src.pick([1.0, 0.1, 10.0]), "seed": src.int(0, 5) if src.bool() else src.int(0, 2 ** 31),
            "context": [[v, src.pick([0, 1, "a", -1])] for v in names],
            "other": [[v, src.pick([0, 1, "a", -1])] for v in names], "np": src.int(0, 10 ** 6)}


def check_cpd(spec, note):
    dom = spec["dom"]
    make = lambda **kw: RandomCPD(domain=dom, smoothness=spec["smooth"], **kw)  # noqa
    random.seed(spec["np"])
    np.random.seed(spec["np"])
    if spec["np"] % 3:  # anywhere in the random sequence, not just at the start of it
        random.random(), np.random.rand(spec["np"] % 7), np.random.normal()
    cpd = make(seed=spec["seed"])
    context = dict(spec["context"])
    before = random.getstate(), np.random.get_state()
    got = dict(cpd(**context))
    after = random.getstate(), np.random.get_state()
    require(before[0] == after[0] and all(np.array_equal(x, y) for x, y in zip(before[1], after[1])),
            "the call changes the global random state")
    require(set(got) == set(dom or [0, 1]), "outcomes %r for the domain %r", sorted(got, key=repr), dom)
    require(all(p >= 0 for p in got.values()) and abs(sum(got.values()) - 1) < 1e-9, "probabilities %r", got)
    np.random.seed(spec["np"] + 1)
    for again in (cpd, make(seed=spec["seed"])):
        require(dict(again(**context)) == got, "another answer for the same seed and context")
        require(dict(again(**dict(reversed(spec["context"])))) == got, "the answer depends on the order of the arguments")
    if len(got) > 1:
        require(dict(make(seed=spec["seed"] + 1)(**context)) != got, "the same distribution for another seed")
        if spec["context"] != spec["other"]:
            require(dict(cpd(**dict(spec["other"]))) != got, "the same distribution for another context")
            note.hit("contexts")
        np.random.seed(spec["np"])
        a, b = make(), make()
        np.random.seed(spec["np"])
        require(dict(make()(**context)) == dict(a(**context)), "without a seed, numpy's seed does not determine the "
                "distribution")
        del b


def gen_smooth(src):
    return {"seed": src.int(0, 10 ** 6), "card": src.int(2, 4)}


def check_smooth(spec, note):
    dom = list(range(spec["card"]))
    rough = [max(RandomCPD(dom, 0.001, seed=spec["seed"] + i)(X=i).values()) for i in range(30)]
    smooth = [max(RandomCPD(dom, 1000.0, seed=spec["seed"] + i)(X=i).values()) for i in range(30)]
    require(sum(p > 0.95 for p in rough) >= 25, "smoothness 0.001 gives the maximal probabilities %r", rough)
    require(all(abs(p - 1 / len(dom)) < 0.2 for p in smooth), "smoothness 1000 gives the maximal probabilities %r", smooth)
    first = [dict(RandomCPD(dom, 1.0, seed=spec["seed"] + i)(X=0)) for i in range(60)]
    for o in dom:
        mean = sum(d[o] for d in first) / len(first)
        require(abs(mean - 1 / len(dom)) < 0.3, "the mean probability of %r over 60 seeds is %r", o, mean)
    note.hit("smoothness")


PARTS = [
    Part("dags", gen_dag, check_dag, 3000, 60000,
         "1-14 nodes, any density, in-degree 1-6; non-trivial = denser than a tree or limited by the in-degree"),
    Part("diagrams", gen_diagram, check_diagram, 3000, 40000,
         "CIDs, MACIDs and MACIDBases with 1-3 agents; non-trivial = delivered with several agents, distributions or "
         "recall of several decisions"),
    Part("easy", gen_easy, check_easy, 800, 8000, "requirements that are easily met; non-trivial = delivered"),
    Part("lists", gen_many, check_many, 400, 3000, "random_cids and random_macids; non-trivial = delivered"),
    Part("distributions", gen_cpd, check_cpd, 1600, 30000, "random distributions; non-trivial = two different contexts"),
    Part("smoothness", gen_smooth, check_smooth, 160, 1000, "concentration for small, uniformity for large smoothness"),
]

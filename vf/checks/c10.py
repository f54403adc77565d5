"""Optimal policies are exactly the pure policies of maximal utility."""
import itertools

from vf import oracle
from vf.build import build
from vf.checks.c09 import as_rule
from vf.core import expect_raises, require
from vf.gen import components, gen_macid
from vf.worker import Part

ASSUMPTIONS = [
    "At most 200 policies.  Policies within 3 * rel_tol (default 1e-9) of the maximum may or may not be returned "
    "unless they are within 1e-11 of it.",
    "If an open decision outside the given ones is strategically relevant to them, a ValueError is expected.",
    "The utilities of the agent lie in one connected component (expected_utility rejects others by design).",
]


def gen(src):
    spec = gen_macid(src, cls=src.pick(["CID", "CID", "MACID", "MACIDBase"]), max_nodes=6, n_decisions=(1, 3),
                     policies=src.pick([0, 1, 1, 2]), connected=src.bool(7, 8), max_rules=64)
    agents = [a for a in spec["decisions"] if spec["decisions"][a] and spec["utilities"].get(a)]
    spec["agent"] = src.pick(agents) if agents else None
    if agents:
        ds = src.shuffle(spec["decisions"][spec["agent"]])
        spec["ask"] = ds[:src.int(1, len(ds))] if src.bool(1, 3) else ds
    # utilities with values that tie
    if src.bool(1, 2):
        for us in spec["utilities"].values():
            for u in us:
                if 1 < len(spec["dom"][u]) <= 3 and src.bool():
                    n = len(spec["dom"][u])
                    base = src.pick([[-1, 0, 1], [-0.1, 0.1, 0.2], [0, 1, 2], [-0.3, 0.1, 0.3]])
                    spec["dom"][u] = base[:n] if src.bool() else base[-n:]
    # utilities that differ by little compared with their size
    elif src.bool(1, 3):
        for us in spec["utilities"].values():
            for u in us:
                if 1 < len(spec["dom"][u]) <= 3 and src.bool(3, 4):
                    n = len(spec["dom"][u])
                    base = src.pick([[1000, 1000.1, 1000.2], [-50, -49.99, -49.98], [1, 1.00001, 1.00002],
                                     [0, 0.01, 5000], [-1e6, 1, 1.5], [1e-5, 2e-5, 3e-5]])
                    spec["dom"][u] = base[:n] if src.bool() else base[-n:]
    spec["container"] = src.pick(["list", "set", "tuple", "keys"])
    spec["few"] = src.bool(7, 8)
    spec["rel_tol"] = src.pick([None, None, 1e-9, 1e-6])
    return spec


def contained(ds, how):
    return {"list": list, "set": set, "tuple": tuple, "keys": lambda x: dict.fromkeys(x).keys()}[how](ds)


def rows_of_others(spec, ask):
    """distributions of the decisions that are not asked about; None: depends on an open decision"""
    rows = dict(spec["rows"])
    relevant = False
    for d in oracle.all_decisions(spec):
        if d not in ask and rows[d] is None:
            rows[d] = oracle.uniform_rows(spec, d)
            relevant |= any(oracle.r_reachable(spec, a, d) for a in ask)
    return rows, relevant


def evaluate(spec, ask, rows):
    """[(tuple of rules, EU)] for all pure policies of `ask`"""
    v = oracle.Values(spec, spec["utilities"][spec["agent"]], ask, rows=rows)
    res = []
    for combo in itertools.product(*[list(oracle.decision_rules(spec, d)) for d in ask]):
        res.append((combo, v.value({d: oracle.rule_rows(spec, d, r) for d, r in zip(ask, combo)})))
    return res


def check(spec, note):
    if spec["agent"] is None:
        note.seen("no agent with decisions and utilities")
        return
    ask = list(spec["ask"])
    total = 1
    for d in ask:
        total *= oracle.count_rules(spec, d)
    us = spec["utilities"][spec["agent"]]
    comp = components(spec)
    if total > (200 if spec.get("few", True) else 800) or len({comp[u] for u in us}) > 1:
        note.seen("outside the bounds")
        return
    model = build(spec)
    rows, relevant = rows_of_others(spec, ask)
    kw = {} if spec["rel_tol"] is None else {"rel_tol": spec["rel_tol"]}
    try:
        policies = model.optimal_pure_policies(contained(ask, spec["container"]), **kw)
    except ValueError:
        if relevant:
            note.hit("depends on another open decision: rejected")
            return
        raise
    require(not relevant, "optimal_pure_policies(%r) returns an answer although it depends on a decision without policy",
            ask)
    compare(spec, model, ask, rows, policies, note, "optimal_pure_policies(%r)" % ask)
    if len(ask) == 1:
        rules = model.optimal_pure_decision_rules(ask[0])
        compare(spec, model, ask, rows, [(r,) for r in rules], note, "optimal_pure_decision_rules(%r)" % ask[0])
    if spec["kind"] == "CID" and set(ask) == set(spec["decisions"][0]):
        compare(spec, model, ask, rows, model.optimal_policies(), note, "optimal_policies()")
    # the others are rejected
    for other in oracle.all_decisions(spec):
        if oracle.agent_of(spec, other) != spec["agent"]:
            expect_raises(ValueError, lambda: model.optimal_pure_policies(ask + [other]),
                          "optimal_pure_policies of %r, which belong to different agents", ask + [other])
            note.seen("different agents rejected")
            break
    require(model.optimal_pure_policies([]) == [], "optimal policies for no decisions")


def compare(spec, model, ask, rows, policies, note, what):
    us = spec["utilities"][spec["agent"]]
    values = evaluate(spec, ask, rows)
    best = max(v for _, v in values)
    scale = 1 + abs(best)
    # what may count as a tie, according to the documentation of rel_tol
    tie = 3 * (spec.get("rel_tol") or 1e-9) * abs(best) + 1e-11 * (1 + sum(max(map(abs, spec["dom"][u])) for u in us))
    got = {}
    for p in policies:
        require(sorted(c.variable for c in p) == sorted(ask), "%s has a policy for %r", what, [c.variable for c in p])
        by_name = {c.variable: c for c in p}
        k = tuple(as_rule(by_name[d], spec, model, d) for d in ask)
        require(repr(k) not in got, "%s has the policy %r twice", what, k)
        got[repr(k)] = p
    ties = 0
    for combo, v in values:
        if v >= best - 1e-11 * scale:
            ties += 1
            require(repr(combo) in got, "%s lacks the policy %r, which attains %r (the maximum)", what, combo, v)
        elif v < best - tie:
            require(repr(combo) not in got, "%s contains the policy %r, which attains %r, but the maximum is %r", what,
                    combo, v, best)
            note.hit("some policies are not optimal")
            if best - v < 1e-3 * abs(best):
                note.hit("some policies are nearly optimal")
    if ties > 1:
        note.seen("ties")
        if abs(best) < 1e-12:
            note.seen("ties at zero")
    m = model.copy()
    m.add_cpds(*policies[-1])
    for d in oracle.all_decisions(spec):
        if d not in ask and spec["rows"][d] is None:
            m.impute_random_decision(d)
    got = m.expected_utility({}, agent=spec["agent"])
    require(abs(got - best) <= tie + 1e-7 * scale, "%s: utility after adding an optimal policy: %r, expected %r", what, got,
            best)


def gen_cancelling(src):
    """expected utilities that cancel out to zero, up to rounding errors"""
    p = src.pick([[0.1, 0.9], [0.3, 0.7], [0.2, 0.8], [0.1, 0.2, 0.7], [0.3, 0.3, 0.4], [0.6, 0.1, 0.3]])
    k = src.int(2, 3)
    xs = list(range(len(p)))
    table = []
    for _ in range(k):
        c = [0.0] * len(p)
        if src.bool(4, 5):
            i, j = src._sample(xs, 2)
            f = src.pick([1, 3, 0.1, 0.7, 7])
            c[i] += f * p[j]
            c[j] -= f * p[i]
        else:
            c[src.pick(xs)] = -src.pick([0.5, 1, 2])
        table.append(c)
    dom = sorted({v for c in table for v in c} | {0.0})
    rows = [[1.0 if v == table[d][x] else 0.0 for v in dom] for x in xs for d in range(k)]
    parents = {"X": [], "D": [], "U": ["X", "D"]}
    edges = src.shuffle([["X", "U"], ["D", "U"]])
    return {"kind": src.pick(["CID", "MACID"]), "nodes": ["X", "D", "U"], "parents": parents, "agent": 0, "ask": ["D"],
            "dom": {"X": xs, "D": list(range(k)), "U": dom}, "rows": {"X": [p], "D": None, "U": rows},
            "cpd": {"X": {"kind": "dict"}, "D": {"kind": "domain"}, "U": {"kind": "func"}}, "edges": edges,
            "isolated": [], "add_order": ["X", "D", "U"], "decisions": {0: ["D"]}, "utilities": {0: ["U"]},
            "container": "list", "rel_tol": None}


PARTS = [
    Part("optimal", gen, check, 1000, 30000,
         "random (MA)CIDs, a subset of one agent's decisions, all policies evaluated by the reference; non-trivial = "
         "some policy is not optimal, or the question is rejected"),
    Part("cancelling", gen_cancelling, check, 800, 8000,
         "one decision whose expected utilities cancel out to zero up to rounding errors, so that ties have to be "
         "recognised at zero; non-trivial = some policy is not optimal"),
]

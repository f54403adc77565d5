"""Returned Nash equilibria are equilibria, and pure ones are complete."""
import itertools
import warnings

import numpy as np
from pycid import MACID

from vf import oracle
from vf.build import build
from vf.core import expect_raises, require
from vf.gen import components, gen_macid, gen_names
from vf.oracle import Net, Values
from vf.snap import rows
from vf.worker import Part

ASSUMPTIONS = [
    "Agents have perfect recall (each decision observes the agent's earlier decisions and what they observed); at most "
    "16 pure policies per agent and 400 profiles.",
    "Regret up to 1e-6 (exact solvers) or 2e-3 (simpdiv, gnm, which approximate) relative to the payoffs is "
    "tolerated.",
    "Completeness of pure equilibria is required where the best responses are clear by 1e-6 or tie exactly.",
    "Two-player games that are solved by default are required to have all equilibria returned that are isolated and in "
    "which every option that is not played loses clearly (all of them, if the game is not degenerate).",
    "All utilities of an agent lie in one connected component.",
    "The lp solver may reject a constant-sum game whose payoffs carry rounding errors.",
    "The ipa solver is only run on one fixed game (a known finding), as it may not return.",
]
EXACT = {None: 1e-6, "enumpure": 1e-6, "enummixed": 1e-6, "lcp": 1e-6, "lp": 1e-6}


def gen(src, n_agents=(1, 3), solvers=True):
    single = src.bool(1, 5) and n_agents[0] == 1
    spec = gen_macid(src, cls="MACID", max_nodes=6, min_nodes=3 if single else 4,
                     n_agents=(1, 1) if single else (max(2, n_agents[0]), n_agents[1]),
                     n_decisions=(1, 3) if single else (2, 3), n_utilities=(1, 3) if single else (2, 3), max_dec_parents=src.pick([1, 1, 2]), policies=src.pick([0, 0, 0, 1]), connected=src.bool(3, 4),
                     max_rules=16, max_parents=3)
    add_recall(src, spec)
    spec["solver"] = src.pick([None, None, "enumpure", "enummixed", "lcp", "simpdiv", "gnm"]) if solvers else \
        src.pick([None, "enumpure"])
    return spec


def add_recall(src, spec):
    """perfect recall, by adding observations"""
    order = spec["nodes"]
    for a, ds in spec["decisions"].items():
        ds = sorted(ds, key=order.index)
        for i, d in enumerate(ds):
            for e in ds[:i]:
                for x in [e] + spec["parents"][e]:
                    if x not in spec["parents"][d]:
                        spec["parents"][d].append(x)
                        spec["edges"].append([x, d])
    spec["isolated"] = [v for v in order if not any(v in e for e in spec["edges"])]
    for d in oracle.all_decisions(spec):
        if spec["rows"][d] is not None:
            n = 1
            for p in spec["parents"][d]:
                n *= len(spec["dom"][p])
            while len(spec["rows"][d]) < n:
                spec["rows"][d].append(list(src.pick(spec["rows"][d])))
            spec["rows"][d] = spec["rows"][d][:n]


def small(spec, per_agent=16, profiles=400, leaves=200):
    total = 1
    for a, ds in spec["decisions"].items():
        n = 1
        for d in ds:
            n *= oracle.count_rules(spec, d)
        if n > per_agent:
            return False
        total *= n
    tree = 1
    for v in {x for d in oracle.all_decisions(spec) for x in [d] + spec["parents"][d]}:
        tree *= len(spec["dom"][v])
    return total <= profiles and tree <= leaves


def one_component(spec):
    comp = components(spec)
    return all(len({comp[u] for u in us}) <= 1 for us in spec["utilities"].values())


def agents_with_decisions(spec):
    return [a for a, ds in spec["decisions"].items() if ds]


def policies(spec, agent, only=None):
    ds = [d for d in spec["decisions"][agent] if only is None or d in only]
    for combo in itertools.product(*[list(oracle.decision_rules(spec, d)) for d in ds]):
        yield {d: oracle.rule_rows(spec, d, r) for d, r in zip(ds, combo)}


def profile_rows(spec, model, cpds, decs, what):
    require(sorted(c.variable for c in cpds) == sorted(decs), "%s has rules for %r", what, [c.variable for c in cpds])
    res = {}
    for c in cpds:
        d = c.variable
        r = rows(c, spec["parents"][d], spec["dom"], domain=model.model.domain)
        require(np.all(r > -1e-9) and np.allclose(r.sum(axis=1), 1, atol=1e-6), "%s: the rule of %r is %r", what, d,
                r.tolist())
        res[d] = r
    return res


def regrets(spec, values, profile, only=None):
    """{agent: (gain by the best pure deviation, scale)}"""
    res = {}
    for a in agents_with_decisions(spec):
        here = values[a].value(profile)
        best = max(values[a].value(dict(profile, **p)) for p in policies(spec, a, only))
        res[a] = (best - here, 1 + max((abs(float(o)) for u in spec["utilities"].get(a, []) for o in spec["dom"][u]),
                                       default=0))
    return res


def check_sound(spec, note):
    if not small(spec) or not one_component(spec):
        note.seen("outside the bounds")
        return
    players = len(agents_with_decisions(spec))
    model = build(spec)
    decs = oracle.all_decisions(spec)
    solver = spec["solver"]
    if solver in ("simpdiv", "gnm") and any(len(spec["dom"][d]) == 1 for d in decs):
        solver = None
    if solver == "lp":
        us = [u for x in spec["utilities"].values() for u in x]
        if players != 2 or len(us) != 2:
            solver = None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if len(decs) == 2:
            expect_raises(ValueError, lambda: model.get_ne(solver="no such solver"), "get_ne with an unknown solver")
        try:
            ne = model.get_ne(solver=solver) if solver else model.get_ne()
        except RuntimeError as e:  # rounding errors in the payoffs are not recognised as constant
            require(solver == "lp" and "constant-sum" in str(e), "get_ne(%r): %s", solver, e)
            note.seen("rejected as not constant-sum")
            return
    values = {a: Values(spec, spec["utilities"].get(a, []), decs) for a in spec["decisions"]}
    judge(spec, model, ne, values, decs, solver, note, "get_ne(%r)" % solver)
    if solver is None or (solver in ("enummixed", "lcp") and players == 2):
        require(len(ne) > 0, "get_ne(%r) returns no equilibrium", solver)
    note.seen("solver %s, %d players" % (solver, players))


def judge(spec, model, ne, values, decs, solver, note, what):
    effective = solver
    if solver in ("lcp", "lp", "enummixed") and len(agents_with_decisions(spec)) != 2:
        effective = None
    tol = EXACT.get(effective, 2e-3)
    if effective is None and len(agents_with_decisions(spec)) != 2:
        tol = 2e-3 if any(np.any((r > 1e-9) & (r < 1 - 1e-9)) for p in ne for c in p for r in [c.values]) else 1e-6
    for cpds in ne:
        profile = profile_rows(spec, model, cpds, decs, what)
        for a, (gain, scale) in regrets(spec, values, profile).items():
            require(gain <= tol * scale, "%s returns %r, from which %r gains %r by deviating", what,
                    {d: np.round(r, 6).tolist() for d, r in profile.items()}, a, gain)
        worst = {a: min(values[a].value(dict(profile, **p)) for p in policies(spec, a)) for a in
                 agents_with_decisions(spec)}
        if any(worst[a] < values[a].value(profile) - 1e-9 for a in worst):
            note.hit("an equilibrium that restricts its players")
        if any(np.any((r > 1e-6) & (r < 1 - 1e-6)) for r in profile.values()):
            note.seen("mixed equilibrium")


def check_pure(spec, note):
    if not small(spec) or not one_component(spec):
        note.seen("outside the bounds")
        return
    model = build(spec)
    decs = oracle.all_decisions(spec)
    agents = agents_with_decisions(spec)
    values = {a: Values(spec, spec["utilities"].get(a, []), decs) for a in spec["decisions"]}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        solver = spec["solver"] if len(agents) != 2 else "enumpure"
        ne = model.get_ne(solver=solver) if solver else model.get_ne()
    judge(spec, model, ne, values, decs, solver, note, "get_ne(%r)" % solver)
    found = [profile_rows(spec, model, cpds, decs, "get_ne(%r)" % solver) for cpds in ne]
    # all pure profiles
    options = {a: list(policies(spec, a)) for a in agents}
    n = 0
    for combo in itertools.product(*[options[a] for a in agents]):
        profile = {}
        for p in combo:
            profile.update(p)
        if not clear_equilibrium(spec, values, profile, agents, options):
            continue
        n += 1
        mask = relevant_contexts(spec, profile)
        require(any(all(np.allclose(f[d][mask[d]], np.array(profile[d])[mask[d]], atol=1e-6) for d in decs)
                    for f in found),
                "the pure equilibrium %r is missing among the %d returned by get_ne(%r)", profile, len(found), solver)
    if n:
        note.hit("pure equilibria" + (" (several)" if n > 1 else ""))
    if len(found) and n == 0:
        note.seen("only unclear equilibria")
    if not found:
        require(solver is not None, "get_ne() returns no equilibrium")
        note.hit("no pure equilibrium")


def relevant_contexts(spec, profile):
    """per decision, the contexts that its agent's own policy does not exclude (others and earlier chance mixed)"""
    mask = {}
    for d in profile:
        a = oracle.agent_of(spec, d)
        mixed = {e: (profile[e] if oracle.agent_of(spec, e) == a and e != d else oracle.uniform_rows(spec, e))
                 for e in profile}
        net = Net.of(spec).with_rows(mixed)
        mask[d] = np.array([net.prob(c) > 1e-12 for c in oracle.contexts(spec, d)])
    return mask


def clear_equilibrium(spec, values, profile, agents, options):
    """no deviation gains; those that do not lose clearly differ only where they have no effect"""
    net = None
    for a in agents:
        here = values[a].value(profile)
        for p in options[a]:
            other = dict(profile, **p)
            gain = values[a].value(other) - here
            if gain > 1e-9:
                return False
            if gain > -1e-6 and p != {d: profile[d] for d in p}:
                if net is None:
                    net = Net.of(spec).with_rows(profile).joint()
                changed = Net.of(spec).with_rows(other).joint()
                if np.any(changed != net) and not deterministic(spec):
                    return False
    return True


def deterministic(spec):
    return all(p in (0.0, 1.0) for v, r in spec["rows"].items() if v not in oracle.all_decisions(spec) for x in r
               for p in x)


def gen_pure(src):
    spec = gen(src, solvers=False)
    if src.bool(1, 2):  # deterministic, so that ties are exact
        decs = oracle.all_decisions(spec)
        for v in spec["nodes"]:
            if v in decs:
                continue
            det = []
            for r in spec["rows"][v]:
                i = r.index(max(r))
                det.append([1.0 if j == i else 0.0 for j in range(len(r))])
            spec["rows"][v] = det
            if spec["cpd"][v]["kind"] == "funcval":
                spec["cpd"][v]["kind"] = "object"
    return spec


def gen_zero_sum(src):
    """two players with opposite utilities"""
    spec = gen(src, n_agents=(2, 2), solvers=False)
    labels = list(spec["decisions"])
    decs = [d for d in spec["nodes"] if d in oracle.all_decisions(spec)]
    us = [u for u in spec["nodes"] if u in oracle.all_utilities(spec)]
    last = [u for u in us if not any(u in spec["parents"][v] for v in spec["nodes"])]
    spec["solver"] = src.pick(["lp", "lp", "lcp", None])
    if len(decs) < 2 or not last or len(labels) < 2:
        spec["usable"] = False
        return spec
    u = last[-1]
    spec["usable"] = True
    for d in decs:
        if d not in spec["parents"][u] and len(spec["parents"][u]) < 4 and spec["nodes"].index(d) < \
                spec["nodes"].index(u):
            spec["parents"][u].append(d)
            spec["edges"].append([d, u])
    n = 1
    for p in spec["parents"][u]:
        n *= len(spec["dom"][p])
    k = len(spec["dom"][u])
    spec["rows"][u] = [[1.0 if i == j else 0.0 for i in range(k)] for j in [src.int(0, k - 1) for _ in range(n)]]
    spec["cpd"][u] = {"kind": "object", "perm": list(range(len(spec["parents"][u])))}
    mirror = "Mirror"
    spec["nodes"] = spec["nodes"] + [mirror]
    spec["parents"][mirror] = [u]
    spec["dom"][mirror] = sorted(-x for x in spec["dom"][u])
    spec["rows"][mirror] = [[1.0 if y == -x else 0.0 for y in spec["dom"][mirror]] for x in spec["dom"][u]]
    spec["cpd"][mirror] = {"kind": "func"}
    spec["edges"].append([u, mirror])
    spec["add_order"] = spec["add_order"] + [mirror]
    spec["utilities"] = {labels[0]: [u], labels[1]: [mirror]}
    for v in us:
        if v != u:  # these become chance nodes
            pass
    spec["isolated"] = [v for v in spec["nodes"] if not any(v in e for e in spec["edges"])]
    return spec


def check_zero_sum(spec, note):
    if not spec["usable"]:
        note.seen("outside the bounds")
        return
    check_sound(spec, note)


def gen_matrix(src):
    """two players who choose at the same time, from 2 or 3 options, sometimes up to 5; payoffs may depend on a chance
    node as well"""
    most = src.pick([3, 3, 3, 3, 3, 5])
    size = [src.int(2, most), src.int(2, most)]
    states = src.pick([1, 1, 2])
    top = src.pick([1, 2, 4, 30])
    doms = [src.sample([0, 1, 2, 5, -3, 9], k) if src.bool(1, 3) else list(range(k)) for k in size]
    pay = [[[[src.int(-top, top) for _ in range(states)] for _ in range(size[1])] for _ in range(size[0])]
           for _ in range(2)]
    return {"names": gen_names(src, 5), "labels": src.pick([[0, 1], [2, 1], ["b", "a"]]), "doms": doms, "pay": pay,
            "p": src.pick([0.5, 0.25]), "states": states, "order": src.bool(), "solver": src.pick([None, None, "enummixed"]),
            "whole": src.bool(), "spe": src.bool()}


def matrix_model(spec):
    d1, d2, u1, u2, c = spec["names"]
    a1, a2 = spec["labels"]
    states = spec["states"]
    edges = [(d1, u1), (d2, u1), (d2, u2), (d1, u2)] + ([(c, u1), (c, u2)] if states > 1 else [])
    roles = [(a1, d1, u1), (a2, d2, u2)]
    if spec["order"]:
        edges, roles = edges[::-1], roles[::-1]
    m = MACID(edges, agent_decisions={a: [d] for a, d, _ in roles}, agent_utilities={a: [u] for a, _, u in roles})

    def payoff(i):
        table = {}
        for x, row in zip(spec["doms"][0], spec["pay"][i]):
            for y, cell in zip(spec["doms"][1], row):
                for z, v in enumerate(cell):
                    table[x, y, z] = v

        def value(**pv):
            return table[pv[d1], pv[d2], pv.get(c, 0)]

        return value

    m.add_cpds(**{d1: list(spec["doms"][0]), d2: list(spec["doms"][1]), u1: payoff(0), u2: payoff(1)})
    if states > 1:
        m.add_cpds(**{c: {0: 1 - spec["p"], 1: spec["p"]}})
    return m


def solve_support(matrix, mine, other):
    """the mixture over the columns `other` that makes the rows `mine` equally good, and their value"""
    k = len(other)
    lhs = np.zeros((len(mine) + 1, k + 1))
    lhs[:-1, :k] = matrix[np.ix_(mine, other)]
    lhs[:-1, k] = -1
    lhs[-1, :k] = 1
    rhs = np.zeros(len(mine) + 1)
    rhs[-1] = 1
    if abs(np.linalg.det(lhs)) < 1e-6:
        return None
    return np.linalg.solve(lhs, rhs)


def regular_equilibria(a, b):
    """the equilibria of a bimatrix game that are isolated and whose players lose by all other options"""
    n, m = a.shape
    for k in range(1, min(n, m) + 1):
        for rows_ in itertools.combinations(range(n), k):
            for cols in itertools.combinations(range(m), k):
                y = solve_support(a, rows_, cols)
                x = solve_support(b.T, cols, rows_)
                if x is None or y is None or min(x[:k]) < 1e-3 or min(y[:k]) < 1e-3:
                    continue
                full_x, full_y = np.zeros(n), np.zeros(m)
                full_x[list(rows_)], full_y[list(cols)] = x[:k], y[:k]
                worse_a = [y[k] - v for i, v in enumerate(a @ full_y) if i not in rows_]
                worse_b = [x[k] - v for j, v in enumerate(full_x @ b) if j not in cols]
                if all(w > 1e-3 for w in worse_a + worse_b):
                    yield full_x, full_y


def check_matrix(spec, note):
    m = matrix_model(spec)
    weights = np.array([1.0] if spec["states"] == 1 else [1 - spec["p"], spec["p"]])
    a, b = [np.array(spec["pay"][i], dtype=float) @ weights for i in range(2)]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if spec["solver"]:
            ne = m.get_ne(solver=spec["solver"])
        elif spec["whole"]:
            ne = m.get_spe() if spec["spe"] else m.get_ne_in_sg()
        else:
            ne = m.get_ne()
    found = []
    for cpds in ne:
        rules = {c.variable: np.asarray(c.get_values(), dtype=float).ravel() for c in cpds}
        require(set(rules) == set(spec["names"][:2]), "an equilibrium with rules for %r", sorted(rules))
        for i in (0, 1):
            c = [c for c in cpds if c.variable == spec["names"][i]][0]
            order = [c.state_names[c.variable].index(o) for o in spec["doms"][i]]
            rules[i] = rules[spec["names"][i]][order]
        x, y = rules[0], rules[1]
        require(max((a @ y)) - x @ a @ y < 1e-5 and max(x @ b) - x @ b @ y < 1e-5,
                "%r is returned as an equilibrium of %r, %r", (x.tolist(), y.tolist()), a.tolist(), b.tolist())
        found.append((x, y))
    n = 0
    for x, y in regular_equilibria(a, b):
        n += 1
        require(any(np.allclose(x, f, atol=1e-4) and np.allclose(y, g, atol=1e-4) for f, g in found),
                "the equilibrium %r of %r, %r is missing among the %d returned", (x.tolist(), y.tolist()), a.tolist(),
                b.tolist(), len(found))
        if max(x) < 1:
            note.hit("a mixed equilibrium is found")
    if n > 1:
        note.hit("several isolated equilibria")


def gen_ipa(src):
    return {"solver": "ipa"}


def check_ipa(spec, note):
    """one fixed game: two independent agents, each of which should choose 1"""
    model = MACID([("D1", "U1"), ("D2", "U2"), ("D1", "U2")], agent_decisions={1: ["D1"], 2: ["D2"]},
                  agent_utilities={1: ["U1"], 2: ["U2"]})
    model.add_cpds(D1=[0, 1], D2=[0, 1], U1=lambda D1: D1, U2=lambda D1, D2: D2 * (1 + D1))
    for cpds in model.get_ne(solver="ipa"):
        rules = {c.variable: np.asarray(c.values).reshape(2, -1) for c in cpds}
        note.hit("an answer")
        require(rules["D1"][1].min() > 0.99 and rules["D2"][1].min() > 0.99,
                "get_ne('ipa') returns %r, but 1 is the only best choice", {d: r.tolist() for d, r in rules.items()})


def known_finding(part, spec, message):
    if part == "ipa" and message.startswith("get_ne('ipa') returns"):
        return "ipa"
    return None


PARTS = [
    Part("ipa", gen_ipa, check_ipa, 8, 8, "one fixed game, solved with ipa"),
    Part("solvers", gen, check_sound, 1200, 30000,
         "random MACIDs with perfect recall, 1-3 players, one solver each; non-trivial = an equilibrium from which some "
         "deviation loses"),
    Part("zero-sum", gen_zero_sum, check_zero_sum, 600, 10000,
         "two players with opposite utilities, also with the lp solver; non-trivial as above"),
    Part("matrix", gen_matrix, check_matrix, 1000, 30000,
         "two players who choose at the same time, compared with support enumeration; non-trivial = isolated mixed "
         "equilibria or several equilibria"),
    Part("pure", gen_pure, check_pure, 1200, 30000,
         "as above, all pure profiles enumerated by the reference; non-trivial = there are pure equilibria, or none"),
]

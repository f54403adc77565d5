"""Subgame perfect equilibria are equilibria in every subgame."""
import itertools
import warnings

import numpy as np

from vf import oracle
from vf.build import build
from vf.checks import c13, c14
from vf.core import require
from vf.gen import LABELS, gen_cpd, gen_names, gen_orders
from vf.oracle import Net, Values
from vf.worker import Part

ASSUMPTIONS = [
    "Agents have perfect recall; at most 16 pure policies per agent and 400 profiles; all utilities of an agent lie in one "
    "connected component.",
    "A subgame is a set of decisions closed under strategic relevance; the decisions outside are played uniformly.",
    "Regret up to 1e-6 (exact solvers) or 2e-3 (simpdiv, gnm, which approximate) relative to the payoffs is tolerated.",
    "Completeness is required of pure equilibria if every component of the relevance graph is a single decision.",
]


def gen(src):
    spec = c14.gen(src)
    if spec["solver"] == "lcp":
        spec["solver"] = None
    decs = oracle.all_decisions(spec)
    for d in decs:  # most equilibria are sought from scratch
        if spec["rows"][d] is not None and src.bool(2, 3):
            spec["rows"][d] = None
            spec["cpd"][d] = {"kind": "domain"}
    return spec


def gen_staged(src):
    """two agents choose at the same time, others before or after them: components of several decisions among others"""
    names = gen_names(src, 8)
    n_before, n_after = src.pick([(0, 1), (0, 1), (0, 2), (1, 1), (1, 0)])
    decs = names[:n_before + 2 + n_after]
    labels = src.pick(LABELS)
    agents = [labels[0], labels[1]]
    owner = {}
    for i, d in enumerate(decs):
        owner[d] = agents[i - n_before] if n_before <= i < n_before + 2 else src.pick(labels[:4])
    used = [a for a in labels if a in owner.values()]
    utils = names[len(decs):len(decs) + len(used)] if len(decs) + len(used) <= len(names) else None
    if utils is None:
        utils = ["util%d" % i for i in range(len(used))]
    parents = {}
    for i, d in enumerate(decs):
        together = n_before <= i < n_before + 2
        earlier = decs[:n_before] if together else decs[:i]
        parents[d] = src.sample(earlier, min(len(earlier), src.int(0, 2)))
        for e in earlier:  # perfect recall
            if owner[e] == owner[d]:
                parents[d] += [x for x in parents[e] + [e] if x not in parents[d] and x != d]
        parents[d] = list(dict.fromkeys(parents[d]))
    for a, u in zip(used, utils):
        own = [d for d in decs if owner[d] == a]
        others = src.sample([d for d in decs if d not in own], src.int(1, 2))
        parents[u] = src.shuffle(own[:2] + others)[:4]
    spec = {"kind": "MACID", "nodes": decs + utils, "dom": {}, "rows": {}, "cpd": {}, "parents": parents,
            "decisions": {a: [d for d in decs if owner[d] == a] for a in used},
            "utilities": {a: [u] for a, u in zip(used, utils)}}
    for d in decs:
        spec["dom"][d], spec["rows"][d], spec["cpd"][d] = src.pick([[0, 1], [1, 0], ["a", "b"]]), None, {"kind": "domain"}
    for u in utils:
        gen_cpd(src, spec, u, util=True, wide=False, kinds=["func", "named", "funcval", "table_named"])
    gen_orders(src, spec)
    spec["solver"] = src.pick([None, None, "enumpure", "enummixed"])
    return spec


def closed_sets(comps, closure):
    for k in range(1, len(comps) + 1):
        for combo in itertools.combinations(sorted(comps, key=sorted), k):
            union = frozenset().union(*combo)
            if all(closure[d] <= union for d in union):
                yield union


def usable(spec, note):
    if not c14.small(spec) or not c14.one_component(spec):
        note.seen("outside the bounds")
        return False
    return True


def solve(spec, solver):
    model = build(spec)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return model, (model.get_spe(solver=solver) if solver else model.get_spe())


def tolerance(spes, solver):
    if solver in ("simpdiv", "gnm"):
        return 2e-3
    mixed = any(np.any((c.values > 1e-9) & (c.values < 1 - 1e-9)) for p in spes for c in p)
    return 2e-3 if mixed else 1e-6  # mixed ones may come from simpdiv


def judge(spec, profile, decs, values, sets, tol, note, what):
    """no agent gains by changing its rules in a subgame"""
    for s in sets:
        outside = {d: oracle.uniform_rows(spec, d) for d in decs if d not in s}
        here = dict({d: profile[d] for d in s}, **outside)
        for a in c14.agents_with_decisions(spec):
            if not any(d in s for d in spec["decisions"][a]):
                continue
            v = values[a].value(here)
            scale = 1 + max((abs(float(o)) for u in spec["utilities"].get(a, []) for o in spec["dom"][u]), default=0)
            options = [values[a].value(dict(here, **p)) for p in c14.policies(spec, a, only=s)]
            require(max(options) <= v + tol * scale, "%s returns %r, but in the subgame of %r agent %r gains %r by "
                    "deviating", what, {d: np.round(r, 6).tolist() for d, r in profile.items()}, sorted(s), a,
                    max(options) - v)
            if min(options) < v - 1e-9:
                note.hit("a subgame that restricts its players" if len(s) < len(decs) else
                         "a game that restricts its players", nontrivial=len(s) < len(decs))


def check(spec, note):
    if not usable(spec, note):
        return
    solver = spec["solver"]
    decs, edges, closure, comps = c13.components(spec)
    if solver in ("simpdiv", "gnm") and any(len(spec["dom"][d]) == 1 for d in decs):
        solver = None
    model, spes = solve(spec, solver)
    if solver is None:
        require(len(spes) > 0, "get_spe() returns no equilibrium")
    values = {a: Values(spec, spec["utilities"].get(a, []), decs) for a in spec["decisions"]}
    sets = list(closed_sets(comps, closure))
    tol = tolerance(spes, solver)
    for cpds in spes[:20]:
        profile = c14.profile_rows(spec, model, cpds, decs, "get_spe(%r)" % solver)
        judge(spec, profile, decs, values, sets, tol, note, "get_spe(%r)" % solver)
    note.seen("%d subgames" % len(sets))
    if any(len(c) > 1 for c in comps):
        note.seen("cyclic component")
    # the equilibria of single subgames, which start from the uniform policy outside or the given one
    if solver in (None, "enumpure", "enummixed"):
        for s in sets[:-1][:2]:
            given = {d: spec["rows"][d] if spec["rows"][d] is not None else oracle.uniform_rows(spec, d) for d in decs
                     if d not in s}
            if any(spec["rows"][d] is not None for d in decs):
                continue
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                nes = model.get_ne_in_sg(decisions_in_sg=sorted(s), solver=solver)
            if solver is None:
                require(len(nes) > 0, "get_ne_in_sg(%r) returns no equilibrium", sorted(s))
            for cpds in nes[:10]:
                part = c14.profile_rows(spec, model, cpds, sorted(s), "get_ne_in_sg(%r)" % sorted(s))
                judge(spec, dict(given, **part), decs, values, [s], tolerance(nes, solver), note,
                      "get_ne_in_sg(%r)" % sorted(s))
                note.seen("equilibria of one subgame")


def gen_pure(src):
    spec = c14.gen_pure(src)
    spec["solver"] = "enumpure"
    return spec


def check_pure(spec, note):
    """every pure subgame perfect equilibrium is among those found by enumeration"""
    if not usable(spec, note):
        return
    decs, edges, closure, comps = c13.components(spec)
    if any(len(c) > 1 for c in comps):
        note.seen("cyclic component")
        return
    model, spes = solve(spec, "enumpure")
    require(len(spes) > 0, "no equilibrium, although every component is a single decision")
    values = {a: Values(spec, spec["utilities"].get(a, []), decs) for a in spec["decisions"]}
    sets = list(closed_sets(comps, closure))
    found = [c14.profile_rows(spec, model, cpds, decs, "get_spe('enumpure')") for cpds in spes]
    for profile in found[:20]:
        judge(spec, profile, decs, values, sets, 1e-6, note, "get_spe('enumpure')")
    agents = c14.agents_with_decisions(spec)
    n = 0
    for combo in itertools.product(*[list(c14.policies(spec, a)) for a in agents]):
        profile = {}
        for p in combo:
            profile.update(p)
        state = clear(spec, profile, decs, values, sets)
        if not state:
            continue
        n += 1
        possible = {}
        for d in decs:  # contexts that the rules of the decisions on which d relies do not exclude
            net = Net.of(spec).with_rows({e: profile[e] if e in closure[d] and e != d else oracle.uniform_rows(spec, e)
                                          for e in decs})
            possible[d] = np.array([net.prob(c) > 1e-12 for c in oracle.contexts(spec, d)])
        if not any(all(np.allclose(f[d][possible[d]], np.array(profile[d])[possible[d]], atol=1e-6) for d in decs)
                   for f in found):
            require(False, "the pure subgame perfect equilibrium %r is missing among the %d returned by "
                    "get_spe('enumpure')", profile, len(found))
    if n:
        note.hit("subgame perfect equilibria" + (" (several)" if n > 1 else ""), nontrivial=len(sets) > 1)


def clear(spec, profile, decs, values, sets):
    exact = c14.deterministic(spec)
    for s in sets:
        outside = {d: oracle.uniform_rows(spec, d) for d in decs if d not in s}
        here = dict({d: profile[d] for d in s}, **outside)
        for a in c14.agents_with_decisions(spec):
            v = values[a].value(here)
            for p in c14.policies(spec, a, only=s):
                gain = values[a].value(dict(here, **p)) - v
                if gain > 1e-9:
                    return False
                if gain > -1e-6 and not exact and any(p[d] != profile[d] for d in p):
                    return False
    return True


PARTS = [
    Part("equilibria", gen, check, 1000, 25000,
         "random MACIDs with perfect recall; every returned profile in every subgame, also equilibria of single subgames; "
         "non-trivial = a proper subgame in which some deviation loses"),
    Part("stages", gen_staged, check, 600, 20000,
         "two agents choose at the same time, others before or after; non-trivial as above"),
    Part("pure", gen_pure, check_pure, 800, 20000,
         "as above, all pure profiles enumerated by the reference; non-trivial = as above or several subgames with an "
         "equilibrium"),
]

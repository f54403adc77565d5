"""Solving a single-agent model attains the maximal expected utility."""
import itertools

import numpy as np

from vf import oracle
from vf.build import build
from vf.core import expect_raises, require, require_close
from vf.gen import components, gen_cpd, gen_macid, gen_names, gen_orders, gen_row, n_contexts
from vf.oracle import Net
from vf.snap import rows, table
from vf.worker import Part

ASSUMPTIONS = [
    "At most 1000 policies per model.",
    "Contexts of probability zero under the fully mixed policy are not judged.",
    "A RuntimeError that suggests to impute a random decision is allowed where the policies of other decisions exclude "
    "a decision context (by design: the best response is not determined there).",
    "Without sufficient recall, utilities in several connected components may be rejected (by design of "
    "expected_utility).",
]


def gen_solve(src):
    src.rare = src.bool(1, 5)
    spec = gen_macid(src, cls="CID", max_nodes=7, n_decisions=(1, 3), n_utilities=(1, 3), policies=src.pick([0, 0, 1, 2]),
                     connected=src.bool(3, 4), max_rules=64)
    # recall: mostly let decisions observe the earlier ones and what these observed
    if src.bool():
        decs = spec["decisions"][0]
        for i, d in enumerate(decs):
            for e in decs[:i]:
                for x in [e] + spec["parents"][e]:
                    if x not in spec["parents"][d] and len(spec["parents"][d]) < 3:
                        spec["parents"][d].append(x)
                        spec["edges"].append([x, d])
        spec["isolated"] = [v for v in spec["isolated"] if not any(v in e for e in spec["edges"])]
        for d in decs:
            if spec["rows"][d] is not None:
                spec["rows"][d] = [gen_row(src, len(spec["dom"][d]), False) for _ in range(n_contexts(spec, d))]
    spec["how"] = src.pick(["impute", "solve", "solve", "impute twice"])
    return spec


def gen_stages(src):
    """a process in stages: decisions that observe the present state only (sufficient recall without recalling anything)"""
    names = gen_names(src, 12)
    k = src.int(2, 3)
    states, decs, utils, spare = names[:k + 1], names[4:4 + k], names[7:7 + k], names[10:12]
    parents, nodes = {v: [] for v in spare}, list(spare)
    for i in range(k):
        parents[states[i]] = [states[i - 1], decs[i - 1]] if i else []
        parents[decs[i]] = [states[i]] + (src.subset(spare, 1, 3) if k == 2 else [])
        parents[utils[i]] = src.shuffle([states[i], decs[i]]) + (src.subset(spare, 1, 4) if k == 2 else [])
        nodes += [states[i], decs[i], utils[i]]
    parents[states[k]] = [states[k - 1], decs[k - 1]]
    last = names[3] if k == 2 else "last"
    parents[last] = [states[k]]
    nodes += [states[k], last]
    keep = src.pick(["all", "last", "some"])  # rewards on the way, at the end, or some of them
    gone = utils if keep == "last" else src.subset(utils, 1, 3) if keep == "some" else []
    gone = gone + [v for v in spare if not any(v in ps for w, ps in parents.items() if w not in gone)]
    nodes = [v for v in nodes if v not in gone]
    spec = {"kind": "CID", "nodes": nodes, "dom": {}, "rows": {}, "cpd": {},
            "parents": {v: [p for p in parents[v] if p not in gone] for v in nodes},
            "decisions": {0: list(decs)}, "utilities": {0: [u for u in utils if u not in gone] + [last]}}
    for v in nodes:
        if v in decs:
            spec["dom"][v], spec["rows"][v], spec["cpd"][v] = src.pick([[0, 1], [1, 0], ["a", "b"]]), None, {"kind": "domain"}
        elif v in spec["utilities"][0]:
            gen_cpd(src, spec, v, util=True, wide=False, kinds=["func", "named", "funcval", "table_named"])
        else:
            gen_cpd(src, spec, v, maxcard=2, wide=False)
    gen_orders(src, spec)
    if src.bool():
        spec["decisions"][0] = src.shuffle(decs)
    spec["how"] = src.pick(["impute", "solve"])
    return spec


def policy_of(model, spec, decs):
    return {d: rows(model.get_cpds(d), spec["parents"][d], spec["dom"]) for d in decs}


def deterministic(policy):
    return all(np.all((r == 0) | (r == 1)) for r in policy.values())


def check_solve(spec, note):
    decs, us = oracle.all_decisions(spec), oracle.all_utilities(spec)
    best = oracle.max_eu(spec, decs, us, limit=1000)
    if best is None:
        note.seen("outside the bounds")
        return
    recall = oracle.sufficient_recall(spec)
    comp = components(spec)
    split = len({comp[u] for u in us}) > 1
    model = build(spec)
    try:
        if spec["how"].startswith("impute"):
            model.impute_optimal_policy()
            if spec["how"] == "impute twice":
                model.impute_optimal_policy()
        else:
            solution = model.solve()
            require(set(solution) == set(decs), "solve() has decision rules for %r", sorted(solution))
            for d, cpd in solution.items():
                require(cpd.variable == d, "solve() gives %r a rule of %r", d, cpd.variable)
            model.add_cpds(*list(solution.values()))
    except ValueError as e:
        if split and not recall and "disconnected" in str(e):
            note.seen("utilities in several components")
            return
        raise
    policy = policy_of(model, spec, decs)
    net = Net.of(spec).with_rows(policy)
    require_close(net.eu(us), best[0], "expected utility after %s (reference)", spec["how"])
    if not split:
        require_close(model.expected_utility({}), best[0], "expected_utility after %s", spec["how"])
    if min(e for _, e in best[1]) < best[0] - 1e-9:
        note.hit("sufficient recall" if recall else "no sufficient recall")
        if len(decs) > 1:
            note.seen("several decisions" + (" with recall" if recall else ""))
    if recall:
        order = sorted(decs, key=spec["nodes"].index)
        for i, d in enumerate(order):
            mixed = {e: oracle.uniform_rows(spec, e) for e in order[:i]}
            contextwise(spec, net.with_rows(mixed), d, policy[d], us, note)


def contextwise(spec, net, d, policy, us, note, what=""):
    """every option with positive probability maximises the conditional expectation of the utilities below d"""
    below = [u for u in us if u in oracle.descendants(spec["nodes"], spec["parents"], d)]
    uniform = net.with_rows({d: oracle.uniform_rows(spec, d)})
    for k, context in enumerate(oracle.contexts(spec, d)):
        if uniform.prob(context) <= 1e-12 or not below:
            continue
        values = [uniform.eu(below, dict(context, **{d: o})) for o in spec["dom"][d]]
        top = max(values)
        if top > min(values) + 1e-9:
            note.seen("contexts that matter")
        for o, p, v in zip(spec["dom"][d], policy[k], values):
            require(p < 1e-9 or v >= top - 1e-7 * (1 + abs(top)),
                    "%r is chosen for %r in the context %r, where it gives %r, but %r is possible%s", o, d, context, v, top,
                    what)


def gen_best(src):
    src.rare = src.bool(1, 4)
    spec = gen_macid(src, cls=src.pick(["CID", "MACID", "MACIDBase"]), max_nodes=7, policies=2, max_rules=64)
    decs = oracle.all_decisions(spec)
    spec["ask"] = src.pick(decs)
    if src.bool():  # the decision itself is open
        spec["cpd"][spec["ask"]] = {"kind": "domain"}
        spec["rows"][spec["ask"]] = None
    return spec


def check_best(spec, note):
    d = spec["ask"]
    agent = oracle.agent_of(spec, d)
    us = spec["utilities"].get(agent, [])
    model = build(spec)
    decs = oracle.all_decisions(spec)
    before = {e: rows(model.get_cpds(e), spec["parents"][e], spec["dom"]) for e in spec["nodes"]}
    mixed = Net.of(spec).with_rows({e: oracle.uniform_rows(spec, e) for e in decs})
    actual = Net.of(spec).with_rows({d: oracle.uniform_rows(spec, d)})
    excluded = any(actual.prob(c) <= 1e-12 < mixed.prob(c) for c in oracle.contexts(spec, d))
    try:
        model.impute_optimal_decision(d)
    except RuntimeError as e:
        if excluded and "consider imputing a random decision" in str(e):
            note.seen("a context is excluded by other policies: rejected")
            return
        raise
    after = {e: rows(model.get_cpds(e), spec["parents"][e], spec["dom"]) for e in spec["nodes"]}
    for e in spec["nodes"]:
        require(e == d or np.allclose(before[e], after[e], atol=1e-12), "impute_optimal_decision(%r) changed %r", d, e)
    require(np.allclose(after[d].sum(axis=1), 1), "the imputed rule of %r is not a distribution", d)
    net = Net.of(spec).with_rows({d: after[d]})
    if us:
        best = oracle.Values(spec, us, [d])
        # the best response: in each context the best option (others fixed)
        fam = best.reduce(spec["parents"][d] + [d])
        value = float(fam.max(axis=-1).sum())
        require_close(net.eu(us), value, "utility of %r after impute_optimal_decision(%r)", agent, d)
        if spec["rows"][d] is not None:
            old = Net.of(spec).eu(us)
            require(net.eu(us) >= old - 1e-9 * (1 + abs(old)), "impute_optimal_decision(%r) lowered the utility of %r "
                    "from %r to %r", d, agent, old, net.eu(us))
        if np.ptp(fam) > 1e-9:
            note.hit("best response")
    contextwise(spec, net, d, after[d], us, note)
    if len(decs) > 1:
        note.seen("several decisions")


def gen_random(src):
    spec = gen_macid(src, cls=src.pick(["CID", "MACID", "MACIDBase"]), max_nodes=6, policies=1, max_rules=256)
    spec["ask"] = src.pick(oracle.all_decisions(spec))
    return spec


def check_random(spec, note):
    decs = oracle.all_decisions(spec)
    model = build(spec)
    original = {e: rows(model.get_cpds(e), spec["parents"][e], spec["dom"]) for e in spec["nodes"]}

    def compare(expected, what):
        for e in spec["nodes"]:
            got = rows(model.get_cpds(e), spec["parents"][e], spec["dom"])
            want = expected.get(e, original[e])
            require(np.allclose(got, want, atol=1e-12), "%s: %r has the distribution %r, expected %r", what, e,
                    got.tolist(), np.asarray(want).tolist())

    uniform = {e: oracle.uniform_rows(spec, e) for e in decs}
    d = spec["ask"]
    model.impute_random_decision(d)
    compare({d: uniform[d]}, "impute_random_decision(%r)" % d)
    us = spec["utilities"].get(oracle.agent_of(spec, d), [])
    comp = components(spec)
    filled = Net.of(spec).with_rows({e: uniform[e] for e in decs if e == d or spec["rows"][e] is None})
    below = [u for u in us if u in oracle.descendants(spec["nodes"], spec["parents"], d)][:1]
    if below and not any(spec["rows"][e] is None and e != d for e in decs):
        require_close(model.expected_value(below, {})[0], filled.expected(below)[0], "E[%s] under the random decision",
                      below[0])
    if spec["kind"] == "CID" and len(decs) % 2:
        model.impute_random_policy()
        compare(uniform, "impute_random_policy()")
    else:
        model.impute_fully_mixed_policy_profile()
        compare(uniform, "impute_fully_mixed_policy_profile()")
    net = Net.of(spec).with_rows(uniform)
    for agent, us in spec["utilities"].items():
        if us and len({comp[u] for u in us}) == 1:
            require_close(model.expected_utility({}, agent=agent), net.eu(us), "expected utility under random policies")
    model.remove_all_decision_rules()
    for e in decs:
        require(list(model.model.domain[e]) == list(spec["dom"][e]), "options of %r after remove_all_decision_rules", e)
        sensitive = [u for a in spec["utilities"].values() for u in a if len(spec["dom"][e]) > 1 and not
                     oracle.d_separated(oracle.with_mechanism(spec["parents"], e), ["@mech"], [u], [])]
        for u in sensitive[:1]:
            expect_raises(ValueError, lambda: model.query([u], {}), "P(%s) after remove_all_decision_rules", u)
            note.hit("rules removed")
    if any(spec["rows"][e] is not None for e in decs):
        note.hit("policies replaced")


def gen_expectation(src):
    src.rare = src.bool(1, 5)
    spec = gen_macid(src, cls=src.pick(["CID", "MACID", "MACIDBase"]), max_nodes=6, policies=src.pick([0, 1, 2]),
                     max_rules=256)
    spec["ask"] = src.pick(oracle.all_decisions(spec))
    for v in spec["nodes"]:  # the decision's options change, so its children have to be functions
        if spec["ask"] in spec["parents"][v] and spec["cpd"][v]["kind"] in ("table", "table_named", "object"):
            spec["cpd"][v]["kind"] = "func"
            order = sorted(range(len(spec["dom"][v])), key=lambda i: spec["dom"][v][i])
            if spec["rows"][v] is not None:
                spec["rows"][v] = [[r[i] for i in order] for r in spec["rows"][v]]
            spec["dom"][v] = [spec["dom"][v][i] for i in order]
            spec["cpd"][v]["perm"] = list(range(len(spec["parents"][v])))
    numeric = [v for v in spec["nodes"] if v != spec["ask"] and not isinstance(spec["dom"][v][0], str)]
    spec["y"] = src.pick(numeric) if numeric else None
    return spec


def check_expectation(spec, note):
    d, y = spec["ask"], spec["y"]
    if y is None:
        note.seen("no numeric node")
        return
    if any(spec["cpd"][v]["kind"] == "policy" and d in spec["parents"][v] for v in spec["nodes"]):
        note.seen("a policy depends on the options of the decision")
        return
    parents = spec["parents"]
    open_ = [e for e in oracle.all_decisions(spec) if spec["rows"][e] is None]
    if y not in parents[d] and any(not oracle.d_separated(
            oracle.with_mechanism(parents, e), ["@mech"], [y], parents[d]) for e in open_):
        expect_raises(ValueError, lambda: build(spec).impute_conditional_expectation_decision(d, y),
                      "the expectation of %r given the parents of %r depends on open decisions %r", y, d, open_)
        note.hit("rejected")
        return
    rows_ = dict(spec["rows"], **{e: oracle.uniform_rows(spec, e) for e in open_})
    net = Net(spec["nodes"], parents, spec["dom"], rows_)
    expected = []
    for context in oracle.contexts(spec, d):
        if net.prob(context) <= 1e-12 and y not in context:
            note.seen("impossible context")
            return
        expected.append(context[y] if y in context else net.expected([y], context)[0])
    model = build(spec)
    model.impute_conditional_expectation_decision(d, y)
    cpd = model.get_cpds(d)
    own, evidence, names, values = table(cpd, model.model.domain)
    require(sorted(parents[d]) == evidence, "the parents of the imputed decision are %r", evidence)
    require(list(names[d]) == list(model.model.domain[d]), "domain of the imputed decision")
    for context, e in zip(oracle.contexts(spec, d), expected):
        column = values[(slice(None),) + tuple(names[p].index(context[p]) for p in evidence)]
        value = float(np.dot(column, np.array(names[d], dtype=float)))
        require_close(value, e, "expectation of %r chosen for %r in the context %r", y, d, context)
        require(max(column) == 1, "the conditional-expectation decision is not deterministic: %r", column.tolist())
    note.hit("expectation" + (" of a parent" if y in parents[d] else ""))
    if len(set(map(float, expected))) > 1:
        note.hit("expectation varies")
    # the rule is frozen: interventions on what the expectation was computed from do not change it
    root = [v for v in spec["nodes"] if not parents[v] and v != d and spec["rows"][v] is not None
            and spec["cpd"][v]["kind"] not in ("policy",)]
    if root and y not in parents[d]:
        model.intervene({root[0]: spec["dom"][root[0]][0]})
        own2, evidence2, names2, values2 = table(model.get_cpds(d), model.model.domain)
        require(list(names2[d]) == list(names[d]) and values2.shape == values.shape and np.allclose(values, values2),
                "the imputed expectation has changed after an intervention on %r", root[0])
        note.seen("frozen")


PARTS = [
    Part("solve", gen_solve, check_solve, 800, 30000,
         "random CIDs with and without recall, solved or imputed, all policies evaluated by the reference; non-trivial "
         "= policies differ in utility"),
    Part("stages", gen_stages, check_solve, 160, 6000,
         "processes of 2-3 stages whose decisions observe the present state only; non-trivial as above"),
    Part("best response", gen_best, check_best, 1600, 30000,
         "random (MA)CIDs with complete policies, one decision optimised; non-trivial = its options differ in utility"),
    Part("random", gen_random, check_random, 400, 15000,
         "uniform policies imputed to one or all decisions and removed; non-trivial = policies were replaced or removed"),
    Part("expectation", gen_expectation, check_expectation, 800, 20000,
         "conditional expectations imputed to a decision; non-trivial = an answer was compared or rejected"),
]
del itertools

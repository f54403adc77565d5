"""Pure decision rules and policies are enumerated completely and once."""
import itertools

import numpy as np

from vf import oracle
from vf.build import build, factor_dict
from vf.core import require, require_close
from vf.gen import gen_macid, gen_names, gen_orders, gen_row, n_contexts
from vf.oracle import Net, Values
from vf.snap import rows
from vf.worker import Part

ASSUMPTIONS = ["At most 4096 decision rules per decision and 3000 policies."]


def gen(src):
    spec = gen_macid(src, cls=src.pick(["CID", "MACID", "MACIDBase"]), max_nodes=6, n_decisions=(1, 3),
                     max_dec_parents=src.pick([2, 2, 3]), policies=src.pick([0, 0, 1]), max_rules=4096)
    spec["ask"] = src.shuffle(oracle.all_decisions(spec))[:src.int(1, 3)]
    spec["picks"] = [src.int(0, 10 ** 6) for _ in range(4)]
    return spec


def gen_many(src):
    """a decision with 3-6 parents and at most 9 contexts"""
    k = src.int(3, 6)
    names = gen_names(src, k + 2)
    parents, d, u = names[:k], names[k], names[k + 1]
    cards, size = [], 1
    for _ in parents:
        cards.append(src.pick([c for c in (1, 2, 2, 3) if size * c <= 9]))
        size *= cards[-1]
    cards = src.shuffle(cards)
    spec = {"kind": src.pick(["CID", "MACID", "MACIDBase"]), "nodes": names, "decisions": {0: [d]}, "utilities": {0: [u]},
            "parents": {p: [] for p in parents}, "dom": {}, "rows": {}, "cpd": {}}
    spec["parents"].update({d: src.shuffle(parents), u: [d] + src.sample(parents, 2)})
    for p, c in zip(parents, cards):
        spec["dom"][p] = src.pick([[0, 1, 2], [2, 0, 1], ["e", "c", "d"], ["1", "2", "0"]])[:c]
        spec["rows"][p] = [gen_row(src, c, False)]
        spec["cpd"][p] = {"kind": "table_named", "perm": []}
    spec["dom"][d], spec["rows"][d], spec["cpd"][d] = src.pick([[0, 1], [1, 0], ["y", "n"]]), None, {"kind": "domain"}
    spec["dom"][u], spec["cpd"][u] = [-1, 2, 5], {"kind": "object", "perm": [0, 1, 2]}
    spec["rows"][u] = [gen_row(src, 3, True) for _ in range(n_contexts(spec, u))]
    gen_orders(src, spec)
    spec["ask"], spec["picks"] = [d], [src.int(0, 10 ** 6) for _ in range(2)]
    return spec


def as_rule(cpd, spec, model, d):
    """tuple with the outcome chosen in each context"""
    require(cpd.variable == d, "a decision rule for %r belongs to %r", d, cpd.variable)
    table = rows(cpd, spec["parents"][d], spec["dom"], domain=model.model.domain)
    require(np.all((table == 0) | (table == 1)) and np.all(table.sum(axis=1) == 1), "a rule of %r is not deterministic: "
            "%r", d, table.tolist())
    return tuple(spec["dom"][d][int(i)] for i in table.argmax(axis=1))


def key(rule):
    return tuple(map(repr, rule))


def check_complete(got, expected, what):
    got, expected = list(map(repr, got)), list(map(repr, expected))
    require(len(set(got)) == len(got), "%s: some are enumerated more than once (%d, of which %d different)", what,
            len(got), len(set(got)))
    missing, extra = set(expected) - set(got), set(got) - set(expected)
    require(not missing, "%s: %d are missing, e.g. %s", what, len(missing), min(missing, default=""))
    require(not extra, "%s: %d do not exist, e.g. %s", what, len(extra), min(extra, default=""))


def check(spec, note):
    model = build(spec)
    decs = oracle.all_decisions(spec)
    for d in decs:
        n = oracle.count_rules(spec, d)
        if n > 4096 or n_contexts(spec, d) > 12:
            note.seen("too many rules")
            continue
        rules = list(model.pure_decision_rules(d))  # all of them first: each must keep its own function
        found = [as_rule(r, spec, model, d) for r in rules]
        check_complete(found, oracle.decision_rules(spec, d), "the decision rules of %r" % d)
        if n_contexts(spec, d) > 1 and len(spec["dom"][d]) > 1:
            note.hit("rules with several contexts" + (" and parents" if len(spec["parents"][d]) > 1 else ""))
    ask = list(spec["ask"])
    total = 1
    for d in ask:
        total *= oracle.count_rules(spec, d)
    if total > 3000:
        note.seen("too many policies")
        return
    expected = list(itertools.product(*[list(oracle.decision_rules(spec, d)) for d in ask]))
    names = ["pure_policies"] + (["joint_pure_policies"] if spec["kind"] == "MACID" else [])
    for name in names:
        policies = list(getattr(model, name)(list(ask)))
        for p in policies:
            require([c.variable for c in p] == ask, "%s(%r) has a policy for %r", name, ask, [c.variable for c in p])
        found = [tuple(as_rule(c, spec, model, d) for c, d in zip(p, ask)) for p in policies]
        check_complete(found, expected, "%s(%r)" % (name, ask))
        if len(ask) > 1 and total > 4:
            note.hit("policies of several decisions")
    # a policy can be added to the model and behaves as the function it is
    open_ = [d for d in decs if d not in ask and spec["rows"][d] is None]
    for k in spec["picks"]:
        i = k % len(policies)
        m = model.copy()
        m.add_cpds(*policies[i])
        given = {d: oracle.rule_rows(spec, d, r) for d, r in zip(ask, found[i])}
        if i % 2:  # rules computed by a copy
            other = list(m.pure_policies(list(ask)))
            j = [tuple(as_rule(c, spec, m, d) for c, d in zip(p, ask)) for p in other].index(found[i])
            m.add_cpds(*other[j])
        for d in open_:
            m.impute_random_decision(d)
        filled = dict(given, **{d: oracle.uniform_rows(spec, d) for d in open_})
        net = Net.of(spec).with_rows(filled)
        for d in ask:
            got = rows(m.get_cpds(d), spec["parents"][d], spec["dom"])
            require(np.allclose(got, given[d]), "the rule %r of %r became the distribution %r", found[i], d,
                    got.tolist())
            f = factor_dict(m.query([d] , {}), [d])
            for o, p in zip(spec["dom"][d], net.marginal([d])):
                require_close(f[(o,)], p, "P(%r=%r) under the rule %r", d, o, found[i])
        for agent, us in spec["utilities"].items():
            if us:
                v = Values(spec, us, [], rows=net.rows).value({})
                try:
                    eu = m.expected_utility({}, agent=agent)
                except ValueError as e:
                    if "disconnected" in str(e):
                        continue
                    raise
                require_close(eu, v, "expected utility of %r under the rules %r of %r", agent, found[i], ask)
                note.seen("expected utility compared")


PARTS = [
    Part("rules", gen, check, 1400, 40000,
         "random (MA)CIDs, all rules of all decisions, all policies of 1-3 decisions in a random order; non-trivial = a "
         "decision with several contexts and options"),
    Part("many parents", gen_many, check, 300, 8000,
         "a decision with 3-6 parents, some with one outcome, and at most 9 contexts; non-trivial as above"),
]

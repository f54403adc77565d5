"""No answer is given that depends on an unspecified policy."""
import itertools

import numpy as np

from vf import oracle
from vf.build import build, factor_dict, skeleton, relationship, OBJECT_KINDS
from vf.core import require, require_close, Violation
from vf.gen import components, gen_macid, gen_row, n_contexts
from vf.oracle import Net
from vf.snap import snapshot, difference
from vf.worker import Part
from pgmpy.factors.discrete import TabularCPD

ASSUMPTIONS = [
    "Dependence is graphical: the mechanism of the decision is d-connected to a queried node given the context and the "
    "intervened nodes, in the graph without the edges into intervened nodes.",
    "With decisions that lack even their options, only the rejection of dependent queries is required.",
]


def gen(src):
    spec = gen_macid(src, cls=src.pick(["CID", "MACID", "MACIDBase"]), policies=1, max_nodes=7, n_decisions=(1, 3),
                     n_utilities=(1, 3))
    decs = oracle.all_decisions(spec)
    spec["fill"] = [{d: [gen_full(src, len(spec["dom"][d])) for _ in range(n_contexts(spec, d))] for d in decs}
                    for _ in range(2)]
    spec["nothing"] = src.subset([d for d in decs if spec["cpd"][d]["kind"] == "domain"], 1, 6)
    nodes = spec["nodes"]
    qs = []
    for _ in range(src.int(2, 5)):
        do = {v: src.pick(spec["dom"][v]) for v in (src._sample(nodes, src.int(1, 2)) if src.bool() else [])}
        if src.bool(1, 3) and decs:
            d = src.pick(decs)
            do[d] = src.pick(spec["dom"][d])
        context = {v: src.pick(spec["dom"][v]) for v in src.subset(nodes, 1, 3) if v not in do or src.bool(1, 8)}
        for v in context:
            if v in do:
                context[v] = do[v]
        free = [v for v in nodes if v not in context]
        if not free:
            continue
        start = src.pick(free)
        parents = {v: ([] if v in do else spec["parents"][v]) for v in nodes}
        comp = components(dict(spec, parents=parents))
        same = [v for v in free if comp[v] == comp[start]]
        qs.append({"vars": src._sample(same, src.int(1, min(2, len(same)))), "context": context, "do": do})
    spec["queries"] = qs
    return spec


def gen_full(src, k):
    w = [src.int(1, 5) for _ in range(k)]
    return [x / sum(w) for x in w]


def build_model(spec):
    if not spec["nothing"]:
        return build(spec)
    model = skeleton(spec)
    first = {v: relationship(spec, v, model) for v in spec["add_order"]
             if v not in spec["nothing"] and spec["cpd"][v]["kind"] not in OBJECT_KINDS}
    model.add_cpds(*[r for r in first.values() if isinstance(r, TabularCPD)],
                   **{v: r for v, r in first.items() if not isinstance(r, TabularCPD)})
    for v in spec["nodes"]:
        if spec["cpd"][v]["kind"] in OBJECT_KINDS and not oracle.ancestors(spec["parents"], [v]) & set(spec["nothing"]):
            if spec["cpd"][v]["kind"] == "policy":
                model.add_cpds(**{v: list(spec["dom"][v])})
            model.add_cpds(relationship(spec, v, model))
        elif spec["cpd"][v]["kind"] == "policy":
            model.add_cpds(**{v: relationship(spec, v, model, kind="func")})
        elif spec["cpd"][v]["kind"] == "object":
            model.add_cpds(**{v: relationship(spec, v, model, kind="func")})
    return model


def check(spec, note):
    model = build_model(spec)
    decs = oracle.all_decisions(spec)
    open_ = [d for d in decs if spec["cpd"][d]["kind"] == "domain"]
    for q in spec["queries"]:
        variables, context, do = list(q["vars"]), dict(q["context"]), dict(q["do"])
        parents = {v: ([] if v in do else list(spec["parents"][v])) for v in spec["nodes"]}
        given = list(context) + list(do)

        def depends(targets):
            return [d for d in open_ if not oracle.d_separated(
                oracle.with_mechanism(parents, d), ["@mech"], targets, given)]

        net = Net.of(dict(spec, rows=dict(spec["rows"], **{d: spec["fill"][0][d] for d in open_}))).do(do)
        dep = depends(variables)
        kw = {"intervention": dict(do)} if do else {}
        what = "P(%s|%s,do(%s))" % (variables, context, do)
        if dep:
            for name in ("query", "expected_value"):
                try:
                    res = getattr(model, name)(list(variables), dict(context), **kw)
                except ValueError:
                    pass
                except KeyError:
                    if not spec["nothing"]:
                        raise
                else:
                    raise Violation("%s of %s depends on the policy of %s, but was answered: %s"
                                    % (name, what, dep, str(res)[:300]))
            note.hit("rejected" + (" with intervention" if do else "") + (" with context" if context else ""))
            if set(dep) & set(spec["nothing"]):
                note.hit("rejected for a decision without options")
            continue
        if net.prob(context) == 0:
            note.seen("impossible context")
            continue
        try:
            factor = model.query(list(variables), dict(context), **kw)
        except (ValueError, KeyError):
            if spec["nothing"]:
                note.seen("independent of a decision without options: rejected")
                continue
            raise
        got = factor_dict(factor, variables)
        for fill in spec["fill"]:
            net = Net.of(dict(spec, rows=dict(spec["rows"], **{d: fill[d] for d in open_}))).do(do)
            joint = net.marginal(variables, context) / net.prob(context)
            outcomes = list(itertools.product(*[net.dom[v] for v in variables]))
            require(set(outcomes) == set(got), "%s: outcomes %r", what, sorted(map(repr, got)))
            for outcome, p in zip(outcomes, np.asarray(joint).ravel()):
                require_close(got[outcome], float(p), "%s of %r (independent of the policies of %s)", what, outcome, open_)
        if open_:
            note.hit("answered" + (" with intervention" if do else "") + (" with context" if context else ""))
        if not context and not do:
            continue
    # expected utility of each agent
    for agent, us in spec["utilities"].items():
        for q in spec["queries"][:2]:
            do = dict(q["do"])
            context = {v: o for v, o in q["context"].items() if v not in us}
            parents = {v: ([] if v in do else list(spec["parents"][v])) for v in spec["nodes"]}
            comp = components(dict(spec, parents=parents))
            if not us or len({comp[u] for u in us}) > 1:
                continue
            given = list(context) + list(do)
            dep = [d for d in open_ if not oracle.d_separated(oracle.with_mechanism(parents, d), ["@mech"], us, given)]
            if dep:
                try:
                    eu = model.expected_utility(dict(context), intervention=dict(do), agent=agent)
                except (ValueError, KeyError) as e:
                    if isinstance(e, KeyError) and not spec["nothing"]:
                        raise
                    note.hit("expected utility rejected")
                else:
                    raise Violation("the expected utility of %r given %s, do(%s) depends on the policy of %s, but is "
                                    "said to be %s" % (agent, context, do, dep, eu))
            elif not spec["nothing"]:
                nets = [Net.of(dict(spec, rows=dict(spec["rows"], **{d: fill[d] for d in open_}))).do(do)
                        for fill in spec["fill"]]
                if nets[0].prob(context) == 0:
                    continue
                eu = model.expected_utility(dict(context), intervention=dict(do), agent=agent)
                for net in nets:
                    require_close(eu, net.eu(us, context), "expected utility of %r given %s, do(%s)", agent, context, do)
                if open_:
                    note.hit("expected utility answered")


PARTS = [
    Part("queries", gen, check, 3200, 80000,
         "(MA)CIDs in which some decisions lack a policy (or even options), with 2-5 queries; non-trivial = a dependent "
         "query was rejected, or an independent one compared with the joint under two fillings"),
]

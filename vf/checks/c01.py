"""Inference answers equal enumeration of the joint distribution."""
import warnings

from vf.build import build, factor_dict
from vf.core import expect_raises, fail, require, require_close
from vf.gen import components, gen_cbn, gen_macid
from vf.oracle import Net, all_utilities
from vf.worker import Part

ASSUMPTIONS = [
    "Tables that name their evidence states list them in the order of the parents' domains.",
    "Contexts of probability zero are only required not to yield NaN as an expectation (parts of the context that are "
    "irrelevant given the rest may be ignored).",
]

FUNCTION_KINDS = ("func", "named", "funcval", "callable")


def extended(spec, intervention):
    """the spec in which out-of-domain interventions have extended the domains (see build.lookup)"""
    s = dict(spec, dom=dict(spec["dom"]), rows=dict(spec["rows"]))
    for node, outcome in intervention.items():
        if outcome in s["dom"][node]:
            continue
        old = list(s["dom"][node])
        s["dom"][node] = old + [outcome]
        for child in s["nodes"]:
            if node in s["parents"][child]:
                ps = s["parents"][child]
                sizes = [len(s["dom"][p]) for p in ps]
                rows = s["rows"][child]
                new = []
                import itertools

                i_node = ps.index(node)
                old_sizes = list(sizes)
                old_sizes[i_node] -= 1
                for idx in itertools.product(*[range(k) for k in sizes]):
                    j = list(idx)
                    if j[i_node] == len(old):
                        j[i_node] = 0
                    flat = 0
                    for v, k in zip(j, old_sizes):
                        flat = flat * k + v
                    new.append(rows[flat])
                s["rows"][child] = new
        s["rows"][node] = [[1.0 if o == outcome else 0.0 for o in s["dom"][node]]]
        s["parents"] = dict(s["parents"], **{node: []})
    return s


def gen_query(src, spec):
    nodes = spec["nodes"]
    intervention = {}
    if src.bool():
        for v in src._sample(nodes, src.int(1, min(2, len(nodes)))):
            children = [c for c in nodes if v in spec["parents"][c]]
            if src.bool(1, 8) and children and all(spec["cpd"][c]["kind"] in FUNCTION_KINDS for c in children) \
                    and all(isinstance(o, (int, float)) for o in spec["dom"][v]) and not any(
                        c in intervention for c in children):
                intervention[v] = src.pick([17, -9, 0.25])
            else:
                intervention[v] = src.pick(spec["dom"][v])
    net = Net.of(extended(spec, intervention)).do(intervention)
    context = {}
    if src.bool(2, 3):
        import numpy as np

        cells = np.argwhere(net.joint() > 0)
        cell = cells[src.int(0, len(cells) - 1)]
        for v in src.subset(nodes, 1, 3):
            context[v] = net.dom[v][int(cell[net.axis(v)])]
    if src.bool(1, 10) and nodes:  # an arbitrary context, possibly impossible
        for v in src.subset(nodes, 1, 3):
            context[v] = src.pick(net.dom[v])
    comp = components(dict(spec, parents=net.parents))
    start = src.pick(nodes)
    same = [v for v in nodes if comp[v] == comp[start] and v not in context]
    if src.bool(1, 12):
        same = [v for v in nodes if v not in context]
    if not same:
        context.pop(start, None)
        same = [start]
    k = src.int(1, min(src.pick([3, 3, 5]), len(same)))
    variables = src._sample(same, k)
    return {"vars": variables, "context": context, "do": intervention}


def gen(src):
    which = src.int(0, 2)
    src.rare = src.bool(1, 5)
    if which == 0:
        spec = gen_cbn(src, max_nodes=7)
    else:
        spec = gen_macid(src, cls="CID" if which == 1 else src.pick(["MACID", "MACIDBase"]), policies=2, max_nodes=7,
                         n_decisions=(0, 3), n_utilities=(1, 3))
    spec["queries"] = [gen_query(src, spec) for _ in range(src.int(1, 4))]
    return spec


def check_query(model, spec, q, note):
    s = extended(spec, q["do"])
    net = Net.of(s).do(q["do"])
    comp = components(dict(spec, parents=net.parents))
    connected = len({comp[v] for v in q["vars"]}) == 1
    variables, context, do = list(q["vars"]), dict(q["context"]), dict(q["do"])
    ood = [v for v in context if context[v] not in spec["dom"][v]]
    kw = {"intervention": dict(do)} if do else {}

    def ask():
        return model.query(list(variables), dict(context), **kw)

    if ood:
        return
    if not connected:
        try:
            factor = ask()
        except ValueError:
            note.seen("disconnected query rejected")
            return
    elif net.prob(context) == 0:
        note.seen("impossible context")
        if all(isinstance(o, (int, float)) for v in variables for o in net.dom[v]):
            try:  # parts of the context that are irrelevant given the rest may be ignored
                got_ev = model.expected_value(list(variables), dict(context), **kw)
            except (RuntimeError, ValueError):
                return
            require(all(x == x for x in got_ev), "E[%s|%s,do(%s)] is %r", variables, context, do, got_ev)
        return
    else:
        factor = ask()
    if net.prob(context) == 0:
        return
    joint = net.marginal(variables, context) / net.prob(context)
    got = factor_dict(factor, variables)
    import itertools

    for i, outcome in enumerate(itertools.product(*[net.dom[v] for v in variables])):
        require(outcome in got, "P(%s|%s,do(%s)) has no entry for %r", variables, context, do, outcome)
        require_close(got.pop(outcome), float(joint.flat[i]), "P(%s=%r|%s,do(%s))", variables, outcome, context, do)
    require(not got, "P(%s|..) has additional outcomes %r", variables, got)
    if context:
        note.hit("context")
    if do:
        note.hit("intervention")
        if any(o not in spec["dom"][v] for v, o in do.items()):
            note.hit("out-of-domain intervention")
        if any(spec["dom"][v] != sorted(spec["dom"][v]) for v in do):
            note.hit("intervention on a variable with an unsorted domain")
    if len(variables) > 1:
        note.hit("joint query")
    if len(set(comp.values())) > 1:
        note.hit("several components")
    if any(spec["cpd"][v]["kind"].startswith("table") for v in spec["nodes"]) and any(
            spec["cpd"][v]["kind"] in ("func", "named") for v in spec["nodes"]):
        note.hit("mixed kinds of relationships", False)
    # expected values
    numeric = all(isinstance(o, (int, float)) for v in variables for o in net.dom[v])
    if numeric:
        expected = net.expected(variables, context)
        got_ev = model.expected_value(list(variables), dict(context), **kw)
        require(len(got_ev) == len(variables), "expected_value(%s) has %d entries", variables, len(got_ev))
        for v, g, e in zip(variables, got_ev, expected):
            require_close(g, e, "E[%s|%s,do(%s)] within expected_value(%s)", v, context, do, variables)
        known = [v for v in context if not isinstance(context[v], str)]
        if known and len(context) % 2:  # also what is part of the context
            for at in {0, len(variables), len(variables) // 2}:  # the entries follow the order of the question
                wanted = variables[:at] + [known[0]] + variables[at:]
                got_ev = model.expected_value(list(wanted), dict(context), **kw)
                require(len(got_ev) == len(wanted), "expected_value(%s|%s) has %d entries", wanted, context,
                        len(got_ev))
                for v, g, e in zip(wanted, got_ev, expected[:at] + [context[known[0]]] + expected[at:]):
                    require_close(g, e, "E[%s|%s,do(%s)] within expected_value(%s)", v, context, do, wanted)
            note.hit("expected value of an observed variable")
        note.hit("expected value")


def check(spec, note):
    model = build(spec)
    for q in spec["queries"]:
        check_query(model, spec, q, note)
        if spec["kind"] != "CBN":
            for agent, us in spec["utilities"].items():
                if not us:
                    continue
                s = extended(spec, q["do"])
                net = Net.of(s).do(q["do"])
                comp = components(dict(spec, parents=net.parents))
                context = {v: o for v, o in q["context"].items() if o in spec["dom"][v]}
                if len({comp[u] for u in us if u not in context}) > 1 or net.prob(context) == 0:
                    continue
                got = model.expected_utility(dict(context), intervention=dict(q["do"]), agent=agent)
                require_close(got, net.eu(us, context), "EU of agent %r given %s, do(%s)", agent, context, q["do"])
                note.hit("expected utility" + (" with an observed utility" if set(us) & set(context) else ""))
    # contexts outside the domain are rejected
    v = spec["nodes"][0]
    expect_raises(ValueError, lambda: model.query([spec["nodes"][-1]], {v: "no such outcome"}),
                  "context outside the domain of %s", v)
    expect_raises(ValueError, lambda: model.expected_value([v], {v: "no such outcome"}),
                  "expected value in a context outside the domain of %s", v)


PARTS = [
    Part("query", gen, check, 2400, 60000,
         "random CBN/CID/MACID (1-7 nodes, mixed relationship kinds, policies imputed) with 1-4 queries; non-trivial = "
         "a query with context, intervention or several variables, an expected value or expected utility was compared "
         "with joint enumeration"),
]

"""Quantitative incentives and effects equal their definitions."""
from pycid import (admits_voc, admits_voi, introduced_total_effect, quantitative_voc, quantitative_voi, total_effect)

from vf import oracle
from vf.build import build
from vf.core import expect_raises, require, require_close
from vf.gen import components, gen_cpd, gen_macid, gen_row, n_contexts
from vf.oracle import Net
from vf.worker import Part

ASSUMPTIONS = [
    "At most 600 policies of the modified model.  Utilities in several connected components may be rejected (by design of "
    "expected_utility).",
    "A RuntimeError that suggests to impute a random decision is allowed where the policies of other decisions exclude a "
    "decision context (by design: the best response is not determined there).",
    "Effects are asked for variables with numerical outcomes, in models whose policies are all specified.",
]
LIMIT = 256


def gen(src, min_nodes=2):
    spec = gen_macid(src, cls="CID", min_nodes=min_nodes, max_nodes=6, n_decisions=(1, 1) if src.bool(2, 3) else (1, 2), n_utilities=(1, 3),
                     policies=src.pick([0, 0, 0, 1]), connected=src.bool(3, 4), max_rules=64,
                     max_dec_parents=src.pick([1, 2]))
    if src.bool(1, 2):  # recall
        decs = spec["decisions"][0]
        for i, d in enumerate(decs):
            for e in decs[:i]:
                for x in [e] + spec["parents"][e]:
                    if x not in spec["parents"][d]:
                        spec["parents"][d].append(x)
                        spec["edges"].append([x, d])
        spec["isolated"] = [v for v in spec["isolated"] if not any(v in e for e in spec["edges"])]
        for d in decs:
            if spec["rows"][d] is not None:
                spec["rows"][d] = [gen_row(src, len(spec["dom"][d]), False) for _ in range(n_contexts(spec, d))]
    spec["node"] = src.pick(spec["nodes"])
    spec["decision"] = src.pick(spec["decisions"][0])
    return spec


def gen_information(src):
    """mostly of a node that is no descendant, and that matters together with the decision"""
    spec = gen(src, min_nodes=4)
    if src.bool(3, 4):
        spec["decision"] = max(spec["decisions"][0], key=spec["nodes"].index)
    d = spec["decision"]
    below = oracle.descendants(spec["nodes"], spec["parents"], d)
    others = [v for v in spec["nodes"] if v != d and v not in below]
    if not others or src.bool(1, 8):
        return spec
    x = spec["node"] = src.pick(others)
    order = spec["nodes"]
    us = [u for u in spec["utilities"][0] if order.index(u) > max(order.index(d), order.index(x))]
    if us and src.bool(4, 5):
        u = src.pick(us)
        for p in (d, x):
            if p not in spec["parents"][u]:
                if len(spec["parents"][u]) > 2:
                    q = next(q for q in spec["parents"][u] if q not in (d, x))
                    spec["parents"][u].remove(q)
                    spec["edges"].remove([q, u])
                spec["parents"][u].append(p)
                spec["edges"].append([p, u])
        spec["isolated"] = [v for v in order if not any(v in e for e in spec["edges"])]
        gen_cpd(src, spec, u, util=True, kinds=["func", "object", "table_named"])
        for v in order:  # the domain of u may have changed, and so its descendants' tables
            if v in oracle.descendants(order, spec["parents"], u):
                if v in oracle.all_decisions(spec):
                    spec["rows"][v], spec["cpd"][v] = None, {"kind": "domain"}
                else:
                    gen_cpd(src, spec, v, util=v in spec["utilities"][0], kinds=["object"])
    return spec


def with_parents(spec, node, ps):
    new = dict(spec, parents=dict(spec["parents"]), edges=[list(e) for e in spec["edges"]])
    new["parents"][node] = list(ps)
    new["edges"] = [e for e in new["edges"] if e[1] != node] + [[p, node] for p in ps]
    new["rows"] = dict(spec["rows"], **{d: None for d in oracle.all_decisions(spec)})
    new["nodes"] = []
    while len(new["nodes"]) < len(spec["nodes"]):
        new["nodes"].append(next(v for v in spec["nodes"] if v not in new["nodes"]
                                 and all(p in new["nodes"] for p in new["parents"][v])))
    return new


def tolerated(e, specs, note):
    text = str(e)
    if isinstance(e, RuntimeError) and "random decision" in text:
        note.seen("a context that other decisions exclude")
        return True
    if isinstance(e, ValueError) and "disconnected" in text:
        for s in specs:
            comp = components(s)
            if len({comp[u] for u in oracle.all_utilities(s)}) > 1:
                note.seen("utilities in several components")
                return True
    return False


def check_voi(spec, note):
    model = build(spec)
    x, d = spec["node"], spec["decision"]
    below = oracle.descendants(spec["nodes"], spec["parents"], d)
    if x == d or x in below:
        expect_raises(ValueError, lambda: quantitative_voi(model, d, x), "quantitative_voi of a descendant")
        note.seen("rejected")
        return
    expect_raises(KeyError, lambda: quantitative_voi(model, d, "no such node"), "quantitative_voi of an unknown node")
    ps = spec["parents"][d]
    without = with_parents(spec, d, [p for p in ps if p != x])
    observed = with_parents(spec, d, [p for p in ps if p != x] + [x])
    # adding x may close a cycle only if x is a descendant of d, which is excluded
    decs, us = oracle.all_decisions(spec), oracle.all_utilities(spec)
    best0 = oracle.max_eu(without, decs, us, limit=LIMIT)
    best1 = oracle.max_eu(observed, decs, us, limit=LIMIT)
    if best0 is None or best1 is None:
        note.seen("outside the bounds")
        return
    try:
        got = quantitative_voi(model, d, x)
    except (RuntimeError, ValueError) as e:
        if tolerated(e, [without, observed], note):
            return
        raise
    require_close(got, best1[0] - best0[0], "quantitative_voi(%r, %r)", d, x, tol=1e-6)
    require(got >= -1e-9, "quantitative_voi(%r, %r) is negative: %r", d, x, got)
    if oracle.sufficient_recall(spec):
        if not admits_voi(model, d, x):
            require(abs(got) < 1e-7, "%r does not admit value of information for %r, but its value is %r", x, d, got)
            note.hit("no value admitted")
        else:
            note.seen("admitted")
    note.seen("%d decisions" % len(decs))
    if got > 1e-6:
        note.hit("positive value")
    elif best0[0] > min(e for _, e in best0[1]) + 1e-9:
        note.hit("no value, but the policy matters")


def check_voc(spec, note):
    model = build(spec)
    x = spec["node"]
    expect_raises(KeyError, lambda: quantitative_voc(model, "no such node"), "quantitative_voc of an unknown node")
    decs, us = oracle.all_decisions(spec), oracle.all_utilities(spec)
    open_spec = dict(spec, rows=dict(spec["rows"], **{d: None for d in decs}))
    control = dict(open_spec, rows=dict(open_spec["rows"], **{x: None}),
                   decisions={0: decs + ([x] if x not in decs else [])})
    best0 = oracle.max_eu(open_spec, decs, us, limit=LIMIT)
    best1 = oracle.max_eu(control, control["decisions"][0], us, limit=LIMIT) if best0 else None
    if best1 is None:
        note.seen("outside the bounds")
        return
    try:
        got = quantitative_voc(model, x)
    except (RuntimeError, ValueError) as e:
        if tolerated(e, [open_spec, control], note):
            return
        raise
    require_close(got, best1[0] - best0[0], "quantitative_voc(%r)", x, tol=1e-6)
    require(got >= -1e-9, "quantitative_voc(%r) is negative: %r", x, got)
    if oracle.sufficient_recall(spec):
        if not admits_voc(model, x):
            require(abs(got) < 1e-7, "%r does not admit value of control, but its value is %r", x, got)
            note.hit("no value admitted")
        else:
            note.seen("admitted")
    kind = "decision" if x in decs else "utility" if x in us else "chance node"
    note.seen(kind)
    if got > 1e-6:
        note.hit("positive value of a " + kind)


def gen_effect(src):
    spec = gen_macid(src, cls="CID", max_nodes=7, n_decisions=(1, 2), n_utilities=(1, 2), policies=2,
                     connected=src.bool(3, 4))
    numeric = [v for v in spec["nodes"] if all(isinstance(o, (int, float)) for o in spec["dom"][v])]
    spec["asked"] = []
    for _ in range(3):
        a = src.pick(spec["nodes"])
        later = [v for v in numeric if spec["nodes"].index(v) > spec["nodes"].index(a)] or numeric
        d = src.pick(later if src.bool(3, 4) else numeric)
        y = src.pick(later if src.bool(3, 4) else numeric)
        dom = spec["dom"][a]
        spec["asked"].append([a, d, y, src.pick(dom), src.pick(dom), src.bool(1, 3), src.bool(2, 3)])
    return spec


def check_effect(spec, note):
    model = build(spec)
    net = Net.of(spec)
    for a, d, y, a0, a1, plain, default in spec["asked"]:
        if 0 in spec["dom"][a] and 1 in spec["dom"][a] and plain:
            a0, a1 = 0, 1
            args, kw = (), {}
        elif default:
            args, kw = (a0, a1), {}
        else:
            args, kw = (), {"a0": a0, "a1": a1}
        hi, lo = net.do({a: a1}), net.do({a: a0})
        te = {v: hi.expected([v])[0] - lo.expected([v])[0] for v in (d, y)}
        for v in (d, y):
            require_close(total_effect(model, a, v, *args, **kw), te[v], "total_effect(%r, %r) of %r instead of %r", a, v,
                          a1, a0)
        got = introduced_total_effect(model, a, d, y, *args, **kw)
        sign = -1 if te[y] < 0 else 1
        if abs(te[y]) < 1e-12:
            require(min(abs(got - te[d] + te[y]), abs(got + te[d] - te[y])) < 1e-7, "introduced_total_effect(%r)",
                    (a, d, y, a0, a1))
        else:
            require_close(got, sign * (te[d] - te[y]), "introduced_total_effect(%r)", (a, d, y, a0, a1))
        raw = introduced_total_effect(model, a, d, y, *args, adapt_marginalized=False, **kw)
        require_close(raw, te[d] - te[y], "introduced_total_effect(%r, adapt_marginalized=False)", (a, d, y, a0, a1))
        if abs(te[y]) > 1e-9:
            note.hit("an effect" if te[y] > 0 else "a negative effect")


PARTS = [
    Part("information", gen_information, check_voi, 1400, 50000,
         "random CIDs with 1-2 decisions, any node and decision; non-trivial = a positive value, none although the policy "
         "matters, or none admitted"),
    Part("control", gen, check_voc, 1000, 50000,
         "as above, value of control of any node; non-trivial = a positive value or none admitted"),
    Part("effects", gen_effect, check_effect, 700, 20000,
         "random CIDs with policies, total and introduced effects; non-trivial = an effect"),
]

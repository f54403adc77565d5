"""Asking questions never changes the model."""
import random

import numpy as np

from vf import ops, oracle
from vf.build import build, make_function
from vf.core import require
from vf.gen import gen_cbn, gen_macid, gen_row
from vf.snap import difference, snapshot
from vf.worker import Part

ASSUMPTIONS = [
    "At most 64 pure policies per decision; questions that end with an exception also have to leave the model alone.",
    "The same question is asked under the same state of the random generators.",
]


def gen(src):
    cls = src.pick(["CBN", "CID", "CID", "MACID", "MACID", "MACIDBase"])
    if cls == "CBN":
        spec = gen_cbn(src, max_nodes=6)
    else:
        spec = gen_macid(src, cls=cls, max_nodes=6, policies=src.pick([0, 0, 1, 2]), connected=src.bool(3, 4),
                         max_rules=9, max_dec_parents=src.pick([1, 1, 2]))
    spec["missing"] = src.sample(spec["nodes"], 1) if src.bool(1, 10) else []
    spec["ops"] = [ops.gen_op(src, spec, ops.OF_CLASS[cls]) for _ in range(src.int(3, 8))]
    v = src.pick(spec["nodes"])
    k = len(spec["dom"][v])
    spec["change"] = [src.pick(["intervene", "replace", "edge"]), v,
                      [gen_row(src, k, False) for _ in spec["rows"][v] or [0]], src.int(0, k - 1)]
    return spec


def reseed():
    random.seed(7)
    np.random.seed(7)


def make(spec):
    model = build(spec)
    for v in spec["missing"]:
        model.remove_cpds(v)
    return model


def small(spec, op, args):
    """few enough policies for this operation"""
    n = 1
    for d in oracle.all_decisions(spec):
        c = oracle.count_rules(spec, d)
        if op == "quantitative_voi" and d == args[0]:
            c = c ** len(spec["dom"][args[1]])
        n *= c
    if op == "quantitative_voc":
        n *= oracle.count_rules(spec, args[0])
    tree = 1
    for v in {x for d in oracle.all_decisions(spec) for x in [d] + spec["parents"][d]}:
        tree *= len(spec["dom"][v])
    return n <= 150 and tree <= 100


def change(model, spec):
    """a later modification, through which hidden state would show"""
    how, v, rows, i = spec["change"]
    if v not in model.model and how != "edge":
        return
    if how == "intervene":
        model.intervene({v: spec["dom"][v][i]})
    elif how == "replace":
        if spec["rows"][v] is None:
            model.add_cpds(**{v: list(reversed(spec["dom"][v]))})
        else:
            model.add_cpds(**{v: make_function(dict(spec, rows=dict(spec["rows"], **{v: rows})), v)})
    elif how == "edge":
        for p in spec["parents"][v][:1]:
            model.remove_edge(p, v)
            model.add_edge(p, v)


def check(spec, note):
    model = make(spec)
    before = snapshot(model)
    answers = []
    for op, args in spec["ops"]:
        if op in ops.HEAVY_OPS and not small(spec, op, args):
            answers.append(None)
            continue
        reseed()
        result, same = ops.run(model, op, args)
        require(same, "%s%r changes its arguments", op, tuple(args))
        diff = difference(before, snapshot(model))
        require(diff is None, "%s%r changes the model: %s", op, tuple(args), diff)
        answers.append(result)
        if not (isinstance(result, list) and result[:1] == ["exception"]):
            note.hit(op)
    for (op, args), answer in zip(spec["ops"], answers):
        if answer is None:
            continue
        reseed()
        result, _ = ops.run(model, op, args)
        require(result == answer, "%s%r answers %.500r first and %.500r afterwards", op, tuple(args), answer, result)
    twin = make(spec)
    outcome = []
    for m in (model, twin):
        try:
            change(m, spec)
            outcome.append(None)
        except (ValueError, KeyError, TypeError) as e:
            outcome.append(type(e).__name__)
    require(outcome[0] == outcome[1], "after %r, %r of %r ends with %r, otherwise with %r", [o for o, _ in spec["ops"]],
            spec["change"][0], spec["change"][1], *outcome)
    if outcome[0] is None:
        diff = difference(snapshot(twin), snapshot(model))
        require(diff is None, "%r of %r differs after %r: %s", spec["change"][0], spec["change"][1],
                [o for o, _ in spec["ops"]], diff)


PARTS = [
    Part("questions", gen, check, 3000, 60000,
         "random models of all classes, 3-8 read-only operations each, asked twice; then one modification compared with a "
         "fresh model; non-trivial = some operation is answered"),
]

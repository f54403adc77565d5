"""Turn a spec (plain data) into a pycid model."""
import functools
import itertools

import numpy as np
import pycid
from pgmpy.factors.discrete import TabularCPD
from pycid import CID, MACID, CausalBayesianNetwork, StochasticFunctionCPD
from pycid.core.macid_base import MACIDBase

CLASSES = {"CBN": CausalBayesianNetwork, "CID": CID, "MACID": MACID, "MACIDBase": MACIDBase}


def lookup(spec, node):
    """dict: parent assignment (canonical order) -> row; unknown parent outcomes are read as the first outcome"""
    table = {}
    for vals, row in zip(itertools.product(*[spec["dom"][p] for p in spec["parents"][node]]), spec["rows"][node]):
        table[vals] = row
    return table


class CallableRelationship:
    """a relationship that is an object with a __call__, as RandomCPD"""

    def __init__(self, f):
        self.f = f

    def __call__(self, **pv):
        return self.f(**pv)


def make_function(spec, node, value=False, named=False):
    ps = list(spec["parents"][node])
    table = lookup(spec, node)
    dom = list(spec["dom"][node])
    pdom = {p: list(spec["dom"][p]) for p in ps}

    def f(**pv):
        assert set(pv) == set(ps), (node, sorted(pv), ps)
        key = tuple(pv[p] if pv[p] in pdom[p] else pdom[p][0] for p in ps)
        row = table[key]
        if value:
            return dom[row.index(1.0)]
        return dict(zip(dom, row))

    if not named or not all(p.isidentifier() for p in ps):
        return f
    args = ", ".join(sorted(ps))
    scope = {"f": f}
    exec("def rel(%s): return f(%s)" % (args, ", ".join("%s=%s" % (p, p) for p in sorted(ps))), scope)
    return scope["rel"]


def make_table(spec, node, state_names=True):
    ps = spec["parents"][node]
    perm = spec["cpd"][node].get("perm") or list(range(len(ps)))
    if len(perm) != len(ps):
        perm = list(range(len(ps)))
    evidence = [ps[i] for i in perm]
    shape = [len(spec["dom"][p]) for p in ps] + [len(spec["dom"][node])]
    arr = np.array(spec["rows"][node], dtype=float).reshape(shape)
    arr = arr.transpose([len(ps)] + perm)
    values = arr.reshape(len(spec["dom"][node]), -1)
    kw = {}
    if evidence:
        kw = {"evidence": evidence, "evidence_card": [len(spec["dom"][p]) for p in evidence]}
    if state_names:
        kw["state_names"] = {v: list(spec["dom"][v]) for v in [node] + evidence}
    return TabularCPD(node, len(spec["dom"][node]), values, **kw)


def relationship(spec, node, model, kind=None):
    kind = kind or spec["cpd"][node]["kind"]
    if kind == "domain":
        return list(spec["dom"][node])
    if kind == "func":
        return make_function(spec, node)
    if kind == "named":
        return make_function(spec, node, named=True)
    if kind == "funcval":
        return make_function(spec, node, value=True)
    if kind == "callable":
        return CallableRelationship(make_function(spec, node))
    if kind == "partial":
        return functools.partial(make_function(spec, node))
    if kind == "dict":
        return dict(zip(spec["dom"][node], spec["rows"][node][0]))
    if kind == "table":
        return make_table(spec, node, state_names=False)
    if kind == "table_named":
        return make_table(spec, node)
    if kind in ("object", "policy"):
        return StochasticFunctionCPD(node, make_function(spec, node), model, domain=list(spec["dom"][node]))
    raise ValueError(kind)


OBJECT_KINDS = ("object", "policy")


def skeleton(spec, cls=None):
    cls = cls or CLASSES[spec["kind"]]
    edges = [tuple(e) for e in spec["edges"]]
    if issubclass(cls, CID):
        model = cls(edges, decisions=list(spec["decisions"].get(0, [])), utilities=list(spec["utilities"].get(0, [])))
    elif issubclass(cls, MACIDBase):
        model = cls(
            edges,
            agent_decisions={a: list(x) for a, x in spec["decisions"].items()},
            agent_utilities={a: list(x) for a, x in spec["utilities"].items()},
        )
    else:
        model = cls(edges)
    for n in spec["isolated"]:
        model.add_node(n)
    return model


def build(spec, cls=None):
    """The model: relationships first in one add_cpds call, in spec['add_order']; prebuilt objects afterwards."""
    model = skeleton(spec, cls)
    later = [n for n in spec["nodes"] if spec["cpd"][n]["kind"] in OBJECT_KINDS]
    first = {}
    for n in spec["add_order"]:
        if n not in later:
            r = relationship(spec, n, model)
            first[n] = r
    tables = [r for n, r in first.items() if isinstance(r, TabularCPD)]
    others = {n: r for n, r in first.items() if not isinstance(r, TabularCPD)}
    model.add_cpds(*tables, **others)
    for n in later:  # in topological order: these need their parents' domains
        if spec["cpd"][n]["kind"] == "policy":
            model.add_cpds(**{n: list(spec["dom"][n])})
        model.add_cpds(relationship(spec, n, model))
    return model


def factor_array(factor, variables):
    """values of a factor with axes ordered as `variables`, together with its state names"""
    names = list(factor.variables)
    assert sorted(names) == sorted(variables), ("scope of the answer", names, list(variables))
    arr = np.asarray(factor.values, dtype=float)
    return arr.transpose([names.index(v) for v in variables])


def factor_dict(factor, variables):
    """{outcomes: probability} with normalised probabilities, by state names"""
    arr = factor_array(factor, variables)
    total = arr.sum()
    doms = [factor.state_names[v] for v in variables]
    res = {}
    for idx in np.ndindex(*arr.shape):
        res[tuple(d[i] for d, i in zip(doms, idx))] = float(arr[idx]) / total
    return res

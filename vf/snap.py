"""Complete observation of a model: what the user can see of its structure, roles, domains and distributions."""
import numpy as np
from pycid.core.cpd import DecisionDomain


def table(cpd, domain=None):
    """canonical form of a CPD: (variable, sorted evidence, outcomes per variable, array[own outcome, evidence...])"""
    variables = list(cpd.variables)
    own = variables[0]
    evidence = sorted(variables[1:])
    values = np.asarray(cpd.values, dtype=float)
    values = values.reshape([int(c) for c in cpd.cardinality])
    values = values.transpose([variables.index(v) for v in [own] + evidence])
    known = domain or cpd.state_names  # a variable without distribution yet has no names
    names = {v: list(known[v]) if v in known and len(known[v]) == k else ["#%d" % i for i in range(int(k))]
             for v, k in zip(variables, cpd.cardinality)}
    return own, evidence, names, values


def rows(cpd, parents, dom, domain=None):
    """rows as in a spec: one per parent assignment, in the canonical order of `parents`; outcomes as in dom"""
    own, evidence, names, values = table(cpd, domain)
    assert sorted(parents) == evidence, ("parents of", own, evidence, parents)
    for v in [own] + evidence:
        assert sorted(names[v], key=repr) == sorted(dom[v], key=repr), ("outcomes of", v, names[v], dom[v])
    index = [[names[v].index(o) for o in dom[v]] for v in [own] + evidence]
    values = values[np.ix_(*index)]
    order = [0] + [1 + evidence.index(p) for p in parents]
    values = values.transpose(order)
    return np.moveaxis(values, 0, -1).reshape(-1, len(dom[own]))


def table_key(cpd, digits=9):
    """hashable; equal for the same conditional distribution"""
    own, evidence, names, values = table(cpd)
    idx = [sorted(range(len(names[v])), key=lambda i: repr(names[v][i])) for v in [own] + evidence]
    values = values[np.ix_(*idx)]
    outcomes = tuple((v, tuple(sorted(map(repr, names[v])))) for v in [own] + evidence)
    return outcomes, tuple(np.round(values.ravel(), digits).tolist())


def roles(model):
    if not hasattr(model, "agent_decisions"):
        return None
    return (
        {repr(a): sorted(x) for a, x in model.agent_decisions.items()},
        {repr(a): sorted(x) for a, x in model.agent_utilities.items()},
        {d: repr(a) for d, a in model.decision_agent.items()},
        {d: repr(a) for d, a in model.utility_agent.items()},
    )


def snapshot(model, ordered=True):
    """plain data; compare with ==.  ordered: also the order of nodes, edges, roles and domains"""
    shape = (lambda x: list(x)) if ordered else sorted
    snap = {
        "class": type(model).__name__,
        "nodes": shape(model.nodes),
        "edges": shape(model.edges),
        "parents": {n: shape(model.get_parents(n)) for n in model.nodes},
        "roles": roles(model),
        "specified": sorted(model.model.keys()),
        "domain": {v: list(map(repr, model.model.domain[v])) for v in sorted(model.model.keys()) if v in
                   model.model.domain},
    }
    if ordered and snap["roles"]:
        snap["role order"] = (
            [(repr(a), list(x)) for a, x in model.agent_decisions.items()],
            [(repr(a), list(x)) for a, x in model.agent_utilities.items()],
        )
    tables = {}
    for cpd in model.get_cpds():
        tables[cpd.variable] = (isinstance(cpd, DecisionDomain),) + table_key(cpd)
    snap["tables"] = tables
    snap["number of tables"] = len(model.get_cpds())
    return snap


def difference(a, b):
    """a short description of the first difference, or None"""
    for k in a:
        if a[k] != b.get(k):
            if isinstance(a[k], dict) and isinstance(b.get(k), dict):
                for x in list(a[k]) + list(b[k]):
                    if a[k].get(x) != b[k].get(x):
                        return "%s[%s]: %.300r -> %.300r" % (k, x, a[k].get(x), b[k].get(x))
            return "%s: %.300r -> %.300r" % (k, a[k], b.get(k))
    return None

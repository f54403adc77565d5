"""Requisite observations and requisite graphs (reference for C18-C20, C23)."""
from vf.oracle import agent_of, all_decisions, d_separated, descendants


def requisite(spec, parents, decision, node):
    us = set(spec["utilities"].get(agent_of(spec, decision), []))
    us &= descendants(spec["nodes"], parents, decision)
    given = [x for x in [decision] + list(parents[decision]) if x != node]
    return any(not d_separated(parents, [node], [u], given) for u in us)


def requisite_graph(spec, parents=None):
    """remove non-requisite links one at a time until none is left (the result does not depend on the order)"""
    parents = {v: list(p) for v, p in (parents or spec["parents"]).items()}
    again = True
    while again:
        again = False
        for d in all_decisions(spec):
            for p in list(parents[d]):
                if not requisite(spec, parents, d, p):
                    parents[d].remove(p)
                    again = True
    return parents


def edges(parents):
    return {(p, v) for v, ps in parents.items() for p in ps}

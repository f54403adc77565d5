"""Brute-force path enumeration and classification (reference for C17, C19, C21)."""
from vf.oracle import descendants


def adjacent(parents, a, b):
    return a in parents[b] or b in parents[a]


def undirected_paths(nodes, parents, start, end):
    """all simple paths"""
    res = []

    def extend(path):
        if path[-1] == end:
            res.append(tuple(path))
            return
        for v in nodes:
            if v not in path and adjacent(parents, path[-1], v):
                extend(path + [v])

    extend([start])
    return res


def directed_paths(nodes, parents, start, end):
    res = []

    def extend(path):
        if path[-1] == end:
            res.append(tuple(path))
            return
        for v in nodes:
            if path[-1] in parents[v]:
                extend(path + [v])

    extend([start])
    return res


def motif(parents, path, i):
    """of an interior node"""
    a, b, c = path[i - 1], path[i], path[i + 1]
    into_from_left = a in parents[b]
    into_from_right = c in parents[b]
    if into_from_left and into_from_right:
        return "collider"
    if into_from_left:
        return "forward"
    if into_from_right:
        return "backward"
    return "fork"


def is_active(nodes, parents, path, observed):
    """interior nodes only"""
    for i in range(1, len(path) - 1):
        b = path[i]
        if motif(parents, path, i) == "collider":
            if b not in observed and not (descendants(nodes, parents, b) & set(observed)):
                return False
        elif b in observed:
            return False
    return True

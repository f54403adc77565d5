"""Samples follow the model; structural models are recognised."""
import math

from vf.build import build
from vf.core import require
from vf.gen import gen_cbn, gen_macid
from vf.oracle import Net
from vf.worker import Part

ASSUMPTIONS = [
    "Frequencies are judged over a fixed list of seeds with bounds of six standard deviations plus six counts.",
]


def gen(src):
    if src.bool():
        spec = gen_cbn(src, max_nodes=6)
    else:
        spec = gen_macid(src, cls=src.pick(["CID", "MACID", "MACIDBase"]), policies=2, max_nodes=6)
    spec["seeds"] = [src.pick([0, 1, 2, 3, 42, 12345, 2 ** 31]) for _ in range(3)] + [src.int(0, 10 ** 6)]
    return spec


def same(a, b):
    return a == b and isinstance(a, str) == isinstance(b, str)


def outcome_of(spec, sample, v):
    """the outcome in the domain that the sample stands for"""
    hits = [o for o in spec["dom"][v] if same(o, sample[v])]
    require(len(hits) == 1, "the sample %r gives %r an outcome that is not in its domain %r", sample, v, spec["dom"][v])
    return hits[0]


def check(spec, note):
    model = build(spec)
    net = Net.of(spec)
    for seed in spec["seeds"] + [None]:
        s = model.sample(seed) if seed is not None else model.sample()
        require(isinstance(s, dict) and sorted(s) == sorted(spec["nodes"]), "the sample %r does not cover %r", s,
                spec["nodes"])
        full = {v: outcome_of(spec, s, v) for v in spec["nodes"]}
        p = net.prob(full)
        require(p > 0, "the sample %r with seed %r has probability 0", s, seed)
        if p < 1:
            note.hit("random sample")
        if seed is not None:
            t = model.sample(seed=seed)
            require(t == s, "seed %r gives %r and %r", seed, s, t)
            u = build(spec).sample(seed=seed)
            require(u == s, "seed %r gives %r, and %r for the same model built again", seed, s, u)


def gen_frequency(src):
    if src.bool():
        spec = gen_cbn(src, max_nodes=4, min_nodes=2)
    else:
        spec = gen_macid(src, cls=src.pick(["CID", "MACID", "MACIDBase"]), policies=2, max_nodes=4, n_decisions=(1, 2))
    spec["base"] = src.int(0, 10 ** 6)
    spec["seeded"] = src.bool(2, 3)
    spec["n"] = 300
    return spec


def check_frequency(spec, note):
    model = build(spec)
    net = Net.of(spec)
    nodes = spec["nodes"]
    n = spec["n"]
    samples = []
    for i in range(n):
        s = model.sample(spec["base"] + 7919 * i) if spec["seeded"] else model.sample()
        samples.append({v: outcome_of(spec, s, v) for v in nodes})
    for i, v in enumerate(nodes):
        for w in nodes[i:]:
            dist = net.marginal([v, w] if v != w else [v])
            counts = {}
            for s in samples:
                key = (s[v], s[w]) if v != w else (s[v],)
                counts[key] = counts.get(key, 0) + 1
            for a, x in enumerate(spec["dom"][v]):
                for b, y in enumerate(spec["dom"][w]):
                    if v == w and a != b:
                        continue
                    p = float(dist[a, b] if v != w else dist[a])
                    k = counts.get((x, y) if v != w else (x,), 0)
                    if 0.1 < p < 0.9:
                        note.hit("joint" if v != w else "marginal")
                    require(abs(k - n * p) <= 6 * math.sqrt(n * max(p * (1 - p), 0)) + 6,
                            "%d of %d samples have %r=%r, %r=%r, whose probability is %.4f", k, n, v, x, w, y, p)


def gen_structural(src):
    n = src.int(0, 2)
    if src.bool():
        spec = gen_cbn(src, max_nodes=6)
    else:
        spec = gen_macid(src, cls=src.pick(["CID", "MACID", "MACIDBase"]), policies=src.pick([0, 1, 2]), max_nodes=6)
    # mostly deterministic endogenous nodes, with few exceptions
    noisy = src._sample(spec["nodes"], min(n, len(spec["nodes"])))
    for v in spec["nodes"]:
        if spec["parents"][v] and v not in noisy and spec["rows"][v] is not None:
            rows = []
            for r in spec["rows"][v]:
                i = r.index(max(r))
                rows.append([1.0 if j == i else 0.0 for j in range(len(r))])
            spec["rows"][v] = rows
            if spec["cpd"][v]["kind"] == "funcval":
                spec["cpd"][v]["kind"] = "object"
            elif spec["cpd"][v]["kind"] in ("func", "named", "callable") and src.bool(1, 3):
                spec["cpd"][v]["kind"] = "table_named"
    spec["tiny"] = None
    options = [v for v in spec["nodes"] if spec["parents"][v] and spec["rows"][v] is not None and len(spec["dom"][v]) > 1
               and spec["cpd"][v]["kind"] != "funcval"]
    if options and src.bool(1, 4):  # almost, but not quite deterministic
        v = src.pick(options)
        row = src.pick(spec["rows"][v])
        i, j = src._sample(range(len(row)), 2)
        spec["tiny"] = src.pick([1e-2, 1e-3, 1e-4, 1e-5])
        row[:] = [1 - spec["tiny"] if k == i else spec["tiny"] if k == j else 0.0 for k in range(len(row))]
    return spec


def check_structural(spec, note):
    model = build(spec)
    expected = True
    if spec["tiny"]:
        note.hit("nearly deterministic")
    for v in spec["nodes"]:
        if not spec["parents"][v]:
            continue
        if spec["rows"][v] is None:  # a decision that is open: all its options are possible
            expected &= len(spec["dom"][v]) == 1
        else:
            expected &= all(p in (0.0, 1.0) for r in spec["rows"][v] for p in r)
    got = model.is_structural_causal_model()
    require(bool(got) == expected, "is_structural_causal_model() is %r", got)
    if any(spec["parents"][v] for v in spec["nodes"]):
        note.hit("structural" if expected else "not structural")


PARTS = [
    Part("samples", gen, check, 1200, 20000,
         "random models with four seeds and one sample without seed; non-trivial = a sample with probability below 1"),
    Part("frequencies", gen_frequency, check_frequency, 240, 3000,
         "300 samples of a random model compared with all marginals and pairs; non-trivial = some probability strictly "
         "between 0.1 and 0.9"),
    Part("structural", gen_structural, check_structural, 1600, 30000,
         "random models with few or no noisy endogenous nodes; non-trivial = some node has parents"),
]

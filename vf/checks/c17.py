"""Path functions agree with exhaustive path enumeration."""
from pycid.core import get_paths as gp

from vf import oracle, paths
from vf.build import skeleton
from vf.core import expect_raises, require
from vf.gen import BIG, gen_graph
from vf.worker import Part

ASSUMPTIONS = ["Motifs of single nodes are asked for at interior nodes and at the end of a path."]


def gen(src):
    spec = gen_graph(src, cls=src.pick(["MACID", "CID"]), max_nodes=7, max_parents=3, big=dict(BIG, max_nodes=11))
    nodes = spec["nodes"]
    spec["pairs"] = [src.sample(nodes, 2) for _ in range(src.int(2, 5))]
    spec["observed"] = [src.subset(nodes, 1, 3) for _ in range(3)] + [[]]
    return spec


def check(spec, note):
    nodes, parents = spec["nodes"], spec["parents"]
    m = skeleton(spec)
    decs = set(oracle.all_decisions(spec))
    for a, b in spec["pairs"]:
        und = paths.undirected_paths(nodes, parents, a, b)
        dire = paths.directed_paths(nodes, parents, a, b)
        got = [tuple(p) for p in gp.find_all_undir_paths(m, a, b)]
        require(sorted(got) == sorted(und), "find_all_undir_paths(%r, %r): %r, expected %r", a, b, sorted(got),
                sorted(und))
        got = [tuple(p) for p in gp.find_all_dir_paths(m, a, b)]
        require(sorted(got) == sorted(dire), "find_all_dir_paths(%r, %r): %r, expected %r", a, b, sorted(got),
                sorted(dire))
        if len(und) > 1:
            note.hit("several paths")
        expected = any(not decs & set(p[1:-1]) for p in dire)
        require(bool(gp.directed_decision_free_path(m, a, b)) == expected,
                "directed_decision_free_path(%r, %r) is not %r", a, b, expected)
        for p in und:
            mot = [paths.motif(parents, p, i) for i in range(1, len(p) - 1)]
            for i in range(1, len(p) - 1):
                got = gp.get_motif(m, list(p), i)
                require(got == mot[i - 1], "get_motif(%r, %d) is %r, expected %r", p, i, got, mot[i - 1])
            require(gp.get_motif(m, list(p), len(p) - 1) == "endpoint", "get_motif at the end of %r", p)
            first = "forward" if p[0] in parents[p[1]] else "backward"
            got = gp.get_motifs(m, list(p))
            require(got == [first] + mot + ["endpoint"], "get_motifs(%r): %r", p, got)
        for obs in spec["observed"]:
            active = [p for p in und if paths.is_active(nodes, parents, p, obs)]
            for p in und:
                got = gp.is_active_path(m, list(p), set(obs))
                require(got == (p in active), "is_active_path(%r, %r) is %r", p, obs, got)
            if not obs:
                require(all(gp.is_active_path(m, list(p)) == (p in active) for p in und), "is_active_path, default")
            # d-connection
            if a not in obs and b not in obs:
                separated = oracle.d_separated(parents, [a], [b], obs)
                if separated != (not active):
                    from vf.core import HarnessError

                    raise HarnessError("d-separation oracles disagree: %r %r %r" % (spec, (a, b), obs))
                if separated:
                    expect_raises(ValueError, lambda: gp.find_active_path(m, a, b, set(obs)),
                                  "find_active_path(%r, %r, %r)", a, b, obs)
                else:
                    got = tuple(gp.find_active_path(m, a, b, set(obs)))
                    require(got in active, "find_active_path(%r, %r, %r): %r is not an active path", a, b, obs, got)
                    if obs:
                        note.hit("active path given observations")
            elif b in obs:
                expect_raises(ValueError, lambda: gp.find_active_path(m, a, b, set(obs)),
                              "find_active_path(%r, %r, %r) with an observed end", a, b, obs)
            back = any(p[1] in parents[p[0]] for p in active)
            got = gp.is_active_backdoor_trail(m, a, b, set(obs))
            require(got == back, "is_active_backdoor_trail(%r, %r, %r) is %r", a, b, obs, got)
            front = any(p[0] in parents[p[1]] and any(
                paths.motif(parents, p, i) == "collider" for i in range(1, len(p) - 1)) for p in active)
            got = gp.is_active_indirect_frontdoor_trail(m, a, b, set(obs))
            require(got == front, "is_active_indirect_frontdoor_trail(%r, %r, %r) is %r", a, b, obs, got)
            if front:
                note.hit("active indirect front-door trail")
            if back:
                note.hit("active back-door trail")
    a = nodes[0]
    for f in (gp.find_active_path, gp.find_all_dir_paths, gp.find_all_undir_paths, gp.directed_decision_free_path,
              gp.is_active_backdoor_trail, gp.is_active_indirect_frontdoor_trail):
        expect_raises(KeyError, lambda: list(f(m, a, "no such node")), "%s to an unknown node", f.__name__)
        expect_raises(KeyError, lambda: list(f(m, "no such node", a)), "%s from an unknown node", f.__name__)
    a, b = spec["pairs"][0]
    for f in (gp.find_active_path, gp.is_active_backdoor_trail, gp.is_active_indirect_frontdoor_trail):
        expect_raises(KeyError, lambda: f(m, a, b, {"no such node"}), "%s given an unknown node", f.__name__)
    for p in paths.undirected_paths(nodes, parents, a, b)[:2]:
        p = list(p)
        expect_raises(KeyError, lambda: gp.is_active_path(m, p, {"no such node"}), "is_active_path given an unknown node")
        for i in range(len(p)):
            q = p[:i] + ["no such node"] + p[i + 1:]
            expect_raises(KeyError, lambda: gp.is_active_path(m, q), "is_active_path(%r)", q)
            expect_raises(KeyError, lambda: gp.get_motifs(m, q), "get_motifs(%r)", q)
            expect_raises(KeyError, lambda: gp.get_motif(m, q, 1), "get_motif(%r, 1)", q)
        for i in (0, 1):
            expect_raises(IndexError, lambda: gp.get_motif(m, p, len(p) + i), "get_motif(%r, %d)", p, len(p) + i)


PARTS = [
    Part("paths", gen, check, 3200, 100000,
         "random structures with 2-7 nodes, up to 5 pairs and 4 sets of observations; non-trivial = several paths, or "
         "an active path given observations, or an active back-door or indirect front-door trail"),
]

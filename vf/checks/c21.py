"""Reasoning patterns match their graphical criteria (as documented with each function)."""
from pycid.analyze import reasoning_patterns as rp

from vf import oracle, paths
from vf.build import skeleton
from vf.core import expect_raises, require
from vf.gen import BIG, gen_graph
from vf.worker import Part

ASSUMPTIONS = [
    "Where a criterion mentions a utility of the agent twice, it is the same utility.",
    "A path is blocked by the state of its interior nodes.",
]


class Criteria:
    def __init__(self, spec):
        self.spec = spec
        self.nodes, self.parents = spec["nodes"], spec["parents"]
        self.decs = set(oracle.all_decisions(spec))
        self._und, self._dir, self._desc = {}, {}, {}

    def und(self, a, b):
        if (a, b) not in self._und:
            self._und[a, b] = paths.undirected_paths(self.nodes, self.parents, a, b)
        return self._und[a, b]

    def dir(self, a, b):
        if (a, b) not in self._dir:
            self._dir[a, b] = paths.directed_paths(self.nodes, self.parents, a, b)
        return self._dir[a, b]

    def desc(self, a):
        if a not in self._desc:
            self._desc[a] = oracle.descendants(self.nodes, self.parents, a)
        return self._desc[a]

    def effective(self, path, eff):
        for i in range(1, len(path)):
            if path[i] in self.decs and path[i] not in eff:
                if i + 1 < len(path) and paths.motif(self.parents, path, i) == "fork":
                    continue
                return False
        return True

    def utils(self, d):
        return self.spec["utilities"].get(oracle.agent_of(self.spec, d), [])

    def reachable(self, d, eff):
        return [b for b in self.decs if b != d and b in eff and any(
            not self.decs & set(p[1:-1]) for p in self.dir(d, b))]

    def direct(self, d):
        return any(not self.decs & set(p[1:-1]) for u in self.utils(d) for p in self.dir(d, u))

    def dir_effective(self, a, b, eff):
        return any(self.effective(p, eff) for p in self.dir(a, b))

    def pairs(self, d, eff):
        """(D_B, U_A, U_B) that satisfy the first two conditions"""
        for b in self.reachable(d, eff):
            for u in self.utils(d):
                if self.dir_effective(b, u, eff):
                    for ub in self.utils(b):
                        yield b, u, ub

    def manipulation(self, d, eff):
        return any(self.effective(p, eff) and b not in p for b, u, ub in self.pairs(d, eff) for p in self.dir(d, ub))

    def condition(self, b, d):
        return {b} | {x for x in self.parents[b] if x not in self.desc(d)}

    def signaling(self, d, eff):
        for b, u, ub in self.pairs(d, eff):
            w = self.condition(b, d)
            for p in self.und(d, ub):
                if len(p) < 2 or p[1] not in self.parents[p[0]] or not self.effective(p, eff):
                    continue
                if not paths.is_active(self.nodes, self.parents, p, w):
                    continue
                forks = [p[i] for i in range(1, len(p) - 1) if paths.motif(self.parents, p, i) == "fork"]
                if not forks:
                    continue
                w2 = self.condition(d, forks[0])
                if any(self.effective(q, eff) and paths.is_active(self.nodes, self.parents, q, w2)
                       for q in self.und(forks[0], u)):
                    return True
        return False

    def revealing(self, d, eff):
        for b, u, ub in self.pairs(d, eff):
            w = self.condition(b, d)
            for p in self.und(d, ub):
                if len(p) > 1 and p[0] in self.parents[p[1]] and self.effective(p, eff) and any(
                        paths.motif(self.parents, p, i) == "collider" for i in range(1, len(p) - 1)) and \
                        paths.is_active(self.nodes, self.parents, p, w):
                    return True
        return False

    def motivated(self, d, eff):
        return self.direct(d) or self.manipulation(d, eff) or self.signaling(d, eff) or self.revealing(d, eff)

    def patterns(self):
        eff = set(self.decs)
        while True:
            new = {d for d in eff if self.motivated(d, eff)}
            if new == eff:
                break
            eff = new
        res = {"dir_effect": set(), "sig": set(), "manip": set(), "rev_den": set()}
        for d in eff:
            if self.direct(d):
                res["dir_effect"].add(d)
            elif self.signaling(d, eff):
                res["sig"].add(d)
            elif self.manipulation(d, eff):
                res["manip"].add(d)
            else:
                res["rev_den"].add(d)
        return res


def gen(src):
    r = src.int(0, 5)
    if r < 2:
        spec = gen_structured(src)
    elif r < 4:
        spec = gen_long(src)
    else:
        spec = gen_graph(src, cls="MACID", max_nodes=8, min_nodes=4, n_agents=(1, 3), n_decisions=(2, 4),
                         n_utilities=(2, 4), max_parents=3, big=dict(BIG, max_nodes=10, n_decisions=(3, 6)))
    decs = oracle.all_decisions(spec)
    spec["effective"] = [src.subset(decs, 2, 3) for _ in range(2)] + [decs]
    return spec


def gen_long(src):
    """a path from one decision to another agent's utility with several forks and colliders, as signaling needs it"""
    from vf.gen import gen_names, gen_orders

    inner = src.int(1, 5)
    names = gen_names(src, 4 + inner)
    a, b, ua, ub = names[:4]
    path = [a] + names[4:] + [ub]
    edges = [[a, b], [b, ua]]
    down = src.bool(1, 3)  # whether the path leaves the first decision downwards
    wanted = []
    for i, (v, w) in enumerate(zip(path, path[1:])):
        if i == len(path) - 2:
            down = src.bool(4, 5)
        elif i:
            down = src.bool()
        wanted.append([v, w] if down else [w, v])
    for i in range(1, len(path) - 1):
        if wanted[i - 1][1] == path[i] and wanted[i][1] == path[i] and src.bool(5, 6):
            wanted.append([path[i], b])  # a collider that the second decision observes
        if wanted[i - 1][0] == path[i] and wanted[i][0] == path[i] and src.bool(1, 2):
            wanted.append([path[i], ua])
        if src.bool(1, 8):
            wanted.append([path[i], src.pick([a, b, ua, ub])])
    wanted += src.sample([[b, ub], [a, ua], [a, ub]], src.int(0, 2))
    for e in wanted:
        if e[0] != e[1] and e not in edges and oracle.is_acyclic(names, {tuple(x) for x in edges + [e]}):
            edges.append(e)
    third = src.subset(names[4:], 1, 6)  # further decisions, mostly of a third agent
    parents = {v: [x for x, y in edges if y == v] for v in names}
    order = []
    while len(order) < len(names):
        order += [v for v in names if v not in order and all(p in order for p in parents[v])]
    labels = src.pick([[0, 1, 2], ["b", "a", "c"]])
    spec = {"kind": "MACID", "nodes": order, "parents": parents, "decisions": {x: [] for x in labels}}
    for d, x in [(a, 0), (b, 1)] + [(d, src.pick([0, 1, 2, 2, 2])) for d in third]:
        spec["decisions"][labels[x]].append(d)
    spec["utilities"] = {labels[0]: [ua], labels[1]: [ub], labels[2]: []}
    gen_orders(src, spec)
    return spec


def gen_structured(src):
    """chance nodes and decisions mixed, utilities last, each with few parents: patterns other than direct effects"""
    from vf.gen import gen_names, gen_orders

    nd, nc, nu = src.int(2, 3), src.int(1, 3), src.int(2, 3)
    names = gen_names(src, nd + nc + nu)
    labels = [0, 1, 2][:max(2, src.int(2, nd))]
    inner = names[:nd + nc]
    decs = sorted(src.sample(inner, nd), key=names.index)
    owner = {d: labels[i % len(labels)] for i, d in enumerate(src.shuffle(decs))}
    utils = names[nd + nc:]
    for i, u in enumerate(utils):
        owner[u] = labels[i % len(labels)]
    parents = {}
    for i, v in enumerate(names):
        cand = inner[:i] if v in inner else inner
        if v in utils and src.bool(2, 3):
            cand = [c for c in cand if owner.get(c) != owner[v]]  # no direct effect
        k = src.int(0, min(len(cand), 2)) if v in inner else src.int(1, min(len(cand), 2)) if cand else 0
        parents[v] = src.sample(cand, k) if k else []
    spec = {"kind": "MACID", "nodes": names, "parents": parents}
    spec["decisions"] = {a: [d for d in decs if owner[d] == a] for a in labels}
    spec["utilities"] = {a: [u for u in utils if owner[u] == a] for a in labels}
    gen_orders(src, spec)
    return spec


def check(spec, note):
    m = skeleton(spec)
    c = Criteria(spec)
    for d in oracle.all_decisions(spec):
        got = rp.direct_effect(m, d)
        require(bool(got) == c.direct(d), "direct_effect(%r) is %r", d, got)
        for eff in spec["effective"]:
            for name, expected in (("manipulation", c.manipulation(d, eff)), ("signaling", c.signaling(d, eff)),
                                   ("revealing_or_denying", c.revealing(d, eff))):
                got = getattr(rp, name)(m, d, set(eff))
                require(bool(got) == expected, "%s(%r, %r) is %r, the criterion says %r", name, d, sorted(eff), got,
                        expected)
                if expected:
                    note.hit(name)
    expected = c.patterns()
    got = rp.get_reasoning_patterns(m)
    require(set(got) == set(expected), "keys of get_reasoning_patterns: %r", sorted(got))
    for k in expected:
        require(sorted(got[k]) == sorted(expected[k]), "get_reasoning_patterns()[%r]: %r, expected %r", k, got[k],
                sorted(expected[k]))
    if sum(map(len, expected.values())) < len(c.decs):
        note.hit("unmotivated decisions", False)
    for name in ("manipulation", "signaling", "revealing_or_denying"):
        d = oracle.all_decisions(spec)[0]
        expect_raises(KeyError, lambda: getattr(rp, name)(m, d, {"no such node"}), "%s, unknown effective node", name)


PARTS = [
    Part("patterns", gen, check, 8000, 160000,
         "random multi-agent structures with 4-9 nodes and 2-4 decisions, 3 effective sets each; non-trivial = some "
         "decision admits manipulation, signaling or revealing/denying"),
]

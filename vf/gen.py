"""Structured generators. Every random choice goes through `Src`, i.e. through hypothesis' choice sequence."""

NAMES = [
    "A", "B", "C", "D", "E", "S", "X", "Y", "Z", "U", "V", "W", "D1", "D2", "D10", "U1", "U2", "AB", "BA", "X_1",
    "O", "R", "Q", "me", "c", "mec1", "D1x", "x", "N0", "N1", "N2", "N3", "N4", "N5", "N6", "N7", "N8", "N9",
]

STR_DOMS = [["a", "b"], ["e", "c"], ["low", "high"], ["c", "b", "a"], ["no", "yes"], ["x", "y", "z"]]
INT_DOMS = [[0, 1], [1, 0], [-1, 1], [0, 1, 2], [2, 0, 1], [5, 3], [10, 9], [1, 2, 3],
            [False, True], [True, False], [0.5, 2.25], [3, 0, 1, 2]]
LABELS = [list(range(8)), list(range(1, 9)), ["alice", "bob", "carol", "dan", "eve", "fay", "guy", "hal"]]
UTIL_VALUES = [-3, -2, -1, 0, 1, 2, 3, 5, 0.5, 1.5, 7, -0.25, 4, 6]


class Src:
    """Draws from hypothesis' choice sequence."""

    rare = False  # whether gen_row makes some outcomes very unlikely

    def __init__(self, data):
        self.cd = data.conjecture_data

    def int(self, lo, hi):
        if lo >= hi:
            return lo
        return self.cd.draw_integer(lo, hi)

    def bool(self, num=1, den=2):
        """True with probability num/den; shrinks to False"""
        return self.int(0, den - 1) >= den - num

    def pick(self, seq):
        return seq[self.int(0, len(seq) - 1)]

    def shuffle(self, seq):
        seq = list(seq)
        out = []
        while seq:
            out.append(seq.pop(self.int(0, len(seq) - 1)))
        return out

    def subset(self, seq, num=1, den=2):
        return [x for x in seq if self.bool(num, den)]

    def sample(self, seq, k):
        return self.shuffle(seq)[:k] if k * 3 > len(seq) else self._sample(seq, k)

    def _sample(self, seq, k):
        seq = list(seq)
        return [seq.pop(self.int(0, len(seq) - 1)) for _ in range(k)]


BIG = {"max_nodes": 12, "max_parents": 2, "n_agents": (3, 6), "n_decisions": (3, 6), "n_utilities": (3, 6)}


def gen_names(src, n, plain=False):
    if plain or src.bool(1, 3):
        return ["N%d" % i for i in range(n)] if src.bool() else ["ABCDEFGHIJKLMNOPQRSTUVWXYZ"[i] for i in range(n)]
    return src._sample(NAMES, n)


def gen_dag(src, names, max_parents=3, density=2, connected=False):
    """names is a topological order; returns {name: [parents]} with parents in random order"""
    parents = {}
    for i, n in enumerate(names):
        cand = names[:i]
        k = min(len(cand), max_parents)
        k = min(src.int(0, k) if density < 2 else max(src.int(0, k), src.int(0, k)), k)
        ps = src.sample(cand, k) if cand else []
        parents[n] = ps
    if connected:
        comp = {n: n for n in names}

        def find(a):
            while comp[a] != a:
                a = comp[a]
            return a

        for n in names:
            for p in parents[n]:
                comp[find(n)] = find(p)
        for i in range(1, len(names)):
            if find(names[i]) != find(names[0]):
                # attach the later component to something earlier
                p = names[src.int(0, i - 1)]
                if find(p) == find(names[i]):
                    p = names[0]
                if p not in parents[names[i]]:
                    parents[names[i]].append(p)
                comp[find(names[i])] = find(p)
    return parents


def gen_orders(src, spec):
    """insertion orders of nodes and edges; an edge order fixes pycid's parent order"""
    edges = [[p, n] for n in spec["nodes"] for p in spec["parents"][n]]
    if src.bool(2, 3):
        edges = src.shuffle(edges)
    spec["edges"] = edges
    spec["isolated"] = [n for n in spec["nodes"] if not any(n in e for e in edges)]
    spec["add_order"] = src.shuffle(spec["nodes"]) if src.bool(2, 3) else list(spec["nodes"])


def gen_row(src, k, deterministic):
    if deterministic or src.bool(1, 4):
        i = src.int(0, k - 1)
        return [1.0 if j == i else 0.0 for j in range(k)]
    w = [src.int(0, 4) for _ in range(k)]
    if sum(w) == 0:
        w[src.int(0, k - 1)] = 1
    if src.bool(1, 12):
        w[src.int(0, k - 1)] = 400  # the other outcomes are rare
    elif src.rare and src.bool(1, 3):
        w[src.int(0, k - 1)] = src.pick([10 ** 5, 10 ** 7])
    t = float(sum(w))
    return [x / t for x in w]


def n_contexts(spec, node):
    n = 1
    for p in spec["parents"][node]:
        n *= len(spec["dom"][p])
    return n


def gen_domain(src, numeric=False, maxcard=3, util=False):
    if util:
        k = src.int(2, maxcard)
        return sorted(src._sample(UTIL_VALUES, k))
    r = src.int(0, 9)
    if r == 9:
        base = [src.pick([0, 1, 7])]  # a constant
    elif r >= 6 and not numeric:
        base = list(src.pick(STR_DOMS))
    else:
        base = list(src.pick(INT_DOMS))
    return base[:maxcard] if len(base) > maxcard else base


KINDS = ["func", "func", "named", "table", "object", "funcval", "table_named", "callable", "dict"]


def gen_cpd(src, spec, node, util=False, maxcard=3, kinds=None, numeric=False, wide=True):
    """give `node` a distribution: spec['cpd'][node] (how it is written), spec['dom'], spec['rows'];
    wide: the domain may be larger than maxcard, now and then"""
    kind = src.pick(kinds or KINDS)
    if kind == "dict" and spec["parents"][node]:
        kind = "func"
    det = (util and src.bool(2, 3)) or src.bool(1, 3)
    dom = gen_domain(src, util=util, maxcard=maxcard, numeric=numeric)
    if wide and maxcard > 2 and src.bool(1, 30):
        dom = src._sample([3, -1, 0, 12, 2, 7, 0.5], src.int(5, 6))
    n = n_contexts(spec, node)
    rows = [gen_row(src, len(dom), det or kind == "funcval") for _ in range(n)]
    if kind in ("func", "named", "funcval", "callable", "dict"):
        if kind == "funcval":
            used = [any(r[i] for r in rows) for i in range(len(dom))]
            rows = [[p for p, u in zip(r, used) if u] for r in rows]
            dom = [o for o, u in zip(dom, used) if u]
        perm = sorted(range(len(dom)), key=lambda i: dom[i])  # pycid sorts inferred domains
        dom = [dom[i] for i in perm]
        rows = [[r[i] for i in perm] for r in rows]
    elif kind == "table":
        dom = list(range(len(dom)))  # a plain table without state names: outcomes are 0..k-1
    spec["dom"][node] = dom
    spec["rows"][node] = rows
    spec["cpd"][node] = {"kind": kind, "perm": src.shuffle(range(len(spec["parents"][node])))}


def gen_cbn(src, max_nodes=6, max_parents=3, maxcard=3, numeric=False, min_nodes=1, kinds=None, connected=False,
            max_joint=4000):
    n = src.int(min_nodes, max_nodes)
    names = gen_names(src, n)
    spec = {"kind": "CBN", "nodes": names, "dom": {}, "rows": {}, "cpd": {}, "decisions": {}, "utilities": {}}
    spec["parents"] = gen_dag(src, names, max_parents, connected=connected)
    size = 1
    for v in names:
        gen_cpd(src, spec, v, maxcard=maxcard if size < max_joint else 1, numeric=numeric, kinds=kinds)
        size *= len(spec["dom"][v])
    gen_orders(src, spec)
    return spec


def gen_macid(src, cls="MACID", max_nodes=6, min_nodes=2, n_agents=(1, 3), n_decisions=(1, 3), n_utilities=(1, 3),
              max_parents=3, max_dec_parents=2, maxcard=3, connected=False, policies=0, util_leaf=0, plain_names=False,
              stochastic=True, agent_labels=None, max_rules=None, decision_last=False, big=None):
    """A (MA)CID with distributions for all chance and utility nodes.

    big: bounds that replace the others in every eighth case

    policies: 0 none; 1 some decisions carry a (random) policy; 2 all do
    util_leaf: 1 utilities are barren
    """
    if big and src.bool(1, 8):
        max_nodes = big.get("max_nodes", max_nodes)
        n_agents, n_decisions, n_utilities = (
            big.get(k, v) for k, v in (("n_agents", n_agents), ("n_decisions", n_decisions), ("n_utilities", n_utilities)))
        max_parents, maxcard = big.get("max_parents", max_parents), big.get("maxcard", maxcard)
        max_dec_parents, min_nodes = big.get("max_dec_parents", max_dec_parents), max_nodes - 2
    n = src.int(min_nodes, max_nodes)
    names = gen_names(src, n, plain=plain_names)
    spec = {"kind": cls, "nodes": names, "dom": {}, "rows": {}, "cpd": {}, "decisions": {}, "utilities": {}}
    nd = min(src.int(*n_decisions), max(n - 1, 1))
    nu = min(src.int(*n_utilities), n - nd)
    na = 1 if cls == "CID" else src.int(*n_agents)
    labels = [0] if cls == "CID" else (agent_labels or src.pick(LABELS))
    labels = labels[:na]
    order = list(names)
    # utilities tend to be late, decisions in the middle
    if util_leaf or src.bool(2, 3):
        utils = order[n - nu:]
    else:
        utils = src._sample(order, nu)
    rest = [x for x in order if x not in utils]
    decs = src._sample(rest, min(nd, len(rest)))
    decs.sort(key=order.index)
    roles = {}
    for i, d in enumerate(decs):
        roles[d] = ("D", labels[i % na] if i < na else src.pick(labels))
    for i, u in enumerate(utils):
        roles[u] = ("U", labels[i % na] if i < na else src.pick(labels))
    parents = {}
    for i, v in enumerate(names):
        cand = [c for c in names[:i] if not (util_leaf and c in utils)]
        cap = max_dec_parents if v in decs else max_parents
        k = max(src.int(0, min(len(cand), cap)), src.int(0, min(len(cand), cap)))
        parents[v] = src.sample(cand, k) if cand else []
    # make decisions matter: each gets a child among the later nodes most of the time
    for d in decs:
        later = [v for v in names[names.index(d) + 1:]]
        if later and not any(d in parents[v] for v in later) and src.bool(4, 5):
            v = src.pick(later)
            if len(parents[v]) >= (max_dec_parents if v in decs else max_parents):
                parents[v].pop(src.int(0, len(parents[v]) - 1))
            parents[v].append(d)
    spec["parents"] = parents
    if connected:
        _connect(src, spec, utils if util_leaf else [])
    for a in labels:
        spec["decisions"][a] = [d for d in decs if roles[d][1] == a]
        spec["utilities"][a] = [u for u in utils if roles[u][1] == a]
    if cls == "CID":
        pass
    size = 1
    for v in names:
        card = maxcard if size < 3000 else 2
        if v in decs:
            dom = gen_domain(src, maxcard=card)
            if len(dom) == 1 and src.bool(3, 4):
                dom = [0, 1]
            if max_rules:
                while len(dom) > 2 and len(dom) ** n_contexts(spec, v) > max_rules:
                    dom = dom[:-1]
            spec["dom"][v] = dom
            spec["cpd"][v] = {"kind": "domain"}
            spec["rows"][v] = None
            if policies == 2 or (policies == 1 and src.bool()):
                spec["rows"][v] = [gen_row(src, len(dom), False) for _ in range(n_contexts(spec, v))]
                spec["cpd"][v] = {"kind": "policy"}
        elif v in utils:
            gen_cpd(src, spec, v, util=True, maxcard=card, wide=not any(v in parents[d] for d in decs),
                    kinds=["func", "named", "funcval", "object", "table_named", "callable"])
        else:
            gen_cpd(src, spec, v, maxcard=card, wide=not any(v in parents[d] for d in decs))
        size *= len(spec["dom"][v])
    gen_orders(src, spec)
    return spec


def _connect(src, spec, leaves):
    """make the graph (weakly) connected, without giving the leaves children"""
    nodes, parents = spec["nodes"], spec["parents"]
    comp = {v: v for v in nodes}

    def find(a):
        while comp[a] != a:
            a = comp[a]
        return a

    for v in nodes:
        for p in parents[v]:
            comp[find(v)] = find(p)
    for i in range(1, len(nodes)):
        v = nodes[i]
        cand = [c for c in nodes[:i] if c not in leaves and find(c) != find(v)]
        if cand and any(find(c) != find(v) for c in nodes[:i]):
            p = src.pick(cand)
            parents[v].append(p)
            comp[find(v)] = find(p)


def is_connected(spec):
    nodes = spec["nodes"]
    if not nodes:
        return True
    seen = {nodes[0]}
    stack = [nodes[0]]
    while stack:
        a = stack.pop()
        for v in nodes:
            if v not in seen and (a in spec["parents"][v] or v in spec["parents"][a]):
                seen.add(v)
                stack.append(v)
    return len(seen) == len(nodes)


def components(spec):
    comp = {}
    for start in spec["nodes"]:
        if start in comp:
            continue
        stack = [start]
        comp[start] = start
        while stack:
            a = stack.pop()
            for v in spec["nodes"]:
                if v not in comp and (a in spec["parents"][v] or v in spec["parents"][a]):
                    comp[v] = start
                    stack.append(v)
    return comp


def gen_graph(src, cls="MACID", max_nodes=8, min_nodes=2, n_agents=(1, 3), n_decisions=(1, 3), n_utilities=(1, 3),
              max_parents=4, util_leaf=None, plain_names=False, recall=False, big=None):
    """Structure only: names, DAG, roles, orders.  recall: each decision (of all agents or
    of the agents with the given indices) observes its agent's past.  big: bounds that replace the others in every
    eighth case."""
    if big and src.bool(1, 8):
        max_nodes, max_parents = big.get("max_nodes", max_nodes), big.get("max_parents", max_parents)
        n_agents, n_decisions, n_utilities = (
            big.get(k, v) for k, v in (("n_agents", n_agents), ("n_decisions", n_decisions), ("n_utilities", n_utilities)))
        min_nodes = max(min_nodes, max_nodes - 3)
    n = src.int(min_nodes, max_nodes)
    names = gen_names(src, n, plain=plain_names)
    nd = min(src.int(*n_decisions), n)
    nu = min(src.int(*n_utilities), n - nd)
    na = 1 if cls == "CID" else src.int(*n_agents)
    labels = [0] if cls == "CID" else src.pick(LABELS)[:na]
    if util_leaf is None:
        util_leaf = src.bool()
    utils = names[n - nu:] if util_leaf or src.bool() else src._sample(names, nu)
    rest = [x for x in names if x not in utils]
    decs = sorted(src._sample(rest, min(nd, len(rest))), key=names.index)
    owner = {}
    for i, d in enumerate(decs):
        owner[d] = src.pick(labels)
    for i, u in enumerate(utils):
        owner[u] = src.pick(labels)
    parents = {}
    for i, v in enumerate(names):
        cand = [c for c in names[:i] if not (util_leaf and c in utils)]
        k = src.int(0, min(len(cand), max_parents))
        parents[v] = src.sample(cand, k) if cand else []
        if v in decs and (recall is True or recall and labels.index(owner[v]) in recall):
            for d in decs[:decs.index(v)]:
                if owner[d] == owner[v]:
                    for x in parents[d] + [d]:
                        if x not in parents[v]:
                            parents[v].append(x)
    spec = {"kind": cls, "nodes": names, "parents": parents}
    spec["decisions"] = {a: [d for d in decs if owner[d] == a] for a in labels}
    spec["utilities"] = {a: [u for u in utils if owner[u] == a] for a in labels}
    gen_orders(src, spec)
    for a in labels:
        if src.bool():
            spec["decisions"][a] = src.shuffle(spec["decisions"][a])
        if src.bool():
            spec["utilities"][a] = src.shuffle(spec["utilities"][a])
    return spec

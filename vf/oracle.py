"""Reference models, written without pycid, pgmpy or networkx: joint enumeration, d-separation, games.

Everything works on plain data, the `spec` of a model (see gen.py):
  nodes: [name]                    in a topological order
  parents: {name: [name]}          canonical parent order
  dom: {name: [outcome]}           domain, in the order pycid must use
  rows: {name: [[prob]]}           one row per parent assignment, in itertools.product order; None: no distribution
"""
import itertools

import numpy as np

LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"


class Net:
    """A discrete Bayesian network; answers everything from the full joint table."""

    def __init__(self, nodes, parents, dom, rows):
        self.nodes = list(nodes)
        self.parents = {n: list(parents[n]) for n in self.nodes}
        self.dom = {n: list(dom[n]) for n in self.nodes}
        self.rows = dict(rows)
        self._joint = None

    @classmethod
    def of(cls, spec):
        return cls(spec["nodes"], spec["parents"], spec["dom"], spec["rows"])

    def with_rows(self, rows):
        new = dict(self.rows)
        new.update(rows)
        return Net(self.nodes, self.parents, self.dom, new)

    def do(self, intervention):
        """Replace mechanisms by constants; an outcome outside the domain extends the domain."""
        parents = dict(self.parents)
        rows = dict(self.rows)
        dom = dict(self.dom)
        for node, outcome in intervention.items():
            parents[node] = []
            rows[node] = [[1.0 if o == outcome else 0.0 for o in dom[node]]]
            assert outcome in dom[node]
        return Net(self.nodes, parents, dom, rows)

    def table(self, node):
        shape = [len(self.dom[p]) for p in self.parents[node]] + [len(self.dom[node])]
        return np.array(self.rows[node], dtype=float).reshape(shape)

    def joint(self):
        if self._joint is None:
            letter = dict(zip(self.nodes, LETTERS))
            args = []
            subs = []
            for n in self.nodes:
                args.append(self.table(n))
                subs.append("".join(letter[p] for p in self.parents[n]) + letter[n])
            out = "".join(letter[n] for n in self.nodes)
            j = None
            cur = ""
            for sub, arg in zip(subs, args):  # topological order: multiply in one table at a time
                if j is None:
                    j, cur = arg, sub
                else:
                    new = cur + sub[-1]
                    j = np.einsum(cur + "," + sub + "->" + new, j, arg)
                    cur = new
            assert cur == out
            self._joint = j
        return self._joint

    def axis(self, node):
        return self.nodes.index(node)

    def marginal(self, variables, context=None):
        """unnormalised P(variables, context) with axes in the order of `variables`"""
        context = context or {}
        j = self.joint()
        letter = dict(zip(self.nodes, LETTERS))
        index = []
        kept = ""
        for n in self.nodes:
            if n in context:
                index.append(self.dom[n].index(context[n]))
            else:
                index.append(slice(None))
                kept += letter[n]
        sub = j[tuple(index)]
        return np.einsum(kept + "->" + "".join(letter[v] for v in variables), sub)

    def prob(self, context):
        return float(self.marginal([], context))

    def expected(self, variables, context=None):
        """list of E[v | context]; None if P(context)=0"""
        p = self.prob(context or {})
        if p <= 0:
            return None
        res = []
        for v in variables:
            if context and v in context:
                res.append(float(context[v]))
                continue
            m = self.marginal([v], context)
            res.append(float(np.dot(m, np.array(self.dom[v], dtype=float))) / p)
        return res

    def eu(self, utilities, context=None):
        e = self.expected(utilities, context)
        return None if e is None else sum(e)


# ---------------------------------------------------------------------------------------------- graphs
def children_of(nodes, parents):
    ch = {n: [] for n in nodes}
    for n in nodes:
        for p in parents[n]:
            ch[p].append(n)
    return ch


def ancestors(parents, targets):
    """targets and all their ancestors"""
    seen = set()
    stack = list(targets)
    while stack:
        n = stack.pop()
        if n not in seen:
            seen.add(n)
            stack.extend(parents[n])
    return seen


def descendants(nodes, parents, node):
    """strict descendants"""
    ch = children_of(nodes, parents)
    seen = set()
    stack = list(ch[node])
    while stack:
        n = stack.pop()
        if n not in seen:
            seen.add(n)
            stack.extend(ch[n])
    return seen


def d_separated(parents, a, b, given):
    """Moral-graph criterion: A and B are separated by `given` in the moralised graph of the ancestral set."""
    a, b, given = set(a), set(b), set(given)
    anc = ancestors(parents, a | b | given)
    adj = {n: set() for n in anc}
    for n in anc:
        ps = list(parents[n])
        for p in ps:
            adj[n].add(p)
            adj[p].add(n)
        for p, q in itertools.combinations(ps, 2):
            adj[p].add(q)
            adj[q].add(p)
    seen = set(a - given)
    stack = list(seen)
    while stack:
        n = stack.pop()
        if n in b:
            return False
        for m in adj[n]:
            if m not in seen and m not in given:
                seen.add(m)
                stack.append(m)
    return True


def with_mechanism(parents, node, mech="@mech"):
    new = {n: list(p) for n, p in parents.items()}
    new[mech] = []
    new[node] = new[node] + [mech]
    return new


def r_reachable(spec, decision, node):
    """Is `node` r-reachable from `decision`: a new parent of node is d-connected to a downstream utility of the
    decision's agent, given the decision's family."""
    nodes, parents = spec["nodes"], spec["parents"]
    agent = agent_of(spec, decision)
    us = set(spec["utilities"].get(agent, [])) & descendants(nodes, parents, decision)
    if not us:
        return False
    new = with_mechanism(parents, node)
    given = [decision] + parents[decision]
    return any(not d_separated(new, ["@mech"], [u], given) for u in us)


def agent_of(spec, decision):
    for agent, ds in spec["decisions"].items():
        if decision in ds:
            return agent
    raise KeyError(decision)


def all_decisions(spec):
    return [d for ds in spec["decisions"].values() for d in ds]


def all_utilities(spec):
    return [d for ds in spec["utilities"].values() for d in ds]


def relevance_edges(spec, decisions):
    return {(a, b) for a in decisions for b in decisions if a != b and r_reachable(spec, a, b)}


def is_acyclic(nodes, edges):
    nodes = set(nodes)
    edges = set(edges)
    while nodes:
        free = [n for n in nodes if not any(e[1] == n for e in edges)]
        if not free:
            return False
        nodes -= set(free)
        edges = {e for e in edges if e[0] in nodes and e[1] in nodes}
    return True


def transitive_closure(nodes, edges):
    reach = {n: {n} for n in nodes}
    changed = True
    while changed:
        changed = False
        for a, b in edges:
            for n in nodes:
                if a in reach[n] and not reach[b] <= reach[n]:
                    reach[n] |= reach[b]
                    changed = True
    return reach


def sufficient_recall(spec, agent=None):
    agents = [agent] if agent is not None else list(spec["utilities"])
    for a in agents:
        ds = spec["decisions"].get(a, [])
        if not is_acyclic(ds, relevance_edges(spec, ds)):
            return False
    return True


# ---------------------------------------------------------------------------------------------- policies, games
def decision_rules(spec, decision):
    """every pure decision rule, as a tuple with one outcome per context (product order over canonical parents)"""
    n = 1
    for p in spec["parents"][decision]:
        n *= len(spec["dom"][p])
    return itertools.product(spec["dom"][decision], repeat=n)


def rule_rows(spec, decision, rule):
    dom = spec["dom"][decision]
    return [[1.0 if o == c else 0.0 for o in dom] for c in rule]


def uniform_rows(spec, decision):
    dom = spec["dom"][decision]
    n = 1
    for p in spec["parents"][decision]:
        n *= len(spec["dom"][p])
    return [[1.0 / len(dom)] * len(dom) for _ in range(n)]


def contexts(spec, node):
    ps = spec["parents"][node]
    for vals in itertools.product(*[spec["dom"][p] for p in ps]):
        yield dict(zip(ps, vals))


def count_rules(spec, decision):
    n = 1
    for p in spec["parents"][decision]:
        n *= len(spec["dom"][p])
    return len(spec["dom"][decision]) ** n


class Values:
    """EU of an agent as a multilinear function of the decision rules (decisions' tables left out of the joint)."""

    def __init__(self, spec, utilities, decisions, rows=None):
        self.spec = spec
        self.decisions = list(decisions)
        rows = dict(spec["rows"] if rows is None else rows)
        for d in self.decisions:
            rows[d] = [[1.0] * len(spec["dom"][d]) for _ in contexts(spec, d)]
        net = Net(spec["nodes"], spec["parents"], spec["dom"], rows)
        self.net = net
        j = net.joint()
        total = np.zeros_like(j)
        for u in utilities:
            shape = [1] * j.ndim
            shape[net.axis(u)] = len(spec["dom"][u])
            total = total + np.array(spec["dom"][u], dtype=float).reshape(shape)
        self.weighted = j * total
        self.letter = dict(zip(net.nodes, LETTERS))

    def reduce(self, keep):
        """sum out all nodes that are not in keep"""
        src = "".join(self.letter[n] for n in self.net.nodes)
        dst = "".join(self.letter[n] for n in keep)
        return np.einsum(src + "->" + dst, self.weighted)

    def family(self):
        fam = []
        for d in self.decisions:
            for n in self.spec["parents"][d] + [d]:
                if n not in fam:
                    fam.append(n)
        return fam

    def value(self, rows):
        """EU under the profile rows {decision: rows}"""
        fam = self.family()
        if not hasattr(self, "_red"):
            self._red = self.reduce(fam)
        args = [self._red]
        subs = ["".join(self.letter[n] for n in fam)]
        for d in self.decisions:
            shape = [len(self.spec["dom"][p]) for p in self.spec["parents"][d]] + [len(self.spec["dom"][d])]
            args.append(np.array(rows[d], dtype=float).reshape(shape))
            subs.append("".join(self.letter[n] for n in self.spec["parents"][d] + [d]))
        return float(np.einsum(",".join(subs) + "->", *args))


def max_eu(spec, decisions, utilities, limit=200000):
    """max over all pure policies of `decisions` of the EU (brute force), other nodes as in spec['rows'].

    Returns (max, list of (policy, eu)) where policy = {decision: rule}; None if there are too many policies."""
    n = 1
    for d in decisions:
        n *= count_rules(spec, d)
    if n > limit:
        return None
    v = Values(spec, utilities, decisions)
    res = []
    for combo in itertools.product(*[decision_rules(spec, d) for d in decisions]):
        rows = {d: rule_rows(spec, d, r) for d, r in zip(decisions, combo)}
        res.append((dict(zip(decisions, combo)), v.value(rows)))
    best = max(e for _, e in res)
    return best, res

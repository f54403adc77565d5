"""A model depends on what it contains, not on how it was built: a stateful check against a pure-Python model."""
import itertools

from pgmpy.factors.discrete import TabularCPD
from pycid import CID, MACID, CausalBayesianNetwork

from vf import oracle
from vf.core import require, require_close
from vf.gen import gen_domain, gen_names
from vf.snap import rows as table_rows
from vf.worker import Part

ASSUMPTIONS = [
    "Relationships given as functions are added again after the parents of their variable have changed (as documented, "
    "the arguments of a function are the parents); constants and decision options need no such step.",
    "Policies that have been imputed are replaced by the decision's options before their parents or the domains of "
    "these change.",
    "Tables are used for variables without parents only.",
]


def num(o):
    return sum(map(ord, o)) if isinstance(o, str) else int(4 * o) if isinstance(o, float) else int(o)


# ------------------------------------------------------------------------------------------- relationships as data
def gen_rel(src, decision):
    r = src.int(0, 9)
    if decision and r < 5:
        return ["options", gen_domain(src)]
    if r < 2:
        dom = sorted(gen_domain(src))
        w = [src.int(0, 4) for _ in dom]
        w[0] += 1
        return ["dist", dom, [x / sum(w) for x in w]]
    if r < 4:
        return ["table", gen_domain(src), src.int(1, 4)]
    kind = src.pick(["hash", "sum", "mix", "first"])
    return [kind, src.int(0, 5), src.int(2, 3)]


def entry(rel, pv):
    """the distribution a function relationship returns for the parent values pv (a dict)"""
    kind, c, k = rel
    h = c + sum((2 + sum(map(ord, p))) * num(o) for p, o in pv.items())
    if kind == "hash":
        return {h % k: 1.0}
    if kind == "sum":
        return {c + sum(num(o) % 3 for o in pv.values()): 1.0}
    if kind == "mix":
        return {h % k: 0.75, (h + 1) % k: 0.25}
    # the outcome of the first parent (by name)
    return {(num(pv[min(pv)]) if pv else c): 1.0}


def as_relationship(rel, var):
    if rel[0] == "options":
        return list(rel[1])
    if rel[0] == "dist":
        return dict(zip(rel[1], rel[2]))
    if rel[0] == "table":
        dom = rel[1]
        w = [1 + (rel[2] * i) % 3 for i in range(len(dom))]
        return TabularCPD(var, len(dom), [[x / sum(w)] for x in w], state_names={var: list(dom)})
    if rel[1] % 2:
        return lambda **pv: dict(entry(rel, pv))

    def func(**pv):
        e = entry(rel, pv)
        return next(iter(e)) if len(e) == 1 else e

    return func


class Model:
    """the reference: a graph and relationships"""

    def __init__(self, nodes, parents, decisions):
        self.nodes, self.parents, self.decisions = list(nodes), {n: list(p) for n, p in parents.items()}, decisions
        self.rel = {}

    def order(self):
        done, res = set(), []
        while len(res) < len(self.nodes):
            for n in self.nodes:
                if n not in done and all(p in done for p in self.parents[n]):
                    done.add(n)
                    res.append(n)
        return res

    def distributions(self):
        """{variable: (domain, rows)} for the variables all of whose ancestors have a relationship"""
        dom, rows = {}, {}
        for n in self.order():
            ps = self.parents[n]
            if n not in self.rel or any(p not in dom for p in ps):
                continue
            contexts = [dict(zip(ps, v)) for v in itertools.product(*[dom[p] for p in ps])]
            rel = self.rel[n]
            if rel[0] in ("options", "random"):
                dom[n] = list(rel[1])
                rows[n] = [[1.0 / len(dom[n])] * len(dom[n]) for _ in contexts]
            elif rel[0] == "dist":
                dom[n] = list(rel[1])
                rows[n] = [list(rel[2]) for _ in contexts]
            elif rel[0] == "do":
                dom[n] = list(rel[1])
                rows[n] = [[1.0 if o == rel[2] else 0.0 for o in dom[n]] for _ in contexts]
            elif rel[0] == "table":
                dom[n] = list(rel[1])
                w = [1 + (rel[2] * i) % 3 for i in range(len(dom[n]))]
                rows[n] = [[x / sum(w) for x in w]]
            else:
                es = [entry(rel, pv) for pv in contexts]
                dom[n] = sorted(set().union(*es))
                rows[n] = [[e.get(o, 0.0) for o in dom[n]] for e in es]
        return dom, rows


def is_function(rel):
    return rel[0] in ("hash", "sum", "mix", "first")


# ------------------------------------------------------------------------------------------- histories
def gen(src):
    n = src.int(2, 6)
    names = gen_names(src, n)
    cls = src.pick(["CBN", "CBN", "CID", "MACID"])
    parents = {}
    for i, v in enumerate(names):
        parents[v] = src.sample(names[:i], src.int(0, min(i, 2))) if i else []
    decisions = [] if cls == "CBN" else src.subset(names, 1, 3)
    spec = {"cls": cls, "nodes": names, "parents": parents, "decisions": decisions,
            "edges": src.shuffle([[p, v] for v in names for p in parents[v]])}
    m = Model(names, parents, decisions)
    ops = []
    counter = [0]
    gone_nodes = []

    def rel_for(v):
        rel = gen_rel(src, v in decisions)
        if rel[0] == "table" and m.parents[v]:
            rel = ["mix", rel[2], 2]
        return rel

    def safe(v):
        dom, _ = m.distributions()
        return v in dom and len(dom[v]) <= 6

    if src.bool(4, 5):
        group = [[v, rel_for(v)] for v in src.shuffle(names)]
        for v, rel in group:
            m.rel[v] = rel
        ops.append(["add", group])
    for _ in range(src.int(1, 9)):
        kind = src.pick(["add", "add", "replace", "remove", "add_edge", "remove_edge", "intervene", "random", "mixed",
                         "unpolicy", "remove_node", "add_node", "edges"] + ["add_node"] * len(gone_nodes))
        dom, _ = m.distributions()
        if any(len(d) > 12 for d in dom.values()):
            break
        if kind == "add":
            group = [[v, rel_for(v)] for v in src._sample(m.nodes, min(src.int(1, 3), len(m.nodes)))]
            for v, rel in group:
                m.rel[v] = rel
            ops.append(["add", group])
        elif kind == "replace":
            v = src.pick(m.nodes)
            m.rel[v] = rel_for(v)
            ops.append(["add", [[v, m.rel[v]]]])
        elif kind == "remove":
            have = [v for v in m.nodes if v in m.rel]
            if have:
                v = src.pick(have)
                del m.rel[v]
                ops.append(["remove", v])
        elif kind == "add_edge":
            a, b = src._sample(m.nodes, 2) if len(m.nodes) > 1 else (None, None)
            if a and a not in m.parents[b] and b not in oracle.ancestors(m.parents, [a]) and len(m.parents[b]) < 3:
                m.parents[b].append(a)
                if m.rel.get(b, [""])[0] == "table":
                    m.rel[b] = ["dist", sorted(m.rel[b][1]), [1.0 / len(m.rel[b][1])] * len(m.rel[b][1])]
                    ops.append(["add", [[b, m.rel[b]]]])
                ops.append(["add_edge", a, b])
        elif kind == "remove_edge":
            edges = [(p, v) for v in m.nodes for p in m.parents[v]]
            if edges:
                a, b = src.pick(edges)
                m.parents[b].remove(a)
                ops.append(["remove_edge", a, b])
        elif kind == "edges":  # several at once, some of them not there
            edges = [(p, v) for v in m.nodes for p in m.parents[v]]
            gone = src._sample(edges, min(src.int(0, 3), len(edges)))
            for a, b in gone:
                m.parents[b].remove(a)
            if gone:
                extra = [] if src.bool() else [[b, a] for a, b in gone[:1]]
                ops.append(["remove_edges", src.shuffle([list(e) for e in gone] + extra)])
            new = []
            for _ in range(src.int(0, 2) if len(m.nodes) > 1 else 0):
                a, b = src._sample(m.nodes, 2)
                if a not in m.parents[b] and b not in oracle.ancestors(m.parents, [a]) and len(m.parents[b]) < 3 \
                        and m.rel.get(b, [""])[0] != "table":
                    m.parents[b].append(a)
                    new.append([a, b])
            if new:
                ops.append(["add_edges", new])
        elif kind == "intervene":
            can = [v for v in m.nodes if v in dom]
            targets = {}
            for v in src._sample(can, min(src.int(1, 2), len(can))):
                if src.bool(1, 4) and all(isinstance(o, int) for o in dom[v]):
                    targets[v] = src.pick([9, -7, 4])
                else:
                    targets[v] = src.pick(dom[v])
            if targets:
                # each target keeps the domain it has when it is its turn
                for v, o in targets.items():
                    d, _ = m.distributions()
                    current = list(d[v])
                    m.parents[v] = []
                    m.rel[v] = ["do", current + ([] if o in current else [o]), o]
                ops.append(["intervene", [[v, o] for v, o in targets.items()]])
        elif kind == "random":
            can = [d for d in decisions if d in dom and d in m.nodes]
            if can:
                d = src.pick(can)
                m.rel[d] = ["random", dom[d]]
                ops.append(["random", d])
        elif kind in ("mixed", "unpolicy"):
            ds = [d for d in decisions if d in m.nodes]
            if ds and all(d in dom for d in ds):
                # a decision upstream may change the domain of another one given as a function
                ops.append([kind])
                if kind == "mixed":
                    for d in ds:
                        m.rel[d] = ["random", list(dom[d])]
                else:
                    for d in ds:
                        m.rel[d] = ["options", list(dom[d])]
        elif kind == "remove_node":
            leaves = [v for v in m.nodes if not any(v in m.parents[c] for c in m.nodes)]
            if src.bool(1, 3):
                leaves = list(m.nodes)
            if len(m.nodes) > 2 and leaves:
                v = src.pick(leaves)
                for c in m.nodes:
                    if v in m.parents[c]:
                        m.parents[c].remove(v)
                m.nodes.remove(v)
                m.parents.pop(v)
                m.rel.pop(v, None)
                ops.append(["remove_node", v])
                if v not in decisions:
                    gone_nodes.append(v)
        elif kind == "add_node":
            if gone_nodes and src.bool(3, 4):
                v = gone_nodes.pop()
            else:
                v = "new%d" % counter[0]
                counter[0] += 1
            m.nodes.append(v)
            m.parents[v] = []
            ops.append(["add_node", v])
    spec["ops"] = ops
    spec["rebuild"] = src.int(0, 10 ** 6)
    return spec


def new_model(spec, m=None):
    cls = {"CBN": CausalBayesianNetwork, "CID": CID, "MACID": MACID}[spec["cls"]]
    nodes = m.nodes if m else spec["nodes"]
    edges = [(p, v) for v in m.nodes for p in m.parents[v]] if m else [tuple(e) for e in spec["edges"]]
    decisions = [d for d in spec["decisions"] if d in nodes]
    if cls is CID:
        model = cls(edges, decisions=decisions)
    elif cls is MACID:
        model = cls(edges, agent_decisions={i: [d] for i, d in enumerate(decisions)})
    else:
        model = cls(edges)
    model.add_nodes_from(nodes)
    return model


def compare(m, model, what, spec):
    require(sorted(model.nodes) == sorted(m.nodes), "%s: nodes %r", what, list(model.nodes))
    require(sorted(model.edges) == sorted((p, v) for v in m.nodes for p in m.parents[v]), "%s: edges %r", what,
            list(model.edges))
    dom, rows = m.distributions()
    for v in m.nodes:
        if v not in m.rel:
            require(model.get_cpds(v) is None, "%s: %s has a table, but no relationship", what, v)
            require(v not in model.model, "%s: %s is still listed as having a relationship", what, v)
            continue
        require(v in model.model, "%s: the relationship of %s is missing", what, v)
        if v not in dom:
            continue
        require(model.get_cpds(v) is not None, "%s: %s has no table", what, v)
        require(list(model.model.domain[v]) == dom[v], "%s: domain of %s: %r, expected %r", what, v,
                model.model.domain[v], dom[v])
        cpd = model.get_cpds(v)
        want_card = [len(dom[x]) for x in cpd.variables]
        require(list(cpd.cardinality) == want_card, "%s: table of %s has shape %r, expected %r", what, v,
                list(cpd.cardinality), want_card)
        for x in cpd.variables:
            require(list(cpd.state_names[x]) == dom[x], "%s: the table of %s takes the outcomes of %s to be %r, not %r",
                    what, v, x, cpd.state_names[x], dom[x])
        got = table_rows(cpd, m.parents[v], dom)
        for pv, g, w in zip(itertools.product(*[dom[p] for p in m.parents[v]]), got, rows[v]):
            for o, a, b in zip(dom[v], g, w):
                require_close(a, b, "%s: P(%s=%r|%s)", what, v, o, dict(zip(m.parents[v], pv)))
    return dom, rows


def check(spec, note):
    m = Model(spec["nodes"], spec["parents"], spec["decisions"])
    model = new_model(spec)
    dom, rows = {}, {}
    for op in spec["ops"]:
        kind = op[0]
        touched = {v for v, _ in op[1]} if kind in ("add", "intervene") else {op[1]} if kind == "remove_node" else {
            op[2]} if kind.endswith("edge") else {v for _, v in op[1]} if kind.endswith("edges") else set()
        if kind == "mixed":
            touched = set(d for d in spec["decisions"] if d in m.nodes)
        if kind == "random":
            touched = {op[1]}
        # imputed policies do not adapt to changes of what is observed: take them back first
        for d in spec["decisions"]:
            if d in m.nodes and m.rel.get(d, [""])[0] == "random":
                upstream = oracle.ancestors(m.parents, [d])
                if kind.endswith(("edge", "edges")):
                    stale = bool(touched & upstream)
                else:
                    stale = bool(touched & (upstream - {d}))
                if stale:
                    model.add_cpds(**{d: list(m.rel[d][1])})
                    m.rel[d] = ["options", m.rel[d][1]]
        dom, _ = m.distributions()
        changed = set()
        if kind == "add":
            group = {v: as_relationship(rel, v) for v, rel in op[1]}
            tables = [r for r in group.values() if isinstance(r, TabularCPD)]
            rest = {v: r for v, r in group.items() if not isinstance(r, TabularCPD)}
            for v, rel in op[1]:
                if v in m.rel and rel[0] in ("table", "dist", "options") and dom.get(v) not in (None, rel[1]) and any(
                        v in m.parents[c] for c in m.nodes):
                    note.hit("the domain of a parent changes")
                m.rel[v] = rel
            model.add_cpds(*tables, **rest)
        elif kind == "remove":
            model.remove_cpds(op[1])
            del m.rel[op[1]]
        elif kind == "add_edge":
            model.add_edge(op[1], op[2])
            m.parents[op[2]].append(op[1])
            changed.add(op[2])
            note.hit("edge added to a specified variable", op[2] in m.rel)
        elif kind == "remove_edge":
            model.remove_edge(op[1], op[2])
            m.parents[op[2]].remove(op[1])
            changed.add(op[2])
            note.hit("edge removed from a specified variable", op[2] in m.rel)
        elif kind == "remove_edges":
            model.remove_edges_from([tuple(e) for e in op[1]])
            for a, b in op[1]:
                if a in m.parents[b]:
                    m.parents[b].remove(a)
                    changed.add(b)
            note.hit("several edges removed", len(changed) > 1)
        elif kind == "add_edges":
            model.add_edges_from([tuple(e) for e in op[1]])
            for a, b in op[1]:
                m.parents[b].append(a)
                changed.add(b)
            note.hit("several edges added", len(changed) > 1)
        elif kind == "intervene":
            for v, o in op[1]:
                d, _ = m.distributions()
                current = list(d[v])
                m.parents[v] = []
                m.rel[v] = ["do", current + ([] if o in current else [o]), o]
                note.hit("intervention")
                if o not in current:
                    note.hit("out-of-domain intervention")
            model.intervene(dict((v, o) for v, o in op[1]))
        elif kind == "random":
            model.impute_random_decision(op[1])
            m.rel[op[1]] = ["random", dom[op[1]]]
            note.hit("policy")
        elif kind == "mixed":
            model.impute_fully_mixed_policy_profile()
            for d in touched:
                m.rel[d] = ["random", dom[d]]
            note.hit("policy")
        elif kind == "unpolicy":
            model.remove_all_decision_rules()
            for d in spec["decisions"]:
                if d in m.nodes:
                    m.rel[d] = ["options", dom[d]]
            note.hit("policies removed")
        elif kind == "remove_node":
            model.remove_node(op[1])
            for c in m.nodes:
                if op[1] in m.parents[c]:
                    m.parents[c].remove(op[1])
                    changed.add(c)
                    note.hit("parent removed")
            m.nodes.remove(op[1])
            m.parents.pop(op[1])
            m.rel.pop(op[1], None)
        elif kind == "add_node":
            model.add_node(op[1])
            m.nodes.append(op[1])
            m.parents[op[1]] = []
        for v in changed:
            if v in m.rel and is_function(m.rel[v]):
                model.add_cpds(**{v: as_relationship(m.rel[v], v)})
        dom, rows = compare(m, model, "after %s" % (op,), spec)
    if all(v in dom for v in m.nodes) and m.nodes:
        # the same model built afresh in another order
        fresh = new_model(spec, m)
        todo = sorted(m.nodes, key=lambda v: (hash_(v) * (spec["rebuild"] + 1)) % 1009)
        rels = {v: m.rel[v] for v in todo if m.rel[v][0] not in ("random", "do")}
        fresh.add_cpds(*[r for r in (as_relationship(x, v) for v, x in rels.items() if x[0] == "table")],
                       **{v: as_relationship(x, v) for v, x in rels.items() if x[0] != "table"})
        for v in m.order():
            if m.rel[v][0] == "do":
                t = TabularCPD(v, len(dom[v]), [[1.0 if o == m.rel[v][2] else 0.0] * len(rows[v]) for o in dom[v]],
                               **({"evidence": m.parents[v], "evidence_card": [len(dom[p]) for p in m.parents[v]]}
                                  if m.parents[v] else {}),
                               state_names={x: list(dom[x]) for x in [v] + m.parents[v]})
                fresh.add_cpds(t)
            elif m.rel[v][0] == "random":
                fresh.add_cpds(**{v: list(m.rel[v][1])})
        compare(m, fresh, "built afresh", spec)
        # and its joint distribution
        net = oracle.Net(m.order(), m.parents, dom, rows)
        if net.joint().size > 3000:
            return
        for mod, what in ((model, "edited"), (fresh, "fresh")):
            if spec["cls"] != "CBN":
                mod = mod.copy()
                mod.impute_fully_mixed_policy_profile()
                r = dict(rows)
                for d in spec["decisions"]:
                    if d in m.nodes:
                        r[d] = [[1.0 / len(dom[d])] * len(dom[d]) for _ in rows[d]]
                net = oracle.Net(m.order(), m.parents, dom, r)
            for v in m.nodes:
                factor = mod.query([v], {})
                got = dict(zip(factor.state_names[v], factor.values))
                for o, p in zip(dom[v], net.marginal([v])):
                    require_close(got[o], float(p), "%s model: P(%s=%r)", what, v, o)
        note.seen("compared with a fresh model")


def hash_(v):
    h = 7
    for c in v:
        h = (h * 31 + ord(c)) % 100003
    return h


PARTS = [
    Part("histories", gen, check, 4000, 120000,
         "random sequences of 1-10 editing operations on models with 2-6 nodes; non-trivial = a parent's domain changed, "
         "an edge of a specified variable changed, an intervention or a policy"),
]

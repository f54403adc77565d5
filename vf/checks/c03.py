"""A relationship becomes exactly the distribution it describes."""
import itertools
import warnings

import pycid
from pgmpy.factors.discrete import TabularCPD
from pycid import CID, CausalBayesianNetwork, StochasticFunctionCPD
from pycid.core.cpd import ConstantCPD, DecisionDomain, bernoulli, discrete_uniform, noisy_copy

from vf.build import CallableRelationship
from vf.core import expect_raises, require, require_close
from vf.gen import gen_domain, gen_names
from vf.snap import rows as table_rows
from vf.worker import Part

ASSUMPTIONS = [
    "The outcomes of one variable are of comparable types.",
    "Sums of probabilities are either exact up to rounding or wrong by at least 0.02 (the code tolerates 0.01).",
]


def gen_partial_row(src, dom):
    """an entry per outcome: a probability (as numerator/denominator), None (listed without probability) or 'absent'"""
    style = src.int(0, 5)
    k = len(dom)
    if style == 5 and k > 3:  # arbitrary normalised weights for all but one outcome, which is left with nothing
        w = [src.int(1, 10 ** 9) / 1e9 for _ in dom[1:]]
        total = 0.0
        for x in w:
            total += x
        return ["dict", [[dom[0], src.pick(["none", "absent"])]] + [[o, x / total] for o, x in zip(dom[1:], w)], 1.0]
    if style == 0:  # a single outcome
        i = src.int(0, k - 1)
        return ["value", dom[i]]
    den = src.pick([4, 10, 3, 7, 20, 6, 49])
    kinds = [src.pick(["p", "p", "p", "none", "absent"]) if style > 1 else "p" for _ in range(k)]
    free = [i for i in range(k) if kinds[i] != "p"]
    given = [i for i in range(k) if kinds[i] == "p"]
    left = den
    entries = {}
    for n, i in enumerate(given):
        if n == len(given) - 1 and not free:
            entries[i] = left
        else:
            entries[i] = src.int(0, left)
            left -= entries[i]
    if given and free and src.bool(1, 3):
        entries[given[-1]] += left  # nothing is left for the others
    order = src.shuffle(range(k)) if src.bool() else list(range(k))
    return ["dict", [[dom[i], (entries[i] if kinds[i] == "p" else kinds[i])] for i in order], den]


def as_return(row):
    if row[0] == "value":
        return row[1]
    return {o: (None if e == "none" else e / row[2]) for o, e in row[1] if e != "absent"}


def listed(row):
    if row[0] == "value":
        return [row[1]]
    return [o for o, e in row[1] if e != "absent"]


def completed(row, dom):
    if row[0] == "value":
        return [1.0 if o == row[1] else 0.0 for o in dom]
    given = {o: e / row[2] for o, e in row[1] if e not in ("none", "absent")}
    missing = [o for o in dom if o not in given]
    mass = max(0.0, 1 - sum(given.values()))
    return [given[o] if o in given else mass / len(missing) for o in dom]


def gen(src):
    k = src.int(0, 5) if src.bool(1, 6) else src.int(0, 3)
    names = gen_names(src, k + 1)
    child, parents = names[-1], names[:-1]
    pdoms = {p: gen_domain(src, maxcard=3 if k < 4 else 2) for p in parents}
    dom = gen_domain(src)
    if src.bool(1, 3):
        dom = src.shuffle(range(-2, src.int(2, 6)))
    n = 1
    for p in parents:
        n *= len(pdoms[p])
    how = src.pick(["func", "func", "func", "named", "callable", "object", "object_domain", "object_domain", "dict",
                    "constant_domain", "options", "options_object", "table", "table_names"])
    if how in ("dict", "constant_domain"):
        row = gen_partial_row(src, dom)
        if row[0] == "value":
            row = ["dict", [[row[1], 1]], 1]
        rows = [row] * n
    elif how in ("table", "table_names"):
        rows = []
        for _ in range(n):
            w = [src.int(0, 4) for _ in dom]
            w[src.int(0, len(dom) - 1)] += 1
            rows.append(["dict", [[o, x] for o, x in zip(dom, w)], sum(w)])
    else:
        rows = [gen_partial_row(src, dom) for _ in range(n)]
    return {
        "child": child, "parents": parents, "pdoms": pdoms, "dom": dom, "how": how, "rows": rows,
        "parent_kind": [src.pick(["dict", "table"]) for _ in parents], "child_first": src.bool(1, 3),
        "cls": src.pick(["CBN", "CID"]), "edge_order": src.shuffle(parents), "role": src.pick(["chance", "utility"]),
        "break": src.pick([None, None, "sum", "sum1", "negative", "large", "missing argument", "extra argument",
                           "renamed argument", "outside"]),
        "signature": src.pick(["plain", "plain", "default", "defaults", "keywords", "rest"]),
        "amount": src.pick([0.005, 0.02, 0.05, 0.1, 0.4, 0.9]), "at": src.int(0, n - 1),
    }


def prepare(spec):
    child, parents = spec["child"], spec["parents"]
    cls = CausalBayesianNetwork if spec["cls"] == "CBN" else CID
    edges = [(p, child) for p in spec["edge_order"]]
    kw = {}
    if cls is CID and spec["how"].startswith("options"):
        kw["decisions"] = [child]
    elif cls is CID and spec["role"] == "utility":
        kw["utilities"] = [child]
    model = cls(edges, **kw)
    if not edges:
        model.add_node(child)
    return model


def parent_relationships(spec, model):
    res = []
    for p, kind in zip(spec["parents"], spec["parent_kind"]):
        dom = spec["pdoms"][p]
        w = list(range(1, len(dom) + 1))
        probs = [x / sum(w) for x in w]
        if kind == "dict" and dom == sorted(dom):
            res.append((p, dict(zip(dom, probs))))
        else:
            res.append((p, TabularCPD(p, len(dom), [[x] for x in probs], state_names={p: list(dom)})))
    return res


def function(spec, named=None):
    table = dict(zip(itertools.product(*[spec["pdoms"][p] for p in spec["parents"]]), spec["rows"]))
    ps = spec["parents"]

    def f(**pv):
        return as_return(table[tuple(pv[p] for p in ps)])

    if named is None:
        return f
    scope = {"f": f}
    known = [a for a in named if a in ps]
    call = ", ".join("%s=%s" % (a, a) for a in known)
    style = spec["signature"]
    if style == "default" and named:  # a default for arguments that are always given
        args = list(named[:-1]) + [named[-1] + "=None"]
    elif style == "defaults":
        args = [a + "=None" for a in named]
    elif style == "keywords" and named:
        args = ["*"] + list(named)
    elif style == "rest" and named:  # the others arrive in a dictionary
        args, call = [named[0], "**rest"], "%s=%s, **rest" % (named[0], named[0])
    else:
        args = list(named)
    exec("def rel(%s): return f(%s)" % (", ".join(args), call), scope)
    return scope["rel"]


def table(spec, names, columns=None):
    dom, parents = spec["dom"], spec["parents"]
    cols = columns or [completed(r, dom) for r in spec["rows"]]
    values = [[c[i] for c in cols] for i in range(len(dom))]
    kw = {}
    if parents:
        kw = {"evidence": list(parents), "evidence_card": [len(spec["pdoms"][p]) for p in parents]}
    if names:
        kw["state_names"] = {spec["child"]: list(dom), **{p: list(spec["pdoms"][p]) for p in parents}}
    return TabularCPD(spec["child"], len(dom), values, **kw)


def expected(spec):
    """(domain, rows) or None if the relationship describes no distribution"""
    how, dom = spec["how"], spec["dom"]
    if how in ("options", "options_object"):
        return dom, [[1.0 / len(dom)] * len(dom) for _ in spec["rows"]]
    if how == "table":
        return list(range(len(dom))), [completed(r, dom) for r in spec["rows"]]
    if how in ("table_names", "object_domain", "constant_domain"):
        used = dom
    else:
        used = sorted({o for r in spec["rows"] for o in listed(r)})
    rows = []
    for r in spec["rows"]:
        if r[0] == "dict":
            free = [o for o in used if o not in [a for a, e in r[1] if e not in ("none", "absent")]]
            total = sum(e for a, e in r[1] if e not in ("none", "absent"))
            if not used or (not free and total != r[2]):
                return None
        rows.append(completed(r, used))
    return used, rows


def add(spec, model, rel):
    """add the parents and the relationship in the order of the case"""
    parents = parent_relationships(spec, model)
    tables = [r for _, r in parents if isinstance(r, TabularCPD)]
    others = {p: r for p, r in parents if not isinstance(r, TabularCPD)}
    if callable(rel) and spec["how"].startswith(("object", "constant", "options_object")):
        model.add_cpds(*tables, **others)
        model.add_cpds(rel(model))
        return
    if spec["child_first"]:
        if isinstance(rel, TabularCPD):
            model.add_cpds(rel)
        else:
            model.add_cpds(**{spec["child"]: rel})
        model.add_cpds(*tables, **others)
    else:
        model.add_cpds(*tables, **others)
        if isinstance(rel, TabularCPD):
            model.add_cpds(rel)
        else:
            model.add_cpds(**{spec["child"]: rel})


def relationship(spec, named=None, func=None):
    how, child, dom = spec["how"], spec["child"], spec["dom"]
    f = func or function(spec, named)
    if how == "func" or how == "named":
        return f
    if how == "callable":
        return CallableRelationship(f)
    if how == "object":
        return lambda model: StochasticFunctionCPD(child, f, model)
    if how == "object_domain":
        return lambda model: StochasticFunctionCPD(child, f, model, domain=list(dom))
    if how == "dict":
        return as_return(spec["rows"][0])
    if how == "constant_domain":
        return lambda model: ConstantCPD(child, as_return(spec["rows"][0]), model, domain=list(dom))
    if how == "options":
        return list(dom)
    if how == "options_object":
        return lambda model: DecisionDomain(child, model, list(dom))
    return table(spec, how == "table_names")


def check_valid(spec, note):
    model = prepare(spec)
    if spec["how"] in ("options",) and spec["cls"] == "CBN":
        return
    want = expected(spec)
    if want is None:
        return
    dom, rows = want
    named = list(reversed(spec["parents"])) if spec["how"] == "named" else None
    rel = relationship(spec, named)
    add(spec, model, rel)
    child = spec["child"]
    require(list(model.model.domain[child]) == list(dom), "domain of %s: %r, expected %r", child,
            model.model.domain[child], dom)
    require(model.get_cardinality(child) == len(dom), "cardinality of %s", child)
    cpd = model.get_cpds(child)
    require(list(cpd.state_names[child]) == list(dom), "outcome names of %s: %r", child, cpd.state_names[child])
    got = table_rows(cpd, spec["parents"], dict(spec["pdoms"], **{child: dom}))
    pvs = list(itertools.product(*[spec["pdoms"][p] for p in spec["parents"]]))
    require(got.shape == (len(pvs), len(dom)), "shape of the table of %s: %r", child, got.shape)
    for pv, g, w in zip(pvs, got, rows):
        for o, a, b in zip(dom, g, w):
            require_close(a, b, "P(%s=%r|%s)", child, o, dict(zip(spec["parents"], pv)))
    require(bool(model.check_model()) is True, "check_model() of %s", spec["how"])
    # the answer of a query given the parents
    if not spec["how"].startswith("options"):
        i = spec["at"]
        context = dict(zip(spec["parents"], pvs[i]))
        factor = model.query([child], context)
        probs = dict(zip(factor.state_names[child], factor.values / factor.values.sum()))
        for o, b in zip(dom, rows[i]):
            require_close(probs[o], b, "query of P(%s=%r|%s)", child, o, context)
    partial = any(r[0] == "dict" and any(e in ("none", "absent") for _, e in r[1]) for r in spec["rows"])
    if partial and spec["how"] not in ("table", "table_names", "options", "options_object"):
        note.hit("partial distribution")
    if list(dom) != sorted(dom):
        note.hit("unsorted domain")
    if spec["parents"]:
        note.hit("with parents: " + spec["how"])
        if spec["how"] == "named":
            note.seen("signature: " + spec["signature"])
    if spec["child_first"]:
        note.seen("relationship before its parents")


def check_broken(spec, note):
    """variants that must be rejected"""
    kind, how = spec["break"], spec["how"]
    if kind is None:
        return
    child, dom, parents = spec["child"], spec["dom"], spec["parents"]
    func_like = how in ("func", "named", "callable", "object", "object_domain")
    if kind.endswith("argument"):
        if how not in ("func", "named", "object", "object_domain"):
            return
        args = list(parents)
        if kind == "missing argument":
            if not args:
                return
            args.pop(spec["at"] % len(args))
        elif kind == "extra argument":
            args.insert(spec["at"] % (len(args) + 1), "surplus")
        else:
            if not args:
                return
            args[spec["at"] % len(args)] = "renamed"
        fallback = dict(zip(dom, [1.0] + [0.0] * (len(dom) - 1)))
        scope = {"row": fallback}
        exec("def rel(%s): return row" % ", ".join(args), scope)
        rel = relationship(dict(spec, how="func" if how == "named" else how), func=scope["rel"])
        note.hit(kind)
    elif kind == "outside":
        if how not in ("object_domain", "constant_domain") or len(dom) < 2:
            return
        pvs = list(itertools.product(*[spec["pdoms"][p] for p in parents]))
        bad = pvs[spec["at"]]
        good = dict(zip(dom[:-1], [1.0 / (len(dom) - 1)] * (len(dom) - 1)))

        def f(**pv):
            return {dom[-1]: 1.0} if tuple(pv[p] for p in parents) == bad else dict(good)

        if how == "object_domain":
            rel = lambda model: StochasticFunctionCPD(child, f, model, domain=list(dom[:-1]))  # noqa
        else:
            rel = lambda model: ConstantCPD(child, {dom[-1]: 1.0}, model, domain=list(dom[:-1]))  # noqa
        note.hit(kind)
    else:
        if not func_like and how not in ("dict", "constant_domain"):
            return
        if len(dom) < 2:
            return
        a = spec["amount"] if kind in ("negative", "large") else max(spec["amount"], 0.02)
        if kind == "sum":  # complete, but the sum is too small
            row = dict.fromkeys(dom, (1 - a) / len(dom))
        elif kind == "sum1":  # complete, and the sum is too large
            row = dict.fromkeys(dom, min(1.0, (1 + a) / len(dom)))
            if sum(row.values()) < 1.015:
                return
        elif kind == "negative":
            row = dict.fromkeys(dom, (1 + a) / (len(dom) - 1))
            row[dom[0]] = -a
        else:  # more than one for an outcome, nothing said about the others
            row = {dom[0]: 1 + a}
            if how not in ("object_domain", "constant_domain"):
                row[dom[1]] = None
        pvs = list(itertools.product(*[spec["pdoms"][p] for p in parents]))
        bad = pvs[spec["at"]]
        good = dict.fromkeys(dom, 1.0 / len(dom))

        def f(**pv):
            return dict(row) if tuple(pv[p] for p in parents) == bad else dict(good)

        if how == "dict":
            rel = dict(row)
        elif how == "constant_domain":
            rel = lambda model: ConstantCPD(child, dict(row), model, domain=list(dom))  # noqa
        else:
            named = None
            if how == "named":
                return
            rel = relationship(spec, named, func=f)
        note.hit(kind)

    def attempt():
        model = prepare(spec)
        add(spec, model, rel)
        return model.get_cpds(child)

    expect_raises(ValueError, attempt, "%s (%s)", kind, how)


def check(spec, note):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        check_valid(spec, note)
        check_broken(spec, note)


def gen_helpers(src):
    return {"p": src.int(0, 20) / 20.0, "dom": gen_domain(src), "prob": src.int(0, 20) / 20.0, "which": src.int(0, 2),
            "with_domain": src.bool(3, 4), "i": src.int(0, 2)}


def check_helpers(spec, note):
    dom = spec["dom"]
    d = bernoulli(spec["p"])
    require(set(d) == {0, 1}, "bernoulli has the outcomes %r", list(d))
    require_close(d[1], spec["p"], "bernoulli: P(1)")
    require_close(d[0], 1 - spec["p"], "bernoulli: P(0)")
    u = discrete_uniform(list(dom))
    require(list(u) == list(dom), "discrete_uniform has the outcomes %r", list(u))
    for o in dom:
        require_close(u[o], 1.0 / len(dom), "discrete_uniform")
    value = dom[spec["i"] % len(dom)]
    if len(dom) < 2 and spec["prob"] < 1:
        return
    m = CausalBayesianNetwork([("P", "C")])
    if spec["with_domain"]:
        m.add_cpds(P=dict.fromkeys(dom, 1.0 / len(dom)), C=lambda P: noisy_copy(P, spec["prob"], list(dom)))
    else:
        m.add_cpds(P=dict.fromkeys(dom, 1.0 / len(dom)), C=lambda P: noisy_copy(P, probability=spec["prob"]))
    rows = table_rows(m.get_cpds("C"), ["P"], {"P": sorted(dom), "C": sorted(dom)})
    for p, row in zip(sorted(dom), rows):
        for c, got in zip(sorted(dom), row):
            rest = (1 - spec["prob"]) / (len(dom) - 1) if len(dom) > 1 else 0
            require_close(got, spec["prob"] if c == p else rest, "noisy_copy: P(%r|%r)", c, p)
    default = noisy_copy(value)
    require(default == {value: 0.9}, "noisy_copy(%r) = %r", value, default)
    note.hit("helpers", len(dom) > 1)


PARTS = [
    Part("relationships", gen, check, 10000, 200000,
         "a child with 0-3 parents given in 13 ways, with partial distributions; valid ones are compared with the "
         "completed rows, broken ones must be rejected; non-trivial = partial, unsorted, with parents, or broken"),
    Part("helpers", gen_helpers, check_helpers, 400, 5000,
         "parameters of bernoulli, discrete_uniform and noisy_copy; non-trivial = at least two outcomes"),
]

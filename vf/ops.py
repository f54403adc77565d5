"""Read-only operations on models, described by plain data, with canonical results; shared by C02 and C23."""
import contextlib
import io
import itertools
import os
import tempfile
import warnings

import networkx as nx
import numpy as np
import pycid
import pygambit
from pgmpy.factors.base import BaseFactor
from pgmpy.factors.discrete import TabularCPD
from pycid.core import get_paths
from pycid.core.causal_bayesian_network import CausalBayesianNetwork
from pycid.export.gambit import macid_to_efg, macid_to_gambit_file

from vf.snap import snapshot, table_key


def canon(x, ordered=True, digits=7):
    """plain data that can be compared"""
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, (float, np.floating)) and not np.isfinite(x):
        return str(x)
    if isinstance(x, (int, float, np.integer, np.floating)):
        return round(float(x) + 0.137 * 10 ** -digits, digits) + 0.0  # the shift keeps common fractions off the ties
    if isinstance(x, TabularCPD):
        return ["cpd", x.variable, table_key(x, digits)]
    if isinstance(x, BaseFactor):
        names = sorted(x.variables)
        arr = np.asarray(x.values, dtype=float).transpose([list(x.variables).index(v) for v in names])
        arr = arr / arr.sum() if arr.sum() else arr
        doms = [x.state_names[v] for v in names]
        return ["factor", names, sorted(([repr(o) for o in combo], canon(float(arr[i]), digits=digits)) for combo, i in
                                        zip(itertools.product(*doms), np.ndindex(*arr.shape)))]
    if isinstance(x, CausalBayesianNetwork):
        return ["model", snapshot(x, ordered=False)]
    if isinstance(x, (nx.Graph, nx.DiGraph)):
        return ["graph", sorted(map(str, x.nodes)), sorted([str(a), str(b)] for a, b in x.edges)]
    if isinstance(x, pygambit.Game):
        return ["game", x.write()]
    if isinstance(x, dict):
        return ["dict", sorted(([canon(k, ordered, digits), canon(v, ordered, digits)] for k, v in x.items()), key=repr)]
    if isinstance(x, (set, frozenset)):
        return ["set", sorted((canon(e, ordered, digits) for e in x), key=repr)]
    if isinstance(x, np.ndarray):
        return canon(x.tolist(), ordered, digits)
    items = [canon(e, ordered, digits) for e in x]  # lists, tuples, generators
    return items if ordered else ["list", sorted(items, key=repr)]


def run(model, op, args):
    """returns (result, or the type of the exception), and whether the arguments were left as they were"""
    given = [copy_arg(a) for a in args]
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        try:
            result = canon(OPS[op](model, *given))
        except (ValueError, KeyError, RuntimeError, IndexError, AttributeError, TypeError, AssertionError, StopIteration,
                nx.NetworkXError) as e:
            result = ["exception", type(e).__name__]
    return result, all(a == b for a, b in zip(args, given))


def copy_arg(a):
    if isinstance(a, dict):
        return dict(a)
    if isinstance(a, (list, set)):
        return type(a)(a)
    return a


def gambit_file(model):
    folder = tempfile.mkdtemp(dir=os.environ.get("VERIF_WORK"))
    path = os.path.join(folder, "game.efg")
    try:
        macid_to_gambit_file(model, path)
        return open(path).read()
    finally:
        if os.path.exists(path):
            os.unlink(path)
        os.rmdir(folder)


def drawn(f):
    import matplotlib.pyplot as plt

    try:
        f()
    finally:
        plt.close("all")


def text(model):
    return [str(model), repr(model), sorted(str(c) for c in model.get_cpds())] and None


def valid_order(model, order):
    """the nodes, and whether no node comes before one of its ancestors"""
    return [sorted(order), all(not nx.has_path(model, b, a) for a, b in itertools.combinations(order, 2))]


OPS = {
    "query": lambda m, vs, c, i: m.query(vs, c, intervention=i),
    "expected_value": lambda m, vs, c, i: m.expected_value(vs, c, intervention=i),
    "expected_utility": lambda m, c, i, a: m.expected_utility(c, intervention=i, agent=a),
    "sample": lambda m: m.sample(),
    "copy": lambda m: m.copy(),
    "copy_without_cpds": lambda m: m.copy_without_cpds(),
    "is_structural_causal_model": lambda m: m.is_structural_causal_model(),
    "check_model": lambda m: m.check_model(),
    "text": text,
    "draw": lambda m: drawn(m.draw),
    "draw_property": lambda m, v: drawn(lambda: m.draw_property(lambda n: n == v)),
    "get_valid_order": lambda m, vs: valid_order(m, m.get_valid_order(vs)),
    "is_s_reachable": lambda m, a, b: m.is_s_reachable(a, b),
    "is_r_reachable": lambda m, a, b: m.is_r_reachable(a, b),
    "sufficient_recall": lambda m, a: m.sufficient_recall(a),
    "pure_decision_rules": lambda m, d: m.pure_decision_rules(d),
    "pure_policies": lambda m, ds: m.pure_policies(ds),
    "optimal_pure_policies": lambda m, ds: m.optimal_pure_policies(ds),
    "optimal_pure_decision_rules": lambda m, d: m.optimal_pure_decision_rules(d),
    "optimal_policies": lambda m: m.optimal_policies(),
    "solve": lambda m: m.solve(),
    "joint_pure_policies": lambda m, ds: m.joint_pure_policies(ds),
    "get_ne": lambda m, s: m.get_ne(solver=s),
    "get_spe": lambda m, s: m.get_spe(solver=s),
    "get_ne_in_sg": lambda m, ds, s: m.get_ne_in_sg(ds, solver=s),
    "create_subgame": lambda m, ds: m.create_subgame(ds),
    "decs_in_each_maid_subgame": lambda m: [set(s) for s in m.decs_in_each_maid_subgame()],
    "policy_profile_assignment": lambda m: m.policy_profile_assignment(m.get_ne()[0]) and None,
    "RelevanceGraph": lambda m, ds: pycid.RelevanceGraph(m, ds),
    "relevance drawing": lambda m: drawn(pycid.RelevanceGraph(m).draw),
    "CondensedRelevanceGraph": lambda m: [sorted(map(sorted, pycid.CondensedRelevanceGraph(m).get_decisions_in_scc().values()))],
    "MechanismGraph": lambda m: pycid.MechanismGraph(m),
    "active_trail_nodes": lambda m, v, o: m.active_trail_nodes(v, o),
    "is_dconnected": lambda m, a, b, o: m.is_dconnected(a, b, o),
    "find_all_dir_paths": lambda m, a, b: sorted(get_paths.find_all_dir_paths(m, a, b)),
    "find_all_undir_paths": lambda m, a, b: sorted(get_paths.find_all_undir_paths(m, a, b)),
    "find_active_path": lambda m, a, b, o: get_paths.find_active_path(m, a, b, o) is None,
    "is_active_path": lambda m, p, o: get_paths.is_active_path(m, p, o),
    "get_motifs": lambda m, p: get_paths.get_motifs(m, p),
    "is_active_backdoor_trail": lambda m, a, b, o: get_paths.is_active_backdoor_trail(m, a, b, o),
    "is_active_indirect_frontdoor_trail": lambda m, a, b, o: get_paths.is_active_indirect_frontdoor_trail(m, a, b, o),
    "directed_decision_free_path": lambda m, a, b: get_paths.directed_decision_free_path(m, a, b),
    "requisite": lambda m, d, v: pycid.requisite(m, d, v),
    "requisite_list": lambda m, d: pycid.requisite_list(m, d),
    "requisite_graph": lambda m: pycid.requisite_graph(m),
    "admits_voi": lambda m, d, v: pycid.admits_voi(m, d, v),
    "admits_voi_list": lambda m, d: sorted(pycid.admits_voi_list(m, d)),
    "admits_voc": lambda m, v: pycid.admits_voc(m, v),
    "admits_voc_list": lambda m: sorted(pycid.admits_voc_list(m)),
    "admits_dir_voc": lambda m, v: pycid.admits_dir_voc(m, v),
    "admits_dir_voc_list": lambda m: sorted(pycid.admits_dir_voc_list(m)),
    "admits_indir_voc": lambda m, d, v: pycid.admits_indir_voc(m, d, v),
    "admits_indir_voc_list": lambda m, d: sorted(pycid.admits_indir_voc_list(m, d)),
    "admits_ri": lambda m, d, v: pycid.admits_ri(m, d, v),
    "admits_ri_list": lambda m, d: sorted(pycid.admits_ri_list(m, d)),
    "admits_ici": lambda m, d, v: pycid.admits_ici(m, d, v),
    "admits_ici_list": lambda m, d: sorted(pycid.admits_ici_list(m, d)),
    "quantitative_voi": lambda m, d, v: pycid.quantitative_voi(m, d, v),
    "quantitative_voc": lambda m, v: pycid.quantitative_voc(m, v),
    "total_effect": lambda m, a, x, a0, a1: pycid.total_effect(m, a, x, a0, a1),
    "introduced_total_effect": lambda m, a, d, y, a0, a1: pycid.introduced_total_effect(m, a, d, y, a0, a1),
    "direct_effect": lambda m, d: pycid.direct_effect(m, d),
    "manipulation": lambda m, d, s: pycid.manipulation(m, d, s),
    "signaling": lambda m, d, s: pycid.signaling(m, d, s),
    "revealing_or_denying": lambda m, d, s: pycid.revealing_or_denying(m, d, s),
    "get_reasoning_patterns": lambda m: {k: sorted(v) for k, v in pycid.get_reasoning_patterns(m).items()},
    "macid_to_efg": lambda m: macid_to_efg(m)[0],
    "macid_to_gambit_file": gambit_file,
}
# answers that are chosen at random or as one of several
CHOICE = {"sample", "solve", "quantitative_voc", "quantitative_voi"}


def gen_op(src, spec, ops):
    """(op, args) with mostly sensible arguments"""
    nodes = spec["nodes"]
    op = src.pick(ops)
    decs = [d for x in spec["decisions"].values() for d in x] or [nodes[0]]
    us = [u for x in spec["utilities"].values() for u in x] or [nodes[-1]]
    agents = list(spec["decisions"]) or [0]
    node = lambda: src.pick(nodes)  # noqa
    dec = lambda: src.pick(decs)  # noqa
    some = lambda k=2: src.sample(nodes, src.int(0, min(k, len(nodes))))  # noqa

    def outcomes(k):
        return {v: src.pick(spec["dom"][v]) for v in some(k)}

    args = {
        "query": lambda: [src.sample(nodes, src.int(1, min(2, len(nodes)))), outcomes(2),
                          outcomes(2) if src.bool(1, 3) else None],
        "expected_value": lambda: [src.sample(us, src.int(1, min(2, len(us)))), outcomes(2),
                                   outcomes(2) if src.bool(1, 3) else None],
        "expected_utility": lambda: [outcomes(2), outcomes(2) if src.bool(1, 3) else None, src.pick(agents)],
        "draw_property": lambda: [node()],
        "get_valid_order": lambda: [src.sample(nodes, src.int(1, len(nodes))) if src.bool() else None],
        "is_s_reachable": lambda: [dec() if src.bool() else src.sample(decs, src.int(1, len(decs))),
                                   dec() if src.bool() else src.sample(decs, src.int(1, len(decs)))],
        "is_r_reachable": lambda: [dec() if src.bool() else src.sample(decs, src.int(1, len(decs))),
                                   node() if src.bool() else src.sample(nodes, src.int(1, len(nodes)))],
        "sufficient_recall": lambda: [src.pick(agents) if src.bool() else None],
        "pure_policies": lambda: [src.shuffle(decs)[:2]],
        "optimal_pure_policies": lambda: [src.shuffle(spec["decisions"][src.pick(agents)] if agents and
                                                      spec["decisions"] else decs)],
        "joint_pure_policies": lambda: [src.shuffle(decs)[:2]],
        "get_ne": lambda: [src.pick([None, None, "enumpure"])],
        "get_spe": lambda: [src.pick([None, None, "enumpure"])],
        "get_ne_in_sg": lambda: [src.sample(decs, src.int(1, len(decs))), "enumpure"],
        "create_subgame": lambda: [src.sample(decs, src.int(1, len(decs)))],
        "RelevanceGraph": lambda: [src.sample(decs, src.int(1, len(decs))) if src.bool() else None],
        "active_trail_nodes": lambda: [node(), some()],
        "is_dconnected": lambda: [node(), node(), some()],
        "find_all_dir_paths": lambda: [node(), node()],
        "find_all_undir_paths": lambda: [node(), node()],
        "find_active_path": lambda: [node(), node(), set(some())],
        "is_active_path": lambda: [path(src, spec), set(some())],
        "get_motifs": lambda: [path(src, spec)],
        "is_active_backdoor_trail": lambda: [node(), node(), set(some())],
        "is_active_indirect_frontdoor_trail": lambda: [node(), node(), set(some())],
        "directed_decision_free_path": lambda: [node(), node()],
        "requisite": lambda: [dec(), node()],
        "quantitative_voc": lambda: [node()],
        "total_effect": lambda: effect(src, spec, node(), [src.pick(us)]),
        "introduced_total_effect": lambda: effect(src, spec, node(), [src.pick(us), src.pick(us)]),
        "manipulation": lambda: [dec(), set(src.subset(decs))],
        "signaling": lambda: [dec(), set(src.subset(decs))],
        "revealing_or_denying": lambda: [dec(), set(src.subset(decs))],
    }
    for name in ("pure_decision_rules", "optimal_pure_decision_rules", "requisite_list", "admits_voi_list",
                 "admits_indir_voc_list", "admits_ri_list", "admits_ici_list", "direct_effect"):
        args[name] = lambda: [dec()]
    for name in ("admits_voi", "admits_indir_voc", "admits_ri", "admits_ici", "quantitative_voi"):
        args[name] = lambda: [dec(), node()]
    for name in ("admits_voc", "admits_dir_voc"):
        args[name] = lambda: [node()]
    return [op, args[op]() if op in args else []]


def effect(src, spec, a, targets):
    return [a] + targets + [src.pick(spec["dom"][a]), src.pick(spec["dom"][a])]


def path(src, spec):
    """an undirected walk without repetition"""
    v = src.pick(spec["nodes"])
    res = [v]
    for _ in range(src.int(1, 4)):
        near = [w for w in spec["nodes"] if w not in res and (w in spec["parents"][v] or v in spec["parents"][w])]
        if not near:
            break
        v = src.pick(near)
        res.append(v)
    return res if len(res) > 1 else [res[0], src.pick(spec["nodes"])]


GENERAL = ["query", "expected_value", "sample", "copy", "copy_without_cpds", "is_structural_causal_model", "check_model",
           "text", "draw", "is_dconnected", "find_all_dir_paths", "find_all_undir_paths", "find_active_path",
           "is_active_path", "get_motifs", "is_active_backdoor_trail", "is_active_indirect_frontdoor_trail"]
MULTI = GENERAL + [
    "expected_utility", "draw_property", "get_valid_order", "is_s_reachable", "is_r_reachable", "sufficient_recall",
    "pure_decision_rules", "pure_policies", "optimal_pure_policies", "optimal_pure_decision_rules", "RelevanceGraph",
    "relevance drawing", "CondensedRelevanceGraph", "MechanismGraph", "active_trail_nodes", "directed_decision_free_path",
    "requisite", "requisite_list", "requisite_graph", "macid_to_efg", "macid_to_gambit_file"]
GAME = ["joint_pure_policies", "get_ne", "get_spe", "get_ne_in_sg", "create_subgame", "decs_in_each_maid_subgame",
        "policy_profile_assignment", "direct_effect", "manipulation", "signaling", "revealing_or_denying",
        "get_reasoning_patterns"]
SINGLE = ["optimal_policies", "solve", "quantitative_voi", "quantitative_voc", "total_effect", "introduced_total_effect",
          "admits_voi", "admits_voi_list", "admits_voc", "admits_voc_list", "admits_dir_voc", "admits_dir_voc_list",
          "admits_indir_voc", "admits_indir_voc_list", "admits_ri", "admits_ri_list", "admits_ici", "admits_ici_list"]
OF_CLASS = {"CBN": GENERAL, "MACIDBase": MULTI, "MACID": MULTI + GAME + GAME, "CID": MULTI + SINGLE + SINGLE}
HEAVY_OPS = {"get_ne", "get_spe", "get_ne_in_sg", "macid_to_efg", "macid_to_gambit_file", "optimal_pure_policies",
             "optimal_policies", "joint_pure_policies", "policy_profile_assignment", "pure_policies", "solve",
             "quantitative_voi", "quantitative_voc", "optimal_pure_decision_rules"}

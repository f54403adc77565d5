"""Answers do not depend on names, order of construction or hash seed."""
import ast
import atexit
import os
import select
import subprocess
import sys

from vf import ops, oracle
from vf.build import build
from vf.checks.c02 import reseed, small
from vf.core import CaseTimeout, HarnessError, require
from vf.gen import BIG, NAMES, gen_cbn, gen_graph, gen_macid, gen_orders
from vf.worker import Part

ASSUMPTIONS = [
    "No node is named like another one followed by mec (mechanism graphs reject that).",
    "Names are strings that are no outcomes; the second model is built by another process with another hash seed.",
    "With a decision that has a single option, it may depend on the order whether the tree has perfect recall, without "
    "which gambit does not solve games.",
    "Where one of several answers is chosen (solve, mixed equilibria), only its value, or nothing, is compared.",
]
OUTCOMES = {"a", "b", "c", "e", "low", "high", "no", "yes", "x", "y", "z"}
EXTRA = ["pv", "cpd", "domain", "variable", "cbn", "args", "label", "model", "agent", "Kmec", "mecK", "Z9", "Z10", "a1", "node", "é", "name with space", "_p", "D_0", "U'", "N10", "zz", "B-2", "T.1"]
POOL = [n for n in NAMES if n not in OUTCOMES and not n.startswith("N")] + EXTRA
AGENTS = [["alice", "bob", "carol"], [1, 2, 3], ["z", "y", "x0"], [3, 1, 2], ["10", "9", "1"], [0, "one", 2], [0, 1, 2]]

# operations whose answer is one of several, or text with names in an unspecified order
FREE = {"sample", "text", "draw", "draw_property", "relevance drawing", "policy_profile_assignment", "macid_to_efg",
        "macid_to_gambit_file", "copy", "copy_without_cpds", "solve"}
ORDERED = {"expected_value", "get_motifs"}
PATHS = {"find_all_dir_paths", "find_all_undir_paths"}


def renamed(spec, names):
    """the spec with other names: names maps every node and agent"""
    f = lambda v: names.get(v, v)  # noqa
    res = dict(spec)
    for key in ("nodes", "isolated", "add_order"):
        res[key] = [f(v) for v in spec[key]]
    res["edges"] = [[f(a), f(b)] for a, b in spec["edges"]]
    for key in ("decisions", "utilities"):
        res[key] = {f(a): [f(v) for v in x] for a, x in spec[key].items()}
    res["parents"] = {f(v): [f(p) for p in ps] for v, ps in spec["parents"].items()}
    for key in ("dom", "rows", "cpd"):
        if key in spec:
            res[key] = {f(v): x for v, x in spec[key].items()}
    return res


def renamed_args(x, names):
    if isinstance(x, dict):
        return {names.get(k, k): v for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return type(x)(renamed_args(e, names) for e in x)
    return names.get(x, x) if isinstance(x, str) else x


def reorder(src, spec):
    res = dict(spec)
    gen_orders(src, res)
    if src.bool():
        for key in ("decisions", "utilities"):
            res[key] = {a: src.shuffle(spec[key][a]) for a in src.shuffle(spec[key])}
    return {k: res[k] for k in ("edges", "isolated", "add_order", "decisions", "utilities")}


def name_maps(src, spec, agents):
    maps = []
    style = src.int(0, 3)
    for side in range(2):
        names = src.sample(POOL, len(spec["nodes"])) if style else ["V%d" % (9 + i) for i in range(len(spec["nodes"]))]
        if style == 1 and side and len(names) > 1:
            names = src.shuffle(list(maps[0].values())[:len(names)])  # the same names, permuted
        labels = src.sample(src.pick(AGENTS), len(agents))
        m = dict(zip(spec["nodes"], names))
        if spec["kind"] != "CID":
            m.update(zip(agents, labels))
        maps.append(m)
    return maps


def gen(src):
    cls = src.pick(["CBN", "CID", "CID", "MACID", "MACID", "MACID"])
    if cls == "CBN":
        spec = gen_cbn(src, max_nodes=6)
    else:
        spec = gen_macid(src, cls=cls, max_nodes=6, policies=src.pick([0, 0, 1, 2]), connected=src.bool(3, 4),
                         max_rules=9, max_dec_parents=src.pick([1, 1, 2]), plain_names=True,
                         agent_labels=["agent0", "agent1", "agent2"])
    spec = renamed(spec, {v: "N%d" % i for i, v in enumerate(spec["nodes"])})
    for rows in spec["rows"].values():
        for row in rows or []:
            exact(row)
    return finish(src, spec, [o for o in ops.OF_CLASS[cls] if o not in FREE])


def exact(row):
    """round the probabilities to sixteenths, so that sums and products of them are exact"""
    k = [round(p * 16) for p in row]
    i = max(range(len(k)), key=lambda j: row[j])
    k[i] += 16 - sum(k)
    row[:] = [x / 16 for x in k]


def gen_structure(src):
    cls = src.pick(["CID", "MACID", "MACID"])
    spec = gen_graph(src, cls=cls, max_nodes=src.pick([6, 8, 9]), n_agents=(1, 3), n_decisions=(1, 4), big=BIG)
    agents = list(spec["decisions"])
    m = {v: "N%d" % i for i, v in enumerate(spec["nodes"])}
    if cls != "CID":
        m.update({a: "agent%d" % i for i, a in enumerate(agents)})
    spec = renamed(spec, m)
    spec["dom"] = {v: [0, 1] for v in spec["nodes"]}
    return finish(src, spec, [o for o in ops.OF_CLASS[cls] if o not in FREE and o in GRAPHICAL])


GRAPHICAL = {
    "get_valid_order", "is_s_reachable", "is_r_reachable", "sufficient_recall", "decs_in_each_maid_subgame",
    "create_subgame", "RelevanceGraph", "CondensedRelevanceGraph", "MechanismGraph", "active_trail_nodes", "is_dconnected",
    "find_all_dir_paths", "find_all_undir_paths", "find_active_path", "is_active_path", "get_motifs",
    "is_active_backdoor_trail", "is_active_indirect_frontdoor_trail", "directed_decision_free_path", "requisite",
    "requisite_list", "requisite_graph", "admits_voi", "admits_voi_list", "admits_voc", "admits_voc_list",
    "admits_dir_voc", "admits_dir_voc_list", "admits_indir_voc", "admits_indir_voc_list", "admits_ri", "admits_ri_list",
    "admits_ici", "admits_ici_list", "direct_effect", "manipulation", "signaling", "revealing_or_denying",
    "get_reasoning_patterns"}


def finish(src, spec, names):
    agents = [a for a in spec["decisions"] if isinstance(a, str)]
    spec["ops"] = [ops.gen_op(src, spec, names) for _ in range(src.int(3, 8))]
    spec["second"] = reorder(src, spec) if src.bool(3, 4) else {}
    spec["names"] = name_maps(src, spec, agents)
    return spec


def sym(x, inv, ordered=False):
    """plain data with the original names; the order of collections does not count unless `ordered`"""
    from pgmpy.factors.base import BaseFactor
    from pgmpy.factors.discrete import TabularCPD
    import networkx as nx
    import numpy as np
    from pycid.core.causal_bayesian_network import CausalBayesianNetwork
    from vf.snap import table

    if isinstance(x, str):
        return inv.get(x, x)
    if x is None or isinstance(x, (bool, int, float, np.integer, np.floating)):
        return ops.canon(x, digits=6)
    if isinstance(x, TabularCPD):
        own, evidence, names, values = table(x)
        variables = [own] + evidence
        order = [own] + sorted(evidence, key=lambda v: inv.get(v, v))
        values = values.transpose([variables.index(v) for v in order])
        idx = [sorted(range(len(names[v])), key=lambda i: repr(names[v][i])) for v in order]
        values = values[np.ix_(*idx)]
        return ["cpd", [[inv.get(v, v), sorted(map(repr, names[v]))] for v in order],
                [ops.canon(e, digits=6) for e in values.ravel().tolist()]]
    if isinstance(x, BaseFactor):
        order = sorted(x.variables, key=lambda v: inv.get(v, v))
        arr = np.asarray(x.values, dtype=float).transpose([list(x.variables).index(v) for v in order])
        arr = arr / arr.sum()
        names = [x.state_names[v] for v in order]
        idx = [sorted(range(len(n)), key=lambda i, n=n: repr(n[i])) for n in names]
        return ["factor", [[inv.get(v, v), sorted(map(repr, n))] for v, n in zip(order, names)],
                [ops.canon(e, digits=6) for e in arr[np.ix_(*idx)].ravel().tolist()]]
    if isinstance(x, CausalBayesianNetwork):
        res = [sym(nx.DiGraph(x), inv), sym(x.get_cpds(), inv)]
        if hasattr(x, "agent_decisions"):
            res.append(sorted(([sym(a, inv) if isinstance(a, str) else inv.get(repr(a), repr(a)), sym(d, inv),
                                sym(x.agent_utilities.get(a, []), inv)]
                               for a, d in x.agent_decisions.items()), key=repr))
        return ["model"] + res
    if isinstance(x, (nx.Graph, nx.DiGraph)):
        return ["graph", sym(list(x.nodes), inv), sorted([inv.get(a, a), inv.get(b, b)] for a, b in x.edges)]
    if isinstance(x, dict):
        return ["dict", sorted(([sym(k, inv), sym(v, inv, ordered)] for k, v in x.items()), key=repr)]
    items = [sym(e, inv, ordered) for e in x]
    if ordered == "inner":
        return sorted([sym(e, inv, True) for e in x], key=repr)
    return items if ordered and not isinstance(x, (set, frozenset)) else sorted(items, key=repr)




def answer(model, op, args, inv):
    import contextlib
    import io
    import networkx as nx
    import warnings

    args = [ops.copy_arg(a) for a in args]
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        try:
            reseed()
            if op in ("get_ne", "get_spe") and args[0] is None:
                return ["some" if getattr(model, op)() else "none"]
            res = ops.OPS[op](model, *args)
            if op == "CondensedRelevanceGraph":
                return [sorted(sym(c, inv) for c in res[0])]
            return sym(res, inv, "inner" if op in PATHS else op in ORDERED)
        except CaseTimeout:
            raise
        except (ValueError, KeyError, RuntimeError, IndexError, AttributeError, TypeError, AssertionError,
                nx.NetworkXError) as e:
            return ["exception", type(e).__name__]


def graph_only(spec):
    from vf.build import skeleton

    return skeleton(spec)


def gen_same(src):
    cls = src.pick(["CBN", "CID", "CID", "MACID", "MACID"])
    if cls == "CBN":
        spec = gen_cbn(src, max_nodes=6)
    else:
        spec = gen_macid(src, cls=cls, max_nodes=6, policies=2)
    spec["ops"] = [["sample", []]]
    spec["same"] = True
    spec["random"] = [[v, src.int(0, 9999)] for v in spec["nodes"] if src.bool(1, 3)]
    return spec


def same_answers(spec):
    """samples and random distributions for a seed"""
    from pycid.random.random_cpd import RandomCPD
    from vf.snap import table_key

    model = build(spec)
    for v, seed in spec["random"]:
        if spec["rows"][v] is not None and len(spec["dom"][v]) > 1:
            model.add_cpds(**{v: RandomCPD(domain=list(spec["dom"][v]), seed=seed)})
    reseed()
    return [ops.canon(model.sample()) for _ in range(5)] + [table_key(c) for c in model.get_cpds()]


def check_same(spec, note):
    first = same_answers(spec)
    second = Other.ask(spec)
    if isinstance(second, str):
        raise RuntimeError("building the second model: " + second)
    require(first == second, "samples and distributions are %.1500r, with another hash seed %.1500r", first, second)
    note.hit("random distributions" if spec["random"] else "samples", len(spec["nodes"]) > 1)


def answers(spec, side):
    if spec.get("same"):
        return same_answers(spec)
    names = spec["names"][side]
    base = dict(spec, **(spec["second"] if side else {}))
    mine = renamed(base, names)
    model = build(mine) if "cpd" in spec else graph_only(mine)
    inv = {}
    for k, v in names.items():
        if isinstance(v, str):
            inv[v] = k
            inv[v + "mec"] = k + "mec"
        else:
            inv[repr(v)] = k
    res = []
    for op, args in spec["ops"]:
        if "cpd" in spec and op in ops.HEAVY_OPS and not small(spec, op, args):
            res.append(None)
        else:
            res.append(answer(model, op, renamed_args(args, names), inv))
    return res


ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
START = """
import sys
sys.path.insert(0, %r)
from vf import boot
boot.setup()
from vf.checks import c23
c23.serve()
"""


class Other:
    """a process with another hash seed that answers the same questions"""

    process = None
    pending = 0

    @classmethod
    def start(cls):
        env = dict(os.environ, PYTHONHASHSEED=str(int(os.environ.get("PYTHONHASHSEED") or 0) + 1000))
        cls.process = subprocess.Popen(
            [sys.executable, "-W", "ignore", "-c", START % ROOT], env=env, stdin=subprocess.PIPE,
            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        atexit.register(cls.stop)

    @classmethod
    def stop(cls):
        if cls.process is not None:
            cls.process.kill()
            cls.process.wait()
            cls.process = None

    @classmethod
    def ask(cls, spec):
        if cls.process is None or cls.process.poll() is not None:
            cls.start()
        try:
            cls.process.stdin.write(repr(spec).encode("unicode_escape") + b"\n")
            cls.process.stdin.flush()
            line = b""
            while not line.endswith(b"\n"):
                select.select([cls.process.stdout], [], [])
                part = os.read(cls.process.stdout.fileno(), 1 << 20)
                if not part:
                    raise HarnessError("the other process ended")
                line += part
        except BaseException:
            cls.stop()
            raise
        return ast.literal_eval(line.decode("unicode_escape"))


SOLVERS = {"get_ne", "get_spe", "get_ne_in_sg"}


def no_rounding(spec, op, args):
    """the payoffs and probabilities of the game tree are exact floating point numbers"""
    from pycid.export.gambit import macid_to_efg

    decs = oracle.all_decisions(spec)
    if op == "get_spe":
        return all(len(spec["dom"][d]) in (1, 2) for d in decs) and all(
            set(row) <= {0, 1} for rows in spec["rows"].values() for row in rows or [])
    for side in (0, 1):
        mine = renamed(dict(spec, **(spec["second"] if side else {})), spec["names"][side])
        model = build(mine)
        some = None if op == "get_ne" else {spec["names"][side][d] for d in args[0]}
        if some is not None:
            model = model.create_subgame(some)
        game, _ = macid_to_efg(model, some, None if some is None else {model.decision_agent[d] for d in some})
        stack, numbers = [game.root], []
        while stack:
            node = stack.pop()
            if node.is_terminal:
                numbers += [node.outcome[p] for p in game.players] if node.outcome else []
            elif node.player.is_chance:
                numbers += [a.prob for a in node.infoset.actions]
            stack += list(node.children)
        if any(float(x) * 2 ** 16 % 1 for x in numbers):
            return False
    return True


NO_RECALL = ["exception", "RuntimeError"]


def check(spec, note):
    first = answers(spec, 0)
    second = Other.ask(spec)
    if isinstance(second, str):
        raise RuntimeError("building the second model: " + second)
    trivial = any(len(spec["dom"][d]) == 1 for d in oracle.all_decisions(spec))
    for (op, args), a, b in zip(spec["ops"], first, second):
        if trivial and NO_RECALL in (a, b):
            continue
        if a != b and op in SOLVERS and not no_rounding(spec, op, args):
            continue  # an exact comparison of payoffs may go either way
        require(a == b, "%s%r is answered %.600r, with other names, order and hash seed %.600r", op, tuple(args), a, b)
        if a is not None and a[:1] != ["exception"] if isinstance(a, list) else True:
            note.hit(op)


def serve():
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)  # nothing else gets into the answers
    for line in sys.stdin.buffer:
        spec = ast.literal_eval(line.decode("unicode_escape"))
        try:
            res = answers(spec, 1)
        except Exception as e:  # noqa
            res = "%s: %s" % (type(e).__name__, str(e)[:300])
        out.write(repr(res).encode("unicode_escape") + b"\n")
        out.flush()


PARTS = [
    Part("models", gen, check, 3000, 60000,
         "random models of all classes built twice, with other names, orders and hash seed; 3-8 questions each; "
         "non-trivial = some question is answered"),
    Part("hash seed", gen_same, check_same, 1500, 30000,
         "random models built again in a process with another hash seed: samples and random distributions for a seed "
         "have to be identical; non-trivial = several nodes"),
    Part("structures", gen_structure, check, 5000, 100000,
         "random diagrams of up to 9 nodes without distributions; graphical questions; non-trivial = some question is "
         "answered"),
]

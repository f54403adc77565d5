"""Exported extensive-form games are equivalent to the model."""
import contextlib
import io
import os
import shutil
import tempfile

import numpy as np
import pygambit
from pycid.export.gambit import behavior_to_cpd, macid_to_efg, macid_to_gambit_file

from vf import oracle
from vf.build import build
from vf.core import require, require_close
from vf.gen import components, gen_macid, gen_row, n_contexts
from vf.oracle import Net, Values
from vf.snap import rows
from vf.worker import Part

ASSUMPTIONS = [
    "At most 300 leaves.  Decision contexts that are impossible under every policy need no information set.",
    "Agents whose utilities lie in several connected components are rejected by expected_utility, by design.",
]


def gen(src):
    src.rare = src.bool(1, 5)
    spec = gen_macid(src, cls=src.pick(["MACID", "MACID", "MACIDBase", "CID"]), max_nodes=7, n_decisions=(1, 3),
                     policies=src.pick([0, 0, 1]), connected=src.bool(3, 4), max_rules=64)
    decs = oracle.all_decisions(spec)
    if spec["kind"] != "CID" and src.bool(1, 5):  # an agent that has no utilities
        a = src.pick(list(spec["utilities"]))
        for u in spec["utilities"][a]:
            if src.bool():
                spec["utilities"].setdefault(next(iter(spec["utilities"])), [])
        other = [b for b in spec["utilities"] if b != a]
        if other:
            spec["utilities"][other[0]] = spec["utilities"][other[0]] + spec["utilities"][a]
            spec["utilities"][a] = []
    part = src.bool(1, 3)
    spec["ask"] = src.shuffle(decs)[:src.int(1, len(decs))] if part else list(decs)
    if part:
        for d in decs:
            if d not in spec["ask"] and spec["rows"][d] is None:
                spec["cpd"][d] = {"kind": "policy"}
                spec["rows"][d] = [gen_row(src, len(spec["dom"][d]), False) for _ in range(n_contexts(spec, d))]
    spec["part"] = part
    owners = [a for a in spec["decisions"] if any(d in spec["ask"] for d in spec["decisions"][a])]
    spec["agents"] = src.shuffle(owners if src.bool() else list(spec["utilities"])) if part else None
    spec["behaviours"] = [{d: [gen_row(src, len(spec["dom"][d]), src.bool(1, 3)) for _ in range(n_contexts(spec, d))]
                           for d in spec["ask"]} for _ in range(2)]
    spec["file"] = src.bool(1, 3)
    return spec


def payoff(node, behaviour, n):
    """expected payoffs of the players below this node"""
    res = np.zeros(n)
    if node.is_terminal:
        if node.outcome is not None:
            return np.array([float(node.outcome[i]) for i in range(n)])
        return res
    if node.outcome is not None:
        res = res + np.array([float(node.outcome[i]) for i in range(n)])
    children = list(node.children)
    actions = list(node.infoset.actions)
    require(len(children) == len(actions), "a node with %d branches for %d actions", len(children), len(actions))
    if node.infoset.is_chance:
        probs = [float(a.prob) for a in actions]
        require(abs(sum(probs) - 1) < 1e-9 and min(probs) >= 0, "chance probabilities %r", probs)
    else:
        probs = behaviour(node.infoset)
    for p, c in zip(probs, children):
        if p > 0:
            res = res + p * payoff(c, behaviour, n)
    return res


def tree(node, n):
    """plain data"""
    out = None if node.outcome is None else [float(node.outcome[i]) for i in range(n)]
    if node.is_terminal:
        return out
    info = node.infoset
    if info.is_chance:
        who = "chance", [float(a.prob) for a in info.actions]
    else:
        who = info.player.label, info.label
    return who, out, [a.label for a in info.actions], [tree(c, n) for c in node.children]


def same_tree(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= 1e-9 * (1 + abs(a))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same_tree(x, y) for x, y in zip(a, b))
    return a == b


def check(spec, note):
    ask = list(spec["ask"])
    agents = list(spec["agents"] if spec["agents"] is not None else spec["utilities"])
    comp = components(spec)
    leaves = 1
    for v in set(ask) | {p for d in ask for p in spec["parents"][d]}:
        leaves *= len(spec["dom"][v])
    if leaves > 300 or any(len({comp[u] for u in spec["utilities"].get(a, [])}) > 1 for a in agents):
        note.seen("outside the bounds")
        return
    model = build(spec)
    if spec["part"]:
        game, infosets = macid_to_efg(model, set(ask), list(agents))
    else:
        game, infosets = macid_to_efg(model)
    players = list(game.players)
    require([p.label for p in players] == [str(a) for a in agents], "players %r for the agents %r",
            [p.label for p in players], agents)
    uniform = Net.of(spec).with_rows({d: oracle.uniform_rows(spec, d) for d in ask})
    seen = []
    used = dict(infosets)
    for d in ask:
        for context in oracle.contexts(spec, d):
            keys = [k for k in used if k[0] == d and dict(k[1]) == context]
            require(len(keys) <= 1, "%d information sets for %r in the context %r", len(keys), d, context)
            if not keys:
                require(uniform.prob(context) <= 1e-12, "no information set for %r in the context %r", d, context)
                continue
            info = used[keys[0]]
            require(not any(info == i for i in seen), "%r in the context %r shares an information set", d, context)
            seen.append(info)
            require(info.player.label == str(oracle.agent_of(spec, d)), "%r is controlled by player %r", d,
                    info.player.label)
            require([a.label for a in info.actions] == [str(o) for o in spec["dom"][d]], "actions of %r: %r", d,
                    [a.label for a in info.actions])
    require(len(list(game.infosets)) == len(seen) == len(used), "%d information sets in the game, %d in the mapping, but "
            "%d decision contexts", len(list(game.infosets)), len(used), len(seen))
    if len(seen) > 1:
        note.hit("several information sets")
    if any(v not in ask for v in {p for d in ask for p in spec["parents"][d]}):
        note.seen("chance moves")
    values = {a: Values(spec, spec["utilities"].get(a, []), ask) for a in agents}
    plain = tree(game.root, len(agents))
    for b in spec["behaviours"]:
        lookup = {(d, tuple(sorted(c.items()))): r for d in ask for c, r in zip(oracle.contexts(spec, d), b[d])}

        def behaviour(info):
            hits = [k for k, i in used.items() if i == info]
            require(len(hits) == 1, "an information set of the tree is not in the mapping")
            k = hits[0]
            return lookup[k[0], tuple(sorted(dict(k[1]).items()))]

        got = payoff(game.root, behaviour, len(agents))
        for i, a in enumerate(agents):
            require_close(got[i], values[a].value(b), "expected payoff of %r in the tree under the behaviour %r", a, b)
            note.seen("payoffs compared")
        # back to decision rules
        profile = game.mixed_behavior_profile()
        for k, info in used.items():
            profile[info] = lookup[k[0], tuple(sorted(dict(k[1]).items()))]
        if spec["part"]:
            cpds = behavior_to_cpd(model, infosets, profile, set(ask))
        else:
            cpds = behavior_to_cpd(model, infosets, profile)
        require(sorted(c.variable for c in cpds) == sorted(ask), "decision rules for %r", [c.variable for c in cpds])
        for c in cpds:
            d = c.variable
            table = rows(c, spec["parents"][d], spec["dom"], domain=model.model.domain)
            for context, r, expected in zip(oracle.contexts(spec, d), table, b[d]):
                if any(k[0] == d and dict(k[1]) == context for k in used):
                    require(np.allclose(r, expected, atol=1e-9), "the behaviour %r of %r in the context %r became %r",
                            expected, d, context, r.tolist())
        m = model.copy()
        m.add_cpds(*cpds)
        if not [d for d in oracle.all_decisions(spec) if d not in ask and spec["rows"][d] is None]:
            for a in agents:
                if spec["utilities"].get(a):
                    require_close(m.expected_utility({}, agent=a), values[a].value(b), "expected utility of %r under the "
                                  "decision rules converted from the behaviour", a)
    if spec["file"] and not spec["part"]:
        work = tempfile.mkdtemp(dir=os.environ.get("VERIF_WORK"))
        try:
            path = os.path.join(work, "game.efg")
            with contextlib.redirect_stdout(io.StringIO()):
                macid_to_gambit_file(model, path)
            read = pygambit.Game.read_game(path)
            require([p.label for p in read.players] == [str(a) for a in agents], "players in the file")
            again = tree(read.root, len(agents))
            require(same_tree(again, plain), "the game file describes %.500r, the game is %.500r", again, plain)
            require(len(list(read.infosets)) == len(list(game.infosets)), "number of information sets in the file")
            note.hit("file")
        finally:
            shutil.rmtree(work)


PARTS = [
    Part("games", gen, check, 1600, 40000,
         "random (MA)CIDs with up to 3 decisions, whole or in part, each with two random behaviours; non-trivial = several "
         "information sets, or a game file was read back"),
]

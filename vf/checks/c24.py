"""What is drawn and printed shows the model."""
import importlib.util
import itertools
import os
import tempfile

import matplotlib

matplotlib.use("Agg")

import matplotlib.pyplot as plt  # noqa: E402
import networkx as nx  # noqa: E402
import numpy as np  # noqa: E402
import pycid  # noqa: E402
from matplotlib.colors import to_rgba  # noqa: E402
from matplotlib.markers import MarkerStyle  # noqa: E402
from matplotlib.patches import FancyArrowPatch  # noqa: E402

from vf import oracle  # noqa: E402
from vf.build import CLASSES, build, make_function, skeleton  # noqa: E402
from vf.core import require, require_close  # noqa: E402
from vf.gen import BIG, gen_cbn, gen_graph, gen_macid  # noqa: E402
from vf.worker import Part  # noqa: E402

ASSUMPTIONS = [
    "Pictures are read off the matplotlib figure (top-most marker, texts and arrows at known positions).",
    "Which colours stand for which role or agent is left open, except that they are told apart.",
    "Labels of lambdas are only checked for lambdas on one line with one relationship.",
]

SPACING = 10.0
COLORS = ["red", "green", "purple", "black", "orange"]


def layout_of(nodes):
    """far apart, so that what is near a node belongs to it"""
    return {v: np.array([SPACING * (i % 3), SPACING * (i // 3) - SPACING]) for i, v in enumerate(nodes)}


def outline(marker):
    style = MarkerStyle(marker)
    return style.get_path().transformed(style.get_transform()).vertices


def shape_of(vertices):
    for marker in "osD^v":
        expected = outline(marker)
        if vertices.shape == expected.shape and np.allclose(vertices, expected):
            return marker
    return None


def picture(draw, nodes, placed=True):
    """{node: (shape, colour, texts)}, edges: as they appear in the figure; with placed=False the layout is not ours"""
    plt.close("all")
    positions = layout_of(nodes)
    if placed:
        draw(lambda graph: dict(positions))
    else:
        draw()
    axes = plt.gcf().axes
    require(len(axes) == 1, "%d axes are drawn", len(axes))
    if not placed:  # nodes are where their names are
        positions = {}
        for text in axes[0].texts:
            if text.get_text() in nodes:
                at = np.array(text.get_position())
                known = positions.setdefault(text.get_text(), at)
                require(np.allclose(known, at), "%r is shown at %r and %r", text.get_text(), known, at)
        require(set(positions) == set(nodes), "names shown: %r, nodes: %r", sorted(positions), sorted(nodes))
        if any(np.allclose(positions[a], positions[b], atol=1e-4) for a, b in itertools.combinations(nodes, 2)):
            plt.close("all")
            return None, None
    top = {}
    for order, collection in enumerate(axes[0].collections):
        if not hasattr(collection, "get_offsets") or not collection.get_paths():
            continue
        faces = collection.get_facecolors()
        shapes = collection.get_paths()
        for i, at in enumerate(np.asarray(collection.get_offsets())):
            for v, pos in positions.items():
                if np.allclose(at, pos):
                    key = (collection.get_zorder(), order)
                    if v not in top or top[v][0] <= key:
                        top[v] = (key, shape_of(shapes[i % len(shapes)].vertices), tuple(faces[i % len(faces)]))
    texts = {v: set() for v in nodes}
    for text in axes[0].texts:
        if not placed:
            if text.get_text() in nodes:
                texts[text.get_text()].add(text.get_text())
            continue
        near = [v for v, pos in positions.items() if np.abs(np.array(text.get_position()) - pos).max() < 2]
        require(len(near) == 1, "the text %r is not at a node", text.get_text())
        if text.get_text():
            texts[near[0]].add(text.get_text())
    edges = None
    arrows = [p for p in axes[0].patches if isinstance(p, FancyArrowPatch)]
    if all(hasattr(p, "_posA_posB") for p in arrows):
        edges = set()
        for p in arrows:
            ends = [[v for v, pos in positions.items() if np.allclose(end, pos)] for end in p._posA_posB]
            require(all(len(e) == 1 for e in ends), "an arrow from %r to %r", *p._posA_posB)
            edges.add((ends[0][0], ends[1][0]))
    plt.close("all")
    require(set(top) == set(nodes), "nodes drawn: %r, nodes: %r", sorted(top), sorted(nodes))
    return {v: (top[v][1], top[v][2], texts[v]) for v in nodes}, edges


def gen_diagram(src):
    which = src.int(0, 3)
    if which == 0:
        spec = gen_cbn(src, max_nodes=6)
    else:
        cls = ["CID", "MACID", "MACIDBase"][which - 1]
        spec = gen_macid(src, cls=cls, max_nodes=7, n_agents=(1, 3), n_decisions=(0, 3), n_utilities=(0, 3), policies=1,
                         big=dict(BIG, maxcard=2))
    if spec["kind"].startswith("MACID") and src.bool():  # agents without decisions or without utilities
        for what in ("decisions", "utilities"):
            spec[what] = {a: vs for a, vs in spec[what].items() if vs}
    spec["cpds"] = src.bool(3, 4)
    spec["mode"] = src.pick(["draw", "draw", "draw", "property", "custom"])
    spec["property"] = src.subset(spec["nodes"])
    spec["color"] = src.pick([None, "blue", "pink"])
    spec["custom"] = {v: [src.pick(COLORS), src.pick("osD^v"), src.pick(["", "lab", "l(%s)" % v])]
                      for v in spec["nodes"]}
    spec["which"] = src.subset(["node_color", "node_shape", "node_label"], 2, 3)
    return spec


def role(spec, v):
    for what in ("decisions", "utilities"):
        for agent, vs in spec[what].items():
            if v in vs:
                return what, agent
    return "chance", None


SHAPES = {"decisions": "s", "utilities": "D", "chance": "o"}


def check_diagram(spec, note):
    model = build(spec) if spec["cpds"] else skeleton(spec)
    nodes = list(spec["nodes"])
    custom = {}
    if spec["mode"] == "custom":
        for i, what in enumerate(["node_color", "node_shape", "node_label"]):
            if what in spec["which"]:
                custom[what] = lambda v, i=i: spec["custom"][v][i]
    if spec["mode"] == "property":
        kw = {"color": spec["color"]} if spec["color"] else {}

        shown, edges = picture(lambda: model.draw_property(lambda v: v in spec["property"], **kw), nodes, placed=False)
        if shown is None:
            note.seen("the layout puts nodes on top of each other")
            return
    else:
        shown, edges = picture(lambda layout: model.draw(layout=layout, **custom), nodes)
    require(edges is None or edges == {tuple(e) for e in spec["edges"]}, "arrows drawn: %r, edges: %r", edges,
            spec["edges"])
    color_of = {}
    for v in nodes:
        shape, color, texts = shown[v]
        what, agent = role(spec, v)
        if "node_shape" in custom:
            require(shape == spec["custom"][v][1], "the shape of %r is %r, asked for: %r", v, shape, spec["custom"][v][1])
        else:
            require(shape == SHAPES[what], "the shape of %r (%s) is %r", v, what, shape)
        highlighted = spec["mode"] == "property" and v in spec["property"]
        if "node_color" in custom:
            require(np.allclose(color, to_rgba(spec["custom"][v][0])), "the colour of %r is %r, asked for: %r", v, color,
                    spec["custom"][v][0])
        elif highlighted:
            require(np.allclose(color, to_rgba(spec["color"] or "red")), "%r has the property, but its colour is %r", v,
                    color)
        else:
            if spec["mode"] == "property":
                require(spec["color"] == "pink" or not np.allclose(color, to_rgba(spec["color"] or "red"))
                        or what != "chance", "%r does not have the property, but its colour is %r", v, color)
            color_of[v] = color
        require(v in texts, "the name of %r is not shown, only %r", v, texts)
        label = expected_label(spec, v) if "node_label" not in custom else spec["custom"][v][2]
        if label is not None and spec["mode"] != "property":
            require(texts == {v} | ({label} if label else set()), "at %r the texts %r are shown, expected its name and %r",
                    v, texts, label)
            if label:
                note.hit("labels")
    for a, b in itertools.combinations(sorted(color_of), 2):
        (what_a, agent_a), (what_b, agent_b) = role(spec, a), role(spec, b)
        if spec["kind"] in ("MACID", "MACIDBase"):
            same = agent_a == agent_b and (what_a == "chance") == (what_b == "chance")
        else:
            same = what_a == what_b
        require(same == np.allclose(color_of[a], color_of[b]), "%r (%s of %r) and %r (%s of %r) are drawn in %s", a, what_a,
                agent_a, b, what_b, agent_b, "different colours" if same else "the same colour")
        if not same:
            note.hit("told apart by colour")
    if spec["mode"] != "draw":
        note.hit(spec["mode"])
    if any(vs and not spec["utilities"].get(a) for a, vs in spec["decisions"].items()):
        note.hit("agent without utilities")


def expected_label(spec, v):
    """None: left open"""
    if not spec["cpds"]:
        return ""
    kind = spec["cpd"][v]["kind"]
    if kind in ("table", "table_named"):
        return ""
    if kind == "named" and all(p.isidentifier() for p in spec["parents"][v]):
        return "rel"
    if kind in ("func", "funcval"):
        return "f"
    return None


def gen_relevance(src):
    spec = gen_graph(src, max_nodes=8, n_decisions=(1, 4), big=dict(BIG, n_decisions=(5, 8)))
    spec["sccs"] = src.bool(2, 3)
    return spec


def check_relevance(spec, note):
    model = skeleton(spec)
    decisions = oracle.all_decisions(spec)
    if not decisions:
        note.seen("no decisions")
        return
    graph = pycid.RelevanceGraph(model)
    expected = {(a, b) for a in decisions for b in decisions if a != b and oracle.r_reachable(spec, a, b)}

    shown, edges = picture(graph.draw_sccs if spec["sccs"] else graph.draw, decisions, placed=False)
    if shown is None:
        note.seen("the layout puts nodes on top of each other")
        return
    require(edges is None or edges == expected, "arrows drawn: %r, relevance: %r", edges, expected)
    for v in decisions:
        require(v in shown[v][2], "the name of %r is not shown, only %r", v, shown[v][2])
    if spec["sccs"]:
        closure = nx.transitive_closure(nx.DiGraph(list(expected)), reflexive=True)
        closure.add_nodes_from(decisions)
        for a, b in itertools.combinations(decisions, 2):
            same = closure.has_edge(a, b) and closure.has_edge(b, a)
            require(same == np.allclose(shown[a][1], shown[b][1]), "%r and %r are%s in one component, but drawn in %s", a, b,
                    "" if same else " not", "different colours" if same else "the same colour")
            note.hit("one component" if same else "two components")
    elif expected:
        note.hit("relevance")


def gen_text(src):
    src.rare = src.bool(1, 4)
    spec = gen_cbn(src, max_nodes=4, min_nodes=2) if src.bool(1, 2) else gen_macid(src, cls="CID", max_nodes=5, policies=1)
    spec["copy"] = src.pick(["no", "no", "model", "cpd"])
    return spec


def check_text(spec, note):
    model = build(spec)
    if spec["copy"] == "model":
        model = model.copy()
    for v in spec["nodes"]:
        cpd = model.get_cpds(v)
        if not isinstance(cpd, pycid.StochasticFunctionCPD):
            continue
        if spec["copy"] == "cpd":
            cpd = cpd.copy()
        for text in (repr(cpd), str(cpd)):
            require(v in text, "%r is not mentioned in %r", v, text)
            dom = spec["dom"][v]
            if spec["cpd"][v]["kind"] == "domain":
                require(str(list(dom)) in text, "the options %r are not mentioned in %r", dom, text)
                continue
            shown = {}
            for line in text.splitlines():
                if "  ->  " in line:
                    left, right = line.split("  ->  ", 1)
                    key = tuple(sorted(eval(left, {"np": np}).items()))
                    require(key not in shown, "the parents' outcomes %r are listed twice in %r", left, text)
                    shown[key] = right
            parents = spec["parents"][v]
            for outcomes, row in zip(itertools.product(*[spec["dom"][p] for p in parents]), spec["rows"][v]):
                key = tuple(sorted(zip(parents, outcomes)))
                require(key in shown, "the parents' outcomes %r are missing in %r", key, text)
                right = shown.pop(key)
                if 1.0 in row and right == str(dom[row.index(1.0)]):
                    continue
                try:
                    given = eval(right, {"np": np})
                except Exception:  # noqa
                    given = None
                require(isinstance(given, dict), "given %r, %r is printed as %r, the distribution is %r", key, v, right, row)
                for o, p in zip(dom, row):
                    require_close(given.get(o, 0), p, "probability printed for %s=%r given %r", v, o, key)
                note.hit("distribution printed")
            require(not shown, "additional parents' outcomes in %r", text)
            if parents:
                note.hit("function printed")


EXPRESSIONS = ["{p}", "2 * {p}", "{p} + {q}", "max({p}, {q})", "{{{p}: 0.5}}", "int({p} == {q})", "({p} + 1) * ({q} - 1)",
               "{{0: 0.25, 1: 0.75}}", "bernoulli({p})", "{{{p}: 0.9, 7: 0.1}}", "[0, 1, 2][{p}]", "0 if {p} else {q}"]


def gen_label(src):
    names = src._sample(["A", "B", "X", "Y", "S1", "obs"], src.int(1, 3))
    child = src.pick(["C", "U", "Dx", "y2"])
    return {"parents": names, "child": child, "expr": src.pick(EXPRESSIONS), "indent": src.pick(["", "    ", "        "]),
            "tail": src.pick([",", "", ", ", ")", ",)", "  # comment"]), "own_line": src.bool(),
            "other": src.bool(), "given": src.pick([None, None, "my label"])}


def check_label(spec, note):
    ps, child = spec["parents"], spec["child"]
    body = spec["expr"].format(p=ps[0], q=ps[-1])
    text = "lambda %s: %s" % (", ".join(ps), body)
    lines = ["from pycid import bernoulli", "def make():", "    rels = dict("]
    if spec["other"]:
        lines.append("        Other=lambda Q: 5 * Q,")
    tail = spec["tail"]
    closed = ")" in tail
    tail = tail.replace(" # comment", "").strip() if tail.startswith("  ") else tail
    lines.append("        %s%s=%s%s" % (spec["indent"], child, text, tail))
    if not closed:
        lines.append("    )")
    lines.append("    return rels")
    work = tempfile.mkdtemp(dir=os.environ.get("VERIF_WORK"))
    path = os.path.join(work, "labelled_%d.py" % check_label.count)
    check_label.count += 1
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")
    module = importlib.util.module_from_spec(importlib.util.spec_from_file_location("labelled", path))
    module.__spec__.loader.exec_module(module)
    function = module.make()[child]
    model = pycid.CausalBayesianNetwork([(p, child) for p in ps])
    model.add_cpds(**{p: {0: 0.5, 1: 0.5} for p in ps})
    if spec["given"]:
        model.add_cpds(pycid.StochasticFunctionCPD(child, function, model, label=spec["given"]))
    else:
        model.add_cpds(**{child: function})
    label = model.get_cpds(child).label
    if spec["given"]:
        require(label == spec["given"], "the label is %r, given was %r", label, spec["given"])
        note.hit("label given")
        return
    require(label.strip() == body, "the label of `%s=%s%s` is %r", child, text, spec["tail"], label)
    note.hit("lambda")


check_label.count = 0

PARTS = [
    Part("diagrams", gen_diagram, check_diagram, 480, 12000,
         "random CBN/CID/MACID drawn with its own or custom colours, shapes and labels, or with a property highlighted; "
         "non-trivial = nodes are told apart by colour, labels are shown, or customised"),
    Part("relevance", gen_relevance, check_relevance, 160, 4000,
         "relevance graphs and their components drawn; non-trivial = at least one edge or two decisions compared"),
    Part("text", gen_text, check_text, 800, 20000,
         "printed relationships of random models, of copies and copied relationships; non-trivial = a function of parents "
         "or a distribution was printed and read back"),
    Part("labels", gen_label, check_label, 400, 8000,
         "lambdas in generated source files; all non-trivial"),
]

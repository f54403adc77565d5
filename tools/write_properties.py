"""Writes properties.jsonl (kept as a script so that the statements stay readable)."""
import json
import os

CBN, CPD, BASE, MACID, CID = ("pycid/core/%s.py" % n for n in (
    "causal_bayesian_network", "cpd", "macid_base", "macid", "cid"))
REL, PATHS, EFG = "pycid/core/relevance_graph.py", "pycid/core/get_paths.py", "pycid/export/gambit.py"


def an(name):
    return "pycid/analyze/%s.py" % name


P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        anchors["observe_at"] = observe
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": anchors})


prop("C01", "Inference answers equal enumeration of the joint distribution",
     "For every causal model whose relevant policies are specified, querying probabilities, expected values or an "
     "agent's expected utility, given any possible context and any interventions (also with an outcome outside the "
     "original domain), returns exactly what summing the full joint distribution of the (mutilated) network gives. "
     "The answer is complete over the outcomes of the queried variables, expected values come back in the order the "
     "variables were asked for, and contexts with an outcome outside a variable's domain are rejected.",
     ["inputs", "programs"], "every model (graph, domains, ways of writing the relationships), query, context and "
     "intervention",
     "The tests compare a handful of hand-computed numbers on example models; errors depend on graph shape, domain "
     "order, evidence pattern and hash seed.",
     [CBN, BASE], [("query", CBN), ("intervene", CBN), ("expected_value", CBN), ("expected_utility", BASE)],
     observe=["query", "expected_value", "expected_utility"])

prop("C02", "Asking questions never changes the model",
     "Queries, expectations, sampling, copying, solving, finding optimal policies, equilibria or subgames, exporting "
     "games, drawing and every graphical or quantitative analysis leave the model they are called on exactly as it "
     "was: its nodes, edges, roles, domains and distributions, and the arguments they were given. Asking the same "
     "question again afterwards gives the same answer.",
     ["histories", "inputs"], "every model and every sequence of read-only operations",
     "Tests build a fresh example per assertion and look at the return value, not at the model afterwards.",
     [CBN, BASE, CID, MACID, EFG, an("value_of_control"), an("value_of_information"), an("requisite_graph")],
     [("working copies inside the analyses", "pycid/analyze"), ("query on a pruned copy", CBN)],
     observe=["all read-only public functions"])

prop("C03", "A relationship becomes exactly the distribution it describes",
     "A relationship given as a function of the parents (returning an outcome or a possibly partial distribution), a "
     "constant distribution, a list of decision options or a table yields the conditional probability table it "
     "describes: probability mass that is left unspecified is spread evenly over the remaining outcomes, and the "
     "domain is the given one or the sorted set of possible outcomes. A function whose arguments are not exactly the "
     "parents, probabilities outside 0-1, columns that do not sum to one and outcomes outside a given domain are "
     "rejected; the distribution helpers (Bernoulli, uniform, noisy copy) return the distributions they are named for.",
     ["inputs"], "every function, parent domains, partial distribution and domain",
     "Tests use a few fixed lambdas over binary parents.",
     [CPD, CBN, BASE], [("table construction and completion", CPD), ("conversion of relationships", CBN)],
     observe=["table of the node after adding the relationship"])

prop("C04", "A model depends on what it contains, not on how it was built",
     "After any sequence of adding, replacing and removing relationships, adding and removing edges, intervening and "
     "imputing or removing policies, the model has the same distributions and domains as a model built afresh from its "
     "final graph and relationships in any order. In particular a change of a variable's domain is reflected in all its children's relationships "
     "given as functions, constant distributions and decision options follow a change of parents, and an "
     "intervention removes exactly the incoming edges of its targets and fixes their outcomes.",
     ["histories"], "every sequence of model-editing operations, and every order in which relationships are added",
     "Tests contain a few fixed sequences; the update order is a property of all histories.",
     [CBN, BASE, CPD], [("relationship dictionary that updates tables and domains", CBN), ("intervene", CBN),
                        ("remove_all_decision_rules", BASE)],
     state=[("model", "relationships by variable"), ("model.domain", "outcomes by variable"),
            ("cpds", "the tables used by inference")],
     observe=["tables, domains, edges", "queries"])

prop("C05", "Copies are equivalent and independent",
     "A copy of a model (with or without its distributions) has the same class, nodes, edges, agents, roles, domains "
     "and distributions and answers all questions the same way; changing the copy afterwards never affects the "
     "original, nor the other way round. Constructors do not keep or modify the collections they are given.",
     ["histories", "inputs"], "every model, also partially specified ones and with agents lacking decisions or "
     "utilities, and every later change of either",
     "Tests copy one or two fully specified examples and check few attributes.",
     [CBN, BASE, CID, MACID, CPD], [("copy, copy_without_cpds", CBN), ("copying agents", BASE)],
     observe=["structure and answers of both models"])

prop("C06", "Node roles stay consistent under every sequence of role changes",
     "After any sequence of turning nodes into decisions, utilities or chance nodes of any agent and of adding or "
     "removing nodes, every node has exactly the role and agent it was last given: decision and utility lists per "
     "agent, the owner of each decision and utility and the sets of decisions and utilities all agree, without "
     "duplicates or leftovers. Changing the role of a node that does not exist is rejected without any effect.",
     ["histories"], "every sequence of role changes and node additions and removals",
     "Tests change the role of one node once.",
     [BASE], [("make_decision, make_utility, make_chance, remove_node", BASE)],
     state=[("agent_decisions, agent_utilities", "nodes per agent"), ("decision_agent, utility_agent", "owner per node")],
     observe=["role attributes"])

prop("C07", "No answer is given that depends on an unspecified policy",
     "A query or expectation that depends on the policy of a decision for which only the options (or nothing) have "
     "been specified - i.e. a new parent of the decision would be d-connected to a queried node given the context in "
     "the intervened graph - is rejected, whatever context and interventions it involves. A query that does not depend on any "
     "unspecified policy is answered, with the answer that any choice of the missing policies would give.",
     ["inputs"], "every model with some policies missing, query, context and intervention",
     "Tests check a few combinations; dependence follows from paths in the intervened graph.",
     [BASE], [("check on mechanism nodes before a query", BASE)], observe=["query", "expected_value"])

prop("C08", "Samples follow the model; structural models are recognised",
     "Every sample assigns each variable an outcome of its domain and has positive probability under the model, the "
     "same seed gives the same sample, and relative frequencies over seeds agree with the model's probabilities. A "
     "model counts as structural exactly if every variable with parents is a deterministic function of them.",
     ["inputs"], "every fully specified model and seed",
     "Tests draw from one or two examples.",
     [CBN], [("sample", CBN), ("is_structural_causal_model", CBN)], observe=["sample", "is_structural_causal_model"])

prop("C09", "Pure decision rules and policies are enumerated completely and once",
     "The pure decision rules of a decision are all functions from the combinations of its parents' outcomes to its "
     "options, each exactly once; pure policies of several decisions are all combinations of their rules in the order "
     "of the given decisions. Each rule is a deterministic distribution that can be added to the model and then "
     "behaves as that function.",
     ["inputs"], "every decision context (number, sizes and order of the parents' domains)",
     "Tests count the rules for a few binary examples.",
     [BASE, MACID], [("pure_decision_rules, pure_policies", BASE), ("joint_pure_policies", MACID)],
     observe=["enumerated rules"])

prop("C10", "Optimal policies are exactly the pure policies of maximal utility",
     "The optimal (pure) policies returned for a set of decisions of one agent are exactly those pure policies that "
     "attain the maximal expected utility of that agent given the policies of the other decisions, including all ties "
     "up to the documented relative tolerance; decisions without influence keep any policy. Decisions that belong to "
     "different agents are rejected, and so are questions whose answer depends on another decision without a policy.",
     ["inputs"], "every model and set of decisions of one agent",
     "Tests check the count of optimal policies for a few examples.",
     [BASE, CID], [("optimal_pure_policies", BASE), ("optimal_policies", CID)],
     observe=["optimal_pure_policies", "optimal_pure_decision_rules", "optimal_policies"])

prop("C11", "Solving a single-agent model attains the maximal expected utility",
     "Imputing an optimal policy, or adding the decision rules that solving returns, makes the expected utility the "
     "maximum over all policies, with or without sufficient recall, and with sufficient recall every decision is "
     "optimal in each context that can occur. Imputing an optimal decision never lowers and locally maximises the "
     "agent's utility; random policies are uniform; a conditional-expectation decision returns the expectation of its "
     "target given each decision context.",
     ["inputs"], "every single-agent model",
     "Tests solve a few examples with known optimum.",
     [BASE, CID], [("impute_optimal_policy, solve", CID), ("impute_optimal_decision", BASE)],
     observe=["expected utility after imputing"])

prop("C12", "Reachability, relevance graphs and recall follow their definitions",
     "A node is r-reachable (strategically relevant) from a decision exactly if a new parent of the node would be "
     "d-connected to a downstream utility of the decision's agent given the decision and its parents, and for sets of "
     "decisions and nodes if this holds for some pair; relevance graphs have exactly these edges, and an agent has "
     "sufficient recall exactly if the relevance graph of its decisions is acyclic. d-connection of nodes given any "
     "observations, also with mechanism nodes added, agrees with the graphical definition, and valid orders are "
     "topological orders of exactly the requested nodes.",
     ["inputs"], "every acyclic graph, assignment of roles and set of observations",
     "Tests check known pairs in a few examples.",
     [BASE, REL], [("is_s_reachable, is_r_reachable, sufficient_recall, MechanismGraph", BASE),
                   ("RelevanceGraph", REL)],
     observe=["is_r_reachable", "is_s_reachable", "RelevanceGraph", "sufficient_recall", "is_dconnected",
              "active_trail_nodes", "get_valid_order"])

prop("C13", "Condensed relevance graphs and subgames follow their definitions",
     "The condensed relevance graph partitions the decisions into the strongly connected components of the relevance "
     "graph and orders them topologically, i.e. each component comes before the components it relies on; the decision sets of "
     "subgames are exactly the non-empty unions of components that are closed under relying on. A subgame contains the "
     "active decisions, the nodes relevant to them and their parents, and in it the conditional distribution of the "
     "relevant nodes, and hence how the active decisions affect the agents' relevant utilities in each context, is as "
     "in the full model.",
     ["inputs"], "every multi-agent model and set of decisions that forms a component or a subgame",
     "Tests list the components and subgames of a few examples.",
     [REL, MACID], [("CondensedRelevanceGraph", REL), ("decs_in_each_maid_subgame, create_subgame", MACID)],
     observe=["get_sccs", "get_scc_topological_ordering", "decs_in_each_maid_subgame", "create_subgame"])

prop("C14", "Returned Nash equilibria are equilibria, and pure ones are complete",
     "Every profile returned as a Nash equilibrium, by every solver that applies, gives each decision a valid decision "
     "rule such that no agent can raise its expected utility by changing its own rules. Enumerating pure equilibria "
     "returns each pure equilibrium of the game, and when no pure equilibrium exists the default still returns only "
     "equilibria; in two-player games the default returns every isolated equilibrium, mixed ones included. Unknown "
     "solvers are rejected.",
     ["inputs"], "every game with perfect recall and every applicable solver",
     "Tests compare with known equilibria of a few textbook games.",
     [MACID, EFG], [("get_ne, get_ne_in_sg", MACID), ("pygambit_ne_solver, behavior_to_cpd", EFG)],
     observe=["get_ne", "get_ne_in_sg"])

prop("C15", "Subgame perfect equilibria are equilibria in every subgame",
     "Every profile returned as a subgame perfect equilibrium assigns one decision rule to each decision, and no agent "
     "can gain by deviating in the whole game or within any subgame. If the equilibria of each subgame are enumerated "
     "completely and one exists at each stage, at least one profile is returned.",
     ["inputs"], "every game with perfect recall",
     "Tests compare with known equilibria of a few textbook games.",
     [MACID, REL], [("get_spe", MACID), ("backward induction over components", REL)], observe=["get_spe"])

prop("C16", "Exported extensive-form games are equivalent to the model",
     "The game tree exported for a model (all decisions or those of a subgame) has one player per agent and one "
     "information set per decision and reachable decision context with the decision's options as actions; under every "
     "choice of behaviour, every player's expected payoff in the tree equals the agent's expected utility in the model. "
     "Converting a behaviour profile back yields exactly the decision rules it describes, and the written game file "
     "describes the same game.",
     ["inputs"], "every model and behaviour profile",
     "Tests look at the shape of a few exported examples.",
     [EFG], [("macid_to_efg, behavior_to_cpd, macid_to_gambit_file", EFG)],
     observe=["tree, payoffs and information sets", "decision rules", "file"])

prop("C17", "Path functions agree with exhaustive path enumeration",
     "All directed and all undirected simple paths between two nodes are enumerated exactly once; an active path is "
     "found exactly if the nodes are d-connected, and it is active. Classifying a node on a path, testing whether a "
     "path is active, and testing for active back-door trails, active indirect front-door trails and decision-free "
     "directed paths agree with their definitions applied to all paths. Nodes that do not exist are rejected.",
     ["inputs"], "every acyclic graph, pair of nodes, path and set of observations",
     "Tests use two or three small graphs.",
     [PATHS], [("depth-first search and classification", PATHS)],
     observe=["find_all_dir_paths", "find_all_undir_paths", "find_active_path", "get_motif", "get_motifs",
              "is_active_path", "is_active_backdoor_trail", "is_active_indirect_frontdoor_trail",
              "directed_decision_free_path"])

prop("C18", "Requisite observations and the requisite graph follow their definition",
     "An observation of a decision is requisite exactly if it is d-connected to a downstream utility of the decision's "
     "agent given the decision and its other observations. The requisite graph has the same nodes, roles and all edges "
     "of the model except the observation links found by repeatedly removing links that are not requisite until none "
     "is left; removing them does not change the maximal expected utility of an agent with sufficient recall.",
     ["inputs"], "every (multi-agent) influence diagram",
     "Tests look at one or two examples.",
     [an("requisite_graph")], [("requisite, requisite_list, requisite_graph", an("requisite_graph"))],
     observe=["requisite", "requisite_list", "requisite_graph"])

prop("C19", "Incentive criteria match their graphical definitions",
     "For every single-agent diagram, admitting value of information, (direct or indirect) value of control, a response "
     "incentive or an instrumental control incentive is answered exactly as the published graphical criterion says, "
     "for every node and decision, and the list versions contain exactly the admitted nodes. Several agents, unknown "
     "nodes and (where the criterion requires it) insufficient recall are rejected.",
     ["inputs"], "every single-agent diagram, decision and node",
     "Tests check a few nodes in the published examples.",
     [an("value_of_information"), an("value_of_control"), an("response_incentive"),
      an("instrumental_control_incentive")],
     [("admits_voi, admits_voc, admits_dir_voc, admits_indir_voc, admits_ri, admits_ici", "pycid/analyze")],
     observe=["admits_* and admits_*_list"])

prop("C20", "Quantitative incentives and effects equal their definitions",
     "The value of information (control) of a node equals the difference of the maximal expected utility with and "
     "without observing (being able to set) that node as found by exhausting all policies; it is never negative and it "
     "is zero whenever the graphical criterion is not met. Total effects equal differences of interventional "
     "expectations, and introduced effects the difference of the effects on the decision and on the target, as "
     "documented.",
     ["inputs"], "every parameterised single-agent model and node",
     "Tests compute a few values in examples.",
     [an("value_of_information"), an("value_of_control"), an("effects")],
     [("quantitative_voi", an("value_of_information")), ("quantitative_voc", an("value_of_control")),
      ("total_effect, introduced_total_effect", an("effects"))],
     observe=["quantitative_voi", "quantitative_voc", "total_effect", "introduced_total_effect"])

prop("C21", "Reasoning patterns match their graphical criteria",
     "A decision is motivated by direct effect, manipulation, signaling or revealing/denying exactly if the documented "
     "graphical criterion holds for it and the given set of effective decisions. The overall analysis is the largest "
     "set of decisions that are each motivated given the others, and each is listed once, under the first pattern that "
     "applies; unknown effective nodes are rejected.",
     ["inputs"], "every multi-agent graph, decision and set of effective decisions",
     "Tests check a few published examples.",
     [an("reasoning_patterns"), PATHS], [("pattern criteria and their fixpoint", an("reasoning_patterns"))],
     observe=["direct_effect", "manipulation", "signaling", "revealing_or_denying", "get_reasoning_patterns"])

prop("C22", "Random generators deliver what was asked for",
     "Every randomly generated graph is acyclic, connected, has the requested number of nodes, respects the maximal "
     "in-degree and reaches the requested density as far as that allows; every random (multi-agent) diagram has the "
     "requested numbers of decisions and utilities per agent, utilities without children, decisions upstream of a "
     "utility of their agent, distributions if requested, and sufficient recall if requested, or a clean error. Random "
     "distributions are valid, are determined by their seed, and do not disturb the global random state.",
     ["inputs", "configurations"], "every parameter combination and random seed",
     "Tests generate a few graphs with default parameters.",
     ["pycid/random/random_dag.py", "pycid/random/random_macidbase.py", "pycid/random/random_cid.py",
      "pycid/random/random_macid.py", "pycid/random/random_cpd.py"],
     [("random_dag", "pycid/random/random_dag.py"), ("random_macidbase", "pycid/random/random_macidbase.py"),
      ("RandomCPD", "pycid/random/random_cpd.py")],
     observe=["generated objects"])

prop("C23", "Answers do not depend on names, order of construction or hash seed",
     "Renaming the nodes and agents, listing edges, nodes, decisions and utilities in another order, or running under "
     "another hash seed changes no answer except for the names in it: the results of reachability, recall, requisite "
     "graphs, incentives, reasoning patterns, subgames, optimal values and equilibria correspond under the renaming.",
     ["inputs", "configurations"], "every model, renaming and order",
     "The tests run each example under one naming and one order per run.",
     [BASE, MACID, PATHS, an("requisite_graph"), an("reasoning_patterns")],
     [("set iteration and name handling throughout", "pycid")],
     observe=["all analyses"])

prop("C24", "What is drawn and printed shows the model",
     "Every model and relevance graph can be drawn, and the drawing shows each node at its place under its name, exactly "
     "its edges, decisions as squares, utilities as diamonds and other nodes as circles, roles (in single-agent "
     "diagrams) or agents (in multi-agent ones) or components told apart by colour, and the label of each relationship "
     "(as given, its function's name or its lambda's expression); custom colours, shapes, labels and highlighted "
     "properties apply to exactly the nodes they are meant for. A printed relationship lists for every combination of "
     "parent outcomes the outcome or distribution that the relationship has there.",
     ["inputs", "configurations"], "every model, relationship and drawing option",
     "Tests draw a few examples without looking at the picture, and print none.",
     [CBN, BASE, CID, REL, CPD], [("draw, draw_property", CBN), ("colours and shapes by role", BASE),
                                  ("draw, draw_sccs", REL), ("printing and labels", CPD)],
     observe=["the matplotlib figure", "repr and str of relationships"])

prop("C25", "Answers follow the present content of a model",
     "Every question - probabilities, expectations, graphical criteria, incentives, reasoning patterns, optimal policies, "
     "equilibria, subgames - is answered as for a model built afresh with the present nodes, edges, roles and "
     "relationships, whatever was asked before, changed since or done with earlier answers.",
     ["inputs", "histories"], "every history of changes and questions",
     "The tests build a model, ask a few questions and throw it away; few change a model after asking.",
     [CBN, BASE, CID, MACID, REL, PATHS, an("requisite_graph"), an("reasoning_patterns")],
     [("queries on models that change", CBN), ("make_decision, make_chance, make_utility", BASE),
      ("mechanism and relevance graphs", REL)],
     observe=["all analyses"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))

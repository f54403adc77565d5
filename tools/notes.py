NOTES = {
    "C01": ("differential oracle: joint enumeration with numpy, written without pycid/pgmpy",
            "random models of up to 7 nodes with domains of up to 3 outcomes; 1-4 queries each"),
    "C12": ("differential oracle: moral-graph d-separation and definitions on random graphs",
            "random structures of 2-8 nodes; all pairs of nodes and several observation sets each"),
    "C17": ("differential oracle: exhaustive path enumeration",
            "random graphs of up to 8 nodes; all paths between pairs"),
    "C18": ("differential oracle (d-separation fixpoint) and brute force over policies",
            "random structures; maximal expected utilities by brute force on small models"),
    "C19": ("differential oracle: graphical criteria by path enumeration in the reduced graph",
            "random single-agent structures of up to 8 nodes; every decision and node"),
    "C21": ("differential oracle: graphical criteria by path enumeration, fixpoint by subsets",
            "random multi-agent structures; every decision, several sets of effective decisions"),
    "C03": ("differential oracle: completion of partial distributions by hand; rejection of invalid variants",
            "random functions, dictionaries, lists and tables over up to 3 parents"),
    "C04": ("stateful generation against a reference model (final graph + final relationships), and differential "
            "with a freshly built model",
            "random histories of up to about 12 editing operations on models of up to 6 nodes"),
    "C05": ("snapshot equality of copies, then stateful mutation of one side",
            "random models, also partially specified; several mutations of either side"),
    "C06": ("stateful generation against a dictionary node -> role",
            "random histories of role changes, node additions and removals"),
    "C07": ("differential oracle: d-separation of mechanisms decides rejection, joint enumeration the answer",
            "random models with missing policies, 2-5 queries each with contexts and interventions"),
    "C08": ("statistical and support oracles over generated models and fixed seeds; direct check of determinism",
            "random models; 300 samples per frequency case, bounds of 6 standard deviations"),
    "C09": ("differential oracle: itertools.product over contexts and options",
            "up to 4096 rules per decision and 3000 policies"),
    "C10": ("brute force over all pure policies with a reference joint",
            "up to 200 policies; subsets of one agent's decisions"),
    "C11": ("brute force over policies and contexts with a reference joint",
            "up to 1000 policies per CID; best responses in (MA)CIDs"),
    "C13": ("differential oracle: components, closed sets and conditional utilities by definition on a reference joint",
            "random structures with up to 5 decisions; parameterised models of up to 7 nodes"),
    "C14": ("brute force over all pure deviations and all pure profiles with a reference joint",
            "up to 16 pure policies per agent, 400 profiles, 3 agents; every solver but ipa"),
    "C16": ("differential oracle: tree payoffs against expected utilities by enumeration under random behaviour",
            "random games of up to a few hundred leaves; subgames included"),
    "C02": ("snapshot equality around read-only operations, the same answers on repetition, and a later modification "
            "compared with a fresh model",
            "random models of all classes, up to 6 nodes; 75 read-only operations, 3-8 per case, mostly valid arguments"),
    "C15": ("brute force over all pure deviations in the whole game and in every subgame; enumeration of pure profiles",
            "up to 16 pure policies per agent and 400 profiles; games of up to 3 decisions"),
    "C20": ("brute force over policies with a reference joint; metamorphic relation to the graphical criteria",
            "single-agent models of up to 6 nodes and 3 decisions; VOI and VOC by exhausting all policies"),
    "C22": ("invariants over the outputs of the random generators, with the requested parameters generated",
            "graphs of up to 12 nodes; all parameters of every generator"),
    "C23": ("metamorphic relation: a second process with another hash seed answers the same questions about the renamed, "
            "reordered model",
            "models of up to 6 and structures of up to 9 nodes; 60 operations; equilibria compared where payoffs are exact"),
    "C24": ("invariants of the rendered figure and of the printed text, read back and compared with the model's spec",
            "models of up to 7 nodes; relationships of up to 3 parents; lambdas in generated source files"),
    "C25": ("stateful: random histories of changes with interleaved questions whose answers are then spoiled; differential "
            "against a model built afresh with the final content",
            "structures of up to 9 and models of up to 6 nodes; up to 6 changes, up to 3 questions before each"),
}

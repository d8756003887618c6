"""Writes properties.jsonl. The text lives here because JSON lines are unpleasant to edit."""
import json, os
SG, SS, SP, RG = ["Python/research/scripts/relnet/%s.py" % n for n in
                  ("sample_graph", "sample_set", "sample_space", "relation_graph")]
GC, FG, CG, AG, VG = ["Python/research/scripts/relnet/%s.py" % n for n in
                      ("graph_components", "folded_graph", "conditional_graph", "activation_graph", "variables_graph")]
PM, GM, LO, UT, GA, KA, GU, GD = ["Python/research/scripts/demo/%s.py" % n for n in
                          ("pacman", "game", "layout", "util", "ghostAgents", "keyboardAgents", "graphicsUtils",
                           "graphicsDisplay")]
P = []


def p(pid, title, statement, over, qtext, why, files, mech):
    P.append({"id": pid, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})


p("R01", "Step-by-step sample construction accepts exactly the legal additions",
  "Adding a relation to a sample under construction succeeds exactly when variables, values and relation are known, it links two values of two different variables, it touches the sample built so far (or is the first), and that pair of values is not related yet; a directed relation additionally must run between the variables of its endpoints. "
  "After any sequence of accepted and rejected additions the built sample contains exactly the accepted values and relations, so it is always connected and a rejected addition leaves no trace. "
  "Building from a whole set of relations accepts exactly the connected, non-contradictory sets of known relations and yields the same sample as adding them one by one, and a sample without values can only be obtained explicitly as the empty sample.",
  ["inputs", "histories"], "every sequence of additions, legal and illegal, over every vocabulary",
  "tests add three or four relations in one order and try one illegal addition each; legality depends on the whole history",
  [SG, GC], [("incremental add with connectivity and duplicate checks", SG + ":add_relation"),
             ("bulk build and connectivity tracing", SG + ":build_from_edges / is_edges_connected")])
p("R02", "Joining samples yields their union, in any order, or is refused without trace",
  "Joining a sample to one under construction succeeds exactly when they share a value (or nothing was added yet), no variable gets a second value and no pair of values gets a second relation; the result is then exactly the union of both, and a refused join leaves the construction unchanged. "
  "Joining all samples of a collection succeeds, whatever the order they are stored in, exactly when they agree on all values and relations and their union is connected, and yields that union with the individual counts. "
  "The advance checks agree: a sample is reported as joinable exactly when no pair of values would get a second relation, and a collection exactly when no variable has two values.",
  ["inputs", "histories"], "every pair and short sequence of samples, every storage order",
  "the outcome depends on the internal order in which edges and samples are visited; tests see one order per example",
  [SG, SS], [("wave-wise edge joining", SG + ":join_sample"), ("collection join", SS + ":make_joined_sample / can_join_samples")])
p("R03", "Sample identity is its structure, however it was built",
  "Two samples of one network compare equal and hash alike exactly when they contain the same values and the same relations between them; the order of construction, the route (one by one, in bulk, by joining parts, by extending a smaller sample, by value replacement) and the name make no difference. "
  "Converting a sample to its plain relation set (or single value) and building it again gives an equal sample, and so equal samples always collapse to one entry of a collection. "
  "A sample never equals an object of another kind.",
  ["inputs", "histories"], "every sample and every construction route and order",
  "equality must hold over all permutations of construction steps and differ over all pairs of distinct samples",
  [SG, GC], [("structural hash and equality", SG + ":SampleGraph.__eq__ / __hash__"), ("plain view", SG + ":edges_set_view")])
p("R04", "What has been built never changes afterwards",
  "Samples, sample collections, networks, conditional networks and their folded and activation views keep exactly the content they had when obtained, whatever is later done with the builder they came from, builders derived from them, copies of builders, the collections their queries returned, or the arguments they were made of. "
  "The items and samples a builder was asked for stay as they were given, too. A builder and its copy, and a builder derived from a built object, evolve independently of each other. "
  "The vocabulary of a network is fixed when it is created.",
  ["histories"], "every sequence of building, deriving, copying and editing operations",
  "aliasing only shows in a particular later operation on a particular earlier object; tests check an object right after it is made",
  [SG, SS, RG, SP, GC], [("snapshots at build", SG + ":build, " + SS + ":build, " + RG + ":build"),
                         ("derived builders and copies", SG + ":builder/__copy__, " + SS + ":builder/copy, " + SP + ":builder")])
p("R05", "Sample comparison and lookup queries are exact",
  "One sample is reported as part of another exactly when all of its values and relations occur in the other, and their similarity is the number of shared values and relations divided by the number of distinct ones (1 for identical samples, including two empty ones). "
  "The queries for contained values, variables, value of a variable, pairs of related variables, the part restricted to some variables, and single-value or empty samples report exactly what the sample contains. "
  "Asking for the variable of a sample with relations is refused.",
  ["inputs"], "every pair of samples and every query argument, including unusual (falsy, non-text) names",
  "tests compare three samples; wrong answers hide in particular combinations of shared values and relations",
  [SG], [("subset test and Jaccard ratio", SG + ":is_subgraph / similarity"), ("lookups", SG + ":value_for_variable ... have_variable")])
p("R06", "Neighbourhood exploration follows shortest paths and the relation filter",
  "The neighbours of a value are exactly the values directly related to it by an allowed relation, each with that relation. "
  "The belt of a set of values is exactly the outside values directly related to the set, each with all allowed relations to the set; exploring outwards reaches exactly the values reachable over allowed relations, each with exactly the allowed relations which lead to values nearer to the start. "
  "An empty start set is refused.",
  ["inputs"], "every sample graph shape, start set and relation filter",
  "the tests walk one five-node graph; layering errors need cycles, several starts or filters that cut paths",
  [SG], [("one step belt", SG + ":belt_nodes / neighboring_values"), ("recursive layers", SG + ":external_nodes")])
p("R07", "Replacing values rewrites exactly the named variables",
  "Replacing values in a sample yields the sample with the same relations in which each named variable that occurs has the new value and everything else is unchanged; variables that do not occur are ignored and the original stays as it was. "
  "If nothing changes the very same sample is returned, and a value unknown for an occurring variable is refused. "
  "Replacing back restores a sample equal to the original. The new sample has the name asked for, or else its own text.",
  ["inputs"], "every sample and every combination of replacements",
  "tests replace one value in two samples; errors need several replacements meeting on one relation, or unusual values",
  [SG], [("node and edge rewriting", SG + ":transform_with_replaced_values")])
p("R08", "Sample collections count exactly",
  "A collection under construction behaves as a multiset for every sequence of adding, adding all, removing, removing all and copying: counts of equal samples add up, removal takes a sample out completely and reports its count, and removing or asking for an absent sample is refused and changes nothing. "
  "The built collection has those samples and counts, its size is the sum of counts, it is true exactly when not empty, and two collections are equal (and hash alike) exactly when samples and counts agree; a collection never equals an object of another kind. "
  "Union and joining of several collections add the counts per sample, leaving the operands as they were.",
  ["histories", "inputs"], "every sequence of collection operations with every count",
  "the tests run one short history; counts diverge only after repeated, overlapping or self-referring operations",
  [SS], [("count dictionary", SS + ":SampleSetBuilder"), ("union", SS + ":union / join_sample_set")])
p("R09", "Collection probabilities and searches are exact",
  "In a non-empty collection each sample's probability is its count divided by the total, and all probabilities add up to 1. "
  "Filtering keeps exactly the samples the predicate accepts, with their counts, and searching a network for a set of values returns exactly the outcomes that contain all of them. "
  "A collection is reported to have a value or variable exactly when one of its samples does, and to be free of conflicts exactly when no variable has two values in it.",
  ["inputs"], "every collection of samples, with every count from one to astronomically large",
  "tests use one collection with counts 1 to 3",
  [SS, SP], [("probabilities", SS + ":probabilities / probability_of"), ("search", SP + ":find_for_values")])
p("R10", "Generating the outcome space lists every possible outcome exactly once",
  "For every vocabulary, the generated network consists of exactly one copy of every connected sample which gives each of one or more variables one of its values and relates values by at most one relation per pair. "
  "Nothing else is contained and no outcome is repeated. "
  "Generation is refused when outcomes were added before.",
  ["configurations"], "every vocabulary: numbers of variables, of values per variable and of relations",
  "the tests check two vocabularies; the enumeration is an odometer whose edge cases depend on the three sizes",
  [RG], [("odometer over relations per pair, then value substitution", RG + ":generate_all_possible_outcomes")])
p("R11", "Conditioning keeps exactly the outcomes compatible with the evidence",
  "Conditioning a network on evidence keeps, with its count, every outcome that contains the evidence and every outcome that shares no variable with it, and drops all others. "
  "The source network is unchanged, conditioning again on the same evidence changes nothing, and the conditional network reports its evidence and can be turned back in to a network or builder with the same outcomes.",
  ["inputs"], "every network and every evidence sample, also evidence that occurs in no outcome",
  "tests condition one network of four outcomes on one evidence",
  [RG, CG, SP], [("outcome filter", RG + ":conditional_graph"), ("conversion", SP + ":relation_graph / builder")])
p("R12", "Activation weights follow similarity to the evidence",
  "In an activation view every variable of the network appears; each evidence value weighs the fraction of conditional outcomes containing it, and every other value weighs the sum, over the outcomes where it is reachable from the evidence over allowed relations, of the outcome's share times its similarity to the evidence, all other values weighing 0. "
  "Relations of the evidence are counted once per conditional outcome and relations used by outward exploration once per outcome using them, grouped by the pair of variables; variables and relations of the evidence are marked as queried and no others are. "
  "Activation for empty evidence is refused.",
  ["inputs"], "every conditional network, evidence and relation filter",
  "tests check one network without filter",
  [CG, AG], [("weight accumulation", CG + ":activation_graph")])
p("R13", "Marginals and the folded view agree with the outcome counts",
  "The marginal of each variable that occurs gives each occurring value its count divided by the number of outcomes in which the variable occurs, or, when unobserved is asked for, by all outcomes with the remainder reported as unobserved; each marginal adds up to 1 and only the requested variables are reported (all when none are requested). "
  "The folded view lists for each occurring variable every occurring value with its count, the unobserved count and the distribution over all values of the variable including those never seen, and for each related pair of variables every relation with its count. "
  "The variables, values and relations a network reports as included are exactly the occurring ones.",
  ["inputs"], "every network, variable selection and unobserved setting",
  "tests compute the marginals of one network",
  [SP, FG, VG], [("marginal accumulation", SP + ":marginal_variables_probability"), ("folding", SP + ":folded_graph, " + FG + ":marginal_distribution")])
p("R14", "Factorisation splits outcomes in to disjoint factors or refuses",
  "A network counts as factorised exactly when it has no empty outcome and any two outcomes with relations relate either exactly the same pairs of variables or no common pair; splitting in to factors succeeds exactly then. "
  "The factors group the outcomes with relations by related pairs of variables and the single-value outcomes by variable, and together contain every outcome with its count exactly once. "
  "A network counts as joined exactly when all its outcomes have the same variables.",
  ["inputs"], "every network, whatever the order of its outcomes",
  "the answer depends on pairwise overlap of all outcomes; tests try three networks",
  [RG, SP], [("overlap test", RG + ":is_factorized / is_joined"), ("grouping", SP + ":factorized")])
p("R15", "Joining a factorised network gives the product of its factors",
  "For a factorised network whose factors are connected through shared variables and agree on the possible values (each outcome of a factor fits some outcome of all others), joining yields exactly the combinations of one outcome per factor that agree on all values, each combined in to one outcome whose count is the product of the counts. "
  "The result is a joined network, does not depend on the order in which outcomes, variables or values are visited, and joining it again changes nothing. "
  "Networks that are not factorised or fall apart in to unconnected factors are refused.",
  ["inputs", "configurations"], "every factor structure (chains, cycles, shared parents, priors), every count, every visiting order",
  "tests join two fixed structures in the one order of the run; failures need factors that overlap pairwise but not all at once",
  [RG, SS], [("variable-wise factor merging", RG + ":make_joined"), ("value agreement", SS + ":can_join_samples")])
p("R16", "Joining on variables and grouping lose or invent nothing",
  "Grouping the samples of a collection puts two samples together exactly when they are linked through a chain of samples that share a related pair of variables (single-value samples: the same variable), every sample with its count in exactly one group, named by the variables of the group; a collection with two different groups over the same variables is refused. "
  "Joining a network on a variable replaces the outcomes having it by all combinations of one per group that agree on all values, with counts multiplied, and leaves the other outcomes untouched; joining on several variables does so for one after the other, by default for all that occur. "
  "The source network is unchanged.",
  ["inputs"], "every collection of samples in every storage order, every set of join variables",
  "grouping is a fixpoint that merges dictionary keys in storage order; lost entries need three overlapping keys",
  [SS, RG], [("key merging fixpoint", SS + ":group_intersecting"), ("cross join", RG + ":joined_on_variables")])
p("R17", "Inference agrees with exact Bayesian and Markov inference",
  "For a network made of the tables of a Bayesian network or of the potentials of a Markov network with positive integer entries, joining gives the exact joint distribution, and conditioning on observed values one after the other and then taking marginals gives the exact posterior of every variable. "
  "It makes no difference whether a value is observed before or after joining, nor in which order values are observed.",
  ["inputs", "configurations"], "every network structure, table, evidence set and order of observation",
  "tests never compose conditioning, joining and marginals; the experiments do so for one Bayesian and one Markov network",
  [RG, SP, SS, CG], [("condition, join, marginalise", RG + ":conditional_graph / make_joined, " + SP + ":marginal_variables_probability")])
p("R18", "Components of different networks never mix",
  "A sample or collection made for one network is refused wherever another network, its builders or its collections would take it in - joining, adding one or many, union, outcomes, evidence - even when both vocabularies are identical, and a refused sample leaves the receiver unchanged. "
  "Everything derived from one network (built, copied, conditioned, joined, filtered, generated) stays compatible with it.",
  ["inputs", "histories"], "every receiving operation and every kind of foreign object",
  "tests check two of the receiving operations",
  [SG, SS, RG], [("provider identity check", SG + ":is_compatible, " + SS + ":add / union, " + RG + ":add_outcome / conditional_graph")])
p("R19", "Results do not depend on hash seeds or insertion order",
  "Building the same network from the same outcomes in any order of insertion, of vocabulary declaration and of internal iteration gives an equal network, and every answer derived from it - conditioning, activation, folding, marginals, factors, joins on a variable and of factors that agree on the possible values, generation, text reports - is the same.",
  ["schedules", "inputs"], "every insertion order and every iteration order of the underlying unordered collections",
  "a test run sees a single iteration order; results that depend on it pass or fail by the hash seed",
  [SG, SS, SP, RG, CG, FG], [("iteration over sets and dictionaries", SS + ":items, " + RG + ":make_joined / joined_on_variables")])
p("R20", "A network under construction holds exactly the accepted outcomes",
  "For every sequence of additions (single, several at once, built in place), renamings and failed additions, the network built holds each accepted outcome with the sum of its accepted counts, under the last name given or a default name that states the number of outcomes. "
  "Counts below one are refused and change nothing, building without outcomes is refused, as is creating a network without variables, values or relations. "
  "A builder obtained from a network starts with its outcomes and name, and issued identifiers never repeat.",
  ["histories"], "every sequence of builder operations",
  "tests run single calls",
  [RG, SP], [("outcome accumulation", RG + ":add_outcome / add_outcomes / build_sample / build")])
p("R21", "Text reports state exactly the content",
  "The text of a sample lists each relation with its endpoints (or the single value) exactly once in sorted order, so equal samples have the same text and, where names print unambiguously, samples that differ in values or relations have different texts; an unnamed sample is named by that text, a named one by its name. "
  "Listings of collections and networks contain one line per distinct outcome with its count in sorted order, and descriptions report the exact numbers and names of variables, relations, outcomes and the evidence. "
  "Folded and activation nodes and edges print each value or relation with its count or weight, queried ones marked; every edge, plain ones too, prints its ends in sorted order.",
  ["inputs"], "every sample, collection and network",
  "tests compare a few literal strings",
  [SG, SS, SP, RG, CG, FG, AG], [("text rendering", SG + ":text_view, " + SS + ":__repr__, " + SP + ":print_samples, " + RG + ":describe")])
p("R22", "Visualisations draw every node and edge exactly once",
  "For vocabularies whose names print unambiguously, the page drawn for a sample, a set of non-empty outcomes, a folded view or an activation view contains exactly one labelled node per value or variable, exactly one labelled edge per relation or related pair between the right nodes, and for outcomes additionally their names and counts and the evidence in red. "
  "Folded pages show unobserved variables in gray with full unobserved count, and activation pages show evidence in green and every other variable in a red as bright as its largest weight. "
  "The page file name is the name stripped of unsafe characters.",
  ["inputs"], "every sample, network and view",
  "tests only call the drawing functions",
  [SG, SP, FG, AG], [("pyvis network construction", SG + ":visualize, " + SP + ":visualize_outcomes, " + FG + ":visualize, " + AG + ":visualize")])
p("R23", "Vocabulary components are unique, validated and cannot be copied",
  "Requesting the value or relation component of a network twice gives the same object, requests outside of the vocabulary are refused, and components compare equal exactly when they stand for the same variable and value, the same endpoints and relation, or the same source, target and relation. "
  "Nodes and edges of folded, activation and plain views compare equal exactly when variables and counted or weighted content agree, views exactly when their nodes and edges do. "
  "The opposite endpoint of a relation is the other one for each endpoint and refused for any other value. "
  "Components, samples, networks and views refuse to be copied.",
  ["inputs", "histories"], "every request sequence over every vocabulary",
  "tests request two components",
  [GC, VG], [("component cache", GC + ":get_node / get_edge")])
EX, XP, PL = ("Python/research/scripts/examples/building_net_from_coin_toss.py", "Python/research/scripts/experiments/comparing_with_bayes_network.py",
              "Python/research/scripts/playaround/number_of_subgraphs.py")
XM, EC, EJ = (XP.replace("bayes", "markov"), EX.replace("from_coin_toss", "with_conditional_probability"),
              EX.replace("from_coin_toss", "with_joint_probability"))
p("R24", "The shipped examples and experiments build the networks they describe",
  "For every list of written coin results the network of the coin example holds for each result the outcome it describes - the one coin with its side, or both coins related by r1 when the first one is worth less and by r2 otherwise - counted as often as it was written, and refuses results of unknown coins or sides or of one coin twice; its description states every outcome with its count and share, and the two further examples describe and draw that network conditioned on heads of the first two coins (in that order), and joined. "
  "For every network of probability tables, whatever the names and the numbers of values, the Bayesian experiment builds one outcome per entry of every table, directed from each parent to the child, counted by its probability times the factor, refusing probabilities that do not give whole positive counts; for every set of factors the Markov experiment builds one outcome per entry, counted by its value. "
  "The catalogue of sub graphs draws, for any number of nodes, every single node and every non-empty choice of pairs, each in one of two directions, exactly once, with exactly its nodes and relations.",
  ["inputs"], "every list of results, every structure of tables and factors, every number of nodes",
  "no test runs the scripts, and running them shows one hard-wired network each",
  [EX, EC, EJ, XP, XM, PL], [("coin results", EX + ":build_outcome / build_relation_net"), ("tables", XP + ":make_relation_graph"),
                             ("factors", XM + ":make_relation_graph"), ("catalogue of sub graphs", PL + ":make_all_sub_graphs")])
XO = XP.replace("comparing_with_bayes_network", "outcomes_space_power")
XV = XP.replace("comparing_with_bayes_network", "random_variables_distribution_for_all_outcomes")
p("R25", "The comparing experiments confirm what is right and notice what is wrong",
  "Given a library that infers exactly, the Bayesian and the Markov experiment confirm the joint distribution and the inference for every network of tables or factors, and fail as soon as one number of an answer of the library or one count of the network is off. "
  "The experiment on separation succeeds exactly when for the tables at hand D does not depend on I, does once G or L is known, and S depends on I. "
  "The formula for the number of outcomes is right for every space of up to 4 variables, values and relations, and a generated number which differs from it, or a value that occurs once more than the others of its variable, does not go unnoticed.",
  ["inputs", "fault_sequences"], "every network of tables or factors of the experiments, every single number that is off",
  "no test runs the experiments, which need a library that may be missing, and running them shows one network, with everything right",
  [XP, XM, XO, XV], [("comparing", XP + ":comparing_joint_probability / comparing_inference / comparing_d_separation"),
                     ("comparing factors", XM + ":comparing_variable_joint_probability / comparing_inference / relation_graph_separation"),
                     ("number of outcomes", XO + ":outcomes_space_power"), ("equal shares", XV + ":random_variables_distribution_for_all_outcomes")])
p("D01", "Every game move follows the rules of the game",
  "From every reachable position the legal moves are exactly those not blocked by walls, an agent between two cells may only go on straight, and ghosts may not stop and reverse only in dead ends; each legal move leads to exactly the position, food, capsules, scare timers, score and win or loss the rules prescribe, and any other move is refused. "
  "Eating all food wins (+500, and cannot turn in to a loss), every non-scared ghost within 0.7 cells of Pacman after his move, or after its own, loses the game (-500), a scared one is sent home no longer scared (+200), food gives +10, each Pacman move costs 1, and a capsule scares all ghosts for 40 of their moves at half speed, after which they are back on whole cells. "
  "Nothing moves in a finished game.",
  ["histories", "configurations"], "every sequence of moves of Pacman and ghosts on every board",
  "the demo has no tests at all, and its rules interact over long move sequences",
  [PM, GM], [("successor computation", PM + ":GameState.generateSuccessor"), ("ghost and pacman rules", PM + ":PacmanRules / GhostRules"), ("movement", GM + ":Actions / Configuration")])
p("D02", "Exploring successors never disturbs a game state",
  "Computing successors, querying, copying or displaying a game state leaves that state and all states already obtained exactly as they were, and computing the same successor again gives an equal state. "
  "A deep copy equals its original, including whether the game is won or lost, and stays unaffected by changes to it. "
  "Equal states have equal hashes, and states that differ in agents, food, capsules or score are unequal. "
  "The record of explored states holds every state of which successors were computed and these successors until it is read, which empties it.",
  ["histories"], "every tree of successors, copies and queries from a position",
  "sharing of board data between states is only visible after particular later moves",
  [PM, GM], [("copy on write of state data", GM + ":GameStateData.__init__ / deepCopy"), ("food grid sharing", PM + ":PacmanRules.consume")])
p("D03", "The game loop takes turns, ends when it must and contains failing agents",
  "Agents move strictly in turn starting with the configured one, each seeing a copy of the current state, the recorded history is the sequence of executed moves, and the loop ends with the move that wins or loses. "
  "With exception handling on, an agent that is missing, or fails at any point - start, observation, action, final - or exceeds its time limit while starting, observing or acting (startup limit, limit per move, too many slow moves, total time) ends the game as crashed (and as timed out where it was time) without executing its move, with output streams restored and no alarm left pending. All of this holds as well for a game which an agent plays on its own inside of a callback, and for the game around it. "
  "Agents are told the final state of a finished game, the output of muted agents is kept apart per agent, and the display is updated after every move.",
  ["fault_sequences", "schedules"], "every point of failure and every kind of failure of every agent",
  "no test runs the game; each failure point has its own handling path",
  [GM, PM, UT], [("control loop", GM + ":Game.run"), ("rules callbacks", PM + ":ClassicGameRules"), ("timeouts", UT + ":TimeoutFunction")])
p("D04", "Agents only choose legal moves, with the promised distribution",
  "The random ghost gives every legal move the same probability; the directional ghost spreads its attack (or, scared, flee) probability evenly over the moves that bring it nearest to (farthest from) Pacman and the rest evenly over all legal moves; both always move legally and the probabilities add up to 1. "
  "The keyboard agent obeys a pressed direction that is legal, otherwise goes on in its last direction while legal, stops on the stop key when stopping is legal, and always returns a legal move.",
  ["inputs", "histories"], "every reachable position, key combination and random choice",
  "agents are untested, and a bad choice needs a particular position and key history",
  [GA, KA, UT], [("distributions", GA + ":getDistribution"), ("key handling", KA + ":getAction / getMove")])
p("D05", "Boards are read and stored faithfully",
  "A layout text gives exactly the walls, food, capsules, ghosts and Pacman it draws, at coordinates counted from the lower left corner, Pacman first and ghosts by number and position, and a copied layout is equal and independent; a layout named by file is looked up in the layouts folder and then the working directory, if needed up to a few levels up, which leaves the working directory as it was. "
  "A grid returns what was stored in each cell, counts and lists its cells exactly, survives packing in to integers and back, equals another grid exactly when size and cells agree (equal ones hash alike), and its copy is independent. "
  "The text of a state shows each cell as drawn.",
  ["inputs"], "every board and grid size, also beyond one packed word",
  "no tests; packing is word-wise and errors need boards larger than a word or not square",
  [LO, GM], [("layout parsing", LO + ":processLayoutText"), ("grid packing", GM + ":Grid.packBits / reconstituteGrid")])
p("D06", "Stack, queue and priority queue keep their discipline",
  "For every sequence of operations the stack returns items last in first out, the queue first in first out, and the priority queue the item of lowest priority, first pushed first among equals; each is empty exactly when all pushed items were popped. "
  "Updating an item lowers its priority if the new one is lower (it keeps its place in the order of pushing), does nothing if it is not, and inserts the item if absent.",
  ["histories"], "every sequence of operations with every priority pattern",
  "no tests; heap errors need particular update and pop sequences",
  [UT], [("containers", UT + ":Stack / Queue / PriorityQueue")])
p("D07", "Counters and sampling follow their distributions",
  "A counter treats absent keys as 0; sums, differences and products, scaling, total, normalisation, largest key and ordering by value are those of the numbers stored, operands unchanged. "
  "Drawing from a distribution, given as counter, list with values, or list of pairs, returns for each random number exactly the value in whose share of the total it falls; for counters and lists with values also when the shares do not add up to 1. "
  "All sources of fixed random numbers give the same numbers, whatever is drawn elsewhere.",
  ["inputs", "histories"], "every small counter and distribution and every random number on a grid that separates all shares",
  "no tests; random draws are not reproducible by sampling",
  [UT], [("counter arithmetic", UT + ":Counter"), ("inverse cdf", UT + ":sample / nSample / chooseFromDistribution")])
p("D08", "The game window shows the position of the game",
  "After the start of a game and after every move, the window shows exactly the walls, the food and capsules that are left, Pacman and each ghost as of its own last move, and the score: each thing around the cell it is on (row 0 at the bottom), Pacman with his mouth and ghosts with their eyes in the direction they go, each ghost in its own colour (the first five have different ones) or, while scared, in the common scared colour; whatever moves led there, the picture is that of the position. "
  "With a frame time, Pacman glides from his old to his new place within that time; a negative frame time makes each move of his wait for a key, until q is pressed. "
  "Expanded cells replace those shown before, lie below everything else and fade in their order; belief distributions light each cell by the weights that cell has, and are left as they were. "
  "Distances of the ghosts that come with a state are shown in their order beside the score until others come. "
  "A display can be used for one game after another, on the same layout or not, and closes its window at the end.",
  ["histories", "inputs"], "every history of moves on every board",
  "no tests; the picture is edited piece by piece, so an error shows only after particular moves",
  [GD, GU], [("drawing and moving of agents", GD + ":PacmanGraphics.update / drawAgentObjects"), ("walls and food", GD + ":drawStaticObjects / removeFood"), ("overlays", GD + ":drawExpandedCells / updateDistributions"), ("canvas primitives", GU + ":move_to / move_by / circle / polygon")])
p("D09", "Keys and clicks in the window reach the program",
  "For every history of key presses, releases, focus changes and questions, keys_pressed() handles a pending event, reports exactly the keys that are held according to the events handled so far, and never shows a key as released in between a release and the press of the same key that directly follows it (auto-repeat); keys_waiting() reports exactly the keys pressed since it was last asked. A change of focus and a new window forget all keys. "
  "wait_for_keys() returns keys held together at some moment of the call, as soon as there are any and not before; wait_for_click() returns each click once with its place and button (left, right for the second and third button, ctrl_left), the latest of each button, and waits while there is none; sleep takes the time asked for and lets events in. Closing the window ends the program. "
  "So in a game played in the window, a keyboard agent goes in a legal direction pressed since its last move or held, and the game ends, reports its score and closes the window.",
  ["histories", "schedules"], "every order of events and questions",
  "no tests; needs a window, and particular interleavings of events and questions",
  [GU, KA], [("event handlers", GU + ":_keypress / _keyrelease / _clear_keys"), ("questions", GU + ":keys_pressed / keys_waiting / wait_for_keys / wait_for_click"), ("keyboard agent", KA + ":getAction")])
p("D10", "A command line yields the games it describes",
  "Reading a command gives exactly the layout named, an agent of the type named for Pacman with the arguments given for it (name=value, or 1 for a name alone), as many ghosts of the type named as asked for, numbered from 1, the display asked for with its zoom and frame time, and the number of games, training games, recording, exception handling and time limit asked for, each at its documented default when not given, in whatever combination; anything else - surplus words, unknown options, layouts or agents, malformed numbers or arguments (two equals signs), a keyboard agent without a window - is refused. "
  "Running the games plays that many, each from the start with the same agents (no more ghosts than the layout has), the training games first, not shown, announced, counted or returned; the others are returned in order with a report of average score, scores, wins and losses; with recording every game's layout and moves are stored in a file of its own. "
  "With a fixed seed the same command plays the same games. The demo program plays one unrecorded game of the board mediumClassic in the window, with a keyboard Pacman against two random ghosts.",
  ["inputs", "histories"], "every combination of options and every pattern of won and lost games",
  "no tests; options and kinds of games interact in combinations nobody tries",
  [PM, LO, "Python/research/scripts/demo/demo.py"], [("options", PM + ":readCommand / parseAgentArgs / loadAgent"), ("sessions", PM + ":runGames / ClassicGameRules.newGame")])

p("D11", "Directions, steps, places and agent records are consistent",
  "Turning left, right and round are consistent with one another; a direction made in to a step of any speed and back is the same direction, and a step made on a place leads exactly that far in that direction, facing that way (a step of no length keeps the way faced). "
  "The free neighbours of a place are exactly the cells on the board, not walls, that staying or one step leads to, and the possible moves those that lead to such cells, or going straight on between two cells. "
  "Configurations are equal exactly when place and direction agree, agent records when configuration and scare timer do, equal ones hash alike, and the copy of a record is equal and independent. "
  "A random place is always a free cell and every free cell is equally likely, a random corner likewise; the farthest corner is a corner with the largest distance by rows and columns.",
  ["inputs"], "every direction, place, board and draw of random numbers",
  "no tests; errors need particular places, border cells or random numbers",
  [GM, LO], [("directions and steps", GM + ":Actions / Directions"), ("places and records", GM + ":Configuration / AgentState"), ("random places", LO + ":Layout.getRandomLegalPosition / getFurthestCorner")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))

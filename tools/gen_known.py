"""Writes known_findings.json ("fixed" entries suppress nothing)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ("R15", "a1e9a8f", "make_joined fails when factors share only some of their variables (e.g. any Bayesian network with a two-parent node) or when their joint is empty"),
 ("R16", "8979688", "group_intersecting splits the name of a single-value sample's variable ('ab' became a, b) and raises TypeError for an int variable"),
 ("R16", "366718f", "group_intersecting drops samples when the key of a merged group equals an existing key"),
 ("R02", "d2e56aa", "make_joined_sample refuses joinable samples in some storage orders"),
 ("R02", "eeabba0", "a refused join_sample leaves part of the sample in the builder"),
 ("R01", "1d19f48", "build_from_edges accepts two relations in between the same endpoints, and edits the builder before validating"),
 ("R05", "f1de38e", "similarity of two empty samples raises ZeroDivisionError"),
 ("D03", "b9b072c", "alarm stays armed after a timed function raises"),
 ("D02", "79a51fa", "deep copy of a won or lost game state is not terminal"),
 ("D02", "a8fe868", "a ghost move edits the eaten flags of the state it started from"),
 ("D06", "04b8a95", "PriorityQueueWithFunction.update of an absent item raises TypeError"),
 ("D07", "89cae44", "Counter.argMax, sortedKeys and __radd__ fail on Python 3"),
 ("R22", "f45c717", "visualize_outcomes draws values of different outcomes as one node when value names end in digits (11 or more outcomes)"),
 ("R21", "4718506", "printing a folded or activation edge between variables of different types raises TypeError"),
 ("D09", "d0ee425", "wait_for_keys returns without a key after 0.05 s, so the display's step mode does not wait"),
 ("D08", "4558ec1", "updateDistributions shows the beliefs about the first cell only"),
 ("D08", "8cccfda", "a display used for a second game deletes parts of its picture when cells are shown"),
 ("R01", "adc9ca8", "build_from_edges raises RecursionError for a chain or ring of 1000 values"),
 ("R02", "5af3fab", "join_sample raises RecursionError for a chain of 4000 values, leaving it partly joined"),
 ("R06", "26a87db", "external_nodes raises RecursionError on a chain of 1000 relations"),
 ("R08", "359e5ef", "join_sample_set raises RecursionError for 1000 collections"),
 ("R16", "718e93b", "group_intersecting raises RecursionError when 1000 groups have to be merged"),
 ("R15", "7ee1852", "make_joined and joined_on_variables raise RecursionError for 1000 outcomes with one value, factors with one variable or groups"),
 ("R04", "a70310b", "variables of a network change when the dictionary they were passed in is edited"),
 ("R14", "63f87e8", "factorized puts single values of a variable named by a set of two variables together with relations in between those"),
 ("D08", "7b0c9e1", "the window raises IndexError for more than five ghosts, and beliefs about further ghosts are not shown"),
 ("D07", "0b042a7", "sample, nSample and chooseFromDistribution raise for random numbers next to 1 and give a value without a share for 0"),
 ("R08", "463e78f", "remove_all with an absent sample is refused but has removed some of the others"),
 ("D03", "6125205", "a muted game played inside of a callback of another one leaves the output streams redirected"),
 ("D03", "676029e", "a timed call inside of a callback lifts the time limit of that callback"),
 ("R24", "89f3112", "the Bayesian experiment takes the value of another variable when the name of one is part of the name of the other"),
 ("R24", "f66de02", "the Bayesian experiment refuses probabilities like 0.29 or 0.57, whose product with the factor 100 is whole but for rounding"),
 ("R25", "10fee35", "the comparison of joint distributions misreads values from 10 on, and names of several letters, and fails for right networks"),
 ("R24", "835b182", "make_all_sub_graphs raises IndexError for a single node"),
]
KNOWN = []
out = {"findings": KNOWN + [{"property": p, "status": "fixed", "entry": f"fixed: property={p} {c} {w}"} for p, c, w in FIXED]}
json.dump(out, open(os.path.join(ROOT, "known_findings.json"), "w"), indent=1)

"""The experiments that compare: with a library that is right, and wrong in every single number."""
import contextlib
import importlib
import itertools
import math
import runpy
from fractions import Fraction

from .. import pgm
from ..core import attempt, equal, require
from .r24_scripts import quiet, script

ID = "R25"
ASSUMPTIONS = ["pgmpy is not installed: a stand-in that infers exactly takes its place (the two scripts that only use pgmpy are not run)",
               "the scripts compare floats no closer than 1e-9, marginals no closer than 12 digits"]


def bounds(tier):
    return ("324 networks of tables with and without a relation in between D and I, 256 networks of factors; "
            + ("for 6 networks of tables" if tier == "thorough" else "for 2 networks of tables") +
            " every number of every answer of the library and every entry of the tables made wrong, for all 256 every factor value; each variable of the tables with up to 1"
            + ("3" if tier == "thorough" else "2") + " values; "
            "the 64 outcome spaces with each number one more and one less, the 27 networks of the experiment on distributions with one more outcome")


def cases(tier):
    picks = [[0] * 5, [2] * 5] + ([[1, 0, 1, 0, 1], [2, 1, 3, 0, 2], [0, 2, 2, 1, 0], [1] * 5] if tier == "thorough" else [])
    out = [["student", k, 24] for k in range(24)] + [["ring", k, 16] for k in range(16)]
    out += [["wrong_answer", p, k, 8] for p in picks for k in range(8)]
    out += [["values", v, c] for v in "DIGSL" for c in ((2, 3, 4, 9, 10, 11, 12, 13) if tier == "thorough" else (4, 10, 12))]
    return out + [["power"]] + [["distribution", k, 4] for k in range(4)]


def run_case(case, st):
    globals()["case_" + case[0]](st, *case[1:])


@contextlib.contextmanager
def rounded_marginals():
    graph = importlib.import_module("scripts.relnet.relation_graph").RelationGraph
    own = "marginal_variables_probability" in vars(graph)
    saved = graph.marginal_variables_probability

    def rounded(self, *a, **k):
        return {v: {x: round(p, 12) for x, p in d.items()} for v, d in saved(self, *a, **k).items()}
    graph.marginal_variables_probability = rounded
    try:
        yield
    finally:
        if own:
            graph.marginal_variables_probability = saved
        else:
            del graph.marginal_variables_probability


# ---------------------------------------------------------------- tables and factors

STUDENT = {
    "D": [[60, 40], [50, 50], [25, 75]],
    "I": [[70, 30], [50, 50], [12, 88]],
    "G": [[[30, 5, 90, 50], [40, 25, 8, 30], [30, 70, 2, 20]], [[20, 20, 70, 70], [30, 30, 25, 25], [50, 50, 5, 5]],
          [[10, 60, 35, 1], [50, 20, 45, 9], [40, 20, 20, 90]], [[20, 20, 60, 60], [30, 50, 10, 25], [50, 30, 30, 15]]],
    "S": [[[95, 20], [5, 80]], [[40, 40], [60, 60]], [[10, 70], [90, 30]]],
    "L": [[[10, 40, 99], [90, 60, 1]], [[50, 50, 50], [50, 50, 50]], [[80, 30, 2], [20, 70, 98]]]}
PARENTS = {"D": None, "I": None, "G": ["I", "D"], "S": ["I"], "L": ["G"]}
POTENTIALS = [[30, 5, 1, 10], [100, 1, 1, 100], [1, 100, 100, 1], [2, 3, 5, 7]]
RING = [["A", "B"], ["B", "C"], ["C", "D"], ["D", "A"]]


def student(pick):
    config = {}
    for v, i in zip("DIGSL", pick):
        rows = [r if isinstance(r, list) else [r] for r in STUDENT[v][i]]
        require(all(x / 100 * 100 == x for r in rows for x in r), "table of the check")
        ps = PARENTS[v]
        config[v] = (len(rows), [[x / 100 for x in r] for r in rows], ps, [3 if p == "G" else 2 for p in ps] if ps else None)
    return config


def posterior(config):
    net = pgm.Network()
    net.add_cpds(*[pgm.TabularCPD(v, c, t, ps, cs) for v, (c, t, ps, cs) in config.items()])
    return lambda v, **evidence: list(pgm.VariableElimination(net).query([v], evidence).table.values())


def separated(config):
    """Does what the experiment says about separation hold for these tables?"""
    of = posterior(config)
    return of("D") == of("D", I=0) and of("S") != of("S", I=0) and of("D", G=0) != of("D", G=0, I=0) and of("D", L=0) != of("D", L=0, I=0)


def has(mod, *names):
    return all(hasattr(mod, n) for n in names)


def refused(what, f, st):
    st.step()
    ok, _ = attempt(f)
    require(not ok, lambda: f"{what} goes unnoticed")


def bayes_mod():
    mod = script("experiments.comparing_with_bayes_network")
    return mod if has(mod, "net_config", "prop_factor", "make_bayes_network", "comparing_joint_probability",
                      "comparing_inference", "comparing_d_separation") else None


@contextlib.contextmanager
def tables(mod, config):
    saved = mod.net_config, mod.prop_factor
    mod.net_config, mod.prop_factor = config, 100
    try:
        with rounded_marginals(), quiet():
            yield
    finally:
        mod.net_config, mod.prop_factor = saved


def case_student(st, k, n):
    mod = bayes_mod()
    if not mod:
        return
    for i, pick in enumerate(itertools.product(*[range(len(STUDENT[v])) for v in "DIGSL"])):
        if i % n != k:
            continue
        st.step()
        config = student(pick)
        with tables(mod, config):
            bayes, graph = mod.make_bayes_network(), mod.make_relation_graph()
            for f in (mod.comparing_joint_probability, mod.comparing_inference):
                ok, res = attempt(lambda: f(bayes, graph))
                require(ok, lambda: f"{f.__name__} fails for tables {config}: {res}")
            ok, res = attempt(lambda: mod.comparing_d_separation(graph))
        equal(ok, separated(config), f"comparing_d_separation accepts the tables {config}")
        for rows in ([[.5, .5], [.5, .5]], [[.7, .25], [.3, .75]], [[.01, .99], [.99, .01]]):
            linked = dict(config, I=(2, rows, ["D"], [2]))        # with a relation in between D and I
            with tables(mod, linked):
                graph = mod.make_relation_graph()
                ok, res = attempt(lambda: mod.comparing_d_separation(graph))
            equal(ok, separated(linked), f"comparing_d_separation accepts the tables {linked}")
        st.state(pick)
        st.trace()


def case_values(st, v, card):
    """More values of one variable than the others have: all is confirmed, and one entry off is noticed."""
    mod = bayes_mod()
    if not mod:
        return

    def column(n, j):
        w = [1 + (3 * i + j * j) % 4 for i in range(n)]
        return w[:-1] + [100 - sum(w[:-1])]
    config = student([0] * 5)
    for x, (c, rows, ps, cs) in list(config.items()):
        c = card if x == v else c
        cs = [card if p == v else k for p, k in zip(ps, cs)] if ps else None
        if x == v or ps and v in ps:
            columns = [column(c, j) for j in range(math.prod(cs or [1]))]
            config[x] = (c, [[col[i] / 100 for col in columns] for i in range(c)], ps, cs)
    with tables(mod, config):
        bayes, graph = mod.make_bayes_network(), mod.make_relation_graph()
        for f in (mod.comparing_joint_probability, mod.comparing_inference):
            ok, res = attempt(lambda: f(bayes, graph))
            require(ok, lambda: f"{f.__name__} fails for tables {config}: {res}")
    for i in range(card):
        other = dict(config)
        rows = [list(r) for r in config[v][1]]
        rows[i][-1] += 0.01
        other[v] = (card, rows, *config[v][2:])
        with tables(mod, other):
            graph = mod.make_relation_graph()
        with tables(mod, config):
            refused(f"last entry of value {i} of {v} one more", lambda: mod.comparing_joint_probability(bayes, graph), st)
    st.state((v, card))
    st.trace()


def case_wrong_answer(st, pick, k, n):
    """Every number of every answer of the library wrong; every count of the network wrong."""
    mod = bayes_mod()
    if not mod:
        return
    config, sizes = student(pick), []
    with tables(mod, config):
        bayes, graph = mod.make_bayes_network(), mod.make_relation_graph()

        def compare():
            mod.comparing_joint_probability(bayes, graph)
            mod.comparing_inference(bayes, graph)
        try:
            pgm.WRONG.update(answer=lambda i, f: sizes.append(list(f.table)), asked=0)
            compare()
            for i, keys in enumerate(sizes):
                for j, key in enumerate(keys):
                    if j % n != k:
                        continue
                    for by in (Fraction(1001, 1000), Fraction(999, 1000)):
                        def change(at, f):
                            if at == i:
                                f.table[key] *= by
                        pgm.WRONG.update(answer=change, asked=0)
                        refused(f"answer {i} with {key} changed by {by}", compare, st)
        finally:
            pgm.WRONG.update(answer=None, asked=0)
    for v, (card, rows, ps, cs) in config.items():
        for r, c in itertools.product(range(card), range(len(rows[0]))):
            if (r + c) % n != k:
                continue
            for p in (1, 11, 57, 100):
                if rows[r][c] == p / 100 or p / 100 * 100 != p:
                    continue
                other = {x: (t[0], [list(row) for row in t[1]], t[2], t[3]) for x, t in config.items()}
                other[v][1][r][c] = p / 100
                with tables(mod, config):
                    bayes = mod.make_bayes_network()
                with tables(mod, other):
                    graph = mod.make_relation_graph()
                a, b = posterior(config), posterior(other)
                same = all(a(x, **e) == b(x, **e) for e in ({"I": 0}, {"I": 0, "G": 0}) for x in "DIGSL" if x not in e)
                with tables(mod, config):
                    refused(f"entry {r, c} of {v} made {p}", lambda: mod.comparing_joint_probability(bayes, graph), st)
                    ok, res = attempt(lambda: mod.comparing_inference(bayes, graph))
                equal(ok, same, f"comparing_inference accepts {p} at {r, c} of {v} in {pick}")
    st.state((tuple(pick), k))
    st.trace()


def case_ring(st, k, n):
    mod = script("experiments.comparing_with_markov_network")
    if not has(mod, "edges", "make_markov_network", "comparing_variable_joint_probability", "comparing_inference",
               "markov_separation", "relation_graph_separation"):
        return
    saved = mod.edges
    try:
        with rounded_marginals(), quiet():
            for i, pick in enumerate(itertools.product(POTENTIALS, repeat=4)):
                if i % n != k:
                    continue
                st.step()
                mod.edges = [(list(e), list(p)) for e, p in zip(RING, pick)]
                markov, graph = mod.make_markov_network(), mod.make_relation_graph()
                for f, args in ((mod.comparing_variable_joint_probability, (markov, graph)), (mod.comparing_inference, (markov, graph)),
                                (mod.markov_separation, (markov,)), (mod.relation_graph_separation, (graph,))):
                    ok, res = attempt(lambda: f(*args))
                    require(ok, lambda: f"{f.__name__} fails for {pick}: {res}")
                st.state(i)
                for e, j in itertools.product(range(4), repeat=2):
                    mod.edges = [(list(x), [v + 1 if (y, z) == (e, j) else v for z, v in enumerate(p)]) for y, (x, p) in enumerate(zip(RING, pick))]
                    markov2, graph2 = mod.make_markov_network(), mod.make_relation_graph()
                    seen = not (e == 0 and j >= 2 or e == 3 and j % 2)      # what A = 0 leaves
                    for m, g in ((markov2, graph), (markov, graph2)):
                        refused(f"value {j} of factor {e} of {pick} made one more", lambda: mod.comparing_variable_joint_probability(m, g), st)
                        ok, res = attempt(lambda: mod.comparing_inference(m, g))
                        equal(ok, not seen, f"comparing_inference accepts one more at value {j} of factor {e} of {pick}")
                st.trace()
    finally:
        mod.edges = saved


# ---------------------------------------------------------------- outcome spaces

def connected_graphs(n, kinds):
    """Number of ways to relate all of n nodes, each pair in one of so many kinds or not: by looking at every graph."""
    pairs = list(itertools.combinations(range(n), 2))
    total = 0
    for pick in itertools.product((0, 1), repeat=len(pairs)):
        reach = {0}
        for _ in range(n):
            reach |= {y for p, x in zip(pairs, pick) if x and reach & set(p) for y in p}
        if len(reach) == n:
            total += kinds ** sum(pick)
    return total


def case_power(st):
    """The formula for the number of outcomes, against right and wrong numbers of generated outcomes."""
    relation_graph = importlib.import_module("scripts.relnet.relation_graph")
    connected = {(n, r): connected_graphs(n, r) for n in range(1, 5) for r in range(1, 5)}
    asked, more, outside = [], [None, 0], []

    class Space:
        def __init__(self, variables, relations, *a, **k):
            sizes = [len(x) for x in variables.values()]
            n = 0
            for size in range(1, len(sizes) + 1):
                for vs in itertools.combinations(sizes, size):
                    n += math.prod(vs) * connected.get((size, len(set(relations))), -10 ** 9)
            if more[0] == len(asked):
                n += more[1]
            asked.append((tuple(sizes), len(set(relations))))
            self.length = n
            self.outcomes = self

        def generate_all_possible_outcomes(self):
            return self

        build = generate_all_possible_outcomes

        def __len__(self):
            return self.length

        def __getattr__(self, name):
            outside.append(name)
            raise AttributeError(name)

    def run():
        del asked[:]
        with quiet():
            runpy.run_module("scripts.experiments.outcomes_space_power", run_name="__main__")
    saved = relation_graph.RelationGraphBuilder
    relation_graph.RelationGraphBuilder = Space
    try:
        ok, res = attempt(run)
        if outside:                                   # asks for something this stand-in has not
            return
        require(ok, lambda: f"the formula differs from the number of outcomes of {asked[-1:]}: {res}")
        spaces = list(asked)
        require(len(set(spaces)) >= 64, f"only {len(set(spaces))} spaces are counted")
        for i, s in enumerate(spaces):
            for d in (1, -1):
                more[:] = [i, d]
                refused(f"number of outcomes of {s} changed by {d}", run, st)
            st.state(s)
    finally:
        relation_graph.RelationGraphBuilder = saved
    st.trace()


def case_distribution(st, k, n):
    """All values of a variable are as likely in the whole space, and no longer so with one outcome more."""
    cls = importlib.import_module("scripts.relnet.relation_graph").RelationGraphBuilder
    saved, spaces, more = cls.generate_all_possible_outcomes, [], [None]

    def generate(self, *a, **kw):
        res = saved(self, *a, **kw)
        vs = {v: sorted(map(str, xs)) for v, xs in self.build().variables}
        spaces.append(max(len(xs) for xs in vs.values()) > 1)
        if more[0] == len(spaces) - 1:
            v = max(sorted(vs), key=lambda x: len(vs[x]))
            self.add_outcome(self.sample_builder().build_single_node(v, vs[v][-1]), 1)
        return res

    def run():
        del spaces[:]
        with quiet():
            runpy.run_module("scripts.experiments.random_variables_distribution_for_all_outcomes", run_name="__main__")
    cls.generate_all_possible_outcomes = generate
    try:
        ok, res = attempt(run)
        require(ok, lambda: f"the experiment on distributions fails: {res}")
        for i, several in list(enumerate(spaces)):
            if several and i % n == k:
                more[0] = i
                refused(f"one more outcome in space {i}", run, st)
                st.state(i)
    finally:
        cls.generate_all_possible_outcomes = saved
    st.trace()

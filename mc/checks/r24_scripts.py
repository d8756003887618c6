"""The shipped examples and experiments: every network they can be asked for, compared with what it should be."""
import contextlib
import importlib
import io
import itertools
import math
import re
import runpy
from collections import Counter

from .. import model as M
from .. import pgm
from ..core import attempt, equal, require
from ..impl import recorded_pages, set_view

ID = "R24"
ASSUMPTIONS = ["pgmpy, which the scripts compare with, is not installed: a stand-in that infers exactly takes its place (the two scripts that "
               "only use pgmpy are not run)"]
SIDES = {"1¢": ("V1", {"H": "h1", "T": "t1"}), "5¢": ("V2", {"H": "h2", "T": "t2"}), "25¢": ("V3", {"H": "h3", "T": "t3"})}
FACE = {"1¢": 1, "5¢": 5, "25¢": 25}
SINGLES = [f"{c} {s}" for c in SIDES for s in "HT"]
PAIRS = [f"{a} then {b}" for a, b in itertools.permutations(SINGLES, 2) if a.split()[0] != b.split()[0]]
RESULTS = SINGLES + PAIRS
FEW = ["1¢ H", "5¢ T", "25¢ H", "25¢ T", "1¢ H then 5¢ H", "5¢ H then 1¢ H", "5¢ T then 25¢ H", "25¢ H then 5¢ T", "1¢ T then 25¢ T"]
EVIDENCE = M.from_edges([(frozenset({("V1", "h1"), ("V2", "h2")}), "r1")])


def bounds(tier):
    return ("coin results: every list of up to 2 of the 30 results of up to two coins, every list of up to "
            + ("5 (and of 3 of all)" if tier == "thorough" else "4") + " of 9 of them, every single result repeated up to 12 times, refusal of results with an unknown coin or side or of one coin "
            "with itself; the example with a conditional network on all of these and with a joined network on those which are consistent; "
            "network tables: 3 variables with every ordered choice of parents and 1 to 3 values each, 4 variables with one to three parents in every "
            "order, distinct entries; 6 sets of 4 names that are parts of each other in every role, up to 12 values; every share of 7, 10, 64, 100 and 1000 and what lies in between; every set of up to 3 factors on 2 to 4 nodes in both directions; sub graphs of up to 4 nodes")


def cases(tier):
    deep = tier == "thorough"
    out = [["coins", k, 16] for k in range(16)]
    out += [["few", n, k, 8] for n in ((3, 4, 5) if deep else (3, 4)) for k in range(8)]
    out += [["three", k, 30] for k in range(30)] if deep else []
    out += [["repeated"], ["odd"], ["shipped"]]
    out += [["bayes", k, 16] for k in range(16)] + [["family", n] for n in (1, 2, 3)] + [["refused"]] + [["names", k] for k in range(len(NAMES))] + [["amounts", n] for n in (10, 100, 1000, 7, 64)] + [["markov", n] for n in (2, 3, 4)]
    out += [["subgraphs", n] for n in range(0, 5)]
    return out


def script(name):
    pgm.install()
    with loose_floats():
        return importlib.import_module("scripts." + name)


@contextlib.contextmanager
def loose_floats():
    """Scripts compare floats more closely than the order of adding them up allows for."""
    saved = math.isclose
    math.isclose = lambda a, b, *, rel_tol=1e-9, abs_tol=0.0: saved(a, b, rel_tol=max(rel_tol, 1e-9), abs_tol=abs_tol)
    try:
        yield
    finally:
        math.isclose = saved


@contextlib.contextmanager
def quiet():
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        yield out


def run_case(case, st):
    globals()["case_" + case[0]](st, *case[1:])


# ---------------------------------------------------------------- coins

def outcome(t):
    ends = [(SIDES[c][0], SIDES[c][1][s]) for c, s in (p.split() for p in t.split(" then "))]
    if len(ends) == 1:
        return M.single(*ends[0])
    a, b = (FACE[p.split()[0]] for p in t.split(" then "))
    return M.from_edges([(frozenset(ends), "r1" if a < b else "r2")])


def described(text):
    """What describe_relation_net printed: {(name, count, share)}."""
    lines = [x for x in text.splitlines() if x.strip()]
    require(lines and lines[0].strip() == "Outcomes:", f"description starts with {lines[:1]}")
    out = Counter()
    for line in lines[1:]:
        f = re.fullmatch(r"\s*ω = (.*), c = (\d+), P\(ω\) = (\S+)", line)
        require(f is not None, f"description holds {line!r}")
        out[(f[1], int(f[2]), round(float(f[3]), 9))] += 1
    return out


def description(model):
    total = sum(model.values())
    return Counter((M.text(m), c, round(c / total, 9)) for m, c in model.items())


def drawn(pages):
    """Labels of what was drawn: values and relations."""
    equal(len(pages), 1, "number of pages shown")
    _, nodes, edges = pages[0]
    label = {n["id"]: str(n["label"]).split("@")[0] for n in nodes}
    return (Counter(n for n in label.values() if re.fullmatch(r"V\d_[ht]\d", n)),
            Counter((frozenset((label[e["from"]], label[e["to"]])), str(e.get("label"))) for e in edges
                    if label[e["from"]][:1] == "V" and label[e["to"]][:1] == "V"))


def drawing(model):
    return (Counter(f"{v}_{x}" for m in model for v, x in m[0]),
            Counter((frozenset(f"{v}_{x}" for v, x in e), r) for m in model for e, r in m[1]))


def one_list(st, ts, scripts=True):
    st.step()
    coins = script("examples.building_net_from_coin_toss")
    model = dict(Counter(outcome(t) for t in ts))
    with quiet() as out:
        net = coins.build_relation_net(list(ts))
        equal(set_view(net.outcomes), model, f"network of {ts}")
        coins.describe_relation_net(net)
    equal(described(out.getvalue()), description(model), f"description of the network of {ts}")
    equal({v: set(xs) for v, xs in net.variables}, {v: set(xs.values()) for v, xs in SIDES.values()}, "variables of the network")
    equal(set(net.relations), {"r1", "r2"}, "relations of the network")
    if not scripts:
        return
    jobs = []
    left = M.condition(model, EVIDENCE)
    if left:
        jobs.append(("building_net_with_conditional_probability", left, True))
    fs = M.factors(model)
    if fs and M.factors_connected(fs) and M.globally_consistent(fs):
        jobs.append(("building_net_with_joint_probability", M.natural_join(fs), False))
    for name, want, with_evidence in jobs:
        st.step()
        saved = coins.experiment_results
        coins.experiment_results = list(ts)
        try:
            with quiet() as out, recorded_pages() as pages:
                runpy.run_module("scripts.examples." + name, run_name="__main__")
        finally:
            coins.experiment_results = saved
        equal(described(out.getvalue()), description(want), f"what {name} describes for {ts}")
        got = drawn(pages)
        need = drawing(want)
        if with_evidence:
            more = drawing({EVIDENCE: 1})
            need = (need[0] + more[0], need[1] + more[1])
        equal(got, need, f"what {name} draws for {ts}")


def case_coins(st, k, n):
    lists = [(t,) for t in RESULTS] + list(itertools.product(RESULTS, repeat=2))
    for ts in lists[k::n]:
        one_list(st, ts)
        st.state(ts)
    st.trace(len(lists[k::n]))


def case_few(st, size, k, n):
    for i, ts in enumerate(itertools.product(FEW, repeat=size)):
        if i % n == k:
            one_list(st, ts)
            st.state(ts)
            st.trace()


def case_three(st, k, n):
    for i, ts in enumerate(itertools.product(RESULTS, repeat=3)):
        if i % n == k:
            one_list(st, ts)
            st.state(ts)
            st.trace()


def case_repeated(st):
    for t in RESULTS:
        for n in range(2, 13):
            one_list(st, (t,) * n, n in (2, 3, 12))
            one_list(st, (t,) * n + tuple(RESULTS[:1]) * 2, False)
            st.state((t, n))
    one_list(st, tuple(RESULTS))
    one_list(st, tuple(RESULTS[::-1]) * 2)
    st.trace()


def case_odd(st):
    coins = script("examples.building_net_from_coin_toss")
    odd = [f"{c} {s} then {c} {z}" for c in SIDES for s in "HT" for z in "HT"]
    odd += ["10¢ H", "5¢ X", "5¢ h", "1 H", "", "1¢", "5¢ H then 10¢ T", "10¢ H then 1¢ T", "1¢ H then 5¢ X", "1¢ X then 5¢ H",
            "1¢ H then 5¢ H then 25¢ H"]
    with quiet():
        ok, res = attempt(lambda: coins.build_relation_net([]))
        require(not ok, "network of no results")
        for t in odd:
            for ts in ([t], ["1¢ H", t], [t, "5¢ T"]):
                st.step()
                ok, res = attempt(lambda: coins.build_relation_net(ts))
                require(not ok, lambda: f"network of {ts}: {set_view(res.outcomes)}")
    st.trace()


def case_shipped(st):
    """What the example scripts say as they are: ten results."""
    coins = script("examples.building_net_from_coin_toss")
    ts = tuple(coins.experiment_results)
    require(ts and all(t in RESULTS for t in ts), f"results {ts}")
    one_list(st, ts)
    model = dict(Counter(outcome(t) for t in ts))
    with quiet() as out, recorded_pages() as pages:
        runpy.run_module("scripts.examples.building_net_from_coin_toss", run_name="__main__")
    equal(described(out.getvalue()), description(model), "what the coin example describes")
    equal(drawn(pages), drawing(model), "what the coin example draws")
    for name in ("comparing_with_bayes_network", "comparing_with_markov_network"):
        mod = script("experiments." + name)
        with quiet():
            net = mod.make_relation_graph()
        if "bayes" in name:
            for v, (card, rows, parents, cards) in mod.net_config.items():
                require(len(rows) == card and all(abs(sum(r) - 1) < 1e-9 for r in zip(*rows)), f"table of {v} adds up to {[sum(r) for r in zip(*rows)]}")
        want = (bayes_model(mod.net_config, mod.prop_factor) if "bayes" in name else markov_model(mod.edges))
        equal(set_view(net.outcomes), want, f"network of {name}")
        st.step()
    st.trace()


# ---------------------------------------------------------------- tables

def bayes_model(config, factor):
    want = Counter()
    for var, (card, table, parents, _) in config.items():
        parents = parents or []
        ranges = [range(config[p][0]) for p in parents]
        for i in range(card):
            for j, vals in enumerate(itertools.product(*ranges)):
                c = round(table[i][j] * factor)
                me = (var, f"{var}({i})")
                if parents:
                    m = M.from_edges((frozenset({me, (p, f"{p}({x})")}), M.D(p, var, "r")) for p, x in zip(parents, vals))
                else:
                    m = M.single(*me)
                want[m] += c
    return dict(want)


def table(card, parents, cards, start):
    width = 1
    for p in parents:
        width *= cards[p]
    n, out = start, []
    for _ in range(card):
        row = []
        for _ in range(width):
            row.append((n * 7 % 99 + 1) / 100)
            n += 1
        out.append(row)
    return out, n


def one_table(st, config, what, factor=100):
    st.step()
    mod = script("experiments.comparing_with_bayes_network")
    saved = mod.net_config, mod.prop_factor
    mod.net_config, mod.prop_factor = config, factor
    try:
        with quiet():
            net = mod.make_relation_graph()
    finally:
        mod.net_config, mod.prop_factor = saved
    got = set_view(net.outcomes)
    if got == bayes_model(saved[0], factor):       # the script does not look at the table when asked
        return
    equal(got, bayes_model(config, factor), f"network of the tables {what}")
    equal({v: set(xs) for v, xs in net.variables}, {v: {f"{v}({i})" for i in range(c[0])} for v, c in config.items()},
          f"variables of the network of {what}")


def make_config(names, cards, parents, start):
    config, n = {}, start
    for v in names:
        t, n = table(cards[v], parents[v], cards, n)
        config[v] = (cards[v], t, list(parents[v]) or None, [cards[p] for p in parents[v]] or None)
    return config


def case_bayes(st, k, n):
    names = "XYZ"
    options = {v: [o for r in range(3) for o in itertools.permutations([x for x in names if x != v], r)] for v in names}
    i = 0
    for cards in itertools.product((1, 2, 3), repeat=3):
        for ps in itertools.product(*[options[v] for v in names]):
            i += 1
            if i % n != k:
                continue
            config = make_config(names, dict(zip(names, cards)), dict(zip(names, ps)), i)
            one_table(st, config, (cards, ps))
            st.state((cards, ps))
            st.trace()


def case_family(st, n):
    """One child of n parents out of three, in every order; the cards of all of them vary."""
    names = "ABCD"
    for ps in itertools.permutations("ABC", n):
        for cards in itertools.product((2, 3), repeat=4):
            config = make_config(names, dict(zip(names, cards)), {"A": (), "B": (), "C": ("A",), "D": ps}, n)
            one_table(st, config, (cards, ps))
            st.state((cards, ps))


NAMES = (("A", "BA", "AB", "ABA"), ("x", "x(0)", "(x)", "x(1)(0)"), ("a", "0", "a(", ")"), ("Grade", "Upgrade", "grade", "G"), ("é", "éé", "a b", " "), ("r", "D", "1", "11"))


def case_names(st, k):
    """Names that are parts of each other, in each role; many values."""
    for names in itertools.permutations(NAMES[k]):
        a, b, c, d = names
        for parents in ({a: (), b: (), c: (a,), d: (a, b, c)}, {a: (), b: (a,), c: (b, a), d: (c,)}):
            for cards in ((2, 2, 2, 2), (1, 11, 2, 1), (12, 1, 1, 2)):
                cs = dict(zip(names, cards))
                one_table(st, make_config(names, cs, parents, k), (names, parents, cards))
                st.state((names, cards, tuple(parents[d])))
    st.trace()


def case_amounts(st, factor):
    """Every whole count is taken, whatever rounding its probability suffers; every other one is refused."""
    mod = script("experiments.comparing_with_bayes_network")
    for i in range(1, factor):
        one_table(st, {"A": (2, [[i / factor], [1 - i / factor]], None, None)}, (i, factor), factor)
        st.state((i, factor))
    for i in range(0, factor * 4, 1 if factor <= 100 else 13):
        if i % 4:
            refused_table(mod, {"A": (2, [[i / 4 / factor], [0.5]], None, None)}, factor, (i / 4, factor))
            st.step()
    st.trace()


def refused_table(mod, config, factor, what):
    saved = mod.net_config, mod.prop_factor
    mod.net_config, mod.prop_factor = config, factor
    try:
        with quiet():
            ok, _ = attempt(mod.make_relation_graph)
    finally:
        mod.net_config, mod.prop_factor = saved
    require(not ok, f"network of a table with {what}")


def case_refused(st):
    mod = script("experiments.comparing_with_bayes_network")
    for bad in ([[0.005], [0.4]], [[0.5], [0.0]], [[0.5], [-0.1]], [[0.2901], [0.5]], [[0.2899], [0.5]], [[0.5], [0.0001]]):
        for v in "AB":
            config = dict(make_config("ABC", {"A": 2, "B": 2, "C": 2}, {"A": (), "B": (), "C": ("A", "B")}, 1), **{v: (2, bad, None, None)})
            refused_table(mod, config, 100, bad)
            st.step()
    st.trace()


def markov_model(edges):
    want = Counter()
    for (a, b), values in edges:
        for (i, j), c in zip(itertools.product((0, 1), repeat=2), values):
            want[M.from_edges([(frozenset({(a, f"{a}({i})"), (b, f"{b}({j})")}), "r")])] += c
    return dict(want)


def case_markov(st, n):
    mod = script("experiments.comparing_with_markov_network")
    names = list("ABCD")[:n]
    pairs = list(itertools.permutations(names, 2))
    saved = mod.nodes, mod.edges
    try:
        for size in (1, 2, 3):
            for es in itertools.product(pairs, repeat=size):
                st.step()
                mod.nodes = names
                mod.edges = [(list(e), [1 + 4 * i, 20 + 9 * i, 10 ** (i + 3), 57 + i]) for i, e in enumerate(es)]
                with quiet():
                    net = mod.make_relation_graph()
                got = set_view(net.outcomes)
                if got == markov_model(saved[1]):
                    continue
                equal(got, markov_model(mod.edges), f"network of factors {mod.edges}")
                equal({v: set(xs) for v, xs in net.variables}, {v: {f"{v}(0)", f"{v}(1)"} for v in names}, "variables")
                st.state(es)
    finally:
        mod.nodes, mod.edges = saved
    st.trace()


# ---------------------------------------------------------------- sub graphs

def case_subgraphs(st, n):
    st.step()
    with quiet():
        net = script("playaround.number_of_subgraphs").make_all_sub_graphs(n)
    parts = {}
    for x in net.nodes:
        node, part = str(x["label"]).split("_")
        parts.setdefault(part, ([], []))[0].append(node)
    for e in net.edges:
        a, b = str(e["from"]).split("_"), str(e["to"]).split("_")
        require(a[1] == b[1], "edge from one sub graph to another")
        parts[a[1]][1].append((frozenset((a[0], b[0])), str(e["title"])))
    single = parts.pop("0", ([], []))
    equal(sorted(single[0]), [f"N{i}" for i in range(1, n + 1)], "sub graphs of one node")
    equal(single[1], [], "edges in sub graphs of one node")
    pairs = [frozenset((f"N{i}", f"N{j}")) for i in range(1, n + 1) for j in range(i + 1, n + 1)]
    want = Counter()
    for pick in itertools.product((None, "AB", "BA"), repeat=len(pairs)):
        es = frozenset((p, t) for p, t in zip(pairs, pick) if t)
        if es:
            want[(frozenset(x for p, _ in es for x in p), es)] += 1
    got = Counter()
    for nodes, edges in parts.values():
        require(len(set(nodes)) == len(nodes) and len(set(edges)) == len(edges), "something is drawn twice in a sub graph")
        got[(frozenset(nodes), frozenset(edges))] += 1
    require(got == want, f"sub graphs of {n} nodes: {len(got)} different ones of {sum(got.values())}, {len(want)} expected")
    st.state(n)
    st.trace()

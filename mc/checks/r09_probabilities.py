"""Probabilities, filters and searches of every small collection."""
import itertools
from fractions import Fraction

from .. import model as M
from ..core import Violation, attempt, close, equal, require
from ..impl import World, SampleSetBuilder, network, set_view, view

ID = "R09"
ASSUMPTIONS = ["counts are positive integers", "samples have one value per variable except where conflicts are asked for"]
COUNTS = [1, 2, 3, 10 ** 6, 2 ** 63, 10 ** 30, 10 ** 300 + 1]
WORLDS = ["z3", "z2", "s3", "f3", "n3", "k3", "w2", "v4", "s3r1", "n4"]


def bounds(tier):
    return ("probabilities of all collections of 1 to 4 samples with all counts out of 7 from 1 to 10^300 in 4 "
            "vocabularies; filters with every predicate on those samples; value, variable and conflict queries of all "
            "collections of up to 2 samples (3 for the smaller vocabularies) out of the complete sample spaces of 13 vocabularies plus the "
            "empty sample; searches with every set of up to 3 known or unknown values on networks and conditional networks, with every set of values of "
            f"{'8' if tier == 'thorough' else '6'} variables among all parts of a chain")


def cases(tier):
    out = [["prob", w, list(cs)] for w in ("s3", "f3", "n3", "k3") for cs in itertools.product(range(7), repeat=2)]
    out += [["have", w, k, 24, 3 if tier == "thorough" and w in ("s3", "n3", "w2", "v4") else 2]
            for w in WORLDS for k in range(24)]
    out += [["have", w, k, 24, 3] for w in ("f2", "k2", "h2") for k in range(24)]
    out += [["find", w, k, 24] for w in WORLDS + ["f2", "k2", "h2", "h3"] for k in range(24)]
    out += [["far", n, k, 8] for n in ((5, 6, 7, 8) if tier == "thorough" else (5, 6)) for k in range(8)]
    out += [["large", n] for n in (10, 100, 1000)]
    return out


def run_case(case, st):
    globals()["case_" + case[0]](st, *case[1:])


def build(w, model):
    b = SampleSetBuilder(w.provider)
    for m, c in model.items():
        b.add(w.sample(m), c)
    return b.build()


def check_probabilities(w, model, ss, where, absent):
    total = sum(model.values())
    props = {}
    for s, p in ss.probabilities():
        require(view(s) not in props, f"{where}: sample listed twice")
        props[view(s)] = p
    equal(set(props), set(model), f"{where}: samples with probabilities")
    for m, c in model.items():
        close(props[m], Fraction(c, total), f"{where}: probability of {M.text(m)}")
        rel(props[m], Fraction(c, total), f"{where}: probability of {M.text(m)}")
        rel(ss.probability_of(w.sample(m)), Fraction(c, total), f"{where}: probability_of {M.text(m)}")
    close(sum(props.values()), 1, f"{where}: sum of probabilities")
    for m in absent:
        ok, res = attempt(lambda: ss.probability_of(w.sample(m)))
        require(not ok, f"{where}: probability of absent {M.text(m)} is {res!r}")
    equal(set_view(ss), model, f"{where}: collection after the queries")


def rel(got, want, what):
    """Relative comparison: also tiny probabilities have to be exact."""
    w = float(want)
    if abs(float(got) - w) > 1e-9 * abs(w):
        raise Violation(f"{what}: got {got!r}, expected {w!r}")


def case_prob(st, wname, cs):
    w = World(wname)
    sp = M.all_samples(*M.world(wname))
    ms = [M.single(*next(iter(sp[0][0]))), [m for m in sp if len(m[0]) == 2][0], M.EMPTY, sp[-1]]
    base = dict(zip(ms[:2], [COUNTS[i] for i in cs]))
    models = [dict(itertools.islice(base.items(), 1)), base]
    models += [{**base, ms[2]: c} for c in COUNTS] + [{**base, ms[2]: c, ms[3]: d} for c in COUNTS for d in COUNTS]
    for model in models:
        ss = build(w, model)
        where = f"collection { {M.text(m): c for m, c in model.items()} }"
        check_probabilities(w, model, ss, where, [m for m in ms if m not in model])
        keys = list(model)
        for bits in itertools.product((False, True), repeat=len(keys)):
            keep = {k for k, b in zip(keys, bits) if b}
            f = ss.filter_samples(lambda s: view(s) in keep)
            equal(set_view(f), {k: model[k] for k in keep}, f"{where} filtered")
            equal(f.length, sum(model[k] for k in keep), f"{where} filtered: length")
            equal(bool(f), bool(keep), f"{where} filtered: truth value")
            require(f == build(w, {k: model[k] for k in keep}), f"{where}: filtered collection equals a direct one")
            require(f.is_compatible(ss), "filtered collection is compatible with its source")
            if keep:
                check_probabilities(w, {k: model[k] for k in keep}, f, where + " filtered", [k for k in keys if k not in keep])
            st.step()
        equal(set_view(ss), model, f"{where}: collection after filtering")
        st.state(tuple(sorted((M.text(m), c) for m, c in model.items())))
        st.trace()
        st.sample(where)


def case_have(st, wname, part, parts, size):
    w = World(wname)
    sp = M.all_samples(*M.world(wname))
    dom = dict(w.variables)
    values = {x for xs in dom.values() for x in xs} | {"?", None}
    sp = [M.EMPTY] + sp
    subsets = [()] + [c for k in range(1, size + 1) for c in itertools.combinations(sp, k)]
    for i, sub in enumerate(subsets):
        if i % parts != part:
            continue
        ss = build(w, {m: 1 + n for n, m in enumerate(sub)})
        nodes = frozenset(n for m in sub for n in m[0])
        t = [M.text(m) for m in sub]
        want = len(nodes) == len({v for v, _ in nodes})
        equal(bool(ss.is_all_values_match()), want, f"collection {t} is free of conflicts")
        if i % 5 == 0 or len(sub) < 3:
            for v in list(dom) + ["?", None]:
                equal(bool(ss.have_variable(v)), v in {a for a, _ in nodes}, f"collection {t} has variable {v!r}")
                for x in values:
                    equal(bool(ss.have_value(v, x)), (v, x) in nodes, f"collection {t} has value {v!r}={x!r}")
                    st.step()
        st.step(2)
        st.state(tuple(sorted(t)))
        st.trace()


def case_far(st, size, part, parts):
    """Searches for many values: every set of values of chains, where every part of the chain, with any one value changed, is an outcome."""
    names = [f"v{i}" for i in range(size)]
    w = World(spec=([(v, [0, 1]) for v in names], ["r"]))
    model = {}
    for i in range(size):
        for j in range(i, size):
            for odd in [None] + names[i:j + 1]:
                vs = [(v, int(v == odd)) for v in names[i:j + 1]]
                m = M.from_edges((frozenset(e), "r") for e in zip(vs, vs[1:])) if len(vs) > 1 else M.single(*vs[0])
                model[m] = 1 + len(model) % 7
    net = network(w, model)
    n = 0
    for pick in itertools.product((None, 0, 1), repeat=size):
        n += 1
        if n % parts != part:
            continue
        q = {(v, x) for v, x in zip(names, pick) if x is not None}
        equal(set_view(net.find_for_values(q)), {m: c for m, c in model.items() if q <= m[0]}, f"search for {sorted(q)} in parts of a chain of {size}")
        st.step()
        st.state((size, pick))
    st.trace()


def case_find(st, wname, part, parts):
    w = World(wname)
    sp = M.all_samples(*M.world(wname))
    nodes = M.nodes_of(w.variables) + [("?", "?"), (w.variables[0][0], "?")]
    queries = [set(q) for k in range(4) for q in itertools.combinations(nodes, k)]
    big = {m: [1, 2, 3, 10 ** 20, 1000][i % 5] for i, m in enumerate([M.EMPTY] + sp)}
    nets = [("all samples", network(w, big), big)]
    ev = sp[part % len(sp)]
    cond = M.condition(big, ev)
    nets.append((f"condition on {M.text(ev)}", nets[0][1].conditional_graph(w.sample(ev)), cond))
    small = dict(list(big.items())[part::parts][:4]) or {sp[0]: 5}
    nets.append(("some samples", network(w, small), small))
    for n, q in enumerate(queries):
        for name, net, model in nets[(0 if n % parts == part else 1):]:
            keep = set(q)
            got = net.find_for_values(q)
            equal(set_view(got), {m: c for m, c in model.items() if q <= m[0]}, f"search for {q} in {name}")
            equal(q, keep, "searched values after the call")
            st.step()
    for name, net, model in nets:
        equal(set_view(net.outcomes), model, f"{name} after searches")
        st.trace()
        st.state((wname, part, name))


def case_large(st, n):
    """Many samples, counts of all magnitudes."""
    w = World(spec=([("a", list(range(n))), ("b", ["x"])], ["r"]))
    model = {M.from_edges([(frozenset({("a", i), ("b", "x")}), "r")]): (i + 1) * 10 ** (i % 40) for i in range(n)}
    ss = build(w, model)
    check_probabilities(w, model, ss, f"{n} samples", [M.single("b", "x")])
    for i in range(n):
        require(ss.have_value("a", i) and not ss.have_value("b", i), "have_value in a large collection")
    equal(bool(ss.is_all_values_match()), n == 1, "conflicts in a large collection")
    net = network(w, model)
    for i in range(0, n, max(1, n // 10)):
        equal(set_view(net.find_for_values({("a", i)})), {m: c for m, c in model.items() if ("a", i) in m[0]}, "search")
    f = ss.filter_samples(lambda s: s.value_for_variable("a") % 2 == 0)
    equal(set_view(f), {m: c for m, c in model.items() if dict(m[0])["a"] % 2 == 0}, "filter")
    st.step(4)
    st.state(n)
    st.trace()

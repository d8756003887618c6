"""Activation views of every conditional network and relation filter."""
import itertools
from fractions import Fraction

from .. import model as M
from ..core import attempt, close, equal, require
from ..shapes import dense, names as var_names
from ..impl import World, network, rel_from_impl, rel_to_impl, set_view

ID = "R12"
ASSUMPTIONS = ["samples have one value per variable", "at least one conditional outcome is left",
               "a relation filter names at least one relation"]
WORLDS = ["z3", "z2", "z2+d", "s3", "f2", "n3", "k2", "h2", "h3", "v4one", "v4", "s3r1", "w2", "f2+d", "f3", "v4two", "v4d", "n4"]


def bounds(tier):
    return ("every evidence sample on the network of all samples and on all networks of one or two outcomes (the latter for "
            "spaces up to 60 samples), counts 1 to 10^20, every relation filter (none and each non-empty set of relations, "
            "unknown ones included), 18 vocabularies; networks of larger samples: paths, stars, cycles, cliques and "
            "ladders of up to 7 variables with every connected evidence part; 13 values and 13 relations of two variables, each of them as evidence; "
            "chains of 14 variables with every part of them as evidence, under 5 hash assignments"
            + (" and all three-outcome networks of 4 vocabularies" if tier == "thorough" else ""))


def space(name):
    base = name.split("+")[0]
    if name == "v4d":
        v, r = M.world("v4one")
        return (v, r), M.all_samples(v, r, directed=True, max_edges=3)
    v, r = M.world(base)
    return (v, r), M.all_samples(v, r, directed=name.endswith("+d"))


def cases(tier):
    out = [["pairs", w, k, 24] for w in WORLDS for k in range(24)]
    out += [["big", s, n, e] for s in ("path", "star", "cycle", "clique", "ladder") for n in (5, 6, 7) for e in range(4)]
    out += [["dense", h, k] for h in range(5) for k in range(3)] + [["chain", h] for h in range(5)]
    if tier == "thorough":
        out += [["triples", w, k, 32] for w in ("f2", "k2", "n3", "v4one") for k in range(32)]
    return out


def run_case(case, st):
    globals()["case_" + case[0]](st, *case[1:])


def filters(relations, directed, pairs):
    rels = list(relations)
    if directed:
        rels = rels[:1] + [M.D(a, b, rels[0]) for a, b in pairs[:2]] + [M.D(b, a, rels[-1]) for a, b in pairs[:1]]
    out = [None]
    for k in range(1, len(rels) + 1):
        out += [frozenset(c) for c in itertools.combinations(rels, k)]
    return out + [frozenset({"?"}), frozenset({"?", rels[0]})]


def expected(variables, cond, ev, flt):
    total = sum(cond.values())
    values = {v: {x: Fraction(0) for x in xs} for v, xs in variables}
    edges = {}
    evars = M.variables_of(ev)
    for o, c in cond.items():
        sim = M.similarity(o, ev)
        ext = M.external(o, ev[0], flt)
        for v, x in ext:
            values[v][x] += sim * c / total
        for v, x in ev[0] & o[0]:
            values[v][x] += Fraction(c, total)
        out = {e for es in ext.values() for e in es}
        for (e, r), q in [(e, False) for e in out] + [(e, True) for e in ev[1]]:
            pair = frozenset(v for v, _ in e)
            d, _ = edges.setdefault(pair, ({}, q))
            d[r] = d.get(r, 0) + c
    return total, values, {v: v in evars for v, _ in variables}, edges


def check(w, cond_net, cond, ev, flt, where, st):
    st.step()
    total, values, queried, edges = expected(w.variables, cond, ev, flt)
    arg = None if flt is None else {rel_to_impl(r) for r in flt}
    keep = None if arg is None else set(arg)
    ag = cond_net.activation_graph(arg) if flt is not None else cond_net.activation_graph()
    equal(arg, keep, "relation filter after the call")
    where = f"{where} | {M.text(ev)}, filter {flt}"
    equal(ag.number_of_outcomes, total, f"{where}: number of outcomes")
    equal(len(ag.nodes), len(values), f"{where}: number of variables")
    equal({n.variable for n in ag.nodes}, set(values), f"{where}: variables")
    equal(set(ag.variables), set(values), f"{where}: variables")
    for n in ag.nodes:
        got = dict(n.values)
        equal(len(n.values), len(got), f"{where}: weights of {n.variable!r} listed once each")
        equal(set(got), set(values[n.variable]), f"{where}: values of {n.variable!r}")
        for x, p in values[n.variable].items():
            close(got[x], p, f"{where}: weight of {n.variable!r}={x!r}")
        equal(bool(n.in_query), queried[n.variable], f"{where}: variable {n.variable!r} marked as queried")
    got = {}
    for e in ag.edges:
        p = frozenset(e.endpoints)
        require(p not in got, f"{where}: pair {set(p)} listed twice")
        rels = {rel_from_impl(r): c for r, c in e.relations}
        equal(len(rels), len(e.relations), f"{where}: relations of {set(p)} listed once each")
        got[p] = (rels, bool(e.in_query))
    equal(got, edges, f"{where}: relations by pair of variables, with queried mark")


def all_filters(w, cond_net, cond, ev, flts, where, st):
    if not cond:
        return
    if ev == M.EMPTY:
        require(not attempt(cond_net.activation_graph)[0], f"{where}: activation for empty evidence is refused")
        return
    for f in flts:
        check(w, cond_net, cond, ev, f, where, st)
    equal(set_view(cond_net.outcomes), cond, f"{where} after activation")


def case_pairs(st, name, part, parts):
    (v, r), sp = space(name)
    w = World(spec=(v, r))
    directed = name.endswith("d") and name != "v4"
    flts = filters(r, directed, list(itertools.combinations([a for a, _ in v], 2)))
    sp = [M.EMPTY] + sp
    big = {m: [1, 3, 2, 10 ** 20][i % 4] if i % 9 == 3 else 1 + i % 3 for i, m in enumerate(sp)}
    full = network(w, big)
    small = len(sp) <= 60
    for i, ev in enumerate(sp):
        if i % parts != part:
            continue
        c = full.conditional_graph(w.sample(ev))
        all_filters(w, c, M.condition(big, ev), ev, flts, "all samples", st)
        compatible = [m for m in sp if M.condition({m: 1}, ev)]
        nets = [{m: 1} for m in compatible]
        if small:
            nets += [{a: 2, b: 3} for a, b in itertools.combinations(compatible, 2)]
        for n, model in enumerate(nets):
            c = network(w, model).conditional_graph(w.sample(ev))
            some = flts if n % 3 == 0 else [flts[n % len(flts)], None]
            all_filters(w, c, model, ev, some, f"{ {M.text(m): k for m, k in model.items()} }", st)
            st.trace()
        st.state((name, M.text(ev)))
        st.sample([name, M.text(ev), len(nets)])


def case_triples(st, name, part, parts):
    (v, r), sp = space(name)
    w = World(spec=(v, r))
    flts = filters(r, False, [])
    for i, ev in enumerate(sp):
        if i % parts != part:
            continue
        compatible = [m for m in [M.EMPTY] + sp if M.condition({m: 1}, ev)]
        for n, t in enumerate(itertools.combinations(compatible, 3)):
            model = dict(zip(t, (2, 3, 5)))
            c = network(w, model).conditional_graph(w.sample(ev))
            all_filters(w, c, model, ev, [None, flts[1 + n % (len(flts) - 1)]], "three outcomes", st)
            st.trace()
            st.state((name, i, n))


def case_big(st, shape, n, which):
    """One large outcome plus its value-changed copies; evidence = every connected part of up to 3 relations."""
    variables = [(f"v{i}", [0, 1]) for i in range(n)]
    w = World(spec=(variables, ["r", "s", "t"]))
    idx = {"star": [(0, i) for i in range(1, n)], "path": [(i, i + 1) for i in range(n - 1)],
           "cycle": [(i, (i + 1) % n) for i in range(n)], "clique": list(itertools.combinations(range(n), 2)),
           "ladder": [(i, i + 2) for i in range(n - 2)] + [(i, i + 1) for i in range(0, n - 1, 2)]}[shape]

    def mk(pairs, ones=()):
        return M.from_edges((frozenset({(f"v{i}", int(i in ones)), (f"v{j}", int(j in ones))}), "rst"[(i * 2 + j) % 3])
                            for i, j in pairs)
    outcomes = {mk(idx): 4, mk(idx, {n - 1}): 3, mk(idx, {0, n - 1}): 2, mk(idx[:1]): 1,
                M.single("v0", 0): 6, M.single("v2", 1): 1}
    net = network(w, outcomes)
    flts = filters(["r", "s", "t"], False, [])
    evs = [M.single(f"v{i}", 0) for i in range(n)]
    for k in (1, 2, 3):
        for es in itertools.combinations(idx, k):
            m = mk(es)
            if M.is_connected(m):
                evs.append(m)
    for i, ev in enumerate(evs):
        if i % 4 == which:
            all_filters(w, net.conditional_graph(w.sample(ev)), M.condition(outcomes, ev), ev, flts, f"{shape} {n}", st)
            st.state((shape, n, M.text(ev)))
            st.trace()


def case_dense(st, h, part):
    """Variables of many values, pairs of many relations."""
    vs, spec, model = dense(h)
    w = World(spec=spec)
    net = network(w, model)
    rels = spec[1]
    flts = [None, frozenset(rels), frozenset(rels[:11]), frozenset(rels[1::2]), frozenset(rels[12:])]
    for v in range(3):
        for x in range(13):
            if (v + x) % 3 == part:
                ev = M.single(vs[v], x)
                all_filters(w, net.conditional_graph(w.sample(ev)), M.condition(model, ev), ev, flts, "13 values", st)
                st.state((h, v, x))
    for i, ev in enumerate(model):
        if i % 6 == part and ev[1]:
            all_filters(w, net.conditional_graph(w.sample(ev)), M.condition(model, ev), ev, flts[:2], "13 values", st)
            st.state((h, i))
    st.trace()


def case_chain(st, h):
    """Long outcomes and long evidence."""
    n = 14
    vs = var_names(n, h)
    w = World(spec=([(v, [0, 1]) for v in vs], ["r", "s"]))

    def part(i, j, ones=()):
        if i == j:
            return M.single(vs[i], int(i in ones))
        return M.from_edges((frozenset({(vs[k], int(k in ones)), (vs[k + 1], int(k + 1 in ones))}), "rs"[k % 2 if k < 8 else 0]) for k in range(i, j))
    model = {part(0, n - 1): 5, part(0, n - 1, {0}): 2, part(0, n - 1, {n - 1}): 3, part(0, n - 1, {6}): 4, part(0, 3): 1, part(12, 13, {12}): 6}
    net = network(w, model)
    for i in range(n):
        for j in range(i, n):
            ev = part(i, j)
            all_filters(w, net.conditional_graph(w.sample(ev)), M.condition(model, ev), ev, [None, frozenset("r"), frozenset("rs")], "chain of 14", st)
            st.state((h, i, j))
    st.trace()

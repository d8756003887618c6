"""Marginals, folded views and occurring vocabulary of every small network."""
import itertools
from fractions import Fraction

from .. import model as M
from ..core import Violation, close, close_map, equal, require
from ..impl import World, edge_view, network, node_view, rel_from_impl, set_view
from ..shapes import SHAPES, dense, names, sample, shape

ID = "R13"
ASSUMPTIONS = ["samples have one value per variable", "no value is called 'u' or 'unobserved'"]
WORLDS = ["z3", "z2", "z2+d", "s3", "f2", "n3", "k2", "h2", "h3", "w2", "v4one", "v4", "f3", "s3r1", "f2+d", "k3", "v4two", "w1", "n4"]
COUNTS = [1, 2, 10 ** 13, 10 ** 20, 5]


def bounds(tier):
    return ("all networks of one or two outcomes" + (", all of three for 4 vocabularies," if tier == "thorough" else "")
            + " and the network of all samples with its conditional networks for every evidence, 19 vocabularies (directed "
            "relations, falsy and alike names), counts 1 to 10^20, empty outcomes included; every selection of variables "
            "(unknown and absent ones included), unobserved on and off; networks of samples of 10 shapes on 6 to 12 variables, with every one of 9 values at every "
            "place; 300 outcomes of 12 variables with 40 values and 30 relations; pairs of variables with 13 values each and 13 relations")


def space(name):
    base = name.split("+")[0]
    v, r = M.world(base)
    return (v, r), M.all_samples(v, r, directed=name.endswith("+d"))


def cases(tier):
    out = [["nets", w, k, 24] for w in WORLDS for k in range(24)]
    out += [["cond", w, k, 12] for w in WORLDS for k in range(12)]
    if tier == "thorough":
        out += [["triples", w, k, 32] for w in ("f2", "k2", "n3", "v4one") for k in range(32)]
    out += [["big", s, n, (i + n) % 5] for i, s in enumerate(SHAPES) for n in (6, 9, 12)] + [["wide", h] for h in range(5)] + [["dense", h] for h in range(5)]
    return out


def run_case(case, st):
    globals()["case_" + case[0]](st, *case[1:])


def selections(variables, every):
    names = [v for v, _ in variables]
    subs = [set(c) for k in range(len(names) + 1) for c in itertools.combinations(names, k)]
    out = [None] + subs + [{"?"}, {"?", names[0]}]
    return out if every else [None, set(), {names[-1]}, set(names[:2]), {"?", names[0]}]


def check(w, net, model, where, st, every=False, sels=None):
    total = sum(model.values())
    names = [v for v, _ in w.variables]
    for sel in sels or selections(w.variables, every):
        for unobserved in (False, True):
            st.step()
            keep = None if sel is None else set(sel)
            got = net.marginal_variables_probability(sel, unobserved) if sel is not None or unobserved else \
                net.marginal_variables_probability()
            equal(sel, keep, "selected variables after the call")
            want = M.marginals(model, sel or set(names), unobserved)
            t = f"{where}: marginals of {sel}, unobserved {unobserved}"
            equal(set(got), set(want), f"{t}: variables")
            for v in want:
                close_map(got[v], want[v], f"{t}: {v!r}")
                for x, p in want[v].items():
                    if x != "u":                 # also tiny shares have to be exact
                        require(abs(float(got[v][x]) - float(p)) <= 1e-9 * float(p), lambda: f"{t}: {v!r}={x!r}: got {got[v][x]!r}, expected {float(p)!r}")
                close(sum(got[v].values()), 1, f"{t}: sum for {v!r}")
    # occurring vocabulary
    occ = {}
    for m in model:
        for v, x in m[0]:
            occ.setdefault(v, set()).add(x)
    iv = net.included_variables()
    equal({v: set(xs) for v, xs in iv}, occ, f"{where}: occurring variables and values")
    equal(len(iv), len(occ), f"{where}: occurring variables listed once")
    ir = net.included_relations()
    equal({rel_from_impl(r) for r in ir}, {r for m in model for _, r in m[1]}, f"{where}: occurring relations")
    # folded view
    fg = net.folded_graph()
    counts, rels = {}, {}
    for m, c in model.items():
        for n in m[0]:
            counts.setdefault(n[0], {})
            counts[n[0]][n] = counts[n[0]].get(n, 0) + c
        for e in m[1]:
            p = frozenset(v for v, _ in e[0])
            rels.setdefault(p, {})
            rels[p][e] = rels[p].get(e, 0) + c
    equal(fg.number_of_outcomes, total, f"{where}: folded number of outcomes")
    equal(len(fg.nodes), len(counts), f"{where}: number of folded variables")
    equal(set(fg.variables), set(counts), f"{where}: folded variables")
    dom = dict(w.variables)
    for n in fg.nodes:
        v = n.variable
        require(v in counts, f"{where}: folded view lists absent variable {v!r}")
        got = {node_view(k): c for k, c in n.value_nodes}
        equal(len(n.value_nodes), len(got), f"{where}: folded values of {v!r} listed once")
        equal(got, counts[v], f"{where}: folded counts of {v!r}")
        seen = sum(counts[v].values())
        equal(n.unobserved_count(), total - seen, f"{where}: unobserved count of {v!r}")
        equal(set(n.values), set(dom[v]), f"{where}: domain of folded {v!r}")
        want = {x: Fraction(counts[v].get((v, x), 0), total) for x in dom[v]}
        want["unobserved"] = Fraction(total - seen, total)
        got = n.marginal_distribution()
        close_map(got, want, f"{where}: folded distribution of {v!r}")
        for x in dom[v]:
            if x != "unobserved":
                require(abs(float(got[x]) - float(want[x])) <= 1e-9 * float(want[x]),
                        lambda: f"{where}: folded share of {v!r}={x!r}: got {got[x]!r}, expected {float(want[x])!r}")
        require(fg.folded_node(v) is n or fg.folded_node(v) == n, f"{where}: lookup of folded {v!r}")
        st.step()
    for v in names + ["?"]:
        if v not in counts:
            require(fg.folded_node(v) is None, f"{where}: folded node of absent {v!r}")
    got = {}
    for e in fg.edges:
        p = frozenset(e.endpoints)
        require(p not in got, f"{where}: folded pair {set(p)} listed twice")
        got[p] = {edge_view(k): c for k, c in e.relation_edges}
        equal(len(e.relation_edges), len(got[p]), f"{where}: relations of {set(p)} listed once")
    equal(got, rels, f"{where}: folded relations")
    equal(set_view(net.outcomes), model, f"{where} after the queries")
    st.trace()


def show(model):
    return f"{ {M.text(m): c for m, c in model.items()} }"


def case_nets(st, name, part, parts):
    (v, r), sp = space(name)
    w = World(spec=(v, r))
    sp = [M.EMPTY] + sp
    small = len(sp) <= 60
    for i, a in enumerate(sp):
        if i % parts != part:
            continue
        models = [{a: c} for c in COUNTS]
        models += [{a: COUNTS[j % 5], b: COUNTS[(i + 2 * j + 1) % 5]} for j, b in enumerate(sp[:i]) if small or j % 20 == i % 20]
        for n, model in enumerate(models):
            check(w, network(w, model), model, show(model), st, every=n < 2)
            st.state((name, tuple(sorted(M.text(m) for m in model))))
        st.sample([name, M.text(a)])


def case_cond(st, name, part, parts):
    (v, r), sp = space(name)
    w = World(spec=(v, r))
    sp = [M.EMPTY] + sp
    models = [{m: 1 + i % 4 for i, m in enumerate(sp)}, {m: COUNTS[i % 5] for i, m in enumerate(sp) if i % 3 == 1}]
    for k, model in enumerate(models):
        if not model:
            continue
        net = network(w, model)
        if part == k:
            check(w, net, model, "all samples", st, every=True)
        for i, ev in enumerate(sp):
            if i % parts != part:
                continue
            c = net.conditional_graph(w.sample(ev))
            check(w, c, M.condition(model, ev), f"all samples | {M.text(ev)}", st)
            st.state((name, k, M.text(ev)))


def case_triples(st, name, part, parts):
    (v, r), sp = space(name)
    w = World(spec=(v, r))
    for i, t in enumerate(itertools.combinations([M.EMPTY] + sp, 3)):
        if i % parts == part:
            model = dict(zip(t, (2, 3, 5)))
            check(w, network(w, model), model, show(model), st)
            st.state((name, i))


def case_big(st, kind, n, h):
    vs = names(n + 1, h)
    w = World(spec=([(v, list(range(9))) for v in vs], ["r", "s"]))
    idx = shape(kind, n)
    model = {}
    for i in range(n):
        for x in range(9):
            m = sample(vs, idx, (lambda k: x if k == i else 0), (lambda k: "s" if k == i else "r"))
            model[m] = model.get(m, 0) + 1 + (i + x) % 4
    few = selections_big(vs)
    check(w, network(w, model), model, f"samples of the shape {kind} on {n} variables", st, sels=few)
    cond = M.condition(model, M.single(vs[0], 0))
    check(w, network(w, model).conditional_graph(w.sample(M.single(vs[0], 0))), cond, f"samples of the shape {kind} on {n} variables, one value observed", st, sels=few)
    st.state((kind, n, h))


def selections_big(vs):
    return [None, set()] + [{v} for v in vs] + [set(vs) - {v} for v in vs] + [set(vs[::2]), set(vs)]


def case_wide(st, h):
    vs = names(12, h)
    rels = [f"r{i}" for i in range(30)]
    w = World(spec=([(v, list(range(40))) for v in vs], rels))
    model = {}
    for i in range(300):
        a, b = i % 12, (i * 7 + 1 + i // 12) % 12
        if a == b:
            m = M.single(vs[a], i % 40)
        else:
            m = sample(vs, [(a, b)], (lambda k: (i * 3 + k) % 40), rels[i % 30])
        model[m] = model.get(m, 0) + 1 + i % 50
    check(w, network(w, model), model, "300 outcomes", st, sels=selections_big(vs))
    st.state(h)


def case_dense(st, h):
    """Pairs of variables with many relations, variables of many values."""
    vs, spec, model = dense(h)
    w = World(spec=spec)
    net = network(w, model)
    check(w, net, model, "13 relations of a pair", st, sels=selections_big(vs))
    for ev in [M.single(vs[0], 5), M.single(vs[2], 0), next(iter(model))]:
        check(w, net.conditional_graph(w.sample(ev)), M.condition(model, ev), f"13 relations of a pair, {M.text(ev)}", st, sels=selections_big(vs))
    st.state(("dense", h))

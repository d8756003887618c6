"""One network, built in every order: all derived answers have to be the same."""
import itertools
import re

from .. import model as M
from ..core import Violation, attempt, equal
from ..impl import World, RelationGraphBuilder, SampleSetBuilder, edge_view, network, node_view, rel_from_impl, set_view, view
from .r16_grouping import groups, ambiguous, results

ID = "R19"
ASSUMPTIONS = ["iteration orders are owned by giving the names of the vocabulary chosen hashes and by permuting insertions",
               "weights are compared up to rounding",
               "joining on several variables is compared where their order is immaterial by definition, joining of factors where "
               "these agree on the possible values"]

SPECS = {
    "three": ([("v1", ["x1", "x2"]), ("v2", ["x", "X"]), ("v10", ["x1"])], ["r", "R"]),      # alike but for number or case
    "four": ([("a", ["x"]), ("b", ["x", "y"]), ("c", ["x"]), ("d", ["x"])], ["r"]),
    "wide": ([("a", ["p", "q", "x", "y"]), ("b", ["x1", "x2", "x10"])], ["r1", "r2", "r10"]),
}
# factorised networks of agreeing factors
FACTORED = {"chain": ["ab", "bc"], "cycle": ["ab", "bc", "ca"], "priors": ["ab", "a", "b"], "tree": ["ab", "bc", "bd"],
            "block": ["abc", "cd"]}


def bounds(tier):
    return ("all networks of 1 outcome, all (of the widest vocabulary) or every sixth network of 2 outcomes, and listed larger ones of 3 "
            "vocabularies, and 5 factorised structures with every agreeing support short of one outcome, under every permutation of "
            "variable hashes (plain and colliding; a fixed subset for the small ones), both orders of value and relation hashes, "
            "forward and backward declaration; every insertion order of listed networks of 3 outcomes, every fifth of 4"
            + ("; all networks of 3 outcomes of the smallest samples in thorough" if tier == "thorough" else ""))


def cases(tier):
    out = [["small", s, k, n] for s, n in (("three", 48), ("four", 24), ("wide", 24)) for k in range(n)]
    out += [["large", s, k] for s in SPECS for k in range(6)]
    out += [["factored", f, k, 8] for f in FACTORED for k in range(8)]
    out += [["orders", s, k, 16] for s in SPECS for k in range(16)]
    out += [["generate", s] for s in SPECS]
    if tier == "thorough":
        out += [["triples", s, k, 64] for s in SPECS for k in range(64)]
    return out


def run_case(case, st):
    globals()["case_" + case[0]](st, *case[1:])


# ------------------------------------------------------------------ plain values

def pl(o):
    if isinstance(o, str):
        return str(o)
    if isinstance(o, (frozenset, set)):
        return frozenset(map(pl, o))
    if isinstance(o, (tuple, list)):
        return tuple(map(pl, o))
    if isinstance(o, dict):
        return frozenset((pl(k), pl(v)) for k, v in o.items())
    if isinstance(o, float):
        return round(o, 9)
    if isinstance(o, M.D):
        return ("D", pl(o.s), pl(o.t), pl(o.r))
    return o


def tx(o):
    return re.sub(r"\d+\.\d+(e-?\d+)?", lambda m: f"{float(m.group(0)):.9g}", str(o))


def fold(f):
    return pl((f.number_of_outcomes, f.name, f.variables,
               {(n.variable, frozenset((node_view(k), c) for k, c in n.value_nodes), n.values, n.unobserved_count(),
                 pl(n.marginal_distribution()), tx(n)) for n in f.nodes},
               {(e.endpoints, frozenset((edge_view(k), c) for k, c in e.relation_edges), tx(e)) for e in f.edges}))


def act(a):
    return pl((a.number_of_outcomes, a.variables,
               {(n.variable, pl(n.values), bool(n.in_query), tx(n)) for n in a.nodes},
               {(e.endpoints, frozenset((rel_from_impl(r), c) for r, c in e.relations), bool(e.in_query), tx(e)) for e in a.edges}))


def samples(ss):
    return pl((set_view(ss), len(ss), str(ss)))


def digest(w, net, evidences, join_vars, make_joined):
    """All answers of the network, under a name each."""
    d = {}
    d["outcomes"] = samples(net.outcomes)
    d["report"] = net.print_samples()
    d["description"] = pl(net.describe())
    d["included variables"] = pl(net.included_variables())
    d["included relations"] = pl(frozenset(map(rel_from_impl, net.included_relations())))
    d["edges sets"] = len(net.outcomes_as_edges_sets())
    d["marginals"] = pl(net.marginal_variables_probability()), pl(net.marginal_variables_probability(None, True))
    d["folded"] = fold(net.folded_graph())
    d["flags"] = net.is_joined(), net.is_factorized()
    d["probabilities"] = pl(frozenset((view(s), p) for s, p in net.outcomes.probabilities()))
    ok, f = attempt(net.factorized)
    d["factors"] = ok and frozenset(map(samples, f))
    ok, g = attempt(net.outcomes.group_intersecting)
    d["groups"] = ok and pl({k: samples(s) for k, s in g.items()})
    for ev in evidences:
        c = net.conditional_graph(w.sample(ev))
        t = M.text(ev)
        d["conditional", t] = samples(c.outcomes), pl(c.describe())
        d["folded conditional", t] = fold(c.folded_graph())
        if c.outcomes:
            d["conditional marginals", t] = pl(c.marginal_variables_probability()), pl(c.marginal_variables_probability(None, True))
            ok, a = attempt(c.activation_graph)
            d["activation", t] = ok and act(a)
        d["found", t] = samples(net.find_for_values(set(ev[0])))
    for vs in join_vars:
        ok, j = attempt(lambda: net.joined_on_variables(vs))
        d["joined on", vs and tuple(sorted(map(str, vs)))] = ok and samples(j.outcomes)
    if make_joined:
        d["joined"] = samples(net.make_joined().outcomes)
    for o in sorted(net.outcomes.samples(), key=str):
        layers = [pl({node_view(n): frozenset(map(edge_view, es)) for n, es in o.external_nodes({c}).items()})
                  for c in sorted(o.nodes, key=str)]
        d["sample", str(o)] = o.text_view(), layers, pl(o.values()), pl(o.edges_endpoint_variables())
    return d


# ------------------------------------------------------------------ worlds with owned iteration order

def assignments(nv, full):
    """(hash of i-th variable list, flip of values, flip of relations, reversed declaration)"""
    perms = list(itertools.permutations(range(nv)))
    out = [(tuple(x * s for x in p), f, f ^ r, r) for p in perms for s in (1, 8) for f in (0, 1) for r in (0, 1)]
    return out if full else out[::3] + out[1:2]


def make(spec, a):
    hv, flip, rflip, rev = a

    def name_v(v):
        i = [x for x, _ in spec[0]].index(v)
        return M.HS(v, hv[i])

    def name_x(x, xs):
        i = xs.index(x)
        return M.HS(x, 8 * (len(xs) - i) if flip else i)

    dom = dict(spec[0])
    variables = [(name_v(v), [name_x(x, xs) for x in xs]) for v, xs in spec[0]]
    relations = [M.HS(r, len(spec[1]) - i if rflip else 8 * i) for i, r in enumerate(spec[1])]
    if rev:
        variables = [(v, xs[::-1]) for v, xs in variables[::-1]]
        relations = relations[::-1]
    rel = {str(r): r for r in relations}

    def tr(m):
        def n2(n):
            return name_v(n[0]), name_x(n[1], dom[n[0]])
        return frozenset(map(n2, m[0])), frozenset((frozenset(map(n2, e)), rel[r]) for e, r in m[1])
    return World(spec=(variables, relations)), tr, name_v


def compare(spec, model, evidences, join_vars, joined, st, label, worlds, orders=None):
    ref = None
    for i, (w, tr, nv) in enumerate(worlds):
        for order in (orders or ([list(model)] if i % 2 else [list(model)[::-1]])):
            net = network(w, {tr(m): c for m, c in model.items()}, name="net", order=[tr(m) for m in order])
            vs = [v if v is None else {nv(x) for x in v} for v in join_vars]
            d = digest(w, net, [tr(e) for e in evidences], vs, joined)
            st.step(len(d))
            if ref is None:
                ref = d
                continue
            for k in ref:
                if d.get(k) != ref[k]:
                    raise Violation(f"network { {M.text(m): c for m, c in model.items()} }: {k} differs between two orders of building "
                                    f"or iteration: {ref[k]!r:.600} and {d.get(k)!r:.600}", [f"insertion order {[M.text(m) for m in order]}"])
    st.trace(len(worlds))
    st.state((label, tuple(sorted((M.text(m), c) for m, c in model.items()))))
    st.sample([M.text(m) for m in model])


def joins(model, variables):
    """Variable sets on which joining gives the same whatever the order."""
    names = [v for v, _ in variables]
    out = [{v} for v in names]
    used = {v for m in model for v in M.variables_of(m)}
    if len(model) <= 6:
        out += [set(p) for p in itertools.combinations(names, 2) if len(results(model, p)) == 1]
        if len(results(model, used)) == 1:
            out.append(None)
    return out


def plain_worlds(spec, every):
    return [make(spec, a) for a in every]


def joinable(model):
    fs = M.factors(model)
    return bool(fs) and M.factors_connected(fs) and M.globally_consistent(fs)


def case_small(st, sname, part, parts, size=2):
    spec = SPECS[sname]
    sp = M.all_samples(*spec)
    if size == 3:
        sp = [m for m in sp if len(m[1]) <= 1]
    worlds = plain_worlds(spec, assignments(len(spec[0]), False)[::4 if sname == "four" else 2])
    n = 0
    for k in ((1, 2) if size == 2 else (3,)):
        for sub in itertools.combinations(sp, k):
            n += 1
            if n % parts != part or k == 2 and size == 2 and n // parts % 6 != 0 and sname != "wide":
                continue
            model = {m: 1 + 2 * i for i, m in enumerate(sub)}
            compare(spec, model, [sub[-1], sp[n % len(sp)]], joins(model, spec[0]), joinable(model), st, sname, worlds)


def case_triples(st, sname, part, parts):
    case_small(st, sname, part, parts, 3)


def case_large(st, sname, part):
    spec = SPECS[sname]
    sp = M.all_samples(*spec)
    worlds = plain_worlds(spec, assignments(len(spec[0]), True)[part % 3::3])
    step = [1, 2, 3, 5, 7, 11][part] * (1 if len(sp) < 60 else 3)
    sub = sp[part % 2::step][:30]
    model = {m: [1, 2, 3, 10 ** 15][i % 4] for i, m in enumerate(sub)}
    ev = sp[part::max(1, len(sp) // 6)][:6] + [M.EMPTY]
    compare(spec, model, ev, joins(model, spec[0]) if len(model) <= 6 else [], False, st, sname, worlds)


def factored(fname):
    vs = sorted({v for f in FACTORED[fname] for v in f})
    spec = ([(v, ["x", "y"]) for v in vs], ["r", "s"])
    fs = []
    for f in FACTORED[fname]:
        outs = {}
        for vals in itertools.product("xy", repeat=len(f)):
            ns = list(zip(f, vals))
            m = M.single(*ns[0]) if len(f) == 1 else M.from_edges((frozenset({a, b}), "r") for a, b in zip(ns, ns[1:]))
            outs[m] = 1 + len(outs) * 2 + len(fs)
        fs.append(outs)
    return spec, fs


def case_factored(st, fname, part, parts):
    spec, fs = factored(fname)
    worlds = plain_worlds(spec, assignments(len(spec[0]), True)[part::parts])
    worlds = [make(spec, assignments(len(spec[0]), True)[0])] + worlds
    picks = [fs] + [[{o: c for o, c in f.items() if o != drop} for f in fs] for f0 in fs for drop in f0]
    picks += [[{o: c for o, c in f.items() if len({x for _, x in o[0]}) == 1} for f in fs]]
    for combo in picks:
        if not M.globally_consistent(combo):
            continue
        model = {o: c for f in combo for o, c in f.items()}
        ev = [next(iter(combo[0])), M.single(spec[0][-1][0], "y")]
        compare(spec, model, ev, [{v} for v, _ in spec[0]], True, st, fname, worlds)


def case_orders(st, sname, part, parts):
    """Every insertion order of networks of 3 and 4 outcomes, in 3 worlds."""
    spec = SPECS[sname]
    sp = M.all_samples(*spec)
    every = assignments(len(spec[0]), True)
    worlds = plain_worlds(spec, [every[0], every[len(every) // 2 + 1], every[-1]])
    for i in range(part, len(sp), parts * 3):
        for step in (1, 7):
            for k in (3, 4):
                sub = list(dict.fromkeys(sp[(i + j * step) % len(sp)] for j in range(k)))
                model = {m: 1 + 2 * j for j, m in enumerate(sub)}
                orders = [list(p) for p in itertools.permutations(sub)][::1 if k == 3 else 5]
                compare(spec, model, [sub[0]], joins(model, spec[0]), joinable(model), st, sname, worlds, orders)
    # equal collections and networks, whatever the order
    w = World(spec=spec)
    for i in range(part, len(sp) - 4, parts):
        sub = [w.sample(m) for m in sp[i:i + 4]]
        sets = [SampleSetBuilder(w.provider, dict.fromkeys(p, 2)).build() for p in itertools.permutations(sub)]
        for s in sets[1:]:
            equal((s == sets[0], hash(s) == hash(sets[0]), str(s) == str(sets[0])), (True, True, True), "collections of one content")
            st.step()


def case_generate(st, sname):
    spec = SPECS[sname]
    ref = None
    for a in assignments(len(spec[0]), True):
        w, tr, nv = make(spec, a)
        g = RelationGraphBuilder(components_provider=w.provider).generate_all_possible_outcomes().build()
        got = pl(set_view(g.outcomes)), g.outcomes.length, pl(g.describe()), fold(g.folded_graph())
        if ref is None:
            ref = got
        if got != ref:
            raise Violation(f"generated networks differ with hash assignment {a}")
        st.step()
        st.state((sname, a))
    st.trace()

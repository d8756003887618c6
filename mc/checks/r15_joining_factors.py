"""make_joined on every small factorised network."""
import itertools
from math import prod

from .. import model as M
from ..core import Violation, attempt, equal, require
from ..shapes import names as hashed, shape
from ..impl import World, RelationGraph, network, set_view

ID = "R15"
ASSUMPTIONS = ["each outcome of a factor fits some combination of outcomes of all other factors (in other networks the result "
               "of the current code depends on visiting order, see DESIGN.md)"]

# factor: a variable (single values) or a tuple of related pairs; "!" = all outcomes once per relation, ">" = directed
STRUCTURES = {
    "ab": ["ab"], "a": ["a"], "ab a": ["ab", "a"], "ab a b": ["ab", "a", "b"], "ab bc": ["ab", "bc"],
    "ab bc b": ["ab", "bc", "b"], "ab ac": ["ab", "ac"], "ab bc ca": ["ab", "bc", "ca"],
    "ab bc cd": ["ab", "bc", "cd"], "ab ac ad": ["ab", "ac", "ad"], "abc": ["ab,bc"], "abc c": ["ab,bc", "c"],
    "collider": ["ac>,bc>", "a", "b"], "abc cd": ["ab,bc", "cd"], "abc ca": ["ab,bc", "ca"],
    "triangle a": ["ab,bc,ca", "a"], "triangle ad": ["ab,bc,ca", "ad"], "ab!": ["ab!"], "ab! b": ["ab!", "b"],
    "ab> b>": ["ab>", "b"], "ab! bc": ["ab!", "bc"],
}
DISCONNECTED = {"ab cd": ["ab", "cd"], "a b": ["a", "b"], "ab c": ["ab", "c"], "abc d": ["ab,bc", "d"],
                "ab bc d": ["ab", "bc", "d"], "ab cd d": ["ab", "cd", "d"]}
HASHES = [None, {"a": 0, "b": 1, "c": 2, "d": 3}, {"a": 3, "b": 2, "c": 1, "d": 0}, {"a": 0, "b": 8, "c": 16, "d": 24},
          {"a": 5, "b": 0, "c": 5, "d": 2}, {"a": 2, "b": 0, "c": 3, "d": 1}, "alike", "mixed"]


def bounds(tier):
    return ("every support (non-empty set of outcomes) of every factor for 21 connected factor structures on up to 4 two-valued "
            "variables (chains, stars, cycles, shared parents, priors, factors of several relations, directed), restricted "
            "to factors which agree on the possible values; 3-valued chains, cycles and 6-variable trees, cycles and grids "
            "with full, diagonal and thinned supports; counts 1 to 10^20; 8 namings (6 hash assignments, 2 alphabets that print alike) on all of it, all 24 "
            "variable-hash permutations and all insertion orders of up to 5 outcomes for small networks; refusal of 6 "
            "disconnected structures and of all factorised networks with an overlapping or empty outcome added; factors of 1200 outcomes with one value and networks of 1010 factors with one variable; factors on the pairs of 6 shapes of 5, 11 and 14 variables with 2 to 12 values, 5 hash assignments")


def parse(spec):
    """(kind, variables, pairs, directed, twice)"""
    twice, directed = "!" in spec, ">" in spec
    spec = spec.replace("!", "").replace(">", "")
    if len(spec) == 1:
        return [spec], [], False, False
    pairs = [(p[0], p[1]) for p in spec.split(",")]
    return sorted({v for p in pairs for v in p}), pairs, directed, twice


def outcomes_of(spec, dom, name):
    vs, pairs, directed, twice = parse(spec)
    out = []
    for vals in itertools.product(*[dom[v] for v in vs]):
        val = dict(zip(vs, vals))
        if not pairs:
            out.append(M.single(name(vs[0]), val[vs[0]]))
            continue
        for rel in (("r", "s") if twice else ("r",)):
            out.append(M.from_edges(
                (frozenset({(name(a), val[a]), (name(b), val[b])}), M.D(name(a), name(b), rel) if directed else rel)
                for a, b in pairs))
    return out


def supports(outs):
    return [[o for o, b in zip(outs, bits) if b] for bits in itertools.product((1, 0), repeat=len(outs)) if any(bits)]


PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 1, 1, 10 ** 20, 4]


def counted(fs, shift):
    i, out = shift, []
    for f in fs:
        d = {}
        for o in f:
            d[o] = PRIMES[i % len(PRIMES)] if shift % 3 else 1 + i % 3
            i += 1
        out.append(d)
    return out


def namer(h):
    if HASHES[h] == "alike":      # told apart by equality alone
        return lambda v: M.N("v", "abcd".index(v))
    if HASHES[h] == "mixed":
        return lambda v: {"a": 1, "b": "1", "c": (1,), "d": "(1,)"}[v]
    return (lambda v: v) if HASHES[h] is None else (lambda v: M.HS(v, HASHES[h][v]))


def make_world(structure, h, dom=None):
    name = namer(h)
    vs = sorted({v for s in structure for v in parse(s)[0]})
    dom = dom or {v: [M.N("x", 1), M.N("x", 2)] if HASHES[h] == "alike" else [1, "1"] if HASHES[h] == "mixed" else ["x", "y"] for v in vs}
    variables = [(name(v), dom[v]) for v in vs] + ([(name("d"), ["x"])] if "d" not in vs else [])
    return World(spec=(variables, ["r", "s"])), dom, name


def cases(tier):
    out = []
    for s in STRUCTURES:
        n = prod(2 ** len(outcomes_of(f, {v: "xy" for v in "abcd"}, str)) - 1 for f in STRUCTURES[s])
        parts = 1 + n // 150
        out += [["support", s, h, k, parts] for h in range(len(HASHES)) for k in range(parts) if n < 6000 or tier == "thorough" or h == k % len(HASHES)]
    out += [["orders", s, k, 24] for s in STRUCTURES for k in range(24)]
    out += [["refused", s, h] for s in DISCONNECTED for h in range(len(HASHES))]
    out += [["overlap", s, h] for s in STRUCTURES for h in range(len(HASHES))]
    out += [["large", s, h] for s in LARGE for h in range(3)]
    out += [["many", k] for k in range(4)]
    out += [["shapes", s, n, h] for s in ("path", "cycle", "star", "tree", "wheel", "ladder") for n in (5, 11, 14) for h in range(5)]
    return out


def run_case(case, st):
    globals()["case_" + case[0]](st, *case[1:])


def show(model):
    return f"{ {M.text(m): c for m, c in model.items()} }"


def check(w, fs, st, order=None, heavy=True):
    model = {o: c for f in fs for o, c in f.items()}
    net = network(w, model, order=order)
    want = M.natural_join(fs)
    st.step()
    joined = net.make_joined()
    got = set_view(joined.outcomes)
    if got != want:
        lost = [M.text(m) for m in want if m not in got][:3]
        extra = [M.text(m) for m in got if m not in want][:3]
        bad = [(M.text(m), got[m], want[m]) for m in want if m in got and got[m] != want[m]][:3]
        raise Violation(f"joining {show(model)}: missing {lost}, unexpected {extra}, wrong counts {bad}")
    if heavy:
        require(isinstance(joined, RelationGraph) and joined.is_joined(), f"joining {show(model)} gives a joined network")
        equal(joined.outcomes.length, sum(want.values()), "number of joined outcomes")
        again = joined.make_joined()
        equal(set_view(again.outcomes), want, f"joining the joined network of {show(model)} again")
        equal(set_view(net.outcomes), model, "source network after joining")
        require(joined.is_factorized(), "a joined network is factorised")
        st.step(3)
    st.trace()


def case_support(st, sname, h, part, parts):
    structure = STRUCTURES[sname]
    w, dom, name = make_world(structure, h)
    options = [supports(outcomes_of(s, dom, name)) for s in structure]
    for i, combo in enumerate(itertools.product(*options)):
        if i % parts != part:
            continue
        fs = counted(combo, i)
        st.count("supports enumerated")
        if not M.globally_consistent(fs):
            continue
        check(w, fs, st)
        st.state((sname, h, i))
        st.sample([sname, [[M.text(o) for o in f] for f in combo]])


def case_orders(st, sname, part, parts):
    """All hash permutations of the variables; all insertion orders for networks of up to 5 outcomes."""
    structure = STRUCTURES[sname]
    perms = list(itertools.permutations(range(4)))
    perm = perms[part % 24]
    vs = sorted({v for s in structure for v in parse(s)[0]})
    for scale, flip in itertools.product((1, 8), (0, 1)):
        hs = {v: perm["abcd".index(v)] * scale for v in "abcd"}

        def name(v):
            return M.HS(v, hs[v])
        vals = [M.HS("x", flip), M.HS("y", 1 - flip)]
        dom = {v: vals for v in vs}
        w = World(spec=([(name(v), vals) for v in vs], ["r", "s"]))
        outs = [outcomes_of(s, dom, name) for s in structure]
        picks = [[o for o in outs]]
        # one further outcome dropped from every factor in turn
        for i, f in enumerate(outs):
            for drop in f:
                picks.append([[o for o in g if o != drop] for g in outs])
        picks.append([[o for o in f if len({x for _, x in o[0]}) == 1] for f in outs])     # all values equal
        for n, combo in enumerate(picks):
            if not all(combo):
                continue
            fs = counted(combo, n)
            if not M.globally_consistent(fs):
                continue
            check(w, fs, st, heavy=n == 0)
            every = [o for f in fs for o in f]
            if len(every) <= 5 and part < 6:
                for order in itertools.permutations(every):
                    check(w, fs, st, order=order, heavy=False)
            st.state((sname, part, scale, flip, n))


def case_refused(st, sname, h):
    structure = DISCONNECTED[sname]
    w, dom, name = make_world(structure, h)
    for combo in itertools.product(*[supports(outcomes_of(s, dom, name)) for s in structure]):
        if sum(map(len, combo)) > 9 and len(combo[0]) % 2:
            continue
        fs = counted(combo, 1)
        if not M.globally_consistent(fs):
            continue
        model = {o: c for f in fs for o, c in f.items()}
        ok, res = attempt(network(w, model).make_joined)
        require(not ok, lambda: f"joining unconnected factors {show(model)} is accepted and gives {show(set_view(res.outcomes))}")
        st.step()
        st.state((sname, h, tuple(sorted(map(M.text, model)))))
        st.trace()


def case_overlap(st, sname, h):
    """Not factorised: one outcome added that shares a pair with a factor of another structure, or is empty."""
    structure = STRUCTURES[sname]
    w, dom, name = make_world(structure, h)
    fs = [outcomes_of(s, dom, name) for s in structure]
    model = {o: 1 for f in fs for o in f}
    sp = M.all_samples(w.variables, w.relations, max_vars=3)
    for extra in [M.EMPTY] + sp:
        m2 = {**model, extra: 2}
        if M.factors(m2) is not None:
            continue
        ok, res = attempt(network(w, m2, order=list(m2)[::-1] if len(extra[0]) % 2 else None).make_joined)
        require(not ok, lambda: f"joining {show(m2)}, which is not factorised, is accepted")
        st.step()
        st.state((sname, h, M.text(extra)))
    st.trace()


LARGE = ["chain3", "cycle3", "star3", "tree6", "cycle6", "grid6", "priors6", "bayes6"]


def case_large(st, sname, h):
    n = int(sname[-1])
    names = "abcdef"
    hashes = [None, {v: i for i, v in enumerate(names)}, {v: (5 - i) * 8 for i, v in enumerate(names)}][h]

    def name(v):
        return v if hashes is None else M.HS(v, hashes[v])
    vals = [0, 1, 2] if n == 3 else [0, 1]
    st_ = {"chain3": ["ab", "bc"], "cycle3": ["ab", "bc", "ca"], "star3": ["ab", "ac", "a", "c"],
           "tree6": ["ab", "ac", "bd", "be", "cf"], "cycle6": ["ab", "bc", "cd", "de", "ef", "fa"],
           "grid6": ["ab", "bc", "ad", "be", "cf", "de", "ef"], "priors6": ["ab", "bc", "cd", "de", "ef"] + list(names),
           "bayes6": ["a", "b", "ac>,bc>", "cd>", "ce>,de>", "ef>"]}[sname]
    vs = sorted({v for s in st_ for v in parse(s)[0]})
    w = World(spec=([(name(v), vals) for v in vs], ["r", "s"]))
    outs = [outcomes_of(s, {v: vals for v in vs}, name) for s in st_]
    picks = [outs, [[o for o in f if len({x for _, x in o[0]}) == 1] for f in outs]]
    if n == 3:
        for i, f in enumerate(outs):
            picks += [[([o for o in g if o != drop] if g is f else g) for g in outs] for drop in f]
        picks += [[[o for o in f if max(x for _, x in o[0]) - min(x for _, x in o[0]) <= 1] for f in outs]]
    for k, combo in enumerate(picks):
        if M.globally_consistent([dict.fromkeys(f, 1) for f in combo]) if n == 3 else True:
            check(w, counted(combo, k + 1), st)
            st.state((sname, h, k))


def case_many(st, kind):
    """Very many outcomes with one value of a shared variable, and very many factors that share a variable."""
    def edge(a, x, b, y, r="r"):
        return (frozenset({(a, x), (b, y)}), r)
    if kind < 2:
        n = 1200
        w = World(spec=([("a", list(range(n))), ("b", [0, 1]), ("c", [0, 1])], ["r"]))
        left = {M.from_edges([edge("a", i, "b", i // 1100)]): 1 + i % 3 for i in range(n)}
        right = {M.from_edges([edge("b", 0, "c", 0)]): 2, M.from_edges([edge("b", 0, "c", 1)]): 3, M.from_edges([edge("b", 1, "c", 1)]): 5}
        model = left if kind == 0 else {**left, **right}
        want = left if kind == 0 else {(a[0] | b[0], a[1] | b[1]): c * d for a, c in left.items() for b, d in right.items()
                                       if len({v for v, _ in a[0] | b[0]}) == len(a[0] | b[0])}
    else:
        n = 1010
        w = World(spec=([(i, [0, 1]) for i in range(n + 1)], ["r"]))
        model = {M.from_edges([edge(0, 0, i, 0)]): 1 + i % 2 for i in range(1, n + 1)}
        if kind == 3:
            model[M.from_edges([edge(0, 0, 1, 1)])] = 3
        rest = [(m, c) for m, c in model.items() if not any(v == 1 for v, _ in m[0])]
        want = {}
        for x in (0, 1) if kind == 3 else (0,):
            first = M.from_edges([edge(0, 0, 1, x)])
            want[(first[0].union(*[m[0] for m, _ in rest]), first[1].union(*[m[1] for m, _ in rest]))] = prod(c for _, c in rest) * model[first]
    net = network(w, model)
    got = net.make_joined()
    view = set_view(got.outcomes)
    if view != want:
        raise Violation(f"joining {len(model)} outcomes gives {len(view)} with counts {sorted(view.values())[:3]}..., expected {len(want)} with {sorted(want.values())[:3]}...")
    require(got.is_joined(), "the joined network is joined")
    st.step(len(model))
    st.state((kind,))
    st.trace()


def case_shapes(st, kind, n, h):
    """One factor per pair of a larger shape, with and without priors, outcomes of each kind in turn first."""
    vs = hashed(n, h)
    w = World(spec=([(v, list(range(12))) for v in vs], ["r", "s"]))
    idx = shape(kind, n)
    rowss = [[(0, 0), (1, 1)]] + ([[(0, 0), (0, 1), (1, 1)]] if kind == "path" else [])
    rowss += [[(x, x) for x in range(12)]] if kind in ("path", "tree", "cycle") else []
    for r, rows in enumerate(rowss):
        fs = [{M.from_edges([(frozenset({(vs[i], a), (vs[j], b)}), "rs"[k % 2])]): 1 + (k * 3 + a + b) % 3 for a, b in rows}
              for k, (i, j) in enumerate(idx)]
        vals = sorted({x for row in rows for x in row})
        for priors in (0, 1, n):
            net = fs + [{M.single(vs[i], x): 1 + (i + x) % 3 for x in vals} for i in range(priors)]
            order = [o for f in net for o in f]
            check(w, net, st, order=order if (n + r) % 2 else order[::-1])
            st.state((kind, n, h, r, priors))

"""Factorisation and joined-ness of every small network in every storage order."""
import itertools

from .. import model as M
from ..core import Violation, attempt, equal, require
from ..impl import World, RelationGraph, network, set_view

ID = "R14"
ASSUMPTIONS = []


def bounds(tier):
    return ("all networks of up to 2 outcomes out of 12 complete sample spaces, of up to 3 outcomes out of the one-value spaces "
            "with 3 variables (also one named by the set of the others) and out of 2-value spaces with 2 variables"
            + (", of up to 4 in thorough" if tier == "thorough" else "") + "; every network made of factors out of every "
            "set of up to 3 pair-disjoint variable structures on 4 variables (overlapping ones: all pairs, a third of the triples), and of these with one overlapping outcome added; "
            "networks of 2 to 8 (thorough: 12) factors in a chain, a star, apart, or with single variables in between, with one "
            "outcome overlapping each one or each two of the factors, under 6 hash assignments; all insertion orders for up to 3 outcomes, 4 hash assignments; conditional networks included")


PAIRS = ["z3", "z2", "s3", "f3", "n3", "k3", "h2", "h3", "w2", "v4one", "v4", "s3r1", "f2+d", "v4two", "n4"]
ONE3 = ([("a", ["x"]), ("b", ["x"]), ("c", ["x"])], ["r", "s"])
TWIN3 = ([(M.N("a", 1), [M.N("x", 1), M.N("x", 2)]), (M.N("a", 2), [M.N("x", 1)]), (M.N("a", 3), [M.N("x", 1)])], [M.N("r", 1)])
ONE3D = ([("ab", ["x", "y"]), ("a", ["x"]), ("b", ["x"])], ["r"])
NAMED3 = ([("a", ["x"]), ("b", ["x"]), (frozenset({"a", "b"}), ["x"])], ["r"])        # one variable named by two others
TWO2 = ([(0, [0, 1]), ("", ["", "q"])], [0])


def spaces(name):
    if name == "one3":
        return ONE3, M.all_samples(*ONE3)
    if name == "named3":
        return NAMED3, M.all_samples(*NAMED3)
    if name == "one3d":
        return ONE3D, M.all_samples(*ONE3D)
    if name == "twin3":
        return TWIN3, M.all_samples(*TWIN3)
    if name == "two2":
        return TWO2, M.all_samples(*TWO2)
    base = name.split("+")[0]
    v, r = M.world(base)
    return (v, r), M.all_samples(v, r, directed=name.endswith("+d"))


def cases(tier):
    out = [["subsets", w, k, 16, 2, False] for w in PAIRS for k in range(16)]
    deep = 4 if tier == "thorough" else 3
    for w in ("one3", "one3d", "two2", "twin3", "named3"):
        out += [["subsets", w, k, 32, deep, True] for k in range(32)]
    out += [["structures", h, k, 16] for h in range(4) for k in range(16)]
    out += [["many", h, f, t] for h in range(6) for f in range(2, 9 if tier == "quick" else 13) for t in range(4)]
    return out


def run_case(case, st):
    globals()["case_" + case[0]](st, *case[1:])


def expected(model):
    """The factors as a set of frozensets of (sample, count), or None."""
    acc = {}
    for o, c in model.items():
        if o == M.EMPTY:
            return None
        k = ("edges", M.endpoint_variables(o)) if o[1] else ("single", next(iter(o[0]))[0])
        acc.setdefault(k, {})[o] = c
    keys = [k for k in acc if k[0] == "edges"]
    for a, b in itertools.combinations(keys, 2):
        if a[1] & b[1]:
            return None
    return frozenset(frozenset(f.items()) for f in acc.values())


def check(net, model, where, st):
    st.step()
    want = expected(model)
    ok, res = attempt(net.factorized)
    if ok != (want is not None):
        raise Violation(f"{where}: splitting in to factors {'accepted' if ok else f'refused: {res!r}'}")
    if ok:
        got = [frozenset(set_view(f).items()) for f in res]
        equal(len(got), len(set(got)), f"{where}: factors repeat")
        equal(frozenset(got), want, f"{where}: factors")
    if isinstance(net, RelationGraph):
        equal(bool(net.is_factorized()), want is not None, f"{where}: reported as factorised")
        equal(bool(net.is_joined()), len({M.variables_of(m) for m in model}) <= 1, f"{where}: reported as joined")


def show(model):
    return f"{ {M.text(m): c for m, c in model.items()} }"


def case_subsets(st, name, part, parts, size, orders):
    (v, r), sp = spaces(name)
    w = World(spec=(v, r))
    sp = [M.EMPTY] + sp
    n = 0
    for k in range(1, size + 1):
        for sub in itertools.combinations(sp, k):
            n += 1
            if n % parts != part:
                continue
            model = {m: [1, 12, 10 ** 20, 3, 1000][(i + n) % 5] for i, m in enumerate(sub)}
            for order in (itertools.permutations(sub) if orders and k <= 3 else (sub, sub[::-1])):
                net = network(w, model, order=order)
                check(net, model, show(model), st)
            if n % 5 == 0:
                ev = sub[0]
                c = net.conditional_graph(w.sample(ev))
                check(c, M.condition(model, ev), f"{show(model)} | {M.text(ev)}", st)
                check(c.relation_graph(), M.condition(model, ev), f"{show(model)} | {M.text(ev)} as network", st)
            equal(set_view(net.outcomes), model, "network after the queries")
            st.trace()
            st.state((name, tuple(sorted(M.text(m) for m in sub))))
            st.sample(show(model))


def connected_structures(names):
    """Every connected set of variable pairs, and every single variable."""
    pairs = list(itertools.combinations(names, 2))
    out = [("single", n) for n in names]
    for k in range(1, len(pairs) + 1):
        for ps in itertools.combinations(pairs, k):
            m = M.from_edges((frozenset({(a, 0), (b, 0)}), "r") for a, b in ps)
            if M.is_connected(m):
                out.append(("edges", frozenset(map(frozenset, ps))))
    return out


def case_structures(st, h, part, parts):
    """Networks made of whole factors on 4 variables; then one overlapping or empty outcome is added."""
    hashes = [None, (3, 1, 2, 0), (0, 8, 16, 24), (7, 7, 7, 7)][h]
    names = [s if hashes is None else M.HS(s, hashes[i]) for i, s in enumerate("abcd")]
    variables = [(n, [0, 1]) for n in names]
    w = World(spec=(variables, ["r", "s"]))
    structs = connected_structures(names)

    def outcomes(s, i):
        if s[0] == "single":
            return [M.single(s[1], 0), M.single(s[1], 1)][:1 + i % 2]
        a = M.from_edges((frozenset((v, 0) for v in p), "r") for p in s[1])
        b = M.from_edges((frozenset((v, 1) for v in p), "s") for p in s[1])
        c = M.from_edges((frozenset((v, int(v in names[:2])) for v in p), "r") for p in s[1])
        return list(dict.fromkeys([a, b, c]))[:1 + i % 3]

    def pairs(s):
        return s[1] if s[0] == "edges" else frozenset()

    n = 0
    for k in (1, 2, 3):
        for combo in itertools.combinations(structs, k):
            n += 1
            if n % parts != part:
                continue
            if k == 3 and n % (3 if h == 0 else 11) and any(pairs(a) & pairs(b) for a, b in itertools.combinations(combo, 2)):
                continue
            model = {}
            for i, s in enumerate(combo):
                for j, o in enumerate(outcomes(s, n + i)):
                    model[o] = [1, 2, 10 ** 18, 1000, 5][(i + 3 * j) % 5]
            net = network(w, model, order=list(model)[::-1] if n % 2 else None)
            check(net, model, show(model), st)
            if n % 6 == 0:
                extra = outcomes(structs[(7 * n) % len(structs)], 0)[0] if n % 12 else M.EMPTY
                m2 = dict(model)
                m2[extra] = m2.get(extra, 0) + 2
                for order in (list(m2), list(m2)[::-1]):
                    check(network(w, m2, order=order), m2, show(m2), st)
            st.trace()
            st.state((h, tuple(sorted(M.text(m) for m in model))))


def case_many(st, h, f, kind):
    """Many factors; then one outcome that overlaps one or two of them, at either end of the storage order."""
    names = [f"v{i}" for i in range(2 * f + 2)]
    if h == 5:
        names = [(i,) for i in range(2 * f + 2)]
    elif h:
        names = [M.HS(s, (0, i, (7 * i) % 32, 31 - i, (i * i) % 5)[h]) for i, s in enumerate(names)]
    variables = [(n, [0, 1]) for n in names]
    w = World(spec=(variables, ["r", "s"]))

    def edges(ps, x, r="r"):
        return M.from_edges((frozenset({(names[i], x), (names[j], x)}), r) for i, j in ps)

    if kind == 0:       # a chain of pairs
        structs = [[(i, i + 1)] for i in range(f)]
    elif kind == 1:     # a star of pairs
        structs = [[(0, i + 1)] for i in range(f)]
    elif kind == 2:     # apart, some of two pairs
        structs = [[(2 * i, 2 * i + 1)] if i % 2 else [(2 * i, 2 * i + 1), (2 * i, 2 * i + 2)] for i in range(f)]
    else:               # pairs and single variables in turn
        structs = [[(i, i + 1)] if i % 2 else i for i in range(f)]
    model = {}
    for i, s in enumerate(structs):
        for x in (0, 1)[:1 + i % 2]:
            model[M.single(names[s], x) if isinstance(s, int) else edges(s, x)] = 1 + i + x
    last = 2 * f + 1
    extras = [None, M.EMPTY]
    pairs = [s for s in structs if not isinstance(s, int)]
    for s in pairs:
        extras.append(edges(s[:1] + [(s[0][0], last)], 0))                 # the pair and one more
        extras.append(edges([(s[0][1], last)] + s[:1], 1, "s"))
        if len(s) > 1:
            extras.append(edges(s[1:], 0))
    for a, b in itertools.combinations(pairs, 2):
        if len({i for p in a[:1] + b[:1] for i in p}) == 3:
            extras.append(edges(a[:1] + b[:1], 0))
        else:
            extras.append(edges(a[:1] + [(a[0][1], b[0][0])] + b[:1], 1))
    extras += [edges([(0, last)], 0), M.single(names[last], 0), M.single(names[0], 1)]
    for n, x in enumerate(extras):
        m2 = dict(model)
        if x is not None:
            m2[x] = m2.get(x, 0) + 3
        for order in (list(m2), list(m2)[::-1]):
            check(network(w, m2, order=order), m2, show(m2), st)
        st.state((h, f, kind, n))
        st.trace()

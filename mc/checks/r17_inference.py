"""End-to-end inference against exact enumeration of the joint distribution."""
import itertools
from fractions import Fraction
from math import prod

from .. import model as M
from ..core import Violation, close, close_map, equal, require
from ..impl import World, network, set_view

ID = "R17"
ASSUMPTIONS = ["tables have positive integer entries", "the network is connected"]

# name -> (domain sizes, factors); factor = (relations as pairs, directed) or a single variable
NETS = {
    "prior": ({"a": 2}, ["a"]),
    "a->b": ({"a": 2, "b": 2}, ["a", ">ab"]),
    "a->b 3x2": ({"a": 3, "b": 2}, ["a", ">ab"]),
    "chain": ({"a": 2, "b": 2, "c": 2}, ["a", ">ab", ">bc"]),
    "fork": ({"a": 2, "b": 2, "c": 2}, ["a", ">ab", ">ac"]),
    "collider": ({"a": 2, "b": 2, "c": 2}, ["a", "b", ">ac bc"]),
    "collider 3": ({"a": 3, "b": 2, "c": 2}, ["a", "b", ">ac bc"]),
    "full": ({"a": 2, "b": 2, "c": 2}, ["a", ">ab", ">ac bc"]),
    "diamond": ({"a": 2, "b": 2, "c": 2, "d": 2}, ["a", ">ab", ">ac", ">bd cd"]),
    "sprinkler": ({"c": 2, "r": 2, "s": 2, "w": 2}, ["c", ">cr", ">cs", ">rw sw"]),
    "three parents": ({"a": 2, "b": 2, "c": 2, "d": 2}, ["a", "b", "c", ">ad bd cd"]),
    "long chain": ({"a": 2, "b": 2, "c": 2, "d": 2, "e": 2}, ["a", ">ab", ">bc", ">cd", ">de"]),
    "alarm": ({"b": 2, "e": 2, "a": 2, "j": 2, "m": 2}, ["b", "e", ">ba ea", ">aj", ">am"]),
    "markov pair": ({"a": 2, "b": 2}, ["ab"]),
    "markov pair 3x3": ({"a": 3, "b": 3}, ["ab"]),
    "markov chain": ({"a": 2, "b": 2, "c": 2}, ["ab", "bc"]),
    "markov cycle": ({"a": 2, "b": 2, "c": 2, "d": 2}, ["ab", "bc", "cd", "da"]),
    "markov triangle": ({"a": 2, "b": 2, "c": 2}, ["ab", "bc", "ca"]),
    "markov clique": ({"a": 2, "b": 2, "c": 2}, ["ab bc ca", "a", "c"]),
    "markov mixed": ({"a": 2, "b": 2, "c": 2, "d": 2}, ["ab bc", "cd", "d", "ad"]),
    "misconception": ({"a": 2, "b": 2, "c": 2, "d": 2}, ["ab", "bc", "cd", "da"]),
    "wide pair": ({"a": 12, "b": 9}, ["a", ">ab"]),
    "wide hub": ({"a": 9, "b": 2, "c": 3}, ["a", ">ab", "ac"]),
    "eight in a row": ({v: 2 for v in "abcdefgh"}, ["ab bc cd de ef fg gh"]),
    "three tables": ({v: 2 for v in "abcdefgh"}, ["ab bc cd", "de ef", ">fg gh"]),
    "markov grid": ({v: 2 for v in "abcdef"}, ["ab", "bc", "de", "ef", "ad", "be", "cf"]),
}
WIDE = ("wide pair", "wide hub", "eight in a row", "three tables")      # tables of up to 256 entries, observed one at a time
SMALL = {"prior": (1, 2, 3, 10 ** 20), "a->b": (1, 2, 3), "markov pair": (1, 2, 3, 7)}


def bounds(tier):
    return ("26 Bayesian and Markov network structures of up to 6 variables, 4 with tables of up to 256 entries (one value observed), (chains, forks, colliders, diamonds, cycles, cliques, "
            "grids, three parents); all tables with entries 1 to 3 for the two-variable ones, "
            + ("up to 24" if tier == "thorough" else "up to 6") + " table patterns (fewer from 5 variables on) with entries 1 to 10^9 for the others; every evidence "
            "set of up to 4 variables (2 in the 6-variable grid), every order of observing up to 3 values, joining before, in between or after, 4 naming "
            "and hash variants")


def cases(tier):
    out = []
    for n in NETS:
        size = len(NETS[n][0])
        if n in WIDE:
            out += [["net", n, p, h, [1]] for p in range(4 if tier == "thorough" else 2) for h in range(4 if tier == "thorough" else 2)]
            continue
        if tier == "thorough":
            pats, limit = range(24 if size < 6 else 6), size
        else:
            pats, limit = range({5: 3, 6: 1}.get(size, 6)), {5: 4, 6: 2}.get(size, size)
        out += [["net", n, p, h, list(ks)] for p in pats for h in range(4)
                for ks in ([range(1, limit + 1)] if size < 4 else [(k,) for k in range(1, limit + 1)])]
    for n, entries in SMALL.items():
        size = sum(prod(NETS[n][0][v] for v in variables_of(f)) for f in NETS[n][1])
        out += [["tables", n, list(t)] for t in itertools.product(range(len(entries)), repeat=size)]
    out.sort(key=lambda c: -len(NETS[c[1]][0]))
    return out


def run_case(case, st):
    globals()["case_" + case[0]](st, *case[1:])


def variables_of(f):
    return list(dict.fromkeys(f.replace(">", "").replace(" ", "")))


def naming(h):
    if h == 0:
        return lambda v: v, lambda v, i: f"{v}{i}"
    if h == 1:
        return lambda v: M.HS(v, 31 - ord(v) % 32), lambda v, i: i          # reversed hashes, integer (falsy) values
    if h == 3:
        return lambda v: M.N("v", v), lambda v, i: M.N("x", i)              # all print alike
    return lambda v: (v, 0), lambda v, i: bool(i) if i < 2 else "other"


def tables(name, h, entry):
    """The factors as model outcomes with counts. entry(i) = i-th table entry."""
    dom, fs = NETS[name]
    nm, vl = naming(h)
    i, out = 0, []
    for f in fs:
        vs = variables_of(f)
        pairs = f.replace(">", "").split(" ") if len(vs) > 1 else []
        d = {}
        for vals in itertools.product(*[range(dom[v]) for v in vs]):
            val = dict(zip(vs, vals))
            if not pairs:
                m = M.single(nm(vs[0]), vl(vs[0], vals[0]))
            else:
                m = M.from_edges((frozenset({(nm(a), vl(a, val[a])), (nm(b), vl(b, val[b]))}),
                                  M.D(nm(a), nm(b), "r") if ">" in f else "r") for a, b in pairs)
            d[m] = entry(i)
            i += 1
        out.append((vs, d))
    variables = [(nm(v), [vl(v, i) for i in range(k)]) for v, k in dom.items()]
    return variables, out


def joint(variables, fs):
    """Exact joint: assignment (tuple of values in order of variables) -> weight."""
    names = [v for v, _ in variables]
    acc = {}
    for vals in itertools.product(*[xs for _, xs in variables]):
        a = dict(zip(names, vals))
        w = 1
        for _, d in fs:
            w *= next(c for m, c in d.items() if all(a[v] == x for v, x in m[0]))
        acc[vals] = w
    return names, acc


def posterior(names, acc, ev):
    rows = [(dict(zip(names, vals)), c) for vals, c in acc.items()]
    rows = [(a, c) for a, c in rows if all(a[v] == x for v, x in ev.items())]
    total = sum(c for _, c in rows)
    out = {}
    for v in names:
        out[v] = {}
        for a, c in rows:
            out[v][a[v]] = out[v].get(a[v], 0) + Fraction(c, total)
    return out


def observe(w, net, var, val):
    return net.conditional_graph(w.sample(M.single(var, val))).relation_graph()


def check(variables, fs, st, full, where, ks):
    w = World(spec=(variables, ["r"]))
    model = {m: c for _, d in fs for m, c in d.items()}
    net = network(w, model)
    names, acc = joint(variables, fs)
    total = sum(acc.values())
    # joining = exact joint distribution
    joined = net.make_joined()
    equal(joined.outcomes.length, total, f"{where}: weight of the joint distribution")
    props = {}
    for s, p in joined.outcomes.probabilities():
        k = tuple(s.value_for_variable(v) for v in names)
        require(k not in props, f"{where}: joint state {k} listed twice")
        props[k] = p
    equal(set(props), set(acc), f"{where}: joint states")
    for k, c in acc.items():
        close(props[k], Fraction(c, total), f"{where}: joint probability of {k}")
    close_all(joined.marginal_variables_probability(), posterior(names, acc, {}), f"{where}: prior marginals")
    st.step(2)
    # evidence
    dom = dict(variables)
    n = 0
    for k in ks:
        for vs in itertools.combinations(names, k):
            for vals in itertools.product(*[dom[v] for v in vs]):
                n += 1
                ev = list(zip(vs, vals))
                want = posterior(names, acc, dict(ev))
                orders = list(itertools.permutations(ev)) if k <= 2 or k == 3 and full else [ev, ev[::-1]]
                for o in orders[:6]:
                    splits = range(len(o) + 1) if full or n % 5 == 0 else (0, len(o))
                    for split in splits:      # observe `split` values, join, observe the rest
                        g = net
                        for var, val in o[:split]:
                            g = observe(w, g, var, val)
                        g = g.make_joined()
                        for var, val in o[split:]:
                            g = observe(w, g, var, val)
                        t = f"{where}: {o} observed, joined after {split}"
                        close_all(g.marginal_variables_probability(), want, t)
                        st.step()
                        st.trace()
                c = joined.conditional_graph(w.sample(M.single(*ev[0])))
                if k == 1:
                    close_all(c.marginal_variables_probability(), want, f"{where}: {ev} observed, conditional network")
                    um = c.marginal_variables_probability(None, True)
                    for v in names:
                        close(um[v]["u"], 0, f"{where}: unobserved share of {v!r}")
                st.state((where, tuple(map(repr, ev))))
    equal(set_view(net.outcomes), model, f"{where}: network after inference")


def close_all(got, want, t):
    equal(set(got), set(want), f"{t}: variables")
    for v in want:
        close_map(got[v], want[v], f"{t}: posterior of {v!r}")
        for x, p in want[v].items():             # also tiny posteriors have to be exact
            require(abs(float(got[v][x]) - float(p)) <= 1e-9 * float(p), lambda: f"{t}: posterior of {v!r}={x!r}: got {got[v][x]!r}, expected {float(p)!r}")


PATTERNS = [lambda p, i: [1, 2, 3, 5, 7, 11, 13][(i * (p + 1) + p) % 7],
            lambda p, i: [999, 1][(i + p) % 2], lambda p, i: 1 + (i * i + p * 3 + 1) % 97,
            lambda p, i: 10 ** ((i * 5 + p) % 10)]


def case_net(st, name, p, h, ks):
    variables, fs = tables(name, h, lambda i: PATTERNS[p % 4](p, i))
    check(variables, fs, st, len(variables) <= 3 and p < 3, f"{name}, tables {p}, naming {h}", ks)
    st.sample([name, p, h, {M.text(m): c for _, d in fs for m, c in list(d.items())[:3]}])


def case_tables(st, name, idx):
    variables, fs = tables(name, 0, lambda i: SMALL[name][idx[i]])
    check(variables, fs, st, True, f"{name} {idx}", range(1, len(variables) + 1))

"""Conditioning of every small network on every evidence."""
import itertools

from .. import model as M
from ..core import attempt, equal, require
from ..impl import World, RelationGraph, network, set_view, view
from ..shapes import SHAPES, names, sample, shape

ID = "R11"
ASSUMPTIONS = ["evidence is a sample of the same network"]
WORLDS = ["z3", "z2", "z2+d", "s3", "f2", "n3", "k2", "h2", "h3", "w2", "v4one", "v4", "f3", "s3r1", "f2+d", "multi", "v4two", "n4"]


def bounds(tier):
    return ("every evidence sample (and the empty one) on the network of all samples, on all networks of one or two outcomes "
            "and all insertion orders, for 18 vocabularies (directed relations and samples with two values of a variable "
            "included); all chains of two evidences" + (" and three" if tier == "thorough" else "")
            + " on the network of all samples of 6 vocabularies; networks of one outcome of each of 10 shapes on 5 to 8 variables, every sample that "
            "differs from it in one value, one relation or one relation less, and samples of one or two further variables, on every part of it of up to 2 relations or "
            "lacking up to 1 relation, the same with one value or relation changed, and the whole, under 5 hash assignments; chains of 20 observations")


def space(name):
    base = name.split("+")[0]
    if name == "multi":       # connected samples that may hold two values of one variable
        v, r = [("a", ["x", "y"]), ("b", ["x", "y"]), ("c", ["x"])], ["r"]
        pairs = M.pairs_of(v)
        out = []
        for k in (1, 2, 3):
            for ps in itertools.combinations(pairs, k):
                m = M.from_edges((p, "r") for p in ps)
                if M.is_connected(m):
                    out.append(m)
        return (v, r), [M.single(a, x) for a, xs in v for x in xs] + out
    v, r = M.world(base)
    return (v, r), M.all_samples(v, r, directed=name.endswith("+d"))


def cases(tier):
    out = [["pairs", w, k, 32] for w in WORLDS for k in range(32)]
    out += [["chain", w, k, 16, 2] for w in ("s3", "f2", "n3", "k2", "h2", "v4one") for k in range(16)]
    if tier == "thorough":
        out += [["chain", w, k, 32, 3] for w in ("f2", "n3", "k2", "v4one") for k in range(32)]
    out += [["big", s, n, (i + n) % 5 if tier != "thorough" else h] for i, s in enumerate(SHAPES) for n in (5, 6, 8)
            for h in (range(5) if tier == "thorough" else (0,))]
    out += [["line", h] for h in range(5)]
    return out


def run_case(case, st):
    globals()["case_" + case[0]](st, *case[1:])


def check(w, net, model, ev, where, st, deep=False):
    """Condition net on ev and look at everything the statement promises. Returns (conditional, model)."""
    st.step()
    s = w.sample(ev)
    cond = net.conditional_graph(s)
    want = M.condition(model, ev)
    got = set_view(cond.outcomes)
    if got != want:
        lost = [M.text(m) for m in want if m not in got]
        extra = [M.text(m) for m in got if m not in want]
        equal(got, want, f"{where} conditioned on {M.text(ev)}: lost {lost[:3]}, kept wrongly {extra[:3]}; outcomes")
    equal(cond.outcomes.length, sum(want.values()), f"{where} conditioned on {M.text(ev)}: number of outcomes")
    require(cond.evidence == s and view(cond.evidence) == ev, f"{where}: evidence reported is {cond.evidence}")
    if deep:
        equal(set_view(net.outcomes), model, f"{where} after conditioning on {M.text(ev)}")
        rg = cond.relation_graph()
        require(isinstance(rg, RelationGraph), "conditional network turns in to a network")
        equal(set_view(rg.outcomes), want, f"{where}: network of the conditional network")
        require(rg.outcomes == cond.outcomes, "network of the conditional network has equal outcomes")
        again = rg.conditional_graph(s)
        equal(set_view(again.outcomes), want, f"{where} conditioned twice on {M.text(ev)}")
        equal(set_view(net.conditional_graph(s).outcomes), want, f"{where} conditioned again on {M.text(ev)}")
        b = cond.builder()
        if want:
            equal(set_view(b.build().outcomes), want, f"{where}: builder of the conditional network")
            some = next(iter(want))
            b.add_outcome(w.sample(some), 3)
            equal(set_view(b.build().outcomes), {**want, some: want[some] + 3}, f"{where}: extended builder")
        else:
            require(not attempt(b.build)[0], "a builder without outcomes builds nothing")
        equal(set_view(cond.outcomes), want, f"{where}: conditional network after use of its builder")
        equal(cond.name and str(cond.name), str(cond.name), "name")
        equal(net.conditional_graph(s, "given name").name, "given name", "name of the conditional network")
        st.step(5)
    return cond, want


def case_pairs(st, name, part, parts):
    (v, r), sp = space(name)
    w = World(spec=(v, r))
    sp = [M.EMPTY] + sp
    big = {m: 1 + (7 * i) % 4 for i, m in enumerate(sp)}
    full = network(w, big)
    for i, a in enumerate(sp):
        if i % parts != part:
            continue
        check(w, full, big, a, "network of all samples", st, deep=True)
        # two-outcome networks: a with every other outcome, on every evidence
        pairs = [{a: 2}] + [{a: 1, b: 5} for b in sp[:i]] if len(sp) <= 45 else [{a: 2}, {a: 1, sp[i - 1]: 10 ** 20}]
        for model in pairs:
            net = network(w, model, order=list(model) if i % 2 else list(reversed(list(model))))
            where = f"network { {M.text(m): c for m, c in model.items()} }"
            for n, ev in enumerate(sp):
                check(w, net, model, ev, where, st, deep=(n + i) % 17 == 0)
            st.trace()
            st.state((name, tuple(sorted(M.text(m) for m in model))))
        st.sample([name, M.text(a)])


def case_chain(st, name, part, parts, length):
    (v, r), sp = space(name)
    w = World(spec=(v, r))
    big = {m: [1, 2, 3, 10 ** 20, 1000][i % 5] for i, m in enumerate([M.EMPTY] + sp)}
    full = network(w, big)
    evs = [M.EMPTY] + sp

    def go(net, model, chain):
        for i, ev in enumerate(evs):
            if not chain and i % parts != part:
                continue
            where = "network of all samples" + "".join(f" | {M.text(e)}" for e in chain)
            cond, want = check(w, net, model, ev, where, st)
            if len(chain) + 1 < length:
                go(cond.relation_graph(), want, chain + [ev])
            st.state((name, tuple(M.text(e) for e in chain), M.text(ev)))
        st.trace()

    go(full, big, [])
    equal(set_view(full.outcomes), big, "network of all samples after all conditionings")


def case_big(st, kind, n, h):
    vs = names(n + 2, h)
    w = World(spec=([(v, [0, 1]) for v in vs], ["r", "s"]))
    idx = shape(kind, n)

    def changed(pairs, i=None, k=None):
        return sample(vs, pairs, (lambda x: int(x == i)), (lambda x: "s" if x == k else "r"))
    outs = [changed(idx)] + [changed(idx, i=i) for i in range(n)] + [changed(idx, k=k) for k in range(len(idx))]
    outs += [changed(idx[:k] + idx[k + 1:]) for k in range(len(idx))]
    outs += [M.single(vs[n], 0), M.single(vs[n + 1], 1), sample(vs, [(n, n + 1)]), sample(vs, [(0, n)]), M.single(vs[0], 0), M.single(vs[0], 1)]
    model = {}
    for i, m in enumerate(outs):
        if M.is_connected(m) and m not in model:
            model[m] = 1 + i % 5
    net = network(w, model)
    evs = dict.fromkeys([M.EMPTY] + [M.single(v, x) for v in vs for x in (0, 1)])
    parts = [list(c) for k in (1, 2) for c in itertools.combinations(idx, k)] + [idx[:k] + idx[k + 1:] for k in range(len(idx))] + [idx]
    for es in parts:
        used = sorted({i for p in es for i in p})
        for m in [changed(es)] + [changed(es, i=i) for i in used[:1] + used[-1:]] + [changed(es, k=k) for k in (0, len(es) - 1)]:
            if M.is_connected(m):
                evs[m] = None
    for i, ev in enumerate(evs):
        check(w, net, model, ev, f"network of samples of the shape {kind} on {n} variables", st, deep=i % 5 == 0)
        st.state((kind, n, h, M.text(ev)))
    st.trace()


def case_line(st, h):
    """One observation after the other along a chain of 20 variables."""
    n = 20
    vs = names(n, h)
    w = World(spec=([(v, [0, 1]) for v in vs], ["r"]))
    model = {}
    for i in range(n - 1):
        for a, b in itertools.product((0, 1), repeat=2):
            model[sample(vs, [(i, i + 1)], lambda x: a if x == i else b)] = 1 + (i + a + 2 * b) % 7
    net = network(w, model)
    for i in range(n):
        cond, model = check(w, net, model, M.single(vs[i], i % 2), f"after {i} observations", st, deep=True)
        net = cond.relation_graph()
        st.state((h, i))
    st.trace()

"""Grouping of collections and joining of networks on variables."""
import itertools

from .. import model as M
from ..core import Violation, attempt, equal, require
from ..shapes import names as hashed, sample as shaped, shape
from ..impl import World, RelationGraph, SampleSetBuilder, network, set_view

ID = "R16"
ASSUMPTIONS = ["collections to be grouped hold no empty sample",
               "joining on several variables may take them in any order: the result has to be that of one of the orders"]
ONE3 = ([("a", ["x"]), ("ab", ["x"]), ("b", ["x"])], ["r", "s"])
TWO3 = ([("a", ["x", "y"]), ("b", ["x", "y"]), ("c", ["x"])], ["r"])
INT3 = ([(0, [0, 1]), (1, [0]), ((0, 1), [""])], [0])
ONE4 = ([("a", ["x"]), ("b", ["x"]), ("c", ["x"]), ("d", ["x"])], ["r"])
TWIN3 = ([(M.N("a", 1), [M.N("x", 1), M.N("x", 2)]), (M.N("a", 2), [M.N("x", 1)]), (M.N("a", 3), [M.N("x", 1)])], [M.N("r", 1)])
NAMED3 = ([("a", ["x"]), ("b", ["x"]), (frozenset({"a", "b"}), ["x"])], ["r", "s"])     # one variable named by two others
VOC = {"named3": NAMED3, "twin3": TWIN3, "one3": ONE3, "two3": TWO3, "int3": INT3, "one4": ONE4}


def bounds(tier):
    return ("grouping of all collections of up to 3 samples out of the complete sample spaces of 6 vocabularies with 3 or 4 "
            "variables (all storage orders up to 3), of all sets of pair structures of chained, nested and bridged kind on "
            "5 variables, and of collections whose groups coincide in variables; joining of all networks of up to 3 "
            "outcomes of 5 vocabularies (4 hash assignments) and of all two-outcomes-per-factor networks on every "
            "variable, on every set of variables and by default; chains of 5 (thorough: 6) samples linked by shared pairs in all "
            "storage orders, cut at every place; stars of up to 5 groups of 2 outcomes joined on their centre under 5 hash "
            "assignments"
            "; chains of 1200 and stars of 1100 groups; networks of 4, 11 and 14 variables, one group per pair of 5 shapes, joined on all variables, by default and but for one"
            + ("; collections and networks of 4 samples in thorough" if tier == "thorough" else ""))


def renamed(name, h):
    v, r = VOC[name]
    if not h:
        return v, r
    hs = [[0, 1, 2, 3], [3, 2, 1, 0], [16, 0, 8, 24]][h - 1]
    return [(M.HS(str(x), hs[i]), xs) for i, (x, xs) in enumerate(v)], r


def cases(tier):
    out = []
    for n, parts in (("one3", 32), ("twin3", 24), ("two3", 48), ("int3", 16), ("one4", 64), ("named3", 24)):
        out += [["group", n, k, parts, 3] for k in range(parts)]
    out += [["bridge", k] for k in range(24)]
    out += [["same"]]
    out += [["chain", h, f, 6 if tier == "thorough" else 5] for h in range(5) for f in range(5)]
    out += [["star", h, g] for h in range(5) for g in (2, 3, 4, 5)]
    for n, parts in (("one3", 24), ("two3", 64), ("int3", 16), ("named3", 24)):
        out += [["join", n, h, k, parts, 3 if n != "two3" or h == 0 else 2] for h in range(4) for k in range(parts)]
    out += [["join", "twin3", 0, k, 24, 3] for k in range(24)]
    out += [["factors", h, k] for h in range(4) for k in range(12)]
    out += [["long", k] for k in range(4)]
    out += [["every", s, n, h] for s in ("path", "cycle", "star", "tree", "wheel") for n in (4, 11, 14) for h in range(5)]
    if tier == "thorough":
        out += [["group", n, k, 128, 4] for n in ("one3", "int3") for k in range(128)]
        out += [["join", n, 0, k, 128, 4] for n in ("one3", "int3") for k in range(128)]
    return out


def run_case(case, st):
    globals()["case_" + case[0]](st, *case[1:])


def groups(model):
    """List of (variables, {sample: count}) for a collection, by chains of shared pairs."""
    key = {m: frozenset(M.endpoint_variables(m)) if m[1] else frozenset({("single",) + tuple(M.variables_of(m))})
           for m in model}
    rest, out = list(model), []
    while rest:
        grp = [rest.pop(0)]
        keys = set(key[grp[0]])
        while True:
            more = [m for m in rest if key[m] & keys]
            if not more:
                break
            for m in more:
                rest.remove(m)
                grp.append(m)
                keys |= key[m]
        out.append((frozenset(v for m in grp for v, _ in m[0]), {m: model[m] for m in grp}))
    return out


def ambiguous(gs):
    return len({vs for vs, _ in gs}) < len(gs)


def check_group(w, model, order, st):
    st.step()
    b = SampleSetBuilder(w.provider)
    for m in order:
        b.add(w.sample(m), model[m])
    ss = b.build()
    want = groups(model)
    ok, got = attempt(ss.group_intersecting)
    t = f"grouping of { {M.text(m): model[m] for m in order} }"
    if ok != (not ambiguous(want)):
        raise Violation(f"{t} {'accepted' if ok else f'refused: {got!r}'}")
    if ok:
        equal({frozenset(k): set_view(s) for k, s in got.items()}, dict(want), t)
        equal(sum(s.length for s in got.values()), sum(model.values()), f"{t}: samples with counts")
    equal(set_view(ss), model, "collection after grouping")


def case_group(st, name, part, parts, size):
    v, r = VOC[name]
    w = World(spec=(v, r))
    sp = M.all_samples(v, r)
    n = 0
    for k in range(0 if part == 0 else 1, size + 1):
        for sub in itertools.combinations(sp, k):
            n += 1
            if n % parts != part:
                continue
            model = {m: [1, 3, 10 ** 20, 1000][(i + n) % 4] for i, m in enumerate(sub)}
            orders = itertools.permutations(sub) if k == 2 or k == 3 and len(sp) < 40 else (sub, sub[::-1], sub[1:] + sub[:1])
            for o in orders:
                check_group(w, model, o, st)
            st.trace()
            st.state((name, tuple(M.text(m) for m in sub)))
            st.sample([M.text(m) for m in sub])


def structures(names, max_pairs):
    pairs = list(itertools.combinations(names, 2))
    out = []
    for k in range(1, max_pairs + 1):
        for ps in itertools.combinations(pairs, k):
            m = M.from_edges((frozenset({(a, "x"), (b, "x")}), "r") for a, b in ps)
            if M.is_connected(m):
                out.append(m)
    return out


def case_bridge(st, part):
    """5 variables: chains of samples that only meet through later ones."""
    names = "abcde"
    w = World(spec=([(n, ["x", "y"]) for n in names], ["r"]))
    pair = [M.from_edges([(frozenset({(a, "x"), (b, "x")}), "r")]) for a, b in itertools.combinations(names, 2)]
    two = [m for m in structures(names, 2) if len(m[1]) == 2]
    singles = [M.single(n, "x") for n in names]
    n = 0
    for a, b, c in itertools.combinations(two, 3):
        n += 1
        if n % 24 != part:
            continue
        model = {a: 2, b: 3, c: 5, pair[n % 10]: 7, singles[n % 5]: 11, M.replace(a, {x: "y" for x in names}): 13}
        if n % 4 == 0:
            model[M.single(names[n % 5], "y")] = 17
        orders = [list(model), list(model)[::-1], list(model)[2:] + list(model)[:2]]
        for o in orders:
            check_group(w, model, o, st)
        st.state((n,))
        st.trace()


def case_same(st):
    """Two different groups over the same four variables: refused."""
    w = World(spec=ONE4)
    sp = [m for m in structures("abcd", 3) if len(m[0]) == 4]
    for a, b in itertools.combinations(sp, 2):
        if not (M.endpoint_variables(a) & M.endpoint_variables(b)):
            for o in ((a, b), (b, a)):
                check_group(w, {a: 1, b: 2}, o, st)
            ok, _ = attempt(lambda: network(w, {a: 1, b: 2}).joined_on_variables({"a"}))
            require(not ok, "joining on a variable with groups over the same variables is refused")
            st.state((M.text(a), M.text(b)))
    st.trace()


def join_on(model, var):
    sel = {m: c for m, c in model.items() if var in M.variables_of(m)}
    out = {m: c for m, c in model.items() if m not in sel}
    if sel:
        gs = groups(sel)
        if ambiguous(gs):
            return None
        for m, c in M.natural_join([g for _, g in gs]).items():
            out[m] = out.get(m, 0) + c
    return out


def frozen(model):
    return frozenset(model.items())


def results(model, variables):
    """Results over all orders of the variables (None inside: some order is refused)."""
    cur = {frozenset(variables): None}
    acc = set()

    def go(m, rest):
        if m is None:
            acc.add(None)
            return
        if not rest:
            acc.add(frozen(m))
            return
        for v in rest:
            go(join_on(m, v), rest - {v})
    go(model, frozenset(variables))
    return acc


def check_join(w, net, model, variables, st):
    st.step()
    used = set(variables) if variables is not None else {v for m in model for v in M.variables_of(m)}
    want = results(model, used)
    keep = None if variables is None else set(variables)
    ok, got = attempt(lambda: net.joined_on_variables(variables) if variables is not None else net.joined_on_variables())
    t = f"joining { {M.text(m): c for m, c in model.items()} } on {variables if variables is not None else 'all variables'}"
    equal(variables, keep, "join variables after the call")
    if not ok:
        if None not in want:
            raise Violation(f"{t} refused: {got!r}")
        return
    g = frozen(set_view(got.outcomes))
    if g not in want:
        raise Violation(f"{t}: got { {M.text(m): c for m, c in g} }, expected "
                        f"{[{M.text(m): c for m, c in x} for x in list(want)[:2] if x is not None]}")
    require(isinstance(got, RelationGraph), "result is a network")
    equal(got.outcomes.length, sum(c for _, c in g), "number of joined outcomes")
    equal(set_view(net.outcomes), model, "source network after joining")


def variable_sets(variables, every):
    names = [v for v, _ in variables]
    out = [None] + [{n} for n in names] + [set(), {"?"}, {"?", names[0]}]
    if every:
        out += [set(c) for k in range(2, len(names) + 1) for c in itertools.combinations(names, k)]
    return out


def case_join(st, name, h, part, parts, size):
    v, r = renamed(name, h)
    w = World(spec=(v, r))
    sp = [M.EMPTY] + M.all_samples(v, r)
    n = 0
    for k in range(1, size + 1):
        for sub in itertools.combinations(sp, k):
            n += 1
            if n % parts != part:
                continue
            model = {m: [2, 3, 5, 7, 1000, 10 ** 20][(i + n) % 6] for i, m in enumerate(sub)}
            net = network(w, model, order=sub if n % 2 else sub[::-1])
            for vs in variable_sets(v, k < 3 or n % 7 == 0)[0 if k < 3 else n % 2:]:
                check_join(w, net, model, vs, st)
            st.trace()
            st.state((name, h, tuple(M.text(m) for m in sub)))


def case_factors(st, h, part):
    """Two outcomes per structure: every pair and triple of structures on 3 variables, and of pairs on 4."""
    v, r = renamed("one4", h)
    names = [x for x, _ in v]
    w = World(spec=([(x, ["x", "y"]) for x in names], ["r"]))
    structs = structures(names[:3], 3) + [M.from_edges([(frozenset({(a, "x"), (names[3], "x")}), "r")]) for a in names[:3]]
    structs += [M.single(x, "x") for x in names]
    n = 0
    for k in (2, 3):
        for combo in itertools.combinations(structs, k):
            n += 1
            if n % 12 != part:
                continue
            model, i = {}, 1
            for m in combo:
                flip = {x: "y" for x in names}
                some = {x: "y" for x in names[:1 + n % 3]}
                for o in (m, M.replace(m, flip), M.replace(m, some)):
                    i += 1
                    model[o] = [i, 10 ** 20, 1000][i % 3]
            net = network(w, model)
            for vs in [None] + [{x} for x in names] + [set(names[:2]), set(names[1:3])]:
                check_join(w, net, model, vs, st)
            st.trace()
            st.state((h, n))


def case_chain(st, h, first, n):
    """n samples of two pairs each, consecutive ones share a pair: every storage order, whole and with one link cut."""
    vs = hashed(2 * n + 3, h)
    w = World(spec=([(v, [0, 1]) for v in vs], ["r", "s"]))
    path = [(i, i + 1) for i in range(2 * n + 2)]
    for cut in [None] + list(range(1, n)):
        chain, at = [], 0
        for k in range(n):
            if k == cut:
                at += 1       # shares a variable only with the sample before
            chain.append(shaped(vs, path[at:at + 2], value=k % 2, relation="rs"[k % 2]))
            at += 1
        model = {m: 2 + i for i, m in enumerate(chain)}
        for order in itertools.permutations(chain):
            if order[0] == chain[first]:
                check_group(w, model, order, st)
                st.trace()
        model[M.single(vs[0], 0)] = 50
        model[M.single(vs[at], 1)] = 60
        check_group(w, model, list(model), st)
        st.state((h, first, cut))


def case_star(st, h, g):
    """g groups that meet in one variable only, of two or three outcomes each, with outcomes that stay untouched."""
    vs = hashed(g + 3, h)
    w = World(spec=([(v, [0, 1]) for v in vs], ["r", "s"]))

    def spoke(i, a, b, r="r"):
        return M.from_edges([(frozenset({(vs[0], a), (vs[i], b)}), r)])
    for pattern in range(4):
        model = {}
        for i in range(1, g + 1):
            rows = [(0, 0), (1, 0)] if pattern == 0 else [(0, 0), (0, 1)] if pattern == 1 else \
                [(i % 2, 0), (0, 1)] if pattern == 2 else [(0, 0), (0, 1), (1, 0)]
            for j, (a, b) in enumerate(rows):
                model[spoke(i, a, b, "rs"[i % 2])] = 1 + (3 * i + j) % 5
        model[M.from_edges([(frozenset({(vs[g + 1], 0), (vs[g + 2], 1)}), "r")])] = 7      # not on the centre
        if pattern % 2:
            model[M.EMPTY] = 3
            model[M.single(vs[0], 0)] = 2
        for order in (list(model), list(model)[::-1]):
            net = network(w, model, order=order)
            check_join(w, net, model, {vs[0]}, st)
            check_join(w, net, model, {vs[1]}, st)
            check_join(w, net, model, {vs[g + 1]}, st)
            st.trace()
        st.state((h, g, pattern))


def case_long(st, kind):
    """Very many samples: one group of all, pairs of groups, and a star joined on its centre."""
    n = 1200
    w = World(spec=([(i, [0, 1]) for i in range(n)], ["r", "s"]))

    def path(i, k, x=0):
        return M.from_edges([(frozenset({(j, x), (j + 1, x)}), "rs"[j % 2]) for j in range(i, i + k)])
    if kind < 2:
        model = {path(i, 2): 1 + i % 7 for i in range(n - 2) if kind == 0 or i % 10 < 5}
        for order in (list(model), list(model)[::-1], list(model)[::2] + list(model)[1::2]):
            b = SampleSetBuilder(w.provider)
            for m in order:
                b.add(w.sample(m), model[m])
            got = {frozenset(k): set_view(s) for k, s in b.build().group_intersecting().items()}
            want = {frozenset(range(n)): model} if kind == 0 else {}
            if kind == 1:
                for i in range(0, n - 2, 10):
                    g = {path(j, 2): 1 + j % 7 for j in range(i, min(i + 5, n - 2))}
                    want[frozenset(v for m in g for v, _ in m[0])] = g
            if got != want:
                raise Violation(f"grouping of {len(model)} samples in chains gives {len(got)} groups with "
                                f"{sorted(len(g) for g in got.values())[:5]}... samples, expected {len(want)}")
            st.step()
    else:
        n = 1100
        model = {M.from_edges([(frozenset({(0, 0), (i, 0)}), "rs"[i % 2])]): 1 + (i % 50 == 0) for i in range(1, n)}
        model[M.from_edges([(frozenset({(0, 0), (1, 1)}), "r")])] = 5
        if kind == 3:
            model[M.from_edges([(frozenset({(0, 1), (1, 1)}), "r")])] = 7      # fits no other group
            model[M.EMPTY] = 2
        got = set_view(network(w, model).joined_on_variables({0}).outcomes)
        rest = [(m, c) for m, c in model.items() if m[1] and (1, 0) not in m[0] and (1, 1) not in m[0]]
        want, product = {}, 1
        for _, c in rest:
            product *= c
        for x in (0, 1):
            first = M.from_edges([(frozenset({(0, 0), (1, x)}), "r" if x else "s")])
            want[(first[0].union(*[m[0] for m, _ in rest]), first[1].union(*[m[1] for m, _ in rest]))] = product * model[first]
        if kind == 3:
            want[M.EMPTY] = 2
        if got != want:
            raise Violation(f"joining {n - 1} groups gives {sorted(got.values())}, expected {sorted(want.values())}")
        st.step(n)
    st.state((kind,))
    st.trace()


def case_every(st, kind, n, h):
    """Networks of one group per pair of a larger shape, joined on all of its variables."""
    vs = hashed(n + 1, h)
    w = World(spec=([(v, list(range(12))) for v in vs], ["r", "s"]))
    idx = shape(kind, n)
    rowss = [[(0, 0), (1, 1)]] + ([[(0, 0), (0, 1), (1, 1)]] if kind == "path" else []) + ([[(x, x) for x in range(12)]] if kind in ("path", "tree", "cycle") else [])
    for rows in rowss:
        model, fs = {}, []
        for k, (i, j) in enumerate(idx):
            f = {M.from_edges([(frozenset({(vs[i], a), (vs[j], b)}), "rs"[k % 2])]): 1 + (k * 3 + a + b) % 3 for a, b in rows}
            fs.append(f)
            model.update(f)
        aside = {M.single(vs[n], 3): 5}
        model.update(aside)
        net = network(w, model)
        want = {**M.natural_join(fs), **aside}
        for variables in (None, set(vs[:n]), set(vs)):
            got = set_view((net.joined_on_variables(variables) if variables is not None else net.joined_on_variables()).outcomes)
            if got != want:
                raise Violation(f"joining the {kind} of {n} variables with rows {rows} on {variables or 'all variables'}: {len(got)} outcomes, "
                                f"{sum(got.values())} in total, expected {len(want)}, {sum(want.values())}")
            st.step()
        # on all but the last variable of the shape: what holds only there stays apart
        if kind == "path" or kind == "tree":
            got = set_view(net.joined_on_variables(set(vs[:n - 1])).outcomes)
            equal(got == want, True, f"joining the {kind} of {n} variables on all but a leaf")
            st.step()
    st.state((kind, n, h))
    st.trace()

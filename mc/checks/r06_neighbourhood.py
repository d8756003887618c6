"""Neighbourhood exploration: every graph, every start set, every relation filter, against breadth first search."""
import itertools

from .. import model as M
from ..core import attempt, equal, require
from ..impl import World, edges_to_impl, layers_view, edge_view, node_view, rel_to_impl, view

ID = "R06"
ASSUMPTIONS = ["a relation filter, if given, is not empty"]


def bounds(tier):
    return ("every connected labelled graph on up to 4 variables with 2 relations, up to 5 variables with 1 relation, "
            "directed relations on 3 variables, samples with two values of a variable; every non-empty start set of "
            "sample values, also with values outside the sample; every non-empty relation filter; paths, cycles, "
            "ladders and stars up to 9 variables with every start set of up to 2 values; every query asked twice, the first "
            "answer emptied by its receiver in between; chains, rings, combs and stars of 1200 values, from each end, the middle and both ends")


def cases(tier):
    out = [["graphs", w, k, 32] for w in ("v4two", "v5one", "z3", "z2+d", "f3", "s3r1+d", "k3", "w2", "h2", "h3", "n4") for k in range(32)]
    out += [["multi", "s3", k, 8] for k in range(8)]
    out += [["shape", s, n] for s in ("path", "cycle", "ladder", "star", "lollipop", "mixed") for n in (6, 7, 8, 9)]
    out += [["six", k, 64] for k in range(64)]
    out += [["long", s, n] for s in ("chain", "ring", "comb", "star") for n in ((1200, 3000) if tier == "thorough" else (1200,))]
    if tier == "thorough":
        out += [["graphs", "v4two+d", k, 512] for k in range(512)]
    return out


def run_case(case, st):
    globals()["case_" + case[0]](st, *case[1:])


def spoil(answer):
    """Edit an answer in place as its receiver may: the next answer must not show it."""
    for v in answer.values():
        if isinstance(v, set):
            v.clear()
    if isinstance(answer, dict):
        answer.clear()


def explore(w, s, m, relations, st, starts=None):
    rels = sorted({r for _, r in m[1]}, key=repr)
    extra = [r for r in relations if r not in rels][:1] + ["?"]
    filters = [None]
    pool = rels + extra[:1]
    for k in range(1, min(len(pool), 3) + 1):
        filters += [set(c) for c in itertools.combinations(pool, k)]
    filters.append({"?"})
    real = {node_view(n): n for n in s.nodes}
    nodes = sorted(m[0], key=repr)
    # a value that is not in the sample
    other = None
    for v, xs in w.variables:
        for x in xs:
            if (v, x) not in m[0]:
                other = (v, x)
    if other:
        real[other] = next(iter(w.sb().build_single_node(*other).nodes))
    if starts is None:
        starts = [set(c) for k in range(1, len(nodes) + 1) for c in itertools.combinations(nodes, k)]
    if other:
        starts = starts + [{other}, {other, nodes[0]}]
    for flt in filters:
        rf = None if flt is None else {rel_to_impl(r) for r in flt}
        for n in nodes + ([other] if other else []):
            st.step()
            want = {}
            for e, r in m[1]:
                if n in e and (flt is None or r in flt):
                    (o,) = e - {n}
                    want[o] = (e, r)
            for again in ("", ", again"):
                got = s.neighboring_values(real[n], rf) if rf is not None else s.neighboring_values(real[n])
                equal({node_view(k): edge_view(e) for k, e in got.items()}, want,
                      f"neighbours of {n} in {M.text(m)} filter {flt}{again}")
                spoil(got)
        for c in starts:
            rc = {real[n] for n in c}
            st.step(2)
            st.state((m, frozenset(c), None if flt is None else frozenset(flt)))
            args = (rf,) if rf is not None else ()
            belt, external = M.belt(m, c, flt), M.external(m, c, flt)
            for again in ("", ", again"):
                got = s.belt_nodes(rc, *args)
                equal(layers_view(got), belt, f"belt of {c} in {M.text(m)} filter {flt}{again}")
                spoil(got)
                got = s.external_nodes(rc, *args)
                equal(layers_view(got), external, f"exploration from {c} in {M.text(m)} filter {flt}{again}")
                spoil(got)
            equal({node_view(n) for n in rc}, c, "start set after exploration")
    for f in (s.belt_nodes, s.external_nodes):
        ok, _ = attempt(lambda: f(set()))
        require(not ok, f"empty start set accepted on {M.text(m)}")
    equal(view(s), m, "sample after exploration")
    st.trace()


def case_graphs(st, wname, part, parts):
    base = wname.split("+")[0]
    w = World(base)
    sp = M.all_samples(w.variables, w.relations, directed="+d" in wname)
    relations = list(w.relations)
    for i, m in enumerate(sp):
        if i % parts == part:
            explore(w, w.sample(m), m, relations, st)
            st.sample(M.text(m))


def case_multi(st, wname, part, parts):
    w = World(wname)
    edges = [(e, w.relations[i % 2]) for i, e in enumerate(M.pairs_of(w.variables))]
    i = 0
    for k in (2, 3, 4):
        for es in itertools.combinations(edges, k):
            m = M.from_edges(es)
            if M.is_connected(m) and not M.single_valued(m):
                i += 1
                if i % parts == part:
                    explore(w, w.sb().build_from_edges(edges_to_impl(m[1])), m, w.relations, st)


def case_shape(st, shape, n):
    variables = [(f"v{i}", ["0"]) for i in range(n)]
    w = World(spec=(variables, ["r", "s", "t"]))
    if shape == "path":
        idx = [(i, i + 1) for i in range(n - 1)]
    elif shape == "cycle":
        idx = [(i, (i + 1) % n) for i in range(n)]
    elif shape == "star":
        idx = [(0, i) for i in range(1, n)]
    elif shape == "lollipop":
        idx = list(itertools.combinations(range(4), 2)) + [(i, i + 1) for i in range(3, n - 1)]
    elif shape == "ladder":
        h = n // 2
        idx = [(i, i + 1) for i in range(h - 1)] + [(h + i, h + i + 1) for i in range(h - 1)] + [(i, h + i) for i in range(h)]
    else:
        idx = [(i, j) for i, j in itertools.combinations(range(n), 2) if (i * j + i + j) % 3 == 1] + [(i, i + 1) for i in range(n - 1)]
    idx = list(dict.fromkeys(tuple(sorted(p)) for p in idx))
    for pattern in range(3):
        rel = [lambda k: "r", lambda k: "rs"[k % 2], lambda k: "rst"[k % 3]][pattern]
        m = M.from_edges((frozenset({(f"v{i}", "0"), (f"v{j}", "0")}), rel(k)) for k, (i, j) in enumerate(idx))
        nodes = sorted(m[0])
        starts = [set(c) for k in (1, 2) for c in itertools.combinations(nodes, k)] + [set(nodes), set(nodes[:-1])]
        explore(w, w.sb().build_from_edges(edges_to_impl(m[1])), m, ["r", "s", "t"], st, starts)


def case_six(st, part, parts):
    """Every graph on 6 variables containing a path through all of them, starts of up to three values."""
    names = [f"v{i}" for i in range(6)]
    w = World(spec=([(n, ["0"]) for n in names], ["r", "s"]))
    path = [(i, i + 1) for i in range(5)]
    rest = [p for p in itertools.combinations(range(6), 2) if p not in path]
    for bits in range(1 << len(rest)):
        if bits % parts != part:
            continue
        idx = path + [p for k, p in enumerate(rest) if bits >> k & 1]
        m = M.from_edges((frozenset({(names[i], "0"), (names[j], "0")}), "rs"[k % 2]) for k, (i, j) in enumerate(idx))
        starts = [{(n, "0") for n in c} for k in (1, 2, 3) for c in itertools.combinations(names, k)]
        explore(w, w.sb().build_from_edges(edges_to_impl(m[1])), m, ["r", "s"], st, starts)


def case_long(st, shape, n):
    """Samples of many values, explored layer by layer."""
    w = World(spec=([(i, ["0"]) for i in range(n)], ["r", "s"]))
    h = n // 2
    idx = {"chain": [(i, i + 1) for i in range(n - 1)], "ring": [(i, (i + 1) % n) for i in range(n)], "star": [(0, i) for i in range(1, n)],
           "comb": [(i, i + 1) for i in range(h - 1)] + [(i, h + i) for i in range(h)]}[shape]
    m = M.from_edges((frozenset({(i, "0"), (j, "0")}), "rs"[k % 50 == 49]) for k, (i, j) in enumerate(idx))
    s = w.sb().build_from_edges(edges_to_impl(m[1]))
    real = {node_view(x): x for x in s.nodes}
    near = {}
    for e, r in m[1]:
        a, b = e
        near.setdefault(a, []).append((b, (e, r)))
        near.setdefault(b, []).append((a, (e, r)))
    for start in ({0}, {n - 1}, {h}, {0, n - 1}, {1, 2, h}):
        for flt in (None, {"r"}, {"s"}, {"r", "s"}):
            c = {(i, "0") for i in start}
            inside, front, want, first = set(c), set(c), {}, None
            while front:
                layer = {}
                for a in front:
                    for b, e in near[a]:
                        if b not in inside and (flt is None or e[1] in flt):
                            layer.setdefault(b, set()).add(e)
                first = layer if first is None else first
                want.update(layer)
                inside |= layer.keys()
                front = set(layer)
            args = () if flt is None else (set(flt),)
            for f, exp in ((s.belt_nodes, first), (s.external_nodes, want)):
                got = {node_view(k): {edge_view(e) for e in es} for k, es in f({real[x] for x in c}, *args).items()}
                if got != exp:
                    bad = sorted(k for k in set(got) | set(exp) if got.get(k) != exp.get(k))[0]
                    equal(got.get(bad), exp.get(bad), f"{shape} of {n}: {bad} in {f.__name__} from {c} over {flt}")
                st.step()
            st.state((shape, n, tuple(sorted(start)), None if flt is None else tuple(sorted(flt))))
    st.trace()

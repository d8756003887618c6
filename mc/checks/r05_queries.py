"""Comparison and lookup queries of every sample, and of every pair of samples."""
import itertools

from .. import model as M
from ..core import Violation, attempt, close, equal, require
from ..impl import World, edge_view, node_view, rel_from_impl, view, ValueNode, RelationEdge

ID = "R05"
ASSUMPTIONS = ["samples have one value per variable where the value of a variable is asked for"]
PAIRS = ["z3", "z2", "z2+d", "s3", "f3", "n3", "w2", "v4one", "v4", "s3r1", "k2", "k3", "h2", "h3", "v4two", "n4", "s3+d2", "s3r1+d"]


def bounds(tier):
    return ("all ordered pairs (part-of, similarity) and all unary queries with every argument, known and unknown, "
            "for the complete sample spaces of 18 vocabularies plus the empty sample"
            + (" (15 in thorough)" if tier == "thorough" else "") + "; large samples up to 9 variables against all "
            "their sub-samples")


def space(name):
    base = name.split("+")[0]
    v, r = M.world(base)
    if name.endswith("+d2"):
        return M.all_samples(v, r, directed=True, max_vars=2)
    return M.all_samples(v, r, directed=name.endswith("+d"))


def cases(tier):
    out = []
    for w in PAIRS + (["v4b", "v5one", "f3+d"] if tier == "thorough" else []):
        out += [["pairs", w, k, 16] for k in range(16)]
        out += [["unary", w, k, 8] for k in range(8)]
    out += [["big", shape, n] for shape in ("star", "path", "clique") for n in (6, 9)]
    return out


def run_case(case, st):
    globals()["case_" + case[0]](st, *case[1:])


def compare(a, b, ma, mb, st):
    st.step(2)
    if bool(a.is_subgraph(b)) != M.subgraph(ma, mb):
        raise Violation(f"{M.text(ma)} part of {M.text(mb)}: {a.is_subgraph(b)}")
    close(a.similarity(b), M.similarity(ma, mb), f"similarity of {M.text(ma)} and {M.text(mb)}")


def case_pairs(st, wname, part, parts):
    w = World(wname.split("+")[0])
    sp = space(wname) + [M.EMPTY]
    for i, ma in enumerate(sp):
        if i % parts != part:
            continue
        a = w.sample(ma)
        for mb in sp:
            compare(a, w.sample(mb), ma, mb, st)
        equal(view(a), ma, "sample after queries")
        st.state(ma)
        st.trace()
        st.sample(M.text(ma))


def unary(w, s, m, st):
    dom = dict(w.variables)
    vals = dict(m[0])
    t = M.text(m)
    equal(frozenset(s.values()), m[0], f"values of {t}")
    equal(frozenset(s.included_variables), M.variables_of(m), f"variables of {t}")
    equal(bool(s.is_single_node), not m[1], f"single value flag of {t}")
    equal(bool(s.is_k_0), m == M.EMPTY, f"empty flag of {t}")
    equal(frozenset(frozenset(p) for p in s.edges_endpoint_variables()), M.endpoint_variables(m), f"related pairs of {t}")
    ok, res = attempt(s.single_node_variable)
    if len(m[0]) == 1:
        require(ok and res == next(iter(m[0]))[0], f"variable of single value sample {t}: {res!r}")
    else:
        require(not ok, f"variable of {t}, which is no single value, gives {res!r}")
    st.step(6)
    if M.single_valued(m):
        for v in list(dom) + ["?", None, -1]:
            equal(bool(s.have_variable(v)), v in vals, f"{t} has variable {v!r}")
            got = s.value_for_variable(v)
            if v in vals:
                equal(got, vals[v], f"value of {v!r} in {t}")
            else:
                require(got is None, f"value of absent {v!r} in {t}: {got!r}")
            for x in list(dom.get(v, [])) + ["?", None, "x", 7]:
                equal(bool(s.have_value(v, x)), v in vals and vals[v] == x, f"{t} has value {v!r}={x!r}")
                st.step()
            st.step(2)
        # wrong pairing: a value of another variable
        for v, x in itertools.product(list(dom), {x for xs in dom.values() for x in xs}):
            equal(bool(s.have_value(v, x)), (v, x) in m[0], f"{t} has value {v!r}={x!r}")
            st.step()
    # restriction to variables
    names = list(dom)
    subsets = [set(c) for k in range(len(names) + 1) for c in itertools.combinations(names, k)]
    for vs in subsets + [set(names) | {"?"}, {"?"}]:
        got = s.variables_subgraph_hash(vs)
        gn = frozenset(node_view(o) for o in got if isinstance(o, ValueNode))
        ge = frozenset(edge_view(o) for o in got if isinstance(o, RelationEdge))
        equal(len(gn) + len(ge), len(got), f"restriction of {t} to {vs}: kinds of elements")
        equal(gn, frozenset(n for n in m[0] if n[0] in vs), f"values of {t} restricted to {vs}")
        equal(ge, frozenset((e, r) for e, r in m[1] if {v for v, _ in e} <= vs), f"relations of {t} restricted to {vs}")
        require(isinstance(hash(got), int), "restriction is hashable")
        st.step()
    pv = s.edges_set_view()
    if m[1]:
        equal(frozenset((e, rel_from_impl(r)) for e, r in pv), m[1], f"plain view of {t}")
    elif m[0]:
        equal(frozenset({pv}), m[0], f"plain view of {t}")
    else:
        require(pv is None, f"plain view of the empty sample {pv!r}")
    equal(view(s), m, "sample after queries")
    st.state(m)
    st.trace()


def case_unary(st, wname, part, parts):
    w = World(wname.split("+")[0])
    sp = space(wname) + [M.EMPTY]
    for i, m in enumerate(sp):
        if i % parts == part:
            unary(w, w.sample(m), m, st)


def case_big(st, shape, n):
    """A large sample and every connected sample obtained by dropping relations or changing one value."""
    variables = [(f"v{i}", ["0", "1"]) for i in range(n)]
    w = World(spec=(variables, ["r", "s"]))
    idx = {"star": [(0, i) for i in range(1, n)], "path": [(i, i + 1) for i in range(n - 1)],
           "clique": list(itertools.combinations(range(n), 2))}[shape]
    def mk(pairs, one=()):
        return M.from_edges((frozenset({(f"v{i}", "1" if i in one else "0"), (f"v{j}", "1" if j in one else "0")}),
                             "s" if (i + j) % 3 == 0 else "r") for i, j in pairs)
    full = mk(idx)
    family = [full, M.EMPTY, M.single("v0", "0"), M.single("v1", "1")]
    for k in range(len(idx)):
        family += [mk(idx[:k + 1]), mk(idx[k:]), mk(idx[:k + 1], {idx[k][1]})]
        family.append(mk(idx[:k] + idx[k + 1:]))
    family += [mk(idx, {i}) for i in range(n)]
    family = [m for m in dict.fromkeys(family) if m == M.EMPTY or m[0] and M.is_connected(m)]
    for ma, mb in itertools.product(family, repeat=2):
        compare(w.sample(ma), w.sample(mb), ma, mb, st)
    for m in family:
        s = w.sample(m)
        equal(frozenset(s.values()), m[0], "values")
        for i in range(n):
            equal(s.value_for_variable(f"v{i}"), dict(m[0]).get(f"v{i}"), "value of variable")
            equal(bool(s.have_variable(f"v{i}")), f"v{i}" in dict(m[0]), "variable")
        st.state(m)
        st.trace()

"""Sample identity: all construction routes of every sample, all pairs of samples."""
import itertools

from .. import model as M
from ..core import Violation, equal, require
from ..impl import (World, RelationGraphBuilder, SampleSet, SampleSetBuilder, edges_to_impl, rel_to_impl, rel_from_impl, view, ValueNode,
                    connected_order)
from scripts.relnet.activation_graph import ActivationGraph
from ..shapes import SHAPES, names, sample, shape

ID = "R03"
ASSUMPTIONS = ["samples of one network (one components provider)"]


def bounds(tier):
    return ("every sample of 20 vocabularies (directed relations in 4, up to 4 variables): every connected order of "
            "one-by-one construction for up to 4 relations, bulk, join of all two-part splits, extension of every "
            "sub-sample, replacement of every value, 4 names; all pairs of samples of each vocabulary compared; samples of 10 shapes on "
            "5 to 9 variables under 5 hash assignments, by 6 routes, compared with every sample that differs in one relation or value")


WORLDS = ["z3", "z2", "s3", "f3", "n3", "w2", "v4one", "v4", "s3r1", "k2", "k3", "h2", "h3", "v4two", "v4b", "n4"]
DIRECTED = ["z2+d", "s3+d2", "f2+d", "s3r1+d"]


def space(name):
    base = name.split("+")[0]
    v, r = M.world(base)
    if name.endswith("+d2"):
        return M.all_samples(v, r, directed=True, max_vars=2)
    return M.all_samples(v, r, directed=name.endswith("+d"))


def cases(tier):
    out = []
    for w in WORLDS + DIRECTED + (["k3+d", "f3+d", "v4+d"] if tier == "thorough" else []):
        out += [["routes", w, k, 16, tier] for k in range(16)]
        out += [["pairs", w, k, 16] for k in range(16)]
    out += [["multi", "s3"], ["multi", "f2"]]
    out += [["large", s, n, h] for s in SHAPES for n in (5, 6, 7, 8, 9) for h in range(5)]
    return out


def run_case(case, st):
    globals()["case_" + case[0]](st, *case[1:])


def same(a, b, m, route):
    if not (a == b and b == a and not (a != b)):
        raise Violation(f"{M.text(m)} built by {route} is unequal to the same sample built one by one")
    if hash(a) != hash(b):
        raise Violation(f"{M.text(m)} built by {route} has another hash")
    equal(view(b), m, f"content of sample built by {route}")
    equal(a.text_view(), b.text_view(), f"text of {M.text(m)} built by {route}")
    if len({a, b}) != 1 or {a: 1}.get(b) != 1:
        raise Violation(f"{M.text(m)} built by {route} does not collapse with its equal")


def routes(w, m, tier):
    nodes, edges = m
    for name in (None, "", "A", "{" + "x" + "}"):
        if edges:
            yield f"name {name!r}", lambda: w.sb().set_name(name).build_from_edges(edges_to_impl(edges))
        elif nodes:
            ((v, x),) = nodes
            yield f"name {name!r}", lambda: w.sb().set_name(name).build_single_node(v, x)
        else:
            yield f"name {name!r}", lambda: w.sb().set_name(name).build_empty()
    if not edges:
        if nodes:
            yield "join to empty", lambda: w.sb().join_sample(w.sample(m)).build()
            yield "own builder", lambda: w.sample(m).builder().build()
        return
    es = list(edges)
    yield "bulk, not validated", lambda: w.sb().build_from_edges(edges_to_impl(edges), False)
    yield "plain view and back", lambda: w.sb().build_from_edges(w.sample(m).edges_set_view())
    yield "own builder", lambda: w.sample(m).builder().build()
    yield "join to empty", lambda: w.sb().join_sample(w.sample(m)).build()
    if len(es) <= 4:
        for order in itertools.permutations(es):
            seen = set()
            for e, r in order:
                if seen and not (e & seen):
                    break
                seen |= e
            else:
                for flip in (False, True):
                    def one_by_one():
                        b = w.sb()
                        for e, r in order:
                            p, q = sorted(e, key=repr, reverse=flip)
                            if isinstance(r, M.D):
                                s, t = (p, q) if p[0] == r.s else (q, p)
                                if flip:
                                    b.add_directed_relation(s, t, r.r)
                                else:
                                    b.add_relation({p, q}, rel_to_impl(r))
                            else:
                                b.add_relation(frozenset([p, q]) if flip else {q, p}, r)
                        return b.build()
                    yield f"one by one {[str(x) for x in order]}", one_by_one
    else:
        for i in range(len(es)):
            def rotated():
                b = w.sb()
                rest = es[i:] + es[:i]
                seen = set()
                while rest:
                    j = next(j for j, (e, _) in enumerate(rest) if not seen or e & seen)
                    e, r = rest.pop(j)
                    seen |= e
                    b.add_relation(set(e), rel_to_impl(r))
                return b.build()
            yield "one by one, rotated", rotated
    # two-part splits: join one part to the other, or extend the builder of one part by the other
    for k in range(1, min(len(es), 4)):
        for part in itertools.combinations(es, k):
            a, b = M.from_edges(part), M.from_edges(set(es) - set(part))
            if M.is_connected(a) and M.is_connected(b) and a[0] & b[0]:
                yield "joining parts", lambda: w.sample(a).builder().join_sample(w.sample(b)).build()
            if M.is_connected(a):
                def extend():
                    bld = w.sample(a).builder()
                    rest, seen = connected_order(set(es) - set(part)), set(a[0])
                    while rest:
                        j = next(j for j, (e, _) in enumerate(rest) if e & seen)
                        e, r = rest.pop(j)
                        seen |= e
                        bld.add_relation(set(e), rel_to_impl(r))
                    return bld.build()
                yield "extending a part", extend
    ((v, x), *_) = sorted(nodes, key=repr)
    yield "extending a single value", lambda: _from_single(w, m, v, x)


def _from_single(w, m, v, x):
    b = w.sb().build_single_node(v, x).builder()
    rest, seen = connected_order(m[1]), {(v, x)}
    while rest:
        j = next(j for j, (e, _) in enumerate(rest) if e & seen)
        e, r = rest.pop(j)
        seen |= e
        b.add_relation(set(e), rel_to_impl(r))
    return b.build()


def case_routes(st, wname, part, parts, tier):
    w = World(wname.split("+")[0])
    dom = dict(w.variables)
    sp = space(wname) + [M.EMPTY]
    for i, m in enumerate(sp):
        if i % parts != part:
            continue
        st.state(m)
        first = w.sample(m)
        equal(view(first), m, "sample built one by one")
        variants = {first}
        for route, build in routes(w, m, tier):
            s = build()
            st.step()
            same(first, s, m, route)
            variants.add(s)
            # a second, longer living collection sees it as the same entry
        require(len(variants) == 1, lambda: f"{M.text(m)}: equal samples do not collapse in a set")
        # replacement of every value leads to the sample built directly, and back
        for v, x in m[0]:
            for y in dom[v]:
                to = {v: y}
                s = first.transform_with_replaced_values(to)
                same(w.sample(M.replace(m, to)), s, M.replace(m, to), f"replacement {to}")
                same(first, s.transform_with_replaced_values({v: x}, "back"), m, "replacement and back")
                st.step(2)
        # plain view: exact content, in model terms
        pv = first.edges_set_view()
        if m[1]:
            equal(frozenset((e, rel_from_impl(r)) for e, r in pv), m[1], "plain view")
        elif m[0]:
            equal(frozenset({pv}), m[0], "plain view of single value")
            same(first, w.sb().build_single_node(*pv), m, "plain view and back")
        else:
            equal(pv, None, "plain view of the empty sample")
        # collections: several builds collapse to one entry
        ssb = SampleSetBuilder(w.provider)
        n = 0
        for route, build in itertools.islice(routes(w, m, tier), 6):
            ssb.add(build(), 2)
            n += 2
        ss = ssb.build()
        equal({view(s): c for s, c in ss.items()}, {m: n}, "collection of equal samples")
        # another kind of object
        for o in itertools.chain(others(first, m), views_of(w, first)):
            require(not (first == o) and first != o, lambda: f"{M.text(m)} equals {o!r}")
        st.trace()
    st.sample(M.text(sp[part % len(sp)]))


def views_of(w, s):
    """Networks and views with exactly this sample."""
    net = RelationGraphBuilder(components_provider=w.provider).add_outcome(s).build()
    cond = net.conditional_graph(s)
    fold = net.folded_graph()
    act = cond.activation_graph() if s.nodes else ActivationGraph(w.provider, 1, set(), set(), "empty")
    yield from (w.provider, net, net.outcomes, net.outcomes.builder(), cond, fold, act, net.builder(), s.builder())
    yield from itertools.chain(fold.nodes, fold.edges, act.nodes, act.edges)


def others(s, m):
    yield from (None, 0, "", s.text_view(), s.name, frozenset(s.nodes), frozenset(s.edges), hash(s), m, s.nodes, s.edges)
    yield frozenset(s.nodes) | frozenset(s.edges)
    yield SampleSet.__new__(SampleSet)
    for n in s.nodes:
        yield n
    for e in s.edges:
        yield e


def case_pairs(st, wname, part, parts):
    w = World(wname.split("+")[0])
    sp = space(wname) + [M.EMPTY]
    twin = World(wname.split("+")[0])
    real = [w.sample(m) for m in sp]
    # the same sample with one common name: names do not matter
    named = []
    for m in sp:
        b = w.sb().set_name("same")
        named.append(b.build_from_edges(edges_to_impl(m[1])) if m[1] else
                     b.build_single_node(*next(iter(m[0]))) if m[0] else b.build_empty())
    for i, a in enumerate(real):
        if i % parts != part:
            continue
        for j, b in enumerate(named):
            st.step()
            if (a == b) != (i == j) or (a != b) != (i != j):
                raise Violation(f"{M.text(sp[i])} == {M.text(sp[j])} gives {a == b}")
            if i == j and hash(a) != hash(b):
                raise Violation(f"hash of {M.text(sp[i])} depends on the name")
        st.state(sp[i])
        st.trace()
    require(len(set(real) | set(named)) == len(sp), "set of all samples, built twice, has another size than the space")


def case_multi(st, wname):
    """Samples with two values of one variable (possible step by step) are also told apart by structure."""
    w = World(wname)
    pairs = M.pairs_of(w.variables)
    edges = [(e, r) for e in pairs for r in w.relations]
    ms = set()
    for k in (2, 3):
        for es in itertools.combinations(edges, k):
            m = M.from_edges(es)
            if len({e for e, _ in es}) == k and M.is_connected(m) and not M.single_valued(m):
                ms.add(m)
    ms = sorted(ms, key=M.text)[:400]
    real = [w.sb().build_from_edges(edges_to_impl(m[1])) for m in ms]
    for m, s in zip(ms, real):
        for order in itertools.permutations(m[1]):
            seen, b = set(), w.sb()
            for e, r in order:
                if seen and not (e & seen):
                    break
                seen |= e
                b.add_relation(set(e), r)
            else:
                same(s, b.build(), m, "one by one")
                st.step()
        st.state(m)
    for (i, a), (j, b) in itertools.product(enumerate(real), repeat=2):
        if (a == b) != (i == j):
            raise Violation(f"{M.text(ms[i])} == {M.text(ms[j])} gives {a == b}")
        st.step()
    st.trace(len(ms))


def case_large(st, shp, n, h):
    vs = names(n + 1, h)
    w = World(spec=([(v, [0, 1]) for v in vs], ["r", "s"]))
    idx = shape(shp, n)
    m = sample(vs, idx, relation=lambda k: "rs"[k % 2])
    first = w.sample(m)
    es = sorted(m[1], key=repr)

    def one_by_one(start, reverse):
        b, rest, seen = w.sb(), (es[start:] + es[:start])[::-1 if reverse else 1], set()
        while rest:
            j = next(j for j, (e, _) in enumerate(rest) if not seen or e & seen)
            e, r = rest.pop(j)
            seen |= e
            b.add_relation(set(e), r)
        return b.build()

    built = {first}
    for k in range(len(es)):
        for s in (one_by_one(k, False), one_by_one(k, True)):
            st.step()
            same(first, s, m, f"one by one from {k}")
            built.add(s)
    for s in (w.sb().set_name("N").build_from_edges(m[1]), w.sb().build_from_edges(frozenset(m[1]), False),
              w.sb().build_from_edges(first.edges_set_view()), first.builder().build(), w.sb().join_sample(first).build()):
        same(first, s, m, "bulk, plain view or join")
        built.add(s)
    equal(len(built), 1, f"{M.text(m)}: different objects in a set")
    near = [M.replace(m, {v: 1}) for v in vs[:n]]
    near += [(m[0], frozenset(x for x in m[1] if x != (e, r)) | {(e, "s" if r == "r" else "r")}) for e, r in es]
    near += [x for x in (M.from_edges(set(m[1]) - {e}) for e in es) if M.is_connected(x) and x[1]]
    near += [M.from_edges(m[1] | {(frozenset({(vs[i], 0), (vs[n], 0)}), "r")}) for i in range(n)]
    near += [M.from_edges(m[1] | {(frozenset({(vs[i], 0), (vs[j], 0)}), "r")})
             for i, j in itertools.combinations(range(n), 2) if (i, j) not in idx]
    for x in near:
        o = w.sb().build_from_edges(x[1])
        st.step()
        require(not (o == first) and o != first and len({o, first}) == 2, lambda: f"{M.text(x)} and {M.text(m)} compare equal")
        st.state((shp, n, h, M.text(x)))
    st.trace()

"""Exhaustive exploration of sample-builder histories against the builder model."""
import copy
import itertools

from .. import model as M
from ..core import Violation, attempt, equal, require
from ..shapes import names, sample as shaped, shape
from ..impl import World, DirectedRelation, edges_to_impl, rel_to_impl, view

ID = "R01"
ASSUMPTIONS = ["any raised exception is a rejection", "bulk building starts from a fresh builder"]

UNKNOWN = "?unknown?"
LONG = ("path", "cycle", "star", "ladder", "lollipop", "tree", "wheel", "caterpillar")


def bounds(tier):
    d = DEPTH[tier]
    return (f"builder histories: every reachable model state with up to {d['edges']} relations, in every state every "
            f"legal and illegal operation of the alphabet, and (small worlds) after every rejected operation every "
            f"operation again; from the builder of every sample of up to 3 relations (its own, one it was joined to, and a copy), every operation, "
            f"after samples without relations every pair of operations; complete operation trees of depth {d['tree']}; bulk build of every set of up to "
            f"{d['bulk']} relations; complete graphs on 6 to 8 variables filled relation by relation under 5 hash assignments, every "
            f"repeated, contradicting and detached addition refused at each stage; bulk building of 8 shapes of 1200 "
            f"values, whole, with one relation missing or detached")


DEPTH = {"quick": {"edges": 4, "tree": 3, "bulk": 4}, "thorough": {"edges": 6, "tree": 4, "bulk": 5}}


def cases(tier):
    d = DEPTH[tier]
    out = []
    for w in ("s3", "f3", "n3", "z2", "k2", "h2"):
        out += [["bfs", w, d["edges"], k, 16] for k in range(16)]
    out += [["bfs", "v4one", d["edges"] + 2, k, 4] for k in range(4)]
    out += [["bfs", "w2", d["edges"] - 1, k, 8] for k in range(8)]
    out += [["bfs", "f2", d["edges"], k, 8] for k in range(8)]
    out += [["bfs", "v5one", d["edges"], k, 8] for k in range(8)]
    for w in ("f2", "s3"):
        n = len(alphabet(*M.world(w)))
        out += [["tree", w, d["tree"], i] for i in range(n)]
    for w, k in (("s3", d["bulk"] - 1), ("f3", d["bulk"] - 1), ("v4one", 6), ("v4", d["bulk"] + 1),
                 ("w2", d["bulk"] - 1), ("z2", d["bulk"]), ("k2", d["bulk"]), ("v5one", d["bulk"])):
        out += [["bulk", w, k, i, 16] for i in range(16)]
    for w in ("s3", "f3", "n3", "z3", "k2", "h2", "f2", "v4one", "w2"):
        out += [["started", w, k, 4] for k in range(4)]
    out += [["path", n] for n in (6, 7, 8, 10, 12)]
    out += [["fill", n, h] for n in (6, 7, 8) for h in range(5)]
    out += [["long", s, 3000 if tier == "thorough" else 1200] for s in LONG]
    out += [["explicit", w] for w in ("s3", "f3", "n3", "w1")]
    return out


# ---- operations: ("rel", endpoints (list of nodes), relation) | ("dir", source, target, relation)

def alphabet(variables, relations):
    ops = []
    for e in M.pairs_of(variables):
        p, q = sorted(e, key=repr)
        for r in relations:
            ops.append(("rel", (p, q), r))
            ops.append(("dir", p, q, r))
            ops.append(("dir", q, p, r))
    ops += illegal(variables, relations)
    return ops


def illegal(variables, relations):
    ns = M.nodes_of(variables)
    n0, r0 = ns[0], relations[0]
    other = next((n for n in ns if n[0] != n0[0]), None)
    ops = [("rel", (n0,), r0), ("rel", (), r0)]
    for v, xs in variables:
        if len(xs) > 1:
            ops.append(("rel", ((v, xs[0]), (v, xs[1])), r0))         # two values of one variable
    if other:
        third = [n for n in ns if n[0] not in (n0[0], other[0])]
        ops += [("rel", (n0, (UNKNOWN, other[1])), r0),
                ("rel", (n0, (other[0], UNKNOWN)), r0),
                ("rel", (n0, other), UNKNOWN),
                ("rel", (n0, other), M.D(n0[0], other[0], UNKNOWN)),
                ("rel", (n0, other), M.D(n0[0], UNKNOWN, r0)),
                ("rel", (n0, other), M.D(UNKNOWN, other[0], r0)),
                ("dir", n0, (other[0], UNKNOWN), r0),
                ("dir", n0, n0, r0),
                ("dir", n0, other, UNKNOWN)]
        crowd = [n for n in ns if n not in (n0, other) and n[0] in (n0[0], other[0])]
        ops += [("rel", (n0, other, n), r0) for n in crowd[:2]]                # three values of two variables
        if third:
            ops += [("rel", (n0, other, third[0]), r0),
                    ("rel", (n0, other), M.D(n0[0], third[0][0], r0)),
                    ("rel", (n0, other), M.D(third[0][0], other[0], r0))]
    return ops


def normal(op):
    if op[0] == "dir":
        return frozenset({op[1], op[2]}), M.D(op[1][0], op[2][0], op[3])
    return frozenset(op[1]), op[2]


def legal(state, op, dom, relations):
    e, r = normal(op)
    if len(e) != 2 or len({v for v, _ in e}) != 2:
        return False
    if any(v not in dom or x not in dom[v] for v, x in e):
        return False
    if isinstance(r, M.D):
        if r.r not in relations or {r.s, r.t} != {v for v, _ in e}:
            return False
    elif r not in relations:
        return False
    nodes, edges = state
    if nodes and not (e & nodes):
        return False
    return e not in {k for k, _ in edges}


def apply(builder, op):
    if op[0] == "dir":
        return builder.add_directed_relation(op[1], op[2], op[3])
    return builder.add_relation(set(op[1]), rel_to_impl(op[2]))


def step(builder, state, op, dom, relations, st, path):
    """One real call compared with the model; returns the next model state."""
    st.step()
    ok = legal(state, op, dom, relations)
    accepted, res = attempt(lambda: apply(builder, op))
    if accepted != ok:
        raise Violation(f"addition {op} {'accepted' if accepted else 'refused: ' + repr(res)}, "
                        f"expected {'acceptance' if ok else 'refusal'}", [str(p) for p in path])
    if ok:
        require(res is builder or not hasattr(res, "build") or view(res.build()) == next_state(state, op),
                "an accepted addition returns a builder with the addition", *path)
        state = next_state(state, op)
    observe(builder, state, [*path, op])
    return state


def next_state(state, op):
    e, r = normal(op)
    return state[0] | e, state[1] | {(e, r)}


def observe(builder, state, path):
    ok, res = attempt(builder.build)
    require(ok == bool(state[0]), f"build {'accepted' if ok else 'refused: ' + repr(res)} for {M.text(state)}", *path)
    if ok:
        equal(view(res), state, "built sample", *path)
        require(M.is_connected(view(res)), "built sample is not connected", *path)


def replay(w, path):
    b = w.sb()
    for op in path:
        try:
            apply(b, op)
        except Exception:
            pass
    return b


def run_case(case, st):
    globals()["case_" + case[0]](st, *case[1:])


def case_bfs(st, wname, max_edges, part, parts):
    """All reachable model states; in each of them every operation, from a builder rebuilt by its history."""
    w = World(wname)
    dom, relations = dict(w.variables), w.relations
    bad = illegal(w.variables, relations)
    good = [op for op in alphabet(w.variables, relations) if op not in bad]
    # to keep the alphabet inside the bound, undirected relations everywhere, directed ones on the first pair
    first = normal(good[0])[0]
    good = [op for op in good if op[0] == "rel" or normal(op)[0] == first]
    frontier = {M.EMPTY: ()}
    seen = {M.EMPTY}
    second_round = wname in ("f2", "v4one")
    i = 0
    for depth in range(max_edges + 1):
        nxt = {}
        for state, path in frontier.items():
            i += 1
            mine = i % parts == part
            if mine:
                st.state(state)
                st.trace()
            for op in good + bad:
                ok = legal(state, op, dom, relations)
                if mine:
                    b = replay(w, path)
                    after = step(b, state, op, dom, relations, st, path)
                    if not ok and second_round:
                        for op2 in good:
                            b2 = replay(w, path + (op,))
                            step(b2, after, op2, dom, relations, st, path + (op,))
                    elif ok:
                        # the same addition once more is refused and leaves no trace, and so is a second relation
                        step(b, after, op, dom, relations, st, path + (op,))
                        e, r = normal(op)
                        for r2 in relations:
                            step(b, after, ("rel", tuple(e), r2), dom, relations, st, path + (op,))
                if ok and depth < max_edges:
                    n = next_state(state, op)
                    if n not in seen:
                        seen.add(n)
                        nxt[n] = path + (op,)
        frontier = nxt
    if part == 0:
        st.sample({"world": wname, "reachable_states": len(seen)})


def case_started(st, wname, part, parts):
    """Building goes on from every sample: from its builder, a builder it was joined to, and a copy of that."""
    w = World(wname)
    dom, relations = dict(w.variables), w.relations
    bad = illegal(w.variables, relations)
    ops = [op for op in alphabet(w.variables, relations) if op not in bad]
    first = normal(ops[0])[0]
    ops = [op for op in ops if op[0] == "rel" or normal(op)[0] == first]
    starts = [M.EMPTY] + M.all_samples(w.variables, relations)
    for i, m in enumerate(starts):
        if i % parts != part or len(m[1]) > 3:
            continue
        s = w.sample(m)
        ways = [lambda: s.builder()]
        if m != M.EMPTY:
            ways += [lambda: w.sb().join_sample(s), lambda: copy.copy(w.sb().join_sample(s))]
        for k, way in enumerate(ways):
            path = (f"started from {M.text(m)}", k)
            for op in ops + bad:
                b = way()
                after = step(b, m, op, dom, relations, st, path)
                if len(m[1]) < 1:
                    for op2 in ops:
                        b2 = way()
                        attempt(lambda: apply(b2, op))
                        step(b2, after, op2, dom, relations, st, path + (op,))
        equal(view(s), m, "sample a builder was made of")
        st.state(("started", wname, m))
        st.trace()


def case_tree(st, wname, depth, first):
    """Every operation sequence (no merging of states), so that order and rejected calls in between matter."""
    w = World(wname)
    dom, relations = dict(w.variables), w.relations
    ops = alphabet(w.variables, relations)
    if wname == "s3":
        ops0 = ops
        ops = [o for o in ops if o[0] == "rel" or len(o) != 4] + [o for o in ops if o[0] == "dir"][:4]
    else:
        ops0 = ops

    def go(path, state, left):
        st.state((state, len(path)))
        for op in ops:
            b = replay(w, path)
            n = step(b, state, op, dom, relations, st, path)
            if left > 1:
                go(path + (op,), n, left - 1)
            else:
                st.trace()
    op = ops0[first]
    b = w.sb()
    state = step(b, M.EMPTY, op, dom, relations, st, ())
    go((op,), state, depth - 1)


def bulk_legal(edges, dom, relations):
    if not edges:
        return False
    seen = {}
    for e, r in edges:
        if not legal(M.EMPTY, ("rel", tuple(e), r), dom, relations):
            return False
        if seen.setdefault(e, r) != r:
            return False
    return M.is_connected(M.from_edges(edges))


def case_bulk(st, wname, max_edges, part, parts):
    """Every set of up to max_edges relations built at once."""
    w = World(wname)
    dom, relations = dict(w.variables), w.relations
    edges = [(e, r) for e in M.pairs_of(w.variables) for r in relations]
    e0 = edges[0][0]
    p, q = sorted(e0, key=repr)
    special = [(e0, M.D(p[0], q[0], relations[0])), (e0, UNKNOWN), (frozenset({p}), relations[0]),
               (frozenset({p, (q[0], UNKNOWN)}), relations[0]), (frozenset({p, (UNKNOWN, q[1])}), relations[0])]
    v0, xs0 = w.variables[0]
    if len(xs0) > 1:
        special.append((frozenset({(v0, xs0[0]), (v0, xs0[1]), next(n for n in (p, q) if n[0] != v0)}), relations[0]))
        special.append((frozenset({(v0, xs0[0]), (v0, xs0[1])}), relations[0]))
    i = 0
    for k in range(0, max_edges + 1):
        pool = edges if k > 2 else edges + special
        for es in itertools.combinations(pool, k):
            i += 1
            if i % parts != part:
                continue
            es = frozenset(es)
            st.state(es)
            want = bulk_legal(es, dom, relations)
            for validate in ((True, False) if want else (True,)):
                b = w.sb()
                ok, res = attempt(lambda: b.build_from_edges(edges_to_impl(es), validate) if not validate
                                  else b.build_from_edges(edges_to_impl(es)))
                st.step()
                require(ok == want, f"bulk build of {sorted(map(str, es))} {'accepted' if ok else 'refused: ' + repr(res)}")
                if ok:
                    equal(view(res), M.from_edges(es), "bulk built sample", sorted(map(str, es)))
                    equal(view(b.build()), M.from_edges(es), "builder after bulk build", sorted(map(str, es)))
                else:
                    # refused without trace
                    r2, _ = attempt(b.build)
                    require(not r2, "refused bulk build left something in the builder", sorted(map(str, es)))
            if want:
                equal(w.sb().is_edges_connected(edges_to_impl(es)), True, "connectivity of", sorted(map(str, es)))
                equal(w.sample(M.from_edges(es)) == res, True, "bulk equals one by one", sorted(map(str, es)))
            elif es and all(len(e) == 2 for e, _ in es):
                equal(w.sb().is_edges_connected(edges_to_impl(es)), M.is_connected(M.from_edges(es)),
                      "connectivity of", sorted(map(str, es)))
            st.trace()


def case_path(st, n):
    """Long paths, cycles and two halves: connectivity beyond small graphs."""
    variables = [(f"v{i}", [0, 1]) for i in range(n)]
    w = World(spec=(variables, ["r"]))
    dom = dict(variables)
    chain = [(frozenset({(f"v{i}", i % 2), (f"v{i + 1}", (i + 1) % 2)}), "r") for i in range(n - 1)]
    for skip in range(-1, n - 1):
        es = frozenset(e for i, e in enumerate(chain) if i != skip)
        ok, res = attempt(lambda: w.sb().build_from_edges(edges_to_impl(es)))
        want = M.is_connected(M.from_edges(es))
        st.step()
        st.state(es)
        require(ok == want, f"bulk build of a path of {n} without edge {skip}: accepted={ok}")
        if ok:
            equal(view(res), M.from_edges(es), "bulk built path")
    for start in range(n - 1):
        # grow the path outwards from every start edge, alternately; then close the cycle
        order = sorted(range(n - 1), key=lambda i: abs(i - start))
        b, state, path = w.sb(), M.EMPTY, []
        for i in order:
            op = ("rel", tuple(chain[i][0]), "r")
            state = step(b, state, op, dom, ["r"], st, path)
            path.append(op)
        if n > 2:
            op = ("rel", (("v0", 0), (f"v{n - 1}", (n - 1) % 2)), "r")
            state = step(b, state, op, dom, ["r"], st, path)
        st.state(state)
        st.trace()


def case_explicit(st, wname):
    """Single value and empty samples."""
    w = World(wname)
    for v, xs in w.variables:
        for x in xs:
            equal(view(w.sb().build_single_node(v, x)), M.single(v, x), f"single value sample of {v}={x}")
            st.step()
            st.state((v, x))
        ok, _ = attempt(lambda: w.sb().build_single_node(v, UNKNOWN))
        require(not ok, f"unknown value of {v} accepted")
    ok, _ = attempt(lambda: w.sb().build_single_node(UNKNOWN, w.variables[0][1][0]))
    require(not ok, "unknown variable accepted")
    equal(view(w.sb().build_empty()), M.EMPTY, "empty sample")
    ok, _ = attempt(w.sb().build)
    require(not ok, "sample without values built implicitly")
    st.step(3)
    st.trace()


def case_fill(st, n, h):
    """The complete graph, a path through all variables first; at every stage everything that must be refused is tried."""
    vs = names(n + 2, h)
    dom = {v: [0, 1] for v in vs}
    w = World(spec=([(v, [0, 1]) for v in vs], ["r", "s"]))
    pairs = [(i, i + 1) for i in range(n - 1)] + [(i, j) for i, j in itertools.combinations(range(n), 2) if j > i + 1]
    b, state, done = w.sb(), M.EMPTY, []
    for k, (i, j) in enumerate(pairs):
        op = ("rel", ((vs[i], 0), (vs[j], 0)), "rs"[k % 2])
        state = step(b, state, op, dom, ["r", "s"], st, [])
        done.append(op)
        for _, e, r in done[::1 if k < 8 else 5]:
            for r2 in (r, "s" if r == "r" else "r", M.D(e[0][0], e[1][0], r)):
                state = step(b, state, ("rel", e[::-1], r2), dom, ["r", "s"], st, [])
        state = step(b, state, ("rel", ((vs[n], 0), (vs[n + 1], 0)), "r"), dom, ["r", "s"], st, [])
        state = step(b, state, ("rel", ((vs[i], 1), (vs[n], 0)), "r"), dom, ["r", "s"], st, [])
        state = step(b, state, ("rel", ((vs[i], 0), (vs[i], 1)), "r"), dom, ["r", "s"], st, [])
        state = step(b, state, ("rel", ((vs[i], 0), (vs[j], "?")), "r"), dom, ["r", "s"], st, [])
        st.state((n, h, k))
    equal(len(state[1]), len(pairs), "number of relations")
    equal(view(w.sb().build_from_edges(frozenset(state[1]))), state, "bulk building")
    for e, r in sorted(state[1], key=repr):
        less = frozenset(state[1]) - {(e, r)}
        equal(view(w.sb().build_from_edges(less)), M.from_edges(less), "bulk building without one relation")
        far = less | {(frozenset({(vs[n], 0), (vs[n + 1], 0)}), "r")}
        require(not attempt(lambda: w.sb().build_from_edges(far))[0], "bulk building of two parts is refused")
    st.trace()


def case_long(st, name, n):
    """Samples of many values built at once: whole, without one relation, with one detached relation."""
    vs = list(range(n + 2))
    w = World(spec=([(v, [0, 1]) for v in vs], ["r", "s"]))
    idx = shape(name, n)
    ways = [("whole", idx)] + [(f"without {idx[k]}", idx[:k] + idx[k + 1:]) for k in (0, len(idx) // 2, len(idx) - 1)] \
        + [("with a detached pair", idx + [(n, n + 1)]), ("with an attached pair", idx + [(n - 1, n)])]
    for what, ps in ways:
        m = shaped(vs, ps, relation=lambda k: "rs"[k % 3 == 0])
        ok, res = attempt(lambda: w.sb().build_from_edges(edges_to_impl(m[1])))
        connected = M.is_connected(m)
        if ok != connected:
            raise Violation(f"building a {name} of {n} values {what} is {'accepted' if ok else f'refused: {res!r}'[:300]}")
        if ok and view(res) != m:
            raise Violation(f"built {name} of {n} values {what} has {len(res.nodes)} values and {len(res.edges)} relations, "
                            f"expected {len(m[0])} and {len(m[1])}, or other ones")
        st.step()
        st.state((name, n, what))
    b, content = w.sb(), shaped(vs, idx[:400])
    if M.is_connected(content):
        for i, j in idx[:400]:
            b.add_relation({(i, 0), (j, 0)}, "r")
            st.step()
        require(view(b.build()) == content, f"{name} built relation by relation")
    st.trace()

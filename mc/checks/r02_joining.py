"""Joining of samples: every builder content x every sample, sequences of joins, and collections in every order."""
import itertools

from .. import model as M
from ..core import Violation, attempt, equal, require
from ..shapes import SHAPES, names, sample, shape
from ..impl import World, SampleSet, SampleSetBuilder, rel_to_impl, set_view, view

ID = "R02"
ASSUMPTIONS = ["any raised exception is a rejection",
               "the samples of a collection have one value per variable (as every joined, generated or factor sample has)"]
SHARDS = 16


def bounds(tier):
    return ("join: all ordered pairs of the complete sample spaces of 11 vocabularies (up to 4 variables, directed "
            "relations in one) and of all connected samples with up to two values of a variable in two, all ordered triples of 2 of them; every sample of 8 vocabularies joined with (and extended by) every relation, "
            "all relations asked for in advance before and after; collection join: all collections of up to 3 "
            "samples (4 in one vocabulary) in every storage order; every connected sub-sample of cycles, ladders, wheels and trees "
            "on 6 variables joined to every other one (also with another relation or value at one place) under 5 hash assignments; collections of up to 60 relations and values of 6 shapes in 4 orders, whole, with one missing and with one contradicting; chains, rings and trees of 2000 to 4000 values joined at once and in two halves" + (", deeper in thorough" if tier == "thorough" else ""))


MULTI = {"multi": ([("a", ["x", "y"]), ("b", ["x", "y"])], ["r", "s"]),
         "multi2": ([("a", [0, None]), ("", [0, "0"]), ("c", [1])], ["r"])}


def world_of(wname):
    return World(spec=MULTI[wname]) if wname in MULTI else World(wname.removesuffix("+d"))


def space(wname):
    if wname in MULTI:      # connected samples that may hold two values of one variable
        v, r = MULTI[wname]
        out = [M.single(a, x) for a, xs in v for x in xs]
        ps = M.pairs_of(v)
        for rs in itertools.product([None] + [(x,) for x in r], repeat=len(ps)):
            m = M.from_edges((p, x[0]) for p, x in zip(ps, rs) if x)
            if m[1] and M.is_connected(m):
                out.append(m)
        return out
    directed = wname.endswith("+d")
    v, r = M.world(wname.removesuffix("+d"))
    return M.all_samples(v, r, directed=directed, max_vars=2 if directed else None)


PAIRS = ["s3", "f3", "n3", "w2", "v4one", "s3r1", "s3+d", "v4", "k3", "n4", "multi", "multi2"]
PAIRS_T = ["v4two", "f3+d", "v5one"]
TRIPLES = ["v4one", "s3r1"]
COLL3 = ["v4one", "s3r1", "w2", "z2", "k2", "h2"]


def cases(tier):
    out = []
    for w in PAIRS + (PAIRS_T if tier == "thorough" else []):
        n = SHARDS * (8 if w in PAIRS_T else 1)
        out += [["pairs", w, k, n] for k in range(n)]
    for w in TRIPLES + (["s3", "n3", "w2"] if tier == "thorough" else []):
        out += [["triples", w, k, 64] for k in range(64)]
    for w in COLL3 + (["s3", "n3"] if tier == "thorough" else []):
        out += [["coll", w, 3, k, 64] for k in range(64)]
    out += [["asked", w, k, 32] for w in ("s3", "w2", "k3", "s3r1", "v4one", "h2", "z2", "s3+d") for k in range(32)]
    out += [["coll4", "v4one", k, 32] for k in range(32)]
    out += [["chain", n] for n in (4, 5, 6)]
    out += [["parts", s, 6, h, k, 4] for s in ("path", "cycle", "ladder", "star", "tree", "caterpillar")
            for h in range(5) for k in range(4)]
    out += [["many", s, n] for s in ("path", "cycle", "star", "tree", "ladder", "caterpillar") for n in (8, 12, 20, 40)]
    out += [["long", s, n] for s in ("path", "cycle", "tree") for n in (2000, 4000)]
    return out


def run_case(case, st):
    globals()["case_" + case[0]](st, *case[1:])


def join(w, builder, content, m, st, trace):
    """One real join compared with the model; returns the model content afterwards."""
    st.step()
    s = w.sample(m)
    equal(bool(builder.can_sample_be_joined(s)), not M.relation_conflict(content, m),
          f"advance check for {M.text(m)} on {M.text(content)}", *trace)
    want = M.can_join(content, m)
    ok, res = attempt(lambda: builder.join_sample(s))
    if ok != want:
        raise Violation(f"join of {M.text(m)} to {M.text(content)} "
                        f"{'accepted' if ok else 'refused: ' + repr(res)}", trace)
    after = M.union(content, m) if want else content
    built, res = attempt(builder.build)
    require(built == bool(after[0]), f"build after join of {M.text(m)} to {M.text(content)}", *trace)
    if built:
        if view(res) != after:
            raise Violation(f"after {'accepted' if want else 'refused'} join of {M.text(m)} to {M.text(content)}: "
                            f"got {M.text(view(res))}", trace)
    equal(view(s), m, "joined sample itself")
    return after


def start(w, m):
    if m == M.EMPTY:
        return w.sb()
    if not M.single_valued(m):
        return w.sample(m).builder()
    b = w.sb()
    b.join_sample(w.sample(m))
    return b


def case_pairs(st, wname, part, parts):
    w = world_of(wname)
    sp = space(wname) + [M.EMPTY]
    for i, a in enumerate(sp):
        if i % parts != part:
            continue
        for b in sp:
            builder = start(w, a)
            after = join(w, builder, a, b, st, [M.text(a)])
            st.state(after)
            # derived builder of the built sample behaves the same
            if a != M.EMPTY:
                builder2 = w.sample(a).builder()
                join(w, builder2, a, b, st, ["builder of " + M.text(a)])
            # builder filled by single additions behaves the same
            st.trace()
        st.sample([M.text(a), M.text(sp[0])])


def case_asked(st, wname, part, parts):
    """The advance check for every relation, asked before and after every join or added relation."""
    w = world_of(wname)
    sp = space(wname)
    probes = [m for m in sp if len(m[1]) == 1]
    real = {m: w.sample(m) for m in probes}

    def ask(builder, content, where):
        for m, s in real.items():
            equal(bool(builder.can_sample_be_joined(s)), not M.relation_conflict(content, m),
                  f"advance check for {M.text(m)} on {M.text(content)}", *where)
            st.step()

    for i, a in enumerate(sp):
        if i % parts != part:
            continue
        for b in probes + ([] if wname == "s3" else sp[::7]):
            where = [M.text(a), M.text(b)]
            builder, content = start(w, a), a
            ask(builder, content, where)
            builder.build()
            content = join(w, builder, content, b, st, where)
            ask(builder, content, where)
            if len(b[1]) == 1:
                builder, content = w.sample(a).builder(), a
                ask(builder, content, where)
                (ends, rel), = b[1]
                if attempt(lambda: builder.add_relation(set(ends), rel_to_impl(rel)))[0]:
                    content = M.union(a, b)
                ask(builder, content, where)
                equal(view(builder.build()), content, f"relation of {M.text(b)} added to {M.text(a)}")
            st.trace()
        st.state((wname, a))


def case_triples(st, wname, part, parts):
    w = World(wname)
    sp = space(wname)
    if len(sp) > 70:
        sp = sp[::2]
    for i, (a, b) in enumerate(itertools.product(sp, sp)):
        if i % parts != part:
            continue
        for c in sp:
            builder = start(w, a)
            x = join(w, builder, a, b, st, [M.text(a)])
            y = join(w, builder, x, c, st, [M.text(a), M.text(b)])
            st.state(y)
            st.trace()


def check_collection(w, ms, counts, st):
    """make_joined_sample of the collection stored in the given order."""
    ss = SampleSet(w.provider, {w.sample(m): c for m, c in zip(ms, counts)})
    u = M.EMPTY
    conflict = M.EMPTY in ms
    for m in ms:
        conflict = conflict or M.relation_conflict(u, m)
        u = M.union(u, m)
    values_ok = M.single_valued(u)
    want = bool(ms) and values_ok and not conflict and M.is_connected(u)
    st.step()
    equal(bool(ss.can_join_samples()), values_ok, "advance check of collection", [M.text(m) for m in ms])
    equal(bool(ss.is_all_values_match()), values_ok, "value agreement of collection", [M.text(m) for m in ms])
    ok, res = attempt(ss.make_joined_sample)
    if ok != want:
        raise Violation(f"joining the collection {'succeeded' if ok else 'was refused: ' + repr(res)}",
                        [M.text(m) for m in ms])
    if ok:
        j, cs = res
        equal(view(j), u, "joined collection", [M.text(m) for m in ms])
        equal(sorted(cs), sorted(counts), "counts of joined collection", [M.text(m) for m in ms])
    equal(set_view(ss), dict(zip(ms, counts)), "collection after joining", [M.text(m) for m in ms])
    st.state(u)


def case_coll(st, wname, size, part, parts):
    w = World(wname)
    sp = space(wname) + [M.EMPTY]
    i = 0
    for k in range(0, size + 1):
        for ms in itertools.combinations(sp, k):
            i += 1
            if i % parts != part:
                continue
            for p in itertools.permutations(ms):
                check_collection(w, list(p), [1 + 2 * j for j in range(k)] if k < 3 else [7, 2, 7], st)
                st.trace()


def case_coll4(st, wname, part, parts):
    """Collections of 4 relations and single values (storage orders in which a later sample connects)."""
    w = World(wname)
    sp = [m for m in space(wname) if len(m[1]) <= 1]
    i = 0
    for ms in itertools.combinations(sp, 4):
        i += 1
        if i % parts != part:
            continue
        for p in itertools.permutations(ms):
            check_collection(w, list(p), [2, 3, 5, 7], st)
            st.trace()


def case_chain(st, n):
    """A path of n relations, stored as n samples in every order, and one sample of it joined to each part."""
    variables = [(f"v{i}", ["0", "1"]) for i in range(n + 1)]
    w = World(spec=(variables, ["r"]))
    parts = [M.from_edges([(frozenset({(f"v{i}", "0"), (f"v{i + 1}", "0")}), "r")]) for i in range(n)]
    whole = M.EMPTY
    for p in parts:
        whole = M.union(whole, p)
    for order in itertools.permutations(parts):
        check_collection(w, list(order), list(range(1, n + 1)), st)
        st.trace()
    for p in parts:
        b = start(w, p)
        join(w, b, p, whole, st, [M.text(p)])
    # a wrong value at any place makes the join impossible and leaves no trace
    for i in range(n + 1):
        def flip(node):
            return (node[0], "1") if node[0] == f"v{i}" else node
        bad = (frozenset(flip(x) for x in whole[0]),
               frozenset((frozenset(flip(x) for x in e), r) for e, r in whole[1]))
        for p in parts:
            b = start(w, p)
            join(w, b, p, bad, st, [M.text(p)])
        b = start(w, whole)
        join(w, b, whole, bad, st, [M.text(whole)])


def case_parts(st, shp, n, h, part, parts):
    """Every connected part of a larger sample joined to every other one, and to parts that disagree at one place."""
    vs = names(n, h)
    w = World(spec=([(v, [0, 1]) for v in vs], ["r", "s"]))
    idx = shape(shp, n)
    subs = [c for k in range(1, len(idx) + 1) for c in itertools.combinations(range(len(idx)), k)]

    def make(c, value=0, other=None):
        return M.from_edges((frozenset({(vs[i], value(i) if callable(value) else value) for i in idx[k]}), "s" if k == other else "r") for k in c)
    subs = [c for c in subs if M.is_connected(make(c))]
    for i, a in enumerate(subs):
        if i % parts != part:
            continue
        ma = make(a)
        whole = w.sample(ma)
        for j, b in enumerate(subs):
            for mb in (make(b), make(b, other=b[(i + j) % len(b)]), make(b, value=lambda v: int(v == (i + j) % n))):
                builder = whole.builder() if j % 2 else start(w, ma)
                st.state(join(w, builder, ma, mb, st, [M.text(ma)]))
        st.trace()


def case_many(st, shp, n):
    """Collections with one sample per relation of a larger sample and one per value, also with one part missing or contradicting."""
    vs = names(n, n % 5)
    w = World(spec=([(v, [0, 1]) for v in vs], ["r", "s"]))
    idx = shape(shp, n)

    def part(k, x=0, rel="r"):
        i, j = idx[k]
        return M.from_edges([(frozenset({(vs[i], 0), (vs[j], x)}), rel)])
    parts = [part(k) for k in range(len(idx))]
    m = len(parts)
    step = next(k for k in (7, 5, 3, 11, 13) if m % k)
    for order in (parts, parts[::-1], [parts[k * step % m] for k in range(m)], parts[1::2] + parts[::2]):
        check_collection(w, order, list(range(1, m + 1)), st)
        check_collection(w, [M.single(vs[-1], 0)] + order + [M.single(vs[n // 2], 0)], list(range(1, m + 3)), st)
        for k in range(m):
            for ms in ([p for p in order if p != parts[k]], order + [part(k, rel="s")], [part(k, rel="s")] + order,
                       order + [M.single(vs[k % n], 1)], order + [part(k, x=1)]):
                if n < 20 or k % 7 == 0:
                    check_collection(w, ms, [1] * len(ms), st)
        st.trace()


def case_long(st, name, n):
    """Samples of many values joined to nothing, to their own half and to the other one."""
    vs = list(range(n))
    w = World(spec=([(v, [0, 1]) for v in vs], ["r", "s"]))
    idx = shape(name, n)
    whole = sample(vs, idx)
    half = sample(vs, idx[:len(idx) // 2])
    other = sample(vs, idx[len(idx) // 2:]) if name != "tree" else half
    build = lambda m: w.sb().build_from_edges(frozenset(m[1]))
    parts = {"whole": (build(whole), whole), "half": (build(half), half), "other": (build(other), other)}
    orders = [("whole",), ("half", "whole"), ("whole", "half")] + ([("half", "other"), ("other", "half")] if name != "tree" else [])
    for order in orders if n < 3000 else orders[:2]:
        b = w.sb()
        for k in order:
            b.join_sample(parts[k][0])
            st.step()
        got = view(b.build())
        if got != whole:
            raise Violation(f"joining {order} of a {name} of {n} values gives {len(got[0])} values and {len(got[1])} relations")
        st.state((name, n, order))
    # a contradiction far away is found, and refused without a trace
    i, j = idx[-1]
    bad = (frozenset(whole[0]), frozenset(whole[1]) - {(frozenset({(i, 0), (j, 0)}), "r")} | {(frozenset({(i, 0), (j, 0)}), "s")})
    b = w.sb()
    b.join_sample(parts["other" if name != "tree" else "whole"][0])
    before = view(b.build())
    ok, _ = attempt(lambda: b.join_sample(build(bad)))
    require(not ok, f"joining a contradicting {name} of {n} values is accepted")
    require(view(b.build()) == before, "a refused join leaves something in the builder")
    st.step()
    st.trace()

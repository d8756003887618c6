"""Collections as multisets: all operation sequences, all pairs and triples of small collections."""
import itertools

from .. import model as M
from ..core import Violation, attempt, equal, require
from ..shapes import names, sample, shape
from ..impl import World, SampleSet, SampleSetBuilder, make_sample, set_view, view

ID = "R08"
ASSUMPTIONS = ["counts are positive integers", "bulk removal of a collection that is only partly contained is refused; "
               "what it leaves behind is not specified and not explored further"]


def bounds(tier):
    d = 4 if tier == "quick" else 5
    return (f"every sequence of up to {d} operations out of 18 (add with counts 1, 2 and 10^18 of samples built twice, "
            "add all, add own content, remove, remove all, copy, swap with the copy, rebuild from the built collection) "
            "on 3 vocabularies, observed completely at the end, and those of fewer than "
            f"{d} once more with the same objects observed after every operation; union, equality and hash of all pairs of "
            "collections with counts 0, 1, 2 or 2^61 of 4 samples of 9 vocabularies; collections of 40 to 200 samples filled in 6 orders, split at every "
            "place, added and removed in bulk; joins of all lists of up to 3 and of lists of 40 and of 1500 collections")


def alphabet(wname):
    w = World(wname)
    sp = M.all_samples(*M.world(wname))
    ms = [M.EMPTY, next(m for m in sp if len(m[0]) == 1), next(m for m in sp if len(m[0]) == 2),
          [m for m in sp if len(m[0]) == 2][1]]
    objs = [(w.sample(m), make_sample(w.sb().set_name("twin"), m)) for m in ms]
    return w, ms, objs


def fixed_sets():
    return [{}, {1: 1}, {1: 2, 2: 3}, {0: 1, 3: 5}]


def ops():
    out = [("add", i, c) for i, c in ((0, 1), (1, 1), (1, 2), (2, 1), (2, 10 ** 18))]
    out += [("remove", i) for i in (0, 1, 2)]
    out += [("add_all", k) for k in (1, 2, 3)] + [("add_own",), ("remove_all", 1), ("remove_all", 2), ("remove_own",)]
    out += [("copy",), ("swap",), ("rebuild",)]
    assert len(out) == 18
    return out


def cases(tier):
    d = 4 if tier == "quick" else 5
    out = [["seq", w, list(p), d] for w in ("s3", "f3", "n3") for p in itertools.product(range(len(ops())), repeat=2)]
    for w in ("s3", "f3", "n3", "k3", "k2", "z2", "z3", "h2", "h3"):
        out += [["pairs", w, k, big] for k in range(81) for big in (0, 1)] + [["lists", w, k] for k in range(9)]
    out += [["many", n, h] for n in ((40, 200) if tier == "quick" else (40, 200, 1000)) for h in range(5)]
    out += [["wide", n, h] for n in (1500,) for h in range(3)]
    return out


def run_case(case, st):
    globals()["case_" + case[0]](st, *case[1:])


def observe(obj, model, ms, objs, w, where):
    """Everything observable on a collection, built or under construction."""
    got = {}
    for s, c in obj.items():
        got[view(s)] = got.get(view(s), 0) + c
    equal(len(list(obj.items())), len(model), f"{where}: number of distinct samples")
    equal(got, {ms[i]: c for i, c in model.items()}, where)
    equal({view(s) for s in obj.samples()}, {ms[i] for i in model}, f"{where}: samples")
    n = sum(model.values())
    equal(bool(obj), bool(model), f"{where}: truth value")
    if isinstance(obj, SampleSet):
        equal(obj.length, n, f"{where}: length")
        if n < 2 ** 63:  # Python limits len()
            equal(len(obj), n, f"{where}: len()")
    else:
        equal(obj.length(), n, f"{where}: length")
    for i, (a, b) in enumerate(objs):
        for s in (a, b):
            ok, c = attempt(lambda: obj.count_of(s))
            if ok != (i in model) or ok and c != model[i]:
                raise Violation(f"{where}: count of {M.text(ms[i])} is {c!r}, expected {model.get(i, 'a refusal')}")


def direct(w, model, ms, objs, twin=0):
    b = SampleSetBuilder(w.provider)
    for i in (sorted(model) if not twin else sorted(model, reverse=True)):
        b.add(objs[i][twin], model[i])
    return b.build()


def case_seq(st, wname, prefix, depth):
    w, ms, objs = alphabet(wname)
    fixed = [(direct(w, f, ms, objs), f) for f in fixed_sets()]
    alpha = ops()

    def run(seq, ask=False):
        """ask: everything is observed after every operation, not only at the end"""
        cur, mcur = SampleSetBuilder(w.provider), {}
        other, mother = SampleSetBuilder(w.provider), {}
        built = []
        for n, k in enumerate(seq):
            op = alpha[k]
            where = f"after {[alpha[x] for x in seq[:n + 1]]}"
            last = n == len(seq) - 1
            kind = op[0]
            if kind == "add":
                _, i, c = op
                res = cur.add(objs[i][n % 2], c)
                require(res is cur, f"{where}: add returns the builder")
                mcur[i] = mcur.get(i, 0) + c
            elif kind == "remove":
                ok, res = attempt(lambda: cur.remove(objs[op[1]][n % 2]))
                if ok != (op[1] in mcur):
                    raise Violation(f"{where}: removal {'accepted' if ok else 'refused'}")
                if ok:
                    s, c = res
                    equal((view(s), c), (ms[op[1]], mcur[op[1]]), f"{where}: removed sample and count")
                    del mcur[op[1]]
            elif kind in ("add_all", "add_own"):
                src, m = fixed[op[1]] if kind == "add_all" else (cur, dict(mcur))
                res = cur.add_all(src)
                require(res is cur, f"{where}: add_all returns the builder")
                for i, c in m.items():
                    mcur[i] = mcur.get(i, 0) + c
            elif kind in ("remove_all", "remove_own"):
                src, m = fixed[op[1]] if kind == "remove_all" else (cur, dict(mcur))
                ok, res = attempt(lambda: cur.remove_all(src))
                want = set(m) <= set(mcur)
                if ok != want:
                    raise Violation(f"{where}: bulk removal {'accepted' if ok else f'refused: {res!r}'}")
                for i in m if ok else ():
                    del mcur[i]
            elif kind == "copy":
                other, mother = cur.copy(), dict(mcur)
            elif kind == "swap":
                cur, other, mcur, mother = other, cur, mother, mcur
            elif kind == "rebuild":
                b = cur.build()
                built.append((b, dict(mcur)))
                other, mother = b.builder(), dict(mcur)
            if ask or last:
                st.step()
                observe(cur, mcur, ms, objs, w, where)
                observe(other, mother, ms, objs, w, where + " (copy)")
                b = cur.build()
                observe(b, mcur, ms, objs, w, where + " (built)")
                d = direct(w, mcur, ms, objs)
                require(b == d and d == b and hash(b) == hash(d), f"{where}: the built collection equals one built directly")
                for b, m in built:
                    observe(b, m, ms, objs, w, where + " (built before)")
                for s, f in fixed:
                    require((set_view(s) == {ms[i]: c for i, c in f.items()}), f"{where}: argument collection changed")
                st.state((wname, tuple(sorted(mcur.items())), tuple(sorted(mother.items()))))
        st.trace()
        st.sample([wname, [alpha[k] for k in seq]])

    def dfs(seq):
        run(seq)
        if 1 < len(seq) < depth:
            run(seq, True)
        if len(seq) < depth:
            for k in range(len(alpha)):
                dfs(seq + [k])

    run(prefix[:1])
    dfs(prefix)


def all_models(big):
    """2^61 is chosen for hashing like 1."""
    return [{i: c for i, c in enumerate(cs) if c} for cs in itertools.product((0, 1, 2 ** 61 if big else 2), repeat=4)]


def add_models(*models):
    out = {}
    for m in models:
        for i, c in m.items():
            out[i] = out.get(i, 0) + c
    return out


def case_pairs(st, wname, k, big):
    w, ms, objs = alphabet(wname)
    models = all_models(big)
    ma = models[k]
    a = direct(w, ma, ms, objs)
    for mb in models:
        b = direct(w, mb, ms, objs, twin=1)
        st.step(3)
        where = f"{ {M.text(ms[i]): c for i, c in ma.items()} } and { {M.text(ms[i]): c for i, c in mb.items()} }"
        equal(a == b, ma == mb, f"equality of {where}")
        equal(a != b, ma != mb, f"inequality of {where}")
        if ma == mb:
            equal(hash(a), hash(b), f"hashes of {where}")
            equal(len({a, b}), 1, f"equal collections {where} in a set")
        else:
            equal(len({a, b}), 2, f"different collections {where} in a set")
        u = a.union(b)
        observe(u, add_models(ma, mb), ms, objs, w, f"union of {where}")
        equal(set_view(a), {ms[i]: c for i, c in ma.items()}, "left operand after union")
        equal(set_view(b), {ms[i]: c for i, c in mb.items()}, "right operand after union")
        require(u == b.union(a) and hash(u) == hash(b.union(a)), f"union of {where} commutes")
        st.trace()
    content = dict(a.items())
    for o in (content, list(content), set(content), frozenset(content.items()), len(content), str(a), None, True, False, (), a.builder(), objs[0][0], w):
        if a == o or o == a or not a != o:
            raise Violation(f"collection { {M.text(ms[i]): c for i, c in ma.items()} } equals {o!r}, an object of another kind")
    observe(a.union(a), add_models(ma, ma), ms, objs, w, "union with itself")
    observe(a.builder().empty(), {}, ms, objs, w, "empty collection from a builder")
    observe(a, ma, ms, objs, w, "collection")
    st.state((wname, tuple(sorted(ma.items()))))


def case_lists(st, wname, k):
    w, ms, objs = alphabet(wname)
    models = [{i: c for i, c in zip((1, 2), cs) if c} for cs in itertools.product((0, 1, 3), repeat=2)]
    sets = [direct(w, m, ms, objs) for m in models]
    ok, _ = attempt(lambda: SampleSetBuilder.join_sample_set([]))
    require(not ok, "joining no collections is refused")
    for n in (1, 2, 3):
        for rest in itertools.product(range(9), repeat=n - 1):
            idx = (k,) + rest
            args = [sets[i] for i in idx]
            j = SampleSetBuilder.join_sample_set(args)
            observe(j, add_models(*[models[i] for i in idx]), ms, objs, w, f"join of {idx}")
            equal(len(args), n, "list of collections after joining")
            for i in idx:
                equal(set_view(sets[i]), {ms[x]: c for x, c in models[i].items()}, "operand after joining")
            st.step()
            st.trace()
    idx = [(k + 2 * i) % 9 for i in range(40)]
    observe(SampleSetBuilder.join_sample_set([sets[i] for i in idx]), add_models(*[models[i] for i in idx]),
            ms, objs, w, "join of 40 collections")
    st.state((wname, k))


def case_many(st, n, h):
    """Collections of many samples."""
    vs = names(6, h)
    w = World(spec=([(v, list(range(4))) for v in vs], ["r", "s"]))
    idx = shape("path", 6)
    ms = [sample(vs, idx[:1 + k % 5], value=lambda i: k // 5 >> 2 * i & 3, relation="rs"[k % 2]) for k in range(2 * n)]
    ms = list(dict.fromkeys(ms))[:n]
    ms += [M.single(v, x) for v in vs for x in range(2)]
    count = {m: [1, 2, 3, 1000, 10 ** 6, 2 ** 61, 10 ** 20][i % 7] for i, m in enumerate(ms)}
    objs = {m: make_sample(w.sb().set_name(f"n{i}" if i % 2 else None), m) for i, m in enumerate(ms)}

    def build(keys):
        b = SampleSetBuilder(w.provider)
        for m in keys:
            b.add(objs[m], count[m])
        return b

    orders = [ms, ms[::-1], ms[::2] + ms[1::2], ms[n // 2:] + ms[:n // 2], sorted(ms, key=M.text), ms[1::3] + ms[::3] + ms[2::3]]
    built = [build(o).build() for o in orders]
    for b in built:
        require(b == built[0] and hash(b) == hash(built[0]), "equal collections filled in different orders")
        equal(set_view(b), count, "collection")
        equal(b.length, sum(count.values()), "length")
        st.step()
    for k in range(0, len(ms) + 1, 1 if n < 100 else 11):
        a, b = build(ms[:k]), build(ms[k:])
        whole = a.copy().add_all(b.build()).build()
        require(whole == built[0] and hash(whole) == hash(built[0]), f"bulk addition of the last {len(ms) - k} samples")
        u = a.build().union(b.build())
        require(u == built[0] and hash(u) == hash(built[0]), f"union of {k} and the others")
        j = SampleSetBuilder.join_sample_set([a.build(), b.build(), built[0]])
        equal(set_view(j), {m: 2 * c for m, c in count.items()}, "join with the parts")
        rest = built[0].builder()
        rest.remove_all(a.build())
        equal(set_view(rest.build()), {m: count[m] for m in ms[k:]}, f"bulk removal of {k} samples")
        if k < len(ms):
            require(a.build() != built[0], "a part is unequal to the whole")
            one = a.copy().add_all(b.build()).add(objs[ms[k]], 1).build()
            require(one != built[0] and one.count_of(objs[ms[k]]) == count[ms[k]] + 1, "one more of a sample")
            full = built[0].builder()
            s, c = full.remove(objs[ms[k]])
            equal((view(s), c), (ms[k], count[ms[k]]), "removed sample")
            require(full.build() != built[0] and full.build().union(build([ms[k]]).build()) == built[0], "removed and added again")
        equal(set_view(b.build()), {m: count[m] for m in ms[k:]}, "operand afterwards")
        st.step(6)
        st.state((n, h, k))
        st.trace()


def case_wide(st, n, h):
    """Joins of very many collections, equal and different ones."""
    w = World(spec=([("a", list(range(n))), ("b", [0])], ["r"]))
    rows = [M.single("a", i % (n, n // 3, 1)[h]) for i in range(n)]
    objs = {m: w.sample(m) for m in set(rows)}
    sets = [SampleSetBuilder(w.provider).add(objs[m], 1 + i % 5).build() for i, m in enumerate(rows)]
    want = {}
    for i, m in enumerate(rows):
        want[m] = want.get(m, 0) + 1 + i % 5
    equal(set_view(SampleSetBuilder.join_sample_set(sets)), want, f"join of {n} collections")
    equal(len(sets), n, "list of collections after joining")
    for i in (0, 1, n // 2, n - 1):
        equal(set_view(sets[i]), {rows[i]: 1 + i % 5}, "operand after joining")
    st.step(n)
    st.state((n, h))
    st.trace()

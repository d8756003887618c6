"""All operation sequences of a network builder."""
import itertools
from fractions import Fraction

from .. import model as M
from ..core import Violation, attempt, equal, require
from ..impl import (World, BuilderComponentsProvider, RelationGraphBuilder, make_sample, network, set_view, view)

ID = "R20"
ASSUMPTIONS = ["adding several outcomes with one call is only explored where all of them are acceptable, or all are refused"]


def bounds(tier):
    d = 5 if tier == "thorough" else 4
    return (f"every sequence of up to {d} operations out of 17 (adding with counts default, 1, 3, 10^30, 0, -1 and 0.5, several at "
            "once, in place, failing in place, renaming, resetting the name, replacing the builder by one of the built network or "
            "of a conditional network) on 3 vocabularies, everything built and compared after each operation, both with nothing built in between and with a network built after every operation; every invalid "
            "combination of creation arguments; 14 counts below one; identifiers over 70 000 requests interleaved with additions; the complete sample spaces of 9 "
            "vocabularies (up to some hundred outcomes) added one by one, at once, in parts of 1, 2, 7 and 50, each twice, with refused additions in between")


class Boom(Exception):
    pass


def ops():
    return [("add", 0, None), ("add", 1, 3), ("add", 1, 10 ** 30), ("add", 2, 1), ("bad", 0, 0), ("bad", 1, -1), ("bad", 2, 0.5),
            ("many", (0, 1), None), ("many", (2, 2, 1), 4), ("many", (), None), ("badmany", (0, 1), 0), ("place", 2),
            ("boom",), ("name", "N1"), ("name", None), ("rebuild",), ("condition", 1)]


def cases(tier):
    d = 5 if tier == "thorough" else 4
    out = [["seq", w, list(p), d] for w in ("s3", "f2", "n3") for p in itertools.product(range(17), repeat=2)]
    return out + [["create"], ["ids"]] + [["large", w, k] for w in ("s3", "f3", "n3", "k3", "v4", "w2", "h3", "v4two", "n4") for k in (0, 1, 2, 7, 50)]


def run_case(case, st):
    globals()["case_" + case[0]](st, *case[1:])


def case_seq(st, wname, prefix, depth):
    w = World(wname)
    sp = M.all_samples(*M.world(wname))
    ms = [M.EMPTY, sp[0], next(m for m in sp if m[1])]
    alpha = ops()

    def twin(i, n):
        return make_sample(w.sb().set_name("twin" if n % 2 else None), ms[i])

    def run(seq, peek):
        b = RelationGraphBuilder(components_provider=w.provider)
        model, name = {}, None
        built = []
        for n, k in enumerate(seq):
            op = alpha[k]
            where = f"after {[alpha[x] for x in seq[:n + 1]]}"
            kind = op[0]
            res = b
            if kind == "add":
                res = b.add_outcome(twin(op[1], n)) if op[2] is None else b.add_outcome(twin(op[1], n), op[2])
                model[op[1]] = model.get(op[1], 0) + (op[2] or 1)
            elif kind == "bad":
                require(not attempt(lambda: b.add_outcome(twin(op[1], n), op[2]))[0], f"{where}: count {op[2]} accepted")
            elif kind == "many":
                lst = [twin(i, n + j) for j, i in enumerate(op[1])]
                res = b.add_outcomes(lst) if op[2] is None else b.add_outcomes(lst, op[2])
                equal(len(lst), len(op[1]), f"{where}: list of outcomes after the call")
                for i in op[1]:
                    model[i] = model.get(i, 0) + (op[2] or 1)
            elif kind == "badmany":
                require(not attempt(lambda: b.add_outcomes([twin(i, n) for i in op[1]], op[2]))[0],
                        f"{where}: several outcomes with count {op[2]} accepted")
            elif kind == "place":
                res = b.build_sample(lambda sb: make_sample(sb, ms[op[1]]))
                model[op[1]] = model.get(op[1], 0) + 1
            elif kind == "boom":
                def fail(sb):
                    sb.add_relation(*impl_edge(ms[2]))
                    raise Boom()
                ok, e = attempt(lambda: b.build_sample(fail))
                require(not ok, f"{where}: failing in-place building is swallowed")
            elif kind == "name":
                res = b.set_name(op[1])
                name = op[1]
            elif kind in ("rebuild", "condition"):
                if not model:
                    return False
                net = b.build()
                if kind == "rebuild":
                    name = net.name
                    nb = net.builder()
                else:
                    cond = net.conditional_graph(w.sample(ms[op[1]]), "C")
                    keep = M.condition({ms[i]: c for i, c in model.items()}, ms[op[1]])
                    model = {i: c for i, c in model.items() if ms[i] in keep}
                    nb, name = cond.builder(), "C"
                built.append((net, set_view(net.outcomes), net.name))
                b = nb
                res = b
            require(res is b, f"{where}: the builder is returned")
            if n < len(seq) - 1 and peek and model:
                net = b.build()
                str(net), net.name
                built.append((net, {ms[i]: c for i, c in model.items()}, net.name if name is None else name))
            if n == len(seq) - 1:
                st.step()
                if not model:
                    ok, e = attempt(b.build)
                    require(not ok, f"{where}: network without outcomes built")
                else:
                    net = b.build()
                    want = {ms[i]: c for i, c in model.items()}
                    equal(set_view(net.outcomes), want, f"{where}: outcomes")
                    total = sum(want.values())
                    equal(net.outcomes.length, total, f"{where}: number of outcomes")
                    if name is None:
                        require(str(total) in net.name, f"{where}: default name {net.name!r} states {total} outcomes")
                    else:
                        equal(net.name, name, f"{where}: name")
                    equal(str(net), net.name, f"{where}: printed name")
                    equal({v: set(xs) for v, xs in net.variables}, {v: set(xs) for v, xs in w.variables}, f"{where}: variables")
                    equal(set(net.relations), set(w.relations), f"{where}: relations")
                    again = b.build()
                    require(again.outcomes == net.outcomes and again.name == net.name, f"{where}: building twice differs")
                    equal({(v, c) for v, c in plain(net.outcomes_as_edges_sets())}, {(plain_view(m), c) for m, c in want.items()},
                          f"{where}: outcomes as plain relation sets")
                for net, outs, nm in built:
                    equal(set_view(net.outcomes), outs, f"{where}: outcomes of the network built before")
                    equal(net.name, nm, f"{where}: name of the network built before")
                st.state((wname, tuple(sorted(model.items())), name))
        st.trace()
        st.sample([wname, [alpha[k] for k in seq]])
        return True

    def dfs(seq):
        if run(seq, False) and run(seq, True) and len(seq) < depth:
            for k in range(len(alpha)):
                dfs(seq + [k])

    run(prefix[:1], False)
    dfs(prefix)


def plain(fs):
    return list(fs)


def plain_view(m):
    return m[1] if m[1] else (next(iter(m[0])) if m[0] else None)


def impl_edge(m):
    e, r = next(iter(m[1]))
    return set(e), r


def case_create(st):
    good_v, good_r = {"a": {"x", "y"}, "b": {"x"}}, {"r"}
    bad_vs = [None, {}, {"a": set()}, {"a": {"x"}, "b": set()}, {0: set(), "b": {"x"}}]
    bad_rs = [None, set()]
    for v, r in itertools.product([good_v] + bad_vs, [good_r] + bad_rs):
        good = v is good_v and r is good_r
        for make in (lambda: RelationGraphBuilder(v, r), lambda: RelationGraphBuilder(v, r, "name"),
                     lambda: RelationGraphBuilder(variables=v, relations=r), lambda: BuilderComponentsProvider(v, r)):
            ok, res = attempt(make)
            if ok != good:
                raise Violation(f"network with variables {v} and relations {r} {'accepted' if ok else f'refused: {res!r}'}")
            if ok and isinstance(res, RelationGraphBuilder):
                equal({a: set(xs) for a, xs in res.variables}, good_v, "variables of the new network")
                equal(set(res.relations), good_r, "relations of the new network")
                require(not attempt(res.build)[0], "a new network without outcomes is refused")
            st.step()
    require(not attempt(RelationGraphBuilder)[0], "network without anything refused")
    net = RelationGraphBuilder(good_v, good_r, "named").build_sample(lambda b: b.build_empty()).build()
    equal(net.name, "named", "name given at creation")
    equal(set_view(net.outcomes), {M.EMPTY: 1}, "outcomes")
    for count in (0.5, 0.51, 0.75, 0.999999, 1 - 1e-15, 1e-300, 0.0, False, Fraction(3, 4), Fraction(999, 1000), -0.5, -1.5, -10 ** 30, float("-inf")):
        b = net.builder()
        s = b.sample_builder().build_single_node("a", "x")
        for add in (b.add_outcome, lambda s, c: b.add_outcomes([s], c)):
            for o in (s, b.sample_builder().build_empty()):
                require(not attempt(lambda: add(o, count))[0], f"outcome added {count!r} times")
                equal(set_view(b.build().outcomes), {M.EMPTY: 1}, f"outcomes after one was refused, as its count was {count!r}")
        st.step()
    # falsy but present vocabulary
    b = RelationGraphBuilder({0: {0}, "": {""}, None: {None}}, {0, "", None})
    equal({a: set(xs) for a, xs in b.variables}, {0: {0}, "": {""}, None: {None}}, "falsy variables")
    equal(set(b.relations), {0, "", None}, "falsy relations")
    st.state("create")
    st.trace()


def case_ids(st):
    w = World("s3")
    b = RelationGraphBuilder(components_provider=w.provider)
    m = M.all_samples(w.variables, w.relations)
    seen = []
    for i in range(70000):
        seen.append(b.next_id())
        if i % (3 if i < 3000 else 500) == 0:
            b.add_outcome(w.sample(m[i % len(m)]))
            attempt(lambda: b.add_outcome(w.sample(m[0]), 0))
            if i % 50 == 0:
                b.build()
                b.set_name(str(i))
        st.step()
    equal(len(set(seen)), 70000, "number of different identifiers")
    g = RelationGraphBuilder(components_provider=w.provider)
    first = [g.next_id() for _ in range(5)]
    g.generate_all_possible_outcomes()
    second = [g.next_id() for _ in range(5)]
    equal(len(set(first + second)), 10, "identifiers before and after generation")
    st.state("ids")
    st.trace()


def case_large(st, wname, size):
    w = World(wname)
    sp = [M.EMPTY] + M.all_samples(*M.world(wname))
    b = RelationGraphBuilder(components_provider=w.provider)
    model = {}

    def look(where):
        net = b.build()
        equal(set_view(net.outcomes), model, f"{where}: outcomes")
        equal(net.outcomes.length, sum(model.values()), f"{where}: number of outcomes")
        require(str(sum(model.values())) in net.name, f"{where}: default name {net.name!r}")
        st.step()
    for turn, order in enumerate((sp, sp[::-1])):
        parts = [[m] for m in order] if size == 0 else [order[i:i + size] for i in range(0, len(order), size)]
        for i, part in enumerate(parts):
            c = 1 + (i + turn) % 3
            lst = [make_sample(w.sb().set_name(f"n{i}" if i % 2 else None), m) for m in part]
            if size == 0:
                b.add_outcome(lst[0], c)
            else:
                b.add_outcomes(lst, c)
            for m in part:
                model[m] = model.get(m, 0) + c
            require(not attempt(lambda: b.add_outcome(lst[0], 0))[0], "count 0 accepted")
            require(not attempt(lambda: b.add_outcomes(lst, -1))[0], "count -1 accepted")
            if i % 16 == 0:
                look(f"{wname}: after part {i} of turn {turn}")
            st.state((wname, size, turn, i))
        look(f"{wname}: after turn {turn}")
    net = b.build()
    nb = net.builder()
    nb.add_outcome(w.sample(sp[1]), 5)
    equal(set_view(net.outcomes), model, "network after use of its builder")
    model[sp[1]] += 5
    equal(set_view(nb.build().outcomes), model, "builder of a large network")
    st.trace()

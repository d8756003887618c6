"""Every receiving operation x every foreign sample, and compatibility of everything derived."""
import copy
import itertools

from .. import model as M
from ..core import Violation, attempt, equal, require
from ..impl import (World, RelationGraphBuilder, SampleSetBuilder, make_sample, network, set_view, view)

ID = "R18"
ASSUMPTIONS = ["taking in a foreign collection without samples takes in nothing and is not judged"]
WORLDS = ["z3", "z2", "s3", "f2", "n3", "k2", "h2", "w2", "v4one", "n4"]


def bounds(tier):
    return ("every receiving operation (joining, join check, adding one, several or all, union from both sides, joining lists of "
            "collections with the foreign one at every position, outcomes, in-place building, evidence) on receivers in every "
            "state out of the sample space, with every foreign sample (equal in structure or not, single, empty, named) of 5 "
            "kinds of foreign network (identical, smaller, larger, different vocabulary, same outcomes), 10 vocabularies; "
            "every derivation chain of up to 3 steps out of 14 stays compatible")


def cases(tier):
    out = [["refuse", w, f, k, 4] for w in WORLDS for f in range(5) for k in range(4)]
    out += [["derive", w, k] for w in WORLDS for k in range(14)]
    return out


def run_case(case, st):
    globals()["case_" + case[0]](st, *case[1:])


def foreign_world(name, kind):
    v, r = M.world(name)
    if kind == 0:
        return World(spec=(v, r))
    if kind == 1:
        return World(spec=([(x, xs[:1]) for x, xs in v], r))
    if kind == 2:
        return World(spec=([(x, xs + ["zz"]) for x, xs in v] + [("zv", [0])], r + ["zr"]))
    if kind == 3:
        return World(spec=([("p", [0, 1]), ("q", [0])], ["t"]))
    w = World(spec=(v, r))
    RelationGraphBuilder(components_provider=w.provider).generate_all_possible_outcomes().build()
    return w


def case_refuse(st, wname, kind, part, parts):
    w = World(wname)
    fw = foreign_world(wname, kind)
    own = [m for m in M.all_samples(*M.world(wname)) if len(m[1]) <= 2]
    foreign = [m for m in M.all_samples(fw.variables, fw.relations, max_vars=2)] + [M.EMPTY]
    if len(own) > 20:
        own = own[:4] + own[len(own) // 2: len(own) // 2 + 8] + own[-8:]
    net = network(w, {m: 1 + i for i, m in enumerate(own)})
    model = set_view(net.outcomes)
    for i, fm in enumerate(foreign):
        if i % parts != part:
            continue
        f = make_sample(fw.sb().set_name("F" if i % 2 else None), fm)
        t = f"sample {M.text(fm)} of another network"
        require(not f.is_compatible(w.provider), f"{t} reported as compatible")
        ok, res = attempt(lambda: net.conditional_graph(f))
        require(not ok, f"{t} taken as evidence")
        equal(set_view(net.outcomes), model, f"network after refusing {t} as evidence")
        st.step()
        for m in own + [None]:
            where = f"{t}, receiver {M.text(m) if m else 'empty'}"
            # sample under construction
            b = w.sample(m).builder() if m else w.sb()
            require(not attempt(lambda: b.join_sample(f))[0], f"{where}: joined")
            require(not attempt(lambda: b.can_sample_be_joined(f))[0], f"{where}: join check gives an answer")
            if m:
                equal(view(b.build()), m, f"{where}: sample under construction after refusal")
            else:
                require(not attempt(b.build)[0], f"{where}: nothing was added")
            # collection under construction
            c = SampleSetBuilder(w.provider)
            if m:
                c.add(w.sample(m), 2)
            want = {m: 2} if m else {}
            require(not attempt(lambda: c.add(f, 1))[0], f"{where}: added to a collection")
            equal(set_view(c.build()), want, f"{where}: collection after refusal")
            fb = SampleSetBuilder(fw.provider).add(f, 3)
            fs = fb.build()
            require(not attempt(lambda: c.add_all(fs))[0], f"{where}: added with a collection")
            equal(set_view(c.build()), want, f"{where}: collection after refusal of all")
            require(not attempt(lambda: c.add_all(fb))[0], f"{where}: added with a builder")
            equal(set_view(c.build()), want, f"{where}: collection after refusal of a builder")
            s = c.build()
            require(not attempt(lambda: s.union(fs))[0], f"{where}: united")
            require(not attempt(lambda: fs.union(s))[0], f"{where}: united the other way")
            require(not s.is_compatible(fs) and not fs.is_compatible(s), f"{where}: collections reported as compatible")
            equal(set_view(s), want, f"{where}: collection after refused union")
            equal(set_view(fs), {fm: 3}, f"{where}: foreign collection after refused union")
            o = SampleSetBuilder(w.provider).add(w.sample(own[0]), 1).build()
            for n in (2, 3):
                for pos in range(n):
                    lst = [s, o, o][:n]
                    lst[pos] = fs
                    require(not attempt(lambda: SampleSetBuilder.join_sample_set(lst))[0], f"{where}: joined at {pos} of {n}")
            # network under construction
            g = RelationGraphBuilder(components_provider=w.provider)
            if m:
                g.add_outcome(w.sample(m), 2)
            for k, call in enumerate([lambda: g.add_outcome(f), lambda: g.add_outcome(f, 5), lambda: g.add_outcomes([f]),
                                      lambda: g.add_outcomes([f, f], 2), lambda: g.build_sample(lambda _: f)]):
                require(not attempt(call)[0], f"{where}: taken in as outcome ({k})")
                if m:
                    equal(set_view(g.build().outcomes), want, f"{where}: outcomes after refusal ({k})")
                else:
                    require(not attempt(g.build)[0], f"{where}: outcomes after refusal ({k})")
            if m:
                gg = network(w, want)
                hb = gg.builder()
                require(not attempt(lambda: hb.add_outcome(f))[0], f"{where}: taken in by a builder of a network")
                require(not attempt(lambda: gg.conditional_graph(f))[0], f"{where}: taken as evidence")
                cg = gg.conditional_graph(w.sample(m))
                require(not attempt(lambda: cg.relation_graph().conditional_graph(f))[0], f"{where}: taken as second evidence")
                require(not attempt(lambda: cg.builder().add_outcome(f))[0], f"{where}: taken in by a conditional's builder")
                require(not attempt(lambda: gg.sample_builder().join_sample(f))[0], f"{where}: joined in network's builder")
                if len(w.variables) and m[1]:
                    require(not attempt(lambda: gg.make_joined().conditional_graph(f))[0], f"{where}: evidence of joined")
                st.step(6)
            st.step(17)
            st.trace()
        st.state((wname, kind, M.text(fm)))
        st.sample([wname, kind, M.text(fm)])


def derivations(w):
    """(name, kind of argument, kind of result, function); kinds: G network, C conditional, B network builder, S collection, s sample"""
    def first(g):
        return min(g.outcomes.samples(), key=lambda s: s.text_view())

    def extend(b):
        return b.add_outcome(b.sample_builder().build_single_node(w.variables[0][0], w.variables[0][1][0]))
    return [
        ("conditional", "G", "C", lambda g: g.conditional_graph(first(g))),
        ("relation_graph", "GC", "G", lambda g: g.relation_graph()),
        ("builder", "GC", "B", lambda g: g.builder()),
        ("build", "B", "G", lambda b: b.build()),
        ("extend", "B", "B", extend),
        ("join all", "G", "G", lambda g: g.joined_on_variables()),
        ("make_joined", "G", "G", lambda g: g.relation_graph().make_joined() if g.is_factorized() and g.is_joined() else g),
        ("outcomes", "GC", "S", lambda g: g.outcomes),
        ("find", "GC", "S", lambda g: g.find_for_values(set())),
        ("filter", "S", "S", lambda s: s.filter_samples(lambda o: True)),
        ("rebuild", "S", "S", lambda s: s.builder().copy().build()),
        ("union", "S", "S", lambda s: s.union(s)),
        ("group", "S", "S", lambda s: next(iter(s.group_intersecting().values()))),
        ("network of", "S", "G", lambda s: RelationGraphBuilder(
            components_provider=w.provider).add_outcomes(sorted(s.samples(), key=str)).build()),
    ]


def sample_derivations(w, m):
    s = w.sample(m)
    yield s
    if m != M.EMPTY:
        yield s.builder().build()
        yield copy.copy(s.builder()).build()
        for v, x in m[0]:
            for y in dict(w.variables)[v]:
                yield s.transform_with_replaced_values({v: y})
        yield w.sb().join_sample(s).build()
    ss = SampleSetBuilder(w.provider).add(s, 1).build()
    yield next(iter(ss.samples()))
    if m != M.EMPTY:
        yield ss.make_joined_sample()[0]
    yield next(iter(ss.probabilities()))[0]


def case_derive(st, wname, k):
    """Everything derived takes in own samples and is taken in by the network it came from, also in a second network alike."""
    first = World(wname)
    derive(st, wname, k, first)
    second = World(wname)
    derive(st, wname, k, second)
    if k:
        return
    # sample spaces of networks alike, generated in turn
    nets = []
    for _ in range(3):
        w = World(wname)
        b = RelationGraphBuilder(components_provider=w.provider).generate_all_possible_outcomes()
        nets.append((w, b.build()))
        fresh = RelationGraphBuilder({v: set(xs) for v, xs in w.variables}, set(w.relations)).generate_all_possible_outcomes().build()
        for w2, net in nets:
            for s in net.outcomes.samples():
                for w3, other in nets:
                    require(s.is_compatible(w3.provider) == (w3 is w2), f"{wname}: generated sample {s} of a network alike")
                st.step()
            for w3, other in nets:
                require(net.outcomes.is_compatible(other.outcomes) == (w3 is w2), f"{wname}: generated spaces of networks alike")
            require(not net.outcomes.is_compatible(fresh.outcomes), f"{wname}: generated space of a new network alike")
            require(not attempt(lambda: net.conditional_graph(next(iter(fresh.outcomes.samples()))))[0],
                    f"{wname}: evidence of a new network alike")
    st.trace()


def derive(st, wname, k, w):
    sp = [m for m in M.all_samples(*M.world(wname)) if len(m[1]) <= 2]
    starts = [{m: 2} for m in sp[:3] + sp[-3:]] + [{sp[0]: 1, sp[-1]: 2}]
    ds = derivations(w)
    # networks whose builder was generated
    if k == 0:
        gen = RelationGraphBuilder(components_provider=w.provider).generate_all_possible_outcomes().build()
        for s in gen.outcomes.samples():
            require(s.is_compatible(w.provider), f"generated sample {s} is foreign to its network")
        accept(w, "G", gen, sp[0], "generated network")
        for m in sp + [M.EMPTY]:
            for s in sample_derivations(w, m):
                require(s.is_compatible(w.provider), f"sample derived of {M.text(m)} is foreign to its network")
                RelationGraphBuilder(components_provider=w.provider).add_outcome(s)
                st.step()
    for model in starts:
        for seq in itertools.product(range(len(ds)), repeat=2):
            obj, kind, names = network(w, model), "G", []
            for n in (k,) + seq:
                name, src, dst, f = ds[n]
                if kind not in src or kind in "GC" and not obj.outcomes or kind == "S" and not obj:
                    break       # not applicable, or nothing left to derive from
                obj = f(obj)
                kind = dst
                names.append(name)
                accept(w, kind, obj, sp[0], f"{ {M.text(m): c for m, c in model.items()} } {names}")
                st.step()
                st.state((wname, k, tuple(names), tuple(map(M.text, model))))
            st.trace()


def accept(w, kind, obj, m, where):
    s = w.sample(m)
    ok, res = True, None
    if kind == "G":
        ok, res = attempt(lambda: obj.conditional_graph(s))
        outs = obj.outcomes
    elif kind == "C":
        outs = obj.outcomes
        ok, res = attempt(lambda: obj.sample_builder().join_sample(s))
        require(obj.evidence.is_compatible(w.provider), f"{where}: evidence is foreign")
    elif kind == "B":
        outs = obj.build().outcomes
        ok, res = attempt(lambda: obj.sample_builder().join_sample(s))
    else:
        outs = obj
    require(ok, f"{where}: refuses an own sample: {res!r}")
    own = SampleSetBuilder(w.provider).add(s, 1).build()
    require(outs.is_compatible(own) and own.is_compatible(outs), f"{where}: collection became foreign")
    ok, res = attempt(lambda: outs.union(own))
    require(ok, f"{where}: refuses union with an own collection: {res!r}")
    for o in outs.samples():
        require(o.is_compatible(w.provider), f"{where}: outcome {o} became foreign")
        ok, res = attempt(lambda: own.builder().add(o, 1))
        require(ok, f"{where}: outcome {o} refused: {res!r}")

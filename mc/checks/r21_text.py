"""Text of samples, collections, networks and views."""
import itertools
import os

from .. import model as M
from ..core import Violation, equal, require
from ..impl import (World, SampleSetBuilder, make_sample, network, rel_from_impl)
from ..shapes import SHAPES, dense, names as var_names, sample, shape
from scripts.relnet.activation_graph import ActiveEdge
from scripts.relnet.folded_graph import FoldedEdge
from scripts.relnet.variables_graph import VariableEdge, VariableNode

ID = "R21"
ASSUMPTIONS = ["different texts of different samples are only required where names print unambiguously"]
UNAMBIGUOUS = ["s3", "s3r1", "f3", "n3", "w2", "v4", "v4two", "s3+d2", "f2+d", "v4one", "n4"]
COUNTS = [1, 12, 100, 2, 999, 1000, 1001, 10 ** 6, 2 ** 31, 10 ** 18, 10 ** 20, 3]
COLLIDING = ["k2", "k3", "h2", "h3"]


def bounds(tier):
    return ("every sample of 15 vocabularies (named, unnamed, built in two ways, joined, and with one value replaced), distinctness of all texts of each space, all "
            "collections of up to 2 samples" + (" (3 in thorough)" if tier == "thorough" else "") + " plus the whole space in 2 "
            "insertion orders with names and 12 counts from 1 to 10^20, descriptions of all networks of up to 2 outcomes and all conditional networks "
            "of the whole space, all nodes and edges of their folded and activation views; the same for networks of 150 outcomes of each of 10 shapes on 6 to 14 variables, "
            "under 5 hash assignments; networks with 13 values per variable and 13 relations per pair; "
            "the plain, folded and activation edge and the relation of each pair of 14 names, under 6 hash assignments")


def space(name):
    base = name.split("+")[0]
    v, r = M.world(base)
    if name.endswith("+d2"):
        return (v, r), M.all_samples(v, r, directed=True, max_vars=2)
    return (v, r), M.all_samples(v, r, directed=name.endswith("+d"))


def cases(tier):
    out = [["samples", w] for w in UNAMBIGUOUS + COLLIDING]
    out += [["collections", w, k, 16, 3 if tier == "thorough" and w in ("f2+d", "v4one", "n3") else 2]
            for w in UNAMBIGUOUS + COLLIDING for k in range(16)]
    out += [["views", w, k, 16] for w in ("s3", "s3r1", "n3", "w2", "v4", "v4two", "f2+d", "v4one", "f3") for k in range(16)]
    out += [["big", s, n, (i + n) % 5] for i, s in enumerate(SHAPES) for n in (6, 10, 14)] + [["dense", h] for h in range(5)] + [["pairs", h] for h in range(6)]
    return out


def run_case(case, st):
    globals()["case_" + case[0]](st, *case[1:])


def case_samples(st, wname):
    (v, r), sp = space(wname)
    check_samples(st, World(spec=(v, r)), wname, sp, wname in UNAMBIGUOUS)


def check_samples(st, w, wname, sp, unambiguous):
    texts = {}
    for m in [M.EMPTY] + sp:
        want = M.text(m)
        s = make_sample(w.sb(), m)
        named = make_sample(w.sb().set_name("Some name"), m)
        equal(s.text_view(), want, f"text of {want}")
        equal(s.name, want, f"name of unnamed {want}")
        equal(str(s), want, f"printed unnamed {want}")
        equal(repr(s), want, f"printed unnamed {want}")
        equal(named.name, "Some name", "name of a named sample")
        equal(str(named), "Some name", "printed named sample")
        equal(named.text_view(), want, f"text of named {want}")
        if m[1]:
            from ..impl import edges_to_impl
            other = w.sb().build_from_edges(edges_to_impl(m[1]))
            equal(other.text_view(), want, f"text of {want} built in bulk")
            equal(other.name, want, f"name of {want} built in bulk")
        if m != M.EMPTY:
            # samples made of others: named if a name is given, else by their own text
            for source in (s, named):
                joined = w.sb().join_sample(source).build()
                equal((joined.name, joined.text_view()), (want, want), f"name and text of a sample joined from {want}")
            for v, xs in w.variables:
                old = dict(m[0]).get(v, want)
                if old in xs and len(xs) > 1:
                    new = xs[(xs.index(old) + 1) % len(xs)]
                    t = M.text(M.replace(m, {v: new}))
                    for source in (s, named):
                        res = source.transform_with_replaced_values({v: new})
                        equal((res.name, res.text_view()), (t, t), f"name and text of {want} with {new!r} for {old!r}")
                        equal(source.transform_with_replaced_values({v: new}, "Other").name, "Other", "name given for the replaced sample")
                        st.step(2)
        for n in s.nodes:
            equal(str(n), f"({n.variable}_{n.value})", "printed value")
        for e in s.edges:
            p, q = sorted(f"({n.variable}_{n.value})" for n in e.endpoints)
            equal(str(e), f"{p}--{{{rel_from_impl(e.relation)}}}--{q}", "printed relation")
        if unambiguous:
            require(s.text_view() not in texts, lambda: f"{want} prints like another sample, {texts[s.text_view()]}")
            texts[s.text_view()] = m
        st.step(6)
        st.state((wname, m))
        st.trace()
        st.sample(want)


def sample_name(m, i):
    return None if i % 2 else f"O_{i}"


def check_listing(w, model, names, order, st):
    b = SampleSetBuilder(w.provider)
    for m in order:
        b.add(make_sample(w.sb().set_name(names[m]), m), model[m])
    ss = b.build()
    shown = {m: names[m] or M.text(m) for m in model}
    st.step(2)
    equal(str(ss), "{\n" + "\n".join(sorted(f"    {shown[m]}: {c}" for m, c in model.items())) + "\n}", "printed collection")
    from ..impl import empty_network_builder
    nb = empty_network_builder(w)
    for m in order:
        nb.add_outcome(make_sample(w.sb().set_name(names[m]), m), model[m])
    net = nb.build()
    lines = sorted(f"{shown[m]}({c})" for m, c in model.items())
    equal(net.print_samples(), os.linesep.join(lines), "printed outcomes of a network")
    return net


def check_describe(w, net, model, st):
    total = sum(model.values())
    equal(net.describe(), {
        "name": net.name, "number_of_variables": len(w.variables), "number_of_relations": len(w.relations),
        "number_of_outcomes": total, "variables": {str(v) for v, _ in w.variables},
        "relations": {str(r) for r in w.relations}}, "description of a network")
    st.step()


def check_conditional(cond, model, ev, st):
    equal(cond.describe(), {
        "query": M.text(ev), "number_outcomes": sum(model.values()),
        "included_variables": {str(v) for m in model for v, _ in m[0]},
        "included_relations": {str(r) for m in model for _, r in m[1]}}, f"description of the condition on {M.text(ev)}")
    st.step()


def case_collections(st, wname, part, parts, size):
    (v, r), sp = space(wname)
    w = World(spec=(v, r))
    sp = [M.EMPTY] + sp
    index = {m: i for i, m in enumerate(sp)}
    n = 0
    for k in range(1, size + 1):
        for sub in itertools.combinations(sp, k):
            n += 1
            if n % parts != part or (len(sp) > 150 and k == 2 and n % (parts * 4) != part):
                continue
            model = {m: COUNTS[(i + n * (i + 1)) % 12] for i, m in enumerate(sub)}
            names = {m: sample_name(m, index[m]) for m in sub}
            net = check_listing(w, model, names, sub if n % 2 else sub[::-1], st)
            check_describe(w, net, model, st)
            equal(str(net), net.name, "printed network")
            c = net.conditional_graph(w.sample(sub[0]))
            check_conditional(c, M.condition(model, sub[0]), sub[0], st)
            equal(str(c), c.name, "printed conditional network")
            st.trace()
            st.state((wname, tuple(sorted(map(M.text, sub)))))
    if part < 2:
        model = {m: COUNTS[i % 12] for i, m in enumerate(sp)}
        names = {m: sample_name(m, i) for i, m in enumerate(sp)}
        net = check_listing(w, model, names, sp if part else sp[::-1], st)
        check_describe(w, net, model, st)


def case_views(st, wname, part, parts):
    (v, r), sp = space(wname)
    w = World(spec=(v, r))
    big = {m: COUNTS[i % 11] for i, m in enumerate([M.EMPTY] + sp)}
    full = network(w, big)
    for i, ev in enumerate(sp):
        if i % parts != part:
            continue
        model = M.condition(big, ev)
        cond = full.conditional_graph(w.sample(ev), f"C{i}")
        check_conditional(cond, model, ev, st)
        equal(str(cond), f"C{i}", "printed conditional network")
        check_views(cond, st)
        small = {ev: COUNTS[i % 12], sp[(i * 7) % len(sp)]: COUNTS[i % 7]}
        check_views(network(w, small), st)
        st.state((wname, M.text(ev)))
        st.trace()


def check_views(net, st):
    fg = net.folded_graph("F")
    equal(str(fg), "F", "printed folded view")
    for n in fg.nodes:
        vals = ",".join(sorted(f"{x.value}({c})" for x, c in n.value_nodes))
        equal(str(n), f"({n.variable}:{{{vals}}})", "printed folded variable")
    for e in fg.edges:
        rels = ",".join(sorted(f"{x.relation}({c})" for x, c in e.relation_edges))
        a, b = sorted(str(v) for v in e.endpoints)
        equal(str(e), f"({a})--{{{rels}}}--({b})", "printed folded pair")
    st.step(len(fg.nodes) + len(fg.edges))
    if not hasattr(net, "evidence"):
        return
    ag = net.activation_graph(None, "A")
    equal(str(ag), "A", "printed activation view")
    queried_vars = {n.variable for n in net.evidence.nodes}
    queried_pairs = {frozenset(n.variable for n in e.endpoints) for e in net.evidence.edges}
    for n in ag.nodes:
        vals = ",".join(sorted(f"{x}({wt})" for x, wt in n.values))
        q = "Q" if n.variable in queried_vars else ""
        equal(str(n), f"{q}({n.variable}:{{{vals}}})", "printed activation variable")
    for e in ag.edges:
        rels = ",".join(sorted(f"{x}({c})" for x, c in e.relations))
        a, b = sorted(str(v) for v in e.endpoints)
        q = "Q" if frozenset(e.endpoints) in queried_pairs else ""
        equal(str(e), f"({a})--{q}{{{rels}}}--({b})", "printed activation pair")
    st.step(len(ag.nodes) + len(ag.edges))


def case_big(st, kind, n, h):
    vs = var_names(n, h)
    w = World(spec=([(v, [0, 1, 2]) for v in vs], ["r", "s", "t"]))
    idx = shape(kind, n)
    sp = {}
    for i in range(150):
        m = sample(vs, idx, (lambda k: (i + k) % 3 if k == i % n else (i // n + k) % 2), (lambda k: "rst"[(i + k * (i % 4)) % 3]))
        sp[m] = None
    sp = list(sp)
    check_samples(st, w, f"{kind} {n}", sp, True)
    model = {m: COUNTS[i % 12] for i, m in enumerate(sp)}
    names = {m: sample_name(m, i) for i, m in enumerate(sp)}
    for order in (sp, sp[::-1]):
        net = check_listing(w, model, names, order, st)
        check_describe(w, net, model, st)
    for ev in (sp[0], sample(vs, idx[:1], lambda k: dict(sp[0][0])[vs[k]], lambda k: dict((e, r) for e, r in sp[0][1])[
            frozenset((vs[j], dict(sp[0][0])[vs[j]]) for j in idx[0])]), M.single(vs[0], 0)):
        cond = net.conditional_graph(w.sample(ev), "C")
        check_conditional(cond, M.condition(model, ev), ev, st)
        if cond.outcomes:
            check_views(cond, st)
    check_views(net, st)


def case_dense(st, h):
    """Variables of many values, pairs of many relations, descriptions of both."""
    vs, spec, model = dense(h)
    w = World(spec=spec)
    sp = list(model)
    names = {m: sample_name(m, i) for i, m in enumerate(sp)}
    net = check_listing(w, model, names, sp, st)
    check_describe(w, net, model, st)
    check_views(net, st)
    for ev in [M.single(vs[0], 3), M.single(vs[1], 12), M.single(vs[2], 0), M.single(vs[3], 0), sp[0], sp[40]]:
        cond = net.conditional_graph(w.sample(ev), "C")
        check_conditional(cond, M.condition(model, ev), ev, st)
        check_views(cond, st)
        st.state((h, M.text(ev)))
    st.trace()


def case_pairs(st, h):
    """The two ends of every kind of edge, for names of all lengths whose hashes order them in different ways."""
    texts = ["a", "b", "c", "B", "ab", "ba", "", "_", "a_1", "\u00e9", "10", "9", "aa", "z"]
    k = len(texts)
    hashes = [[i for i in range(k)], [k - i for i in range(k)], [7] * k, [i * 5 % 8 for i in range(k)], [i % 2 for i in range(k)], [8 * i for i in range(k)]][h]
    names = [M.HS(t, x) for t, x in zip(texts, hashes)]
    provider = World(spec=([(n, [1]) for n in names], ["r", "s"])).provider
    for a, b in itertools.permutations(names, 2):
        x, y = sorted((str(a), str(b)))
        equal(str(VariableEdge({a, b})), f"({x})--({y})", "printed plain pair")
        na, nb = provider.get_node(a, 1), provider.get_node(b, 1)
        e, f = provider.get_edge(frozenset((na, nb)), "r"), provider.get_edge(frozenset((na, nb)), "s")
        u, v = sorted((f"({a}_1)", f"({b}_1)"))
        equal(str(e), f"{u}--{{r}}--{v}", "printed relation")
        equal(str(FoldedEdge({a, b}, {e: 2, f: 1})), f"({x})--{{r(2),s(1)}}--({y})", "printed folded pair")
        for q in (True, False):
            equal(str(ActiveEdge({a, b}, {"s": 3, "r": 1}, q)), f"({x})--{'Q' if q else ''}{{r(1),s(3)}}--({y})", "printed activation pair")
        st.step(5)
    for a in names:
        equal(str(VariableNode(a)), f"({a})", "printed plain variable")
        equal(str(provider.get_node(a, 1)), f"({a}_1)", "printed value")
    st.state(("pairs", h))
    st.trace()

"""What was built never changes: all histories of building, deriving, copying, editing; edits of arguments and results."""
import copy
import itertools

from .. import model as M
from ..core import Violation, attempt, equal, require
from ..impl import (World, BuilderComponentsProvider, RelationGraph, RelationGraphBuilder, SampleSet, SampleSetBuilder,
                    edge_view, edges_to_impl, layers_view, make_sample, network, node_view, rel_from_impl, set_view, view)

ID = "R04"
ASSUMPTIONS = ["objects are used through their public methods and the results these return"]


def bounds(tier):
    d = (6, 5, 5) if tier == "thorough" else (5, 4, 4)
    return (f"all histories of up to {d[0]} sample operations (adding, joining, bulk building, replacing, naming, building, deriving a "
            f"builder, copying a builder) over up to 3 builders and all samples built, of up to {d[1]} collection operations and of up "
            f"to {d[2]} network operations (conditioning, views, builders, joins), starting empty or (one operation less) with 8 or 9 samples, "
            "everything built before re-examined after each operation; edits of every mutable argument and of every mutable result of every query, on 8 vocabularies")


# ------------------------------------------------------------------ sample level

def sample_ops():
    out = [("add", b, e) for b in (0, 1) for e in (0, 1, 2)]
    out += [("build", 0), ("build", 1), ("copy", 0), ("copy", 1), ("derive", 0), ("derive", -1), ("join", 0), ("join", 1),
            ("bulk", 0), ("name", 0), ("name", 1), ("replace",), ("single", 0)]
    return out


def cases(tier):
    d = (6, 5, 5) if tier == "thorough" else (5, 4, 4)
    out = []
    for w in ("s3", "f3"):
        n = len(sample_ops())
        out += [["samples", w, list(p), d[0] if w == "s3" else d[0] - 1] for p in itertools.product(range(n), repeat=2)]
    n = len(set_ops())
    out += [["sets", w, list(p), d[1], 0] for w in ("s3", "f2") for p in itertools.product(range(n), repeat=2)]
    out += [["sets", "s3", list(p), d[1] - 1, 9] for p in itertools.product(range(n), repeat=2)]
    n = len(net_ops())
    out += [["nets", w, list(p), d[2], 0] for w in ("s3", "n3") for p in itertools.product(range(n), repeat=2)]
    out += [["nets", "s3", list(p), d[2] - 1, 7] for p in itertools.product(range(n), repeat=2)]
    out += [["results", w, k, 8] for w in ("s3", "f2", "n3", "w2", "v4one", "z2", "k2", "h2") for k in range(8)]
    out += [["arguments", w] for w in ("s3", "f2", "n3", "w2", "v4one", "z2", "k2", "h2")]
    return out


def run_case(case, st):
    globals()["case_" + case[0]](st, *case[1:])


def sample_facts(s):
    """Everything a sample reports, in plain values."""
    return (view(s), s.name, str(s), s.text_view(), frozenset(s.values()), frozenset(s.included_variables), bool(s.is_single_node),
            bool(s.is_k_0), s.edges_set_view(), frozenset(s.edges_endpoint_variables()), hash(s))


def dfs_all(run, prefix, alphabet, depth, st):
    """Run the prefix's own prefixes and all extensions up to depth. run(seq) -> False prunes."""
    for n in range(1, len(prefix)):
        if not run(prefix[:n]):
            return

    def go(seq):
        if run(seq) and len(seq) < depth:
            for k in range(alphabet):
                go(seq + [k])
    go(prefix)


def case_samples(st, wname, prefix, depth):
    w = World(wname)
    sp = M.all_samples(w.variables, w.relations)
    three = next(m for m in sp if len(m[1]) == 2 and len(m[0]) == 3)
    e0, e1 = sorted(three[1], key=repr)
    shared = e0[0] & e1[0]
    (v, x), = shared
    other = sorted(e0[0] | e1[0] - shared, key=repr)
    far = [n for n in (e0[0] | e1[0]) - shared]
    edges = [e0, e1, (frozenset(far), w.relations[-1])]
    big = M.from_edges([e0, e1])
    big_s = w.sample(big)
    flip_var, flip_vals = w.variables[0]
    alpha = sample_ops()

    def run(seq):
        builders = [(w.sb(), [M.EMPTY, None])]
        samples = []
        fresh = False
        for n, k in enumerate(seq):
            op = alpha[k]
            kind = op[0]
            last = n == len(seq) - 1
            if kind in ("add", "build", "copy", "join", "bulk", "name", "single"):
                if op[1] >= len(builders):
                    return False
                b, bm = builders[op[1]]
            if kind == "add":
                e, r = edges[op[2]]
                m = bm[0]
                ok, _ = attempt(lambda: b.add_relation(set(e), r))
                want = (not m[0] or bool(e & m[0])) and not any(x == e for x, _ in m[1])
                if ok != want:
                    raise Violation(f"{[alpha[i] for i in seq[:n + 1]]}: addition {'accepted' if ok else 'refused'}")
                if ok:
                    bm[0] = M.union(m, (frozenset(e), frozenset({(e, r)})))
            elif kind == "build":
                if not bm[0][0]:
                    return False
                s = b.build()
                equal((view(s), s.name), (bm[0], bm[1] or M.text(bm[0])), f"{[alpha[i] for i in seq[:n + 1]]}: built sample")
                samples.append((s, sample_facts(s)))
            elif kind == "copy":
                if len(builders) >= 3:
                    return False
                builders.append((copy.copy(b), list(bm)))
            elif kind == "derive":
                if not samples or len(builders) >= 3:
                    return False
                s, facts = samples[op[1]]
                builders.append((s.builder(), [facts[0], facts[1]]))
            elif kind == "join":
                if not M.single_valued(bm[0]):      # joining to a builder with two values of a variable: not specified
                    return False
                if bm[0][0] and not M.can_join(bm[0], big):
                    ok, _ = attempt(lambda: b.join_sample(big_s))
                    require(not ok, "a conflicting join is accepted")
                else:
                    b.join_sample(big_s)
                    bm[0] = M.union(bm[0], big)
            elif kind == "bulk":
                m = bm[0]
                if m[0]:
                    return False
                s = b.build_from_edges(edges_to_impl(big[1]))
                bm[0] = big
                samples.append((s, sample_facts(s)))
            elif kind == "name":
                bm[1] = f"N{op[1]}"
                b.set_name(bm[1])
            elif kind == "single":
                s = b.build_single_node(v, x)
                samples.append((s, sample_facts(s)))
                equal(view(s), M.single(v, x), "single value sample")
            elif kind == "replace":
                if not samples:
                    return False
                s = samples[-1][0].transform_with_replaced_values({flip_var: flip_vals[-1]})
                samples.append((s, sample_facts(s)))
            if last:
                st.step()
                where = f"after {[alpha[i] for i in seq]}"
                for s, facts in samples:
                    if sample_facts(s) != facts:
                        raise Violation(f"{where}: sample {facts[3]} changed to {sample_facts(s)}")
                equal(view(big_s), big, f"{where}: joined sample changed")
                for i, (b, bm) in enumerate(builders):
                    if bm[0][0]:
                        s = b.build()
                        if view(s) != bm[0] or s.name != (bm[1] or M.text(bm[0])):
                            raise Violation(f"{where}: builder {i} holds {view(s)} named {s.name!r}, expected {bm[0]} {bm[1]!r}")
                    else:
                        require(not attempt(b.build)[0], f"{where}: builder {i} is not empty any more")
                st.state((wname, tuple((M.text(bm[0]), bm[1]) for _, bm in builders), tuple(f[3] for _, f in samples)))
        st.trace()
        st.sample([alpha[i] for i in seq])
        return True

    dfs_all(run, prefix, len(alpha), depth, st)


# ------------------------------------------------------------------ collection level

def set_ops():
    return [("add", 0, 0, 1), ("add", 0, 1, 2), ("add", 1, 0, 5), ("remove", 0, 0), ("remove", 1, 1), ("build", 0), ("build", 1),
            ("copy", 0), ("derive", 0), ("derive", -1), ("union",), ("filter",), ("addall", 0), ("addall", 1), ("removeall", 1),
            ("group",), ("joinsets",)]


def set_facts(s):
    return (frozenset((view(o), c, o.name) for o, c in s.items()), s.length, len(s), bool(s), hash(s), str(s))


def more(sp, ms, extra):
    """Further samples of different shapes."""
    rest = [m for m in sp if m not in ms]
    return [rest[i * (len(rest) - 1) // max(1, extra - 1)] for i in range(extra)]


def case_sets(st, wname, prefix, depth, extra):
    w = World(wname)
    sp = M.all_samples(w.variables, w.relations)
    ms = [next(m for m in sp if m[1]), sp[0]]
    ms += more(sp, ms, extra)
    objs = [w.sample(m) for m in ms]
    alpha = set_ops()

    def run(seq):
        builders = [(SampleSetBuilder(w.provider), {i: i for i in range(2, len(ms))})]
        for i in range(2, len(ms)):
            builders[0][0].add(objs[i], i)
        sets, answers = [], []
        for n, k in enumerate(seq):
            op = alpha[k]
            kind = op[0]
            if kind in ("add", "remove", "build", "copy", "addall", "removeall"):
                if op[1] >= len(builders):
                    return False
                b, bm = builders[op[1]]
                for got in (b.items(), b.samples()):
                    answers.append((got, set(got)))
            if kind == "add":
                b.add(objs[op[2]], op[3])
                bm[op[2]] = bm.get(op[2], 0) + op[3]
            elif kind == "remove":
                if op[2] not in bm:
                    return False
                b.remove(objs[op[2]])
                del bm[op[2]]
            elif kind == "build":
                s = b.build()
                sets.append((s, set_facts(s)))
                equal(set_view(s), {ms[i]: c for i, c in bm.items()}, "built collection")
            elif kind == "copy":
                if len(builders) > 2:
                    return False
                builders.append((b.copy(), dict(bm)))
            elif kind == "derive":
                if not sets or len(builders) > 2:
                    return False
                s = sets[op[1]][0]
                v = set_view(s)
                builders.append((s.builder(), {i: v[m] for i, m in enumerate(ms) if m in v}))
            elif kind in ("union", "filter", "group", "joinsets"):
                if not sets:
                    return False
                a, z = sets[0][0], sets[-1][0]
                new = {"union": lambda: [a.union(z)], "filter": lambda: [z.filter_samples(lambda o: not o.edges)],
                       "group": lambda: list(z.group_intersecting().values()),
                       "joinsets": lambda: [SampleSetBuilder.join_sample_set([a, z, a])]}[kind]()
                sets += [(s, set_facts(s)) for s in new]
            elif kind == "addall":
                if not sets:
                    return False
                b.add_all(sets[-1][0])
                for i, m in enumerate(ms):
                    c = set_view(sets[-1][0]).get(m)
                    if c:
                        bm[i] = bm.get(i, 0) + c
            elif kind == "removeall":
                if not sets or not set(set_view(sets[0][0])) <= {ms[i] for i in bm}:
                    return False
                b.remove_all(sets[0][0])
                for i, m in enumerate(ms):
                    if m in set_view(sets[0][0]):
                        del bm[i]
            if n == len(seq) - 1:
                st.step()
                where = f"after {[alpha[i] for i in seq]}"
                for got, copied in answers:
                    if set(got) != copied:
                        raise Violation(f"{where}: items or samples that a builder was asked for before changed from {copied} to {got}")
                for s, facts in sets:
                    if set_facts(s) != facts:
                        raise Violation(f"{where}: built collection {facts[5]} changed to {s}")
                for i, (b, bm) in enumerate(builders):
                    equal(set_view(b.build()), {ms[j]: c for j, c in bm.items()}, f"{where}: builder {i}")
                    equal(b.length(), sum(bm.values()), f"{where}: length of builder {i}")
                st.state((wname, tuple(tuple(sorted(bm.items())) for _, bm in builders), tuple(f[5] for _, f in sets)))
        st.trace()
        return True

    dfs_all(run, prefix, len(alpha), depth, st)


# ------------------------------------------------------------------ network level

def net_ops():
    return [("add", 0), ("add", 1), ("build",), ("netbuilder",), ("condbuilder",), ("cond", 0), ("cond", 1), ("fold",), ("act",),
            ("rename",), ("joinvars",), ("makejoined",), ("marginals",), ("regraph",), ("factor",), ("generate",)]


def net_facts(g):
    out = [set_facts(g.outcomes), str(g), g.name, frozenset((v, frozenset(x)) for v, x in g.included_variables()),
           frozenset(map(rel_from_impl, g.included_relations())), g.print_samples(), repr(sorted(map(str, g.describe().items())))]
    if isinstance(g, RelationGraph):
        out += [frozenset((v, frozenset(x)) for v, x in g.variables), frozenset(g.relations), g.is_joined(), g.is_factorized()]
    else:
        out += [sample_facts(g.evidence)]
    return tuple(out)


def fold_facts(f):
    return (f.number_of_outcomes, f.name, frozenset(f.variables),
            frozenset((n.variable, frozenset((node_view(k), c) for k, c in n.value_nodes), frozenset(n.values), n.unobserved_count(),
                       frozenset(n.marginal_distribution().items()), str(n)) for n in f.nodes),
            frozenset((frozenset(e.endpoints), frozenset((edge_view(k), c) for k, c in e.relation_edges)) for e in f.edges))


def act_facts(a):
    return (a.number_of_outcomes, a.name, frozenset(a.variables),
            frozenset((n.variable, frozenset(n.values), n.in_query, str(n)) for n in a.nodes),
            frozenset((frozenset(e.endpoints), frozenset((rel_from_impl(r), c) for r, c in e.relations), e.in_query) for e in a.edges))


def case_nets(st, wname, prefix, depth, extra):
    w = World(wname)
    sp = M.all_samples(w.variables, w.relations)
    ms = [next(m for m in sp if m[1]), sp[0]]
    ms += more(sp, ms, extra)
    objs = [w.sample(m) for m in ms]
    alpha = net_ops()

    def run(seq):
        b, bm = empty(w), {ms[1]: 1}
        b.add_outcome(objs[1])
        for i in range(2, len(ms)):
            b.add_outcome(objs[i], i)
            bm[ms[i]] = i
        live = []          # (object, facts function, facts)

        def keep(o, f):
            live.append((o, f, f(o)))
            return o
        net, cond = keep(b.build(), net_facts), None
        builders = [(b, bm)]
        for n, k in enumerate(seq):
            op = alpha[k]
            kind = op[0]
            b, bm = builders[-1]
            if kind == "add":
                b.add_outcome(objs[op[1]], 3)
                bm[ms[op[1]]] = bm.get(ms[op[1]], 0) + 3
            elif kind == "build":
                net = keep(b.build(), net_facts) if bm else net
                equal(set_view(net.outcomes), bm or set_view(net.outcomes), "built network")
            elif kind == "netbuilder":
                builders.append((net.builder(), set_view(net.outcomes)))
            elif kind == "condbuilder":
                if cond is None:
                    return False
                builders.append((cond.builder(), set_view(cond.outcomes)))
            elif kind == "cond":
                cond = keep(net.conditional_graph(objs[op[1]]), net_facts)
            elif kind == "fold":
                keep((cond or net).folded_graph(), fold_facts)
                keep(net.folded_graph("named"), fold_facts)
            elif kind == "act":
                if cond is None or not cond.outcomes:
                    return False
                keep(cond.activation_graph(), act_facts)
            elif kind == "rename":
                b.set_name(f"R{n}")
            elif kind == "joinvars":
                net = keep(net.joined_on_variables(), net_facts)
            elif kind == "makejoined":
                ok, res = attempt(net.make_joined)
                if not ok:
                    return False
                net = keep(res, net_facts)
            elif kind == "marginals":
                for d in (net.marginal_variables_probability(), net.marginal_variables_probability(None, True)):
                    for x in d.values():
                        x.clear()
                    d.clear()
            elif kind == "regraph":
                net = keep((cond or net).relation_graph(), net_facts)
            elif kind == "factor":
                ok, res = attempt((cond or net).factorized)
                if not ok:
                    return False
                for s in res:
                    keep(s, set_facts)
            elif kind == "generate":
                if bm:
                    require(not attempt(b.generate_all_possible_outcomes)[0], "generation with outcomes accepted")
            if n == len(seq) - 1:
                st.step()
                where = f"after {[alpha[i] for i in seq]}"
                for o, f, facts in live:
                    now = f(o)
                    if now != facts:
                        raise Violation(f"{where}: {type(o).__name__} changed from {facts} to {now}")
                for i, (b, bm) in enumerate(builders):
                    if bm:
                        equal(set_view(b.build().outcomes), bm, f"{where}: network builder {i}")
                for m, o in zip(ms, objs):
                    equal(view(o), m, f"{where}: outcome sample")
                st.state((wname, tuple(tuple(sorted((M.text(m), c) for m, c in bm.items())) for _, bm in builders), len(live),
                          tuple(str(f) for _, _, f in live)))
        st.trace()
        return True

    dfs_all(run, prefix, len(alpha), depth, st)


def empty(w):
    return RelationGraphBuilder(components_provider=w.provider)


# ------------------------------------------------------------------ edits of results and arguments

def spoil(o):
    """Edit a mutable result in every way at hand; immutable ones stay as they are."""
    if isinstance(o, dict):
        for v in list(o.values()):
            spoil(v)
        o.clear()
        o["?"] = "?"
    elif isinstance(o, set):
        o.clear()
        o.add("?")
    elif isinstance(o, list):
        for v in o:
            spoil(v)
        o.append("?")
        o.reverse()
    elif isinstance(o, tuple):
        for v in o:
            spoil(v)


def case_results(st, wname, part, parts):
    w = World(wname)
    sp = [M.EMPTY] + [m for m in M.all_samples(w.variables, w.relations) if len(m[1]) <= 3]
    if len(sp) > 60:
        sp = sp[:30] + sp[-30:]
    big = {m: [1, 2, 3, 10 ** 15, 1000][i % 5] for i, m in enumerate(sp)}
    net = network(w, big)
    nf = net_facts(net)
    for i, m in enumerate(sp):
        if i % parts != part:
            continue
        s = w.sample(m)
        facts = sample_facts(s)
        nodes = list(s.nodes)
        queries = [s.values, s.edges_set_view, s.edges_endpoint_variables, lambda: s.variables_subgraph_hash(set(s.included_variables)),
                   lambda: s.nodes, lambda: s.edges, lambda: s.included_variables]
        for nd in nodes:
            queries += [lambda nd=nd: s.neighboring_values(nd), lambda nd=nd: s.belt_nodes({nd}), lambda nd=nd: s.external_nodes({nd})]
        for q in queries:
            before = repr_set(q())
            spoil(q())
            if repr_set(q()) != before or sample_facts(s) != facts:
                raise Violation(f"sample {M.text(m)} changes when the result of a query is edited")
            st.step()
        ss = SampleSetBuilder(w.provider).add(s, 2).add(w.sample(sp[0]), 1)
        built = ss.build()
        bf = set_facts(built)
        for q in (built.items, built.samples, built.probabilities, built.group_intersecting if m != M.EMPTY and sp[0] not in
                  set_view(built) else built.items, ss.items, ss.samples, lambda: attempt(built.make_joined_sample)[1]):
            before = answer(q())
            spoil(q())
            equal(answer(q()), before, "answer of a collection after the one before was edited")
            equal(set_facts(built), bf, "collection after its result was edited")
            equal(set_view(ss.build()), set_view(built), "collection builder after its result was edited")
            st.step()
        if m != M.EMPTY:
            one = SampleSetBuilder(w.provider).add(s, 2).build()
            for q in (one.make_joined_sample, one.group_intersecting, one.probabilities):
                before = answer(q())
                spoil(q())
                equal(answer(q()), before, "answer of a collection of one sample after the one before was edited")
        cond = net.conditional_graph(s)
        cf = net_facts(cond)
        fold = cond.folded_graph()
        ff = fold_facts(fold)
        act = cond.activation_graph() if m != M.EMPTY and cond.outcomes else None
        af = act and act_facts(act)
        for g, f in ((net, nf), (cond, cf)):
            for q in (g.describe, g.included_variables, g.included_relations, g.outcomes_as_edges_sets,
                      g.marginal_variables_probability, lambda: g.marginal_variables_probability(None, True),
                      g.outcomes.items, g.outcomes.samples, g.outcomes.probabilities if g.outcomes else g.outcomes.items,
                      lambda: g.find_for_values(set()).items(), lambda: attempt(g.factorized)[1]):
                spoil(q())
                st.step()
            equal(net_facts(g), f, "network after results of its queries were edited")
        for n in fold.nodes:
            spoil(n.marginal_distribution())
            spoil(n.values)
            spoil(n.value_nodes)
        equal(fold_facts(fold), ff, "folded view after results were edited")
        if act:
            for n in act.nodes:
                spoil(n.values)
            equal(act_facts(act), af, "activation view after results were edited")
            equal(act_facts(cond.activation_graph()), af, "activation view computed again")
        equal(fold_facts(cond.folded_graph()), ff, "folded view computed again")
        equal(sample_facts(s), facts, "sample at the end")
        st.trace()
        st.state((wname, M.text(m)))
    # results of vocabulary queries
    for q in (w.provider.variables, w.provider.relations, lambda: net.variables, lambda: net.relations):
        spoil(q())
    equal(net_facts(net), nf, "network at the end")


def answer(o):
    """The content of an answer, comparable later."""
    if isinstance(o, dict):
        return "dict", frozenset((k, answer(v)) for k, v in o.items())
    if isinstance(o, (set, frozenset)):
        return frozenset(map(answer, o))
    if isinstance(o, tuple):
        return tuple(map(answer, o))
    if isinstance(o, list):
        return "list", tuple(sorted((answer(x) for x in o), key=repr))
    if isinstance(o, SampleSet):
        return set_facts(o)
    if isinstance(o, Exception):
        return "refused"
    return o


def repr_set(o):
    if isinstance(o, dict):
        return frozenset((k, repr_set(v)) for k, v in o.items())
    if isinstance(o, (set, frozenset)):
        return frozenset(o)
    return o


def case_arguments(st, wname):
    """Edit every mutable argument after (and re-use it between) calls."""
    v, r = M.world(wname)
    variables, relations = {a: set(xs) for a, xs in v}, set(r)
    vocab = {a: frozenset(xs) for a, xs in v}

    def vocabulary_of(*objs):
        for o in objs:
            got = o() if callable(o) else o
            equal({a: frozenset(x) for a, x in got}, vocab, "variables after the dictionary passed at creation was edited")

    provider = BuilderComponentsProvider(variables, relations)
    b = RelationGraphBuilder(variables, relations)
    sp = M.all_samples(v, r)
    first = next(m for m in sp if m[1])
    net = b.add_outcome(make_sample(b.sample_builder(), first)).build()
    for edit in range(4):
        if edit == 0:
            next(iter(variables.values())).add("new")
        elif edit == 1:
            variables["newvar"] = {"x"}
        elif edit == 2:
            relations.add("newrel")
        else:
            for xs in variables.values():
                xs.clear()
            variables.clear()
            relations.clear()
        vocabulary_of(provider.variables, b.variables, net.variables, net.builder().variables)
        for rel in (provider.relations(), b.relations, net.relations):
            equal(set(rel), set(r), "relations after the set passed at creation was edited")
        a0, x0 = v[0][0], v[0][1][0]
        require(not attempt(lambda: provider.get_node(a0, "new"))[0], "a value added to the passed set becomes known")
        require(not attempt(lambda: b.sample_builder().build_single_node("newvar", "x"))[0], "a variable added later becomes known")
        e, _ = next(iter(first[1]))
        require(not attempt(lambda: b.sample_builder().add_relation(set(e), "newrel"))[0], "a relation added later becomes known")
        ok, res = attempt(lambda: b.sample_builder().build_single_node(a0, x0))
        require(ok, f"a known value is forgotten when the passed dictionary is edited: {res!r}")
        ok, res = attempt(lambda: make_sample(b.sample_builder(), first))
        require(ok, f"a known relation is forgotten when the passed set is edited: {res!r}")
        st.step(6)
    w = World(wname)
    # endpoints set re-used for several relations
    for m in [x for x in sp if len(x[1]) >= 2][:40]:
        sb = w.sb()
        ep = set()
        built = []
        acc = M.EMPTY
        from ..impl import connected_order
        for e, rel in connected_order(m[1]):
            ep.clear()
            ep.update(e)
            sb.add_relation(ep, rel)
            ep.clear()
            acc = M.union(acc, (frozenset(e), frozenset({(e, rel)})))
            s = sb.build()
            built.append((s, acc))
        for s, want in built:
            equal(view(s), want, "sample after the endpoints set was edited")
        to = {a: x for a, x in m[0]}
        s = built[-1][0]
        t = s.transform_with_replaced_values({**to})
        to2 = {m_v: w_x for m_v, w_x in ((a, dict(w.variables)[a][-1]) for a, _ in m[0])}
        t = s.transform_with_replaced_values(to2)
        f = sample_facts(t)
        to2.clear()
        equal(sample_facts(t), f, "replaced sample after the map was edited")
        centers = set(list(s.nodes)[:1])
        lay = s.external_nodes(centers)
        lv = layers_view(lay)
        require(len(centers) == 1, "centers were edited by the query")
        centers.clear()
        equal(layers_view(lay), lv, "layers after the centers were edited")
        st.step(4)
        st.state((wname, M.text(m)))
    # dictionaries and lists of samples
    for a, c in itertools.product(sp[:6], sp[-6:]):
        if a == c:
            continue
        d = {w.sample(a): 2, w.sample(c): 3}
        ss, sb = SampleSet(w.provider, d), SampleSetBuilder(w.provider, d)
        facts = set_facts(ss)
        d.clear()
        d[w.sample(a)] = 99
        equal(set_facts(ss), facts, "collection after the dictionary it was made of was edited")
        equal(set_view(sb.build()), {a: 2, c: 3}, "collection builder after the dictionary it was made of was edited")
        lst = [w.sample(a), w.sample(c)]
        gb = empty(w).add_outcomes(lst)
        lst.clear()
        g = gb.build()
        equal(set_view(g.outcomes), {a: 1, c: 1}, "network after the list of outcomes was edited")
        gf = net_facts(g)
        inner = SampleSetBuilder(w.provider).add(w.sample(a), 4)
        g2 = RelationGraphBuilder(outcomes=inner, components_provider=w.provider, name="g2").build()
        f2 = net_facts(g2)
        inner.add(w.sample(c), 1)
        inner.remove(w.sample(a))
        equal(net_facts(g2), f2, "network after the collection builder it was made of was edited")
        sel = {w.variables[0][0]}
        mg = g.marginal_variables_probability(sel)
        j = g.joined_on_variables(sel)
        jf = net_facts(j)
        sel.clear()
        equal(net_facts(j), jf, "joined network after the set of variables was edited")
        cond = g.conditional_graph(w.sample(a))
        flt = {w.relations[0]}
        act = cond.activation_graph(flt)
        af = act_facts(act)
        flt.clear()
        equal(act_facts(act), af, "activation view after the filter was edited")
        vals = set(list(a[0])[:1])
        found = g.find_for_values(vals)
        ff = set_facts(found)
        vals.clear()
        equal(set_facts(found), ff, "search result after the values were edited")
        equal(net_facts(g), gf, "network at the end")
        ll = [ss, ss]
        ju = SampleSetBuilder.join_sample_set(ll)
        juf = set_facts(ju)
        ll.clear()
        equal(set_facts(ju), juf, "joined collection after the list was edited")
        st.step(8)
        st.trace()

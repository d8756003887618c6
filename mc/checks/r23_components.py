"""Vocabulary components: uniqueness over request sequences, equality of all pairs, copying."""
import copy
import itertools

from .. import model as M
from ..core import Violation, attempt, equal, require
from ..impl import (World, BuilderComponentsProvider, DirectedRelation, RelationEdge, ValueNode, network, rel_to_impl)
from scripts.relnet.activation_graph import ActivationGraph, ActiveEdge, ActiveNode
from scripts.relnet.folded_graph import FoldedEdge, FoldedGraph, FoldedNode
from scripts.relnet.variables_graph import VariableEdge, VariableNode, VariablesGraph

ID = "R23"
ASSUMPTIONS = []
WORLDS = ["z3", "z2", "s3", "f3", "n3", "k2", "h2", "k3", "w2", "v4one", "f2", "n4"]


def bounds(tier):
    return ("every sequence of up to 3 component requests (4 in thorough) out of a mixed alphabet of 12 legal and illegal value and "
            "relation requests, on 12 vocabularies; every single request over vocabulary plus unknown names; equality and hash of "
            "all pairs of values, relations and directed relations of two independent networks; opposite endpoints of every "
            "relation for every value; copying of every kind of object; equality of all pairs of nodes, edges and views (plain, "
            "folded, activation) with up to 2 nodes and edges over those vocabularies; vocabularies of 6 "
            "variables with 30 values: every value and a pair of each two neighbours requested twice, in two orders")


def cases(tier):
    out = [["seq", w, k, 4 if tier == "thorough" else 3] for w in WORLDS for k in range(12)]
    out += [["requests", w] for w in WORLDS] + [["equal", w] for w in WORLDS] + [["opposite", w] for w in WORLDS]
    out += [["copy", w] for w in WORLDS ]
    out += [["views", w, k, 4] for w in WORLDS for k in range(4)]
    out += [["wide", k] for k in range(3)]
    return out


def run_case(case, st):
    globals()["case_" + case[0]](st, *case[1:])


def provider(w):
    return BuilderComponentsProvider({v: set(xs) for v, xs in w.variables}, set(w.relations))


def legal_node(w, n):
    return n in M.nodes_of(w.variables)


def request(w, p, req):
    """Perform a request as a user does: endpoints are requested first."""
    if req[0] == "node":
        return p.get_node(*req[1])
    _, pair, rel = req
    return p.get_edge(frozenset({p.get_node(*n) for n in pair}), rel_to_impl(rel))


def legal(w, req):
    if req[0] == "node":
        return legal_node(w, req[1])
    _, pair, rel = req
    if not all(legal_node(w, n) for n in pair):
        return False
    if isinstance(rel, M.D):
        vs = {v for v, _ in pair}
        return rel.r in w.relations and rel.s in vs and rel.t in vs
    return rel in w.relations


def node_requests(w):
    known = M.nodes_of(w.variables)
    vals = list(dict.fromkeys(x for _, xs in w.variables for x in xs)) + ["?"]
    return [("node", (v, x)) for v in [v for v, _ in w.variables] + ["?"] for x in vals] + [("node", n) for n in known]


def edge_requests(w):
    out = []
    for pair in M.pairs_of(w.variables):
        a, b = sorted(pair, key=repr)
        for r in list(w.relations) + ["?"]:
            out.append(("edge", pair, r))
            out += [("edge", pair, M.D(a[0], b[0], r)), ("edge", pair, M.D(b[0], a[0], r))]
        others = [v for v, _ in w.variables if v not in (a[0], b[0])] + ["?"]
        for o in others:
            out += [("edge", pair, M.D(a[0], o, w.relations[0])), ("edge", pair, M.D(o, b[0], w.relations[0]))]
        out.append(("edge", frozenset({a, (b[0], "?")}), w.relations[0]))
    return out


def show(req):
    return repr(req)


def check_result(req, res):
    if req[0] == "node":
        equal((res.variable, res.value), req[1], f"component of {show(req)}")
        equal(res.var_val(), req[1], f"pair of {show(req)}")
    else:
        equal(frozenset((n.variable, n.value) for n in res.endpoints), req[1], f"endpoints of {show(req)}")
        require(res.relation == rel_to_impl(req[2]), f"relation of {show(req)} is {res.relation!r}")


def case_requests(st, wname):
    w = World(wname)
    p = provider(w)
    first = {}
    reqs = node_requests(w) + edge_requests(w)
    for rnd in range(2):
        for req in reqs:
            ok, res = attempt(lambda: request(w, p, M.twin(req) if rnd else req))
            st.step()
            if ok != legal(w, req):
                raise Violation(f"request {show(req)} {'accepted' if ok else f'refused: {res!r}'}")
            if ok:
                check_result(req, res)
                if req in first:
                    require(res is first[req], f"request {show(req)} gives another object the second time")
                first[req] = res
            st.state((wname, req))
    nodes = [k for k in first if k[0] == "node"]
    equal(len({id(first[k]) for k in nodes}), len(nodes), "different values have different components")
    edges = [k for k in first if k[0] == "edge"]
    equal(len({id(first[k]) for k in edges}), len(edges), "different relations have different components")
    ok, _ = attempt(lambda: p.get_edge(frozenset({ValueNode("?", 1), first[nodes[0]]}), w.relations[0]))
    require(not ok, "a relation with an unknown endpoint is refused")
    st.trace()


def case_seq(st, wname, k, depth):
    w = World(wname)
    nodes = M.nodes_of(w.variables)
    pairs = M.pairs_of(w.variables)
    ns = sorted(pairs[0], key=repr)
    alpha = [("node", n) for n in (nodes[0], nodes[-1], nodes[1])] + [("node", (nodes[0][0], "?")), ("node", ("?", nodes[0][1]))]
    alpha += [("edge", pairs[0], w.relations[0]), ("edge", pairs[0], w.relations[-1]), ("edge", pairs[-1], w.relations[0]),
              ("edge", pairs[0], "?"), ("edge", pairs[0], M.D(ns[0][0], ns[1][0], w.relations[0])),
              ("edge", pairs[0], M.D(ns[1][0], ns[0][0], w.relations[0])), ("edge", pairs[0], M.D(ns[0][0], "?", w.relations[0]))]
    for n in range(1, depth + 1):
        for rest in itertools.product(alpha, repeat=n - 1):
            p = provider(w)
            got = {}
            for req in (alpha[k],) + rest:
                ok, res = attempt(lambda: request(w, p, req))
                st.step()
                if ok != legal(w, req):
                    raise Violation(f"{[show(r) for r in (alpha[k],) + rest]}: {show(req)} {'accepted' if ok else 'refused'}")
                if ok:
                    check_result(req, res)
                    require(got.get(req, res) is res, f"{show(req)} gives another object the second time")
                    got[req] = res
            equal({v: set(x) for v, x in p.variables()}, {v: set(x) for v, x in w.variables}, "vocabulary after the requests")
            equal(set(p.relations()), set(w.relations), "relations after the requests")
            equal(len({id(o) for o in got.values()}), len(got), "different requests share a component")
            st.trace()
            st.state((wname, (alpha[k],) + rest))


def case_equal(st, wname):
    w, w2 = World(wname), World(wname)
    comps = []
    for i, x in enumerate((w, w2)):
        p = provider(x)
        reqs = list(dict.fromkeys(node_requests(x) + edge_requests(x)))
        comps += [(r, request(x, p, M.twin(r) if i else r)) for r in reqs if legal(x, r)]
        names = [v for v, _ in x.variables][:2]
        ds = [M.D(a, b, r) for a, b in itertools.product(names, repeat=2) for r in x.relations]
        comps += [(("directed", d), rel_to_impl(M.twin(d) if i else d)) for d in ds]
    for (ka, a), (kb, b) in itertools.product(comps, repeat=2):
        same = ka == kb
        if (a == b) != same or (a != b) == same:
            raise Violation(f"{show(ka)} and {show(kb)} compare {'equal' if a == b else 'unequal'}")
        if same:
            equal(hash(a), hash(b), f"hashes of {show(ka)}")
        st.step()
    for k, a in comps:
        for other in (None, 0, "x", k, k[1], str(a), object()):
            require(not (a == other), f"{show(k)} equals {other!r}, an object of another kind")
        st.state((wname, k))
    st.trace()


def case_opposite(st, wname):
    w = World(wname)
    p = provider(w)
    nodes = {n: p.get_node(*n) for n in M.nodes_of(w.variables)}
    for req in edge_requests(w):
        if not legal(w, req):
            continue
        e = request(w, p, req)
        a, b = req[1]
        for n, obj in list(nodes.items()) + [(n, ValueNode(*n)) for n in nodes] + [(("?", "?"), ValueNode("?", "?"))]:
            st.step()
            ok, res = attempt(lambda: e.opposite_endpoint(obj))
            if ok != (n in req[1]):
                raise Violation(f"opposite of {n} in {show(req)} {'is ' + repr(res) if ok else 'refused'}")
            equal(bool(e.is_endpoint(obj)), n in req[1], f"{n} is endpoint of {show(req)}")
            if ok:
                equal((res.variable, res.value), b if n == a else a, f"opposite of {n} in {show(req)}")
        equal({(x.variable, x.value) for x in (e.a, e.b)}, set(req[1]), f"ends of {show(req)}")
        st.state((wname, req))
    st.trace()


def case_copy(st, wname):
    w = World(wname)
    sp = M.all_samples(*M.world(wname))
    m = next(m for m in sp if m[1])
    net = network(w, {m: 2, sp[0]: 1})
    cond = net.conditional_graph(w.sample(m))
    fold, act = net.folded_graph(), cond.activation_graph()
    s = w.sample(m)
    objs = list(s.nodes) + list(s.edges) + [DirectedRelation(1, 2, 3), s, w.sample(sp[0]), w.sample(M.EMPTY), net, cond, fold, act,
                                            cond.relation_graph(), net.make_joined() if net.is_joined() else net]
    objs += list(fold.nodes) + list(fold.edges) + list(act.nodes) + list(act.edges)
    require(len(fold.nodes) and len(fold.edges) and len(act.nodes) and len(act.edges), "views are not empty")
    for o in objs:
        ok, _ = attempt(lambda: copy.copy(o))
        require(not ok, f"copying {type(o).__name__} is accepted")
        st.step()
        st.state((wname, type(o).__name__))
    st.trace()


def compare_all(things, what, st):
    """things: (content, object). Equal exactly when the contents are, and never equal to something else."""
    for (ka, a), (kb, b) in itertools.product(things, repeat=2):
        same = ka == kb
        if (a == b) != same or (a != b) == same:
            raise Violation(f"{what} {ka!r} and {kb!r} compare {'equal' if a == b else 'unequal'}")
        if same and type(a).__hash__ is not None:
            equal(hash(a), hash(b), f"hashes of {what} {ka!r}")
        st.step()
    for k, a in things:
        for other in (None, 0, "x", str(a), k, k[0], object()):
            require(not (a == other), f"{what} {k!r} equals {other!r}, an object of another kind")


def case_views(st, wname, part, parts):
    w = World(wname)
    p = provider(w)
    names = [v for v, _ in w.variables]
    nodes = {n: p.get_node(*n) for n in M.nodes_of(w.variables)}

    def families():
        """(node contents, node maker, edge contents, edge maker, view class)"""
        pairs = [frozenset(x) for x in itertools.combinations(names, 2)]
        yield ([(v,) for v in names], lambda v: VariableNode(v), [(e,) for e in pairs], lambda e: VariableEdge(set(e)), VariablesGraph)
        counts = [(v, frozenset((x, c) for x, c in zip(xs, cs) if c)) for v, xs in w.variables for cs in itertools.product((0, 1, 2), repeat=len(xs[:3])) if any(cs)]
        dom = dict(w.variables)
        rels = [(frozenset(v for v, _ in e), frozenset((e, r, c) for r, c in zip(w.relations, cs) if c)) for e in M.pairs_of(w.variables)
                for cs in itertools.product((0, 1, 2), repeat=len(w.relations)) if any(cs)]
        yield (counts, lambda v, vc: FoldedNode(v, set(dom[v]), {nodes[v, x]: c for x, c in vc}, 9), rels[:40],
               lambda e, rc: FoldedEdge(set(e), {p.get_edge(frozenset(nodes[n] for n in pr), r): c for pr, r, c in rc}), FoldedGraph)
        weights = [(v, frozenset(zip(xs, ws)), q) for v, xs in w.variables for ws in itertools.product((0.0, 0.5), repeat=len(xs[:3])) for q in (False, True)]
        arels = [(e, frozenset((r, c) for r, c in zip(w.relations, cs) if c), q) for e in pairs
                 for cs in itertools.product((0, 1, 2), repeat=len(w.relations)) if any(cs) for q in (False, True)]
        yield (weights, lambda v, ws, q: ActiveNode(v, dict(ws), q), arels[:60], lambda e, rs, q: ActiveEdge(set(e), dict(rs), q), ActivationGraph)

    for i, (ns, mk_n, es, mk_e, view) in enumerate(families()):
        if part < 3 and part != i:
            continue
        if part < 3:
            compare_all([(n, mk_n(*x)) for n in ns for x in (n, M.twin(n))], f"node of {view.__name__}", st)
            compare_all([(e, mk_e(*x)) for e in es for x in (e, M.twin(e))], f"edge of {view.__name__}", st)
        else:
            nsets = [()] + [(n,) for n in ns[:6]] + list(itertools.combinations(ns[:4], 2))
            esets = [()] + [(e,) for e in es[:5]] + list(itertools.combinations(es[:3], 2))
            things = []
            for a, b in itertools.product(nsets, esets):
                for name, number in (("n1", 3), ("n2", 4)):
                    things.append(((frozenset(a), frozenset(b)), view(p, number, {mk_n(*x) for x in a}, {mk_e(*x) for x in b}, name)))
            compare_all(things, view.__name__, st)
            for k, g in things:
                equal(frozenset(g.variables), frozenset(n[0] for n in k[0]), f"variables of {view.__name__} {k}")
                st.state((wname, i, k))
        st.state((wname, i, part))
    st.trace()


def case_wide(st, kind):
    """Many components at once."""
    vs = [f"v{i}" for i in range(6)] if kind == 0 else [M.HS(f"v{i}", i % 3) for i in range(6)] if kind == 1 else list(range(6))
    xs = [str(i) for i in range(30)] if kind < 2 else [i * 0.5 for i in range(30)]
    w = World(spec=([(v, xs) for v in vs], ["r", "s"]))
    p = provider(w)
    reqs = [("node", (v, x)) for v in vs for x in xs]
    for i in range(5):
        for k, x in enumerate(xs):
            pair = frozenset({(vs[i], x), (vs[i + 1], xs[(3 * k) % 30])})
            reqs += [("edge", pair, "r"), ("edge", pair, "s"), ("edge", pair, M.D(vs[i], vs[i + 1], "r")), ("edge", pair, M.D(vs[i + 1], vs[i], "r"))]
    first = {}
    for order in (reqs, reqs[::-1], reqs[::2] + reqs[1::2]):
        for req in order:
            res = request(w, p, req)
            check_result(req, res)
            require(first.setdefault(req, res) is res, f"{show(req)} gives another object the second time")
            st.step()
            st.state((kind, req))
    equal(len({id(o) for o in first.values()}), len(first), "different requests share a component")
    st.trace()

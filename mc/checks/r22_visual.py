"""Recorded pages of samples, outcomes, folded and activation views."""
import itertools
import re
from collections import Counter

from .. import model as M
from ..core import Violation, equal, require
from ..impl import World, make_sample, network, recorded_pages, rel_from_impl
from ..shapes import SHAPES, dense, names as var_names, sample, shape

ID = "R22"
ASSUMPTIONS = ["names print unambiguously", "outcomes are not empty", "variables are strings or integers (the drawing library "
               "takes nothing else)", "pages are intercepted at the drawing library's show call; its rendering is not examined"]
WORLDS = ["s3", "n3", "w2", "v4", "v4two", "f2i", "s3+d2", "s3r1", "long"]
COUNTS = [1, 2, 5, 10, 13, 999, 1000, 1001, 10 ** 6, 2 ** 31, 10 ** 18, 10 ** 20]
NAMES = ["plain", "with space/and ../slash", "a_b-c(d)", "x.y:z*?<>|", "ünï"]


def bounds(tier):
    return ("the page of every sample of 9 vocabularies (one of long and odd names), of all networks of one or two outcomes, of the whole space and of networks "
            "of 9 to 120 outcomes with names ending in digits, of the conditional network of every evidence, and of their "
            "folded and activation views, with 5 names including unsafe characters and 12 counts from 1 to 10^20; the same for networks of 60 outcomes of "
            "each of 10 shapes on 6 to 14 variables, under 5 hash assignments; networks with 13 values per variable and 13 relations per pair")


def space(name):
    if name == "f2i":
        v, r = [(0, [0, 1]), ("", ["", "q"]), (10, [0])], [0, ""]
        return (v, r), M.all_samples(v, r)
    if name == "long":
        v = [("L" * 90 + "a", ["x" * 80 + "1", "x" * 80 + "2"]), ("L" * 90 + "b", ["<i>&\"'", "\u00e9\n"]), ("c d", ["{0} %s", "\\n"])]
        r = ["related to " * 9 + "this", "<"]
        return (v, r), M.all_samples(v, r)
    base = name.split("+")[0]
    v, r = M.world(base)
    if name.endswith("+d2"):
        return (v, r), M.all_samples(v, r, directed=True, max_vars=2)
    return (v, r), M.all_samples(v, r)


def cases(tier):
    out = [["samples", w] for w in WORLDS] + [["outcomes", w, k, 16] for w in WORLDS for k in range(16)]
    out += [["views", w, k, 16] for w in WORLDS for k in range(16)]
    out += [["many", n] for n in (9, 11, 23, 120)]
    out += [["big", s, n, (i + n) % 5] for i, s in enumerate(SHAPES) for n in (6, 10, 14)] + [["dense", h] for h in range(5)]
    return out


def run_case(case, st):
    globals()["case_" + case[0]](st, *case[1:])


def page(draw):
    with recorded_pages() as pages:
        draw()
    equal(len(pages), 1, "number of pages shown")
    name, nodes, edges = pages[0]
    ids = {}
    for n in nodes:
        require(n["id"] not in ids, f"node {n['id']!r} drawn twice")
        ids[n["id"]] = n
    for e in edges:
        require(e["from"] in ids and e["to"] in ids, "edge without its node")
        require(e["from"] != e["to"], "edge drawn from a node to itself")
    return name, ids, edges


def safe(name, extra=""):
    return "".join(c for c in name if c.isalnum() or c in "_" + extra) + ".html"


def label_node(n):
    return f"{n[0]}_{n[1]}"


def graph_of(ids, edges, chosen=None):
    """Multiset of node labels and of (sorted labels of ends, label)."""
    return (Counter(str(n["label"]) for n in ids.values()),
            Counter((tuple(sorted((str(ids[e["from"]]["label"]), str(ids[e["to"]]["label"])))), str(e.get("label"))) for e in edges))


def model_graph(m):
    return (Counter(label_node(n) for n in m[0]),
            Counter((tuple(sorted(label_node(n) for n in e)), str(r)) for e, r in m[1]))


def case_samples(st, wname):
    (v, r), sp = space(wname)
    w = World(spec=(v, r))
    for i, m in enumerate(sp):
        nm = None if i % 2 else NAMES[i // 2 % len(NAMES)]
        s = make_sample(w.sb().set_name(nm), m)
        name, ids, edges = page(s.visualize)
        equal(graph_of(ids, edges), model_graph(m), f"page of {M.text(m)}")
        equal(name, safe(nm or M.text(m), "-()"), "page name")
        st.step()
        st.state((wname, M.text(m)))
        st.trace()


def components(ids, edges):
    adj = {i: set() for i in ids}
    for e in edges:
        adj[e["from"]].add(e["to"])
        adj[e["to"]].add(e["from"])
    seen, out = set(), []
    for i in ids:
        if i in seen:
            continue
        comp, todo = set(), [i]
        while todo:
            k = todo.pop()
            if k not in comp:
                comp.add(k)
                todo.extend(adj[k])
        seen |= comp
        out.append(comp)
    return out


def check_outcomes(net, model, names, ev, nm, st):
    """Each connected part of the page is one outcome (or the evidence): exactly the outcomes, each with name and count."""
    name, ids, edges = page((lambda: net.visualize_outcomes(nm)) if nm else net.visualize_outcomes)
    equal(name, safe(nm or net.name), "page name")
    want = Counter()
    for m, c in model.items():
        want[freeze(model_graph(m), f"@{names.get(m) or M.text(m)}({c})", False)] += 1
    if ev is not None and ev != M.EMPTY:
        want[freeze(model_graph(ev), None, True)] += 1
    got = Counter()
    for comp in components(ids, edges):
        cids = {i: ids[i] for i in comp}
        ces = [e for e in edges if e["from"] in comp]
        red = {str(n.get("color")) == "red" for n in cids.values()} | {str(e.get("color")) == "red" for e in ces}
        require(len(red) == 1, "an outcome is drawn partly in red")
        title, plain = None, {}
        for i, n in cids.items():
            lab = str(n["label"])
            if "@" in lab:
                require(title is None, f"outcome named twice: {lab}")
                lab, title = lab.split("@", 1)
                title = "@" + title
            plain[i] = {"label": lab}
        got[freeze(graph_of(plain, ces), title, red.pop())] += 1
    if got != want:
        raise Violation(f"page of { {M.text(m): c for m, c in model.items()} } | {M.text(ev) if ev else None}: "
                        f"missing {list((want - got))[:2]}, unexpected {list((got - want))[:2]}")
    st.step()


def freeze(g, title, red):
    return frozenset(g[0].items()), frozenset(g[1].items()), title, red


def build(w, model, names):
    from ..impl import empty_network_builder
    b = empty_network_builder(w).set_name("net 1")
    for m, c in model.items():
        b.add_outcome(make_sample(w.sb().set_name(names.get(m)), m), c)
    return b.build()


def case_outcomes(st, wname, part, parts):
    (v, r), sp = space(wname)
    w = World(spec=(v, r))
    names = {m: f"O_{i}" for i, m in enumerate(sp) if i % 2}
    big = {m: COUNTS[i % 12] for i, m in enumerate(sp)}
    full = build(w, big, names)
    n = part
    for i, a in enumerate(sp):
        if i % parts != part:
            continue
        nm = NAMES[i % len(NAMES)] if i % 3 else None
        if i // parts == 0:
            check_outcomes(full, big, names, None, nm, st)
        if len(sp) < 80 or i % 5 == 0:
            check_outcomes(full.conditional_graph(w.sample(a)), M.condition(big, a), names, a, nm, st)
        for b in [a] + (sp[:i] if len(sp) < 80 else sp[:i:17]):
            model = {a: COUNTS[n % 12], b: COUNTS[n % 11]}
            n += 1
            net = build(w, model, names)
            check_outcomes(net, model, names, None, nm, st)
            ev = sp[(i * 5 + 1) % len(sp)]
            check_outcomes(net.conditional_graph(w.sample(ev)), M.condition(model, ev), names, ev, nm, st)
            st.trace()
            st.state((wname, M.text(a), M.text(b)))


def case_many(st, n):
    """Names ending in digits: ids of different outcomes must not run in to each other."""
    vals = [str(i) for i in range(13)] + ["1", "11", "111"][1:]
    vals = list(dict.fromkeys(vals))
    w = World(spec=([("a", vals), ("b1", vals)], ["r", "r1"]))
    outs = [M.single("a", x) for x in vals] + [M.single("b1", x) for x in vals]
    outs += [M.from_edges([(frozenset({("a", x), ("b1", y)}), "r")]) for x in vals for y in vals]
    model = {m: COUNTS[i % 12] for i, m in enumerate(outs[:n])}
    for ev in (None, outs[0], outs[-1]):
        for order in (list(model), list(model)[::-1]):
            net = build(w, {m: model[m] for m in order}, {})
            m = model
            if ev is not None:
                net, m = net.conditional_graph(w.sample(ev)), M.condition(model, ev)
            check_outcomes(net, m, {}, ev, "page", st)
    st.state(n)
    st.trace()


def parse_label(label, sep):
    """'name:{entries}' -> name, set of entries"""
    g = re.fullmatch(r"(.*?):?\{(.*)\}", label, re.S)
    require(g is not None, f"label {label!r}")
    return g.group(1), {x.strip() for x in g.group(2).split(",")}


def case_views(st, wname, part, parts):
    (v, r), sp = space(wname)
    w = World(spec=(v, r))
    dom = dict(w.variables)
    big = {m: COUNTS[i % 11] for i, m in enumerate(sp)}
    full = network(w, big)
    for i, ev in enumerate(sp):
        if i % parts != part or len(sp) > 200 and i % 3:
            continue
        nm = NAMES[i % len(NAMES)] if i % 2 else None
        some = {ev: COUNTS[i % 12], sp[(i * 11 + 2) % len(sp)]: COUNTS[i % 7]}
        nets = [(full.conditional_graph(w.sample(ev)), M.condition(big, ev)), (network(w, some), some)]
        nets.append((nets[1][0].conditional_graph(w.sample(ev)), M.condition(some, ev)))
        for net, model in nets:
            check_folded(w, net, model, dom, nm, st)
            if hasattr(net, "evidence"):
                check_activation(w, net, ev, dom, nm, st)
        st.state((wname, M.text(ev)))
        st.trace()


def by_variable(ids, edges):
    pairs = {}
    for e in edges:
        p = frozenset({e["from"], e["to"]})
        require(p not in pairs, f"pair {set(p)} drawn twice")
        pairs[p] = e
    return ids, pairs


def check_folded(w, net, model, dom, nm, st):
    fg = net.folded_graph("Folded view 1")
    name, ids, edges = page((lambda: fg.visualize(nm)) if nm else fg.visualize)
    equal(name, safe(nm or "Folded view 1"), "page name")
    total = sum(model.values())
    ids, pairs = by_variable(ids, edges)
    equal(set(ids), set(dom), "variables drawn")
    for v, n in ids.items():
        counts = {}
        for m, c in model.items():
            for a, x in m[0]:
                if a == v:
                    counts[x] = counts.get(x, 0) + c
        head, entries = parse_label(n["label"], ",")
        equal(head, str(v), "label of a folded variable")
        want = {f"{x}({c})" for x, c in counts.items()} if counts else {f"{x}(0)" for x in dom[v]}
        equal(entries, want | {f"u({total - sum(counts.values())})"}, f"label of folded variable {v!r}")
        equal(str(n.get("color")) == "gray", not counts, f"gray colour of {v!r}")
    rels = {}
    for m, c in model.items():
        for e in m[1]:
            p = frozenset(a for a, _ in e[0])
            rels.setdefault(p, {})
            rels[p][e] = rels[p].get(e, 0) + c
    equal(set(pairs), set(rels), "pairs drawn in the folded view")
    for p, e in pairs.items():
        equal(parse_label(e["label"], ",")[1], {f"{k[1]}({c})" for k, c in rels[p].items()}, f"label of folded pair {set(p)}")
    st.step()


def check_activation(w, net, ev, dom, nm, st):
    if not net.outcomes:
        return
    ag = net.activation_graph(None, "Activation 1")
    name, ids, edges = page((lambda: ag.visualize(nm)) if nm else ag.visualize)
    equal(name, safe(nm or "Activation 1"), "page name")
    ids, pairs = by_variable(ids, edges)
    equal(set(ids), set(dom), "variables drawn")
    weights = {n.variable: dict(n.values) for n in ag.nodes}
    for v, n in ids.items():
        head, entries = parse_label(n["label"], ",")
        equal(head, str(v), "label of an activation variable")
        equal(entries, {f"{x}={p}" for x, p in weights[v].items()}, f"label of activation variable {v!r}")
        equal(str(n.get("color")) == "green", v in M.variables_of(ev), f"green colour of {v!r}")
        if v not in M.variables_of(ev):
            top, shade = max(weights[v].values()), str(n.get("color")).lower().replace("black", "#000000")
            require(re.fullmatch("#[0-9a-f]{2}0000", shade) and abs(int(shade[1:3], 16) - 255 * top) <= 1,
                    f"{v!r} with weights of up to {top} is drawn in {n.get('color')}")
    equal(set(pairs), {frozenset(e.endpoints) for e in ag.edges}, "pairs drawn in the activation view")
    evp = M.endpoint_variables(ev)
    for e in ag.edges:
        p = frozenset(e.endpoints)
        equal(parse_label(pairs[p]["label"], ",")[1], {f"{r}({c})" for r, c in e.relations}, "label of an activation pair")
        equal(str(pairs[p].get("color")) == "green", p in evp, f"green colour of pair {set(p)}")
    st.step()


def case_big(st, kind, n, h):
    vs = var_names(n + 1, h)
    w = World(spec=([(v, [0, 1, 2]) for v in vs], ["r", "s", "t"]))
    dom = dict(w.variables)
    idx = shape(kind, n)
    sp = {}
    for i in range(60):
        sp[sample(vs, idx, (lambda k: (i + k) % 3 if k == i % n else (i // n + k) % 2), (lambda k: "rst"[(i + k * (i % 4)) % 3]))] = None
    sp = list(sp)
    for i, m in enumerate(sp[:12]):
        s = make_sample(w.sb().set_name(f"s{i}"), m)
        name, ids, edges = page(s.visualize)
        equal(graph_of(ids, edges), model_graph(m), f"page of {M.text(m)}")
        st.step()
    names = {m: f"O_{i}" for i, m in enumerate(sp) if i % 2}
    model = {m: COUNTS[i % 12] for i, m in enumerate(sp)}
    net = build(w, model, names)
    check_outcomes(net, model, names, None, None, st)
    for ev in (sp[0], M.single(vs[0], 0), M.single(vs[n - 1], 1)):
        cond, want = net.conditional_graph(w.sample(ev)), M.condition(model, ev)
        check_outcomes(cond, want, names, ev, None, st)
        check_folded(w, cond, want, dom, None, st)
        check_activation(w, cond, ev, dom, None, st)
    check_folded(w, net, model, dom, None, st)
    st.state((kind, n, h))
    st.trace()


def case_dense(st, h):
    """Labels of many values and of many relations."""
    vs, spec, model = dense(h)
    w = World(spec=spec)
    dom = dict(w.variables)
    net = build(w, model, {})
    check_outcomes(net, model, {}, None, None, st)
    check_folded(w, net, model, dom, None, st)
    for ev in [M.single(vs[0], 3), M.single(vs[1], 12), M.single(vs[2], 0), M.single(vs[3], 0), next(iter(model))]:
        cond, want = net.conditional_graph(w.sample(ev)), M.condition(model, ev)
        check_outcomes(cond, want, {}, ev, None, st)
        check_folded(w, cond, want, dom, None, st)
        check_activation(w, cond, ev, dom, None, st)
        st.state((h, M.text(ev)))
    st.trace()

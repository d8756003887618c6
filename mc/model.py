"""
Reference model of relational-network samples: a sample is a pair
(frozenset of (variable, value), frozenset of (frozenset of two (variable, value), relation)).
Nothing here imports the code under test.
"""
import itertools
from fractions import Fraction

EMPTY = (frozenset(), frozenset())
NO_RELATION = object()


class HS(str):
    """A string with an assigned hash: lets an exploration own the iteration order of sets."""

    def __new__(cls, s, h):
        o = str.__new__(cls, s)
        o.h = h
        return o

    def __hash__(self):
        return self.h

    def __eq__(self, other):
        return str.__eq__(self, other)

    def __ne__(self, other):
        return not str.__eq__(self, other)

    def __reduce__(self):
        return HS, (str(self), self.h)


class N:
    """A name that is told apart from others by equality alone: all have one hash and may print alike."""
    __slots__ = ("text", "n")

    def __init__(self, text, n):
        self.text, self.n = text, n

    def __hash__(self):
        return 7

    def __eq__(self, other):
        return isinstance(other, N) and (self.text, self.n) == (other.text, other.n)

    def __repr__(self):
        return self.text


class Z:
    """A name that is equal to others which print differently (as 1 is to True and 1.0)."""
    __slots__ = ("text", "n")

    def __init__(self, text, n):
        self.text, self.n = text, n

    def __hash__(self):
        return hash(self.n)

    def __eq__(self, other):
        return isinstance(other, Z) and self.n == other.n

    def __repr__(self):
        return self.text


def twin(o):
    """The same in other words: equal, but every Z in it prints differently."""
    if isinstance(o, Z):
        return Z(o.text + "*", o.n)
    if isinstance(o, D):
        return D(twin(o.s), twin(o.t), twin(o.r))
    if isinstance(o, (tuple, list, set, frozenset)):
        return type(o)(map(twin, o))
    return o


class D:
    """Model of a directed relation (source variable, target variable, relation)."""
    __slots__ = ("s", "t", "r")

    def __init__(self, s, t, r):
        self.s, self.t, self.r = s, t, r

    def __eq__(self, o):
        return isinstance(o, D) and (self.s, self.t, self.r) == (o.s, o.t, o.r)

    def __hash__(self):
        return hash(("D", self.s, self.t, self.r))

    def __repr__(self):
        return f"{self.r}[{self.s}->{self.t}]"


# ---------------------------------------------------------------- vocabularies

WORLDS = {
    # plain strings, different domain sizes
    "s3": ([("a", ["x", "y"]), ("b", ["x", "y"]), ("c", ["z"])], ["r", "s"]),
    "s3r1": ([("a", ["x", "y"]), ("b", ["x", "y"]), ("c", ["x", "y"])], ["r"]),
    # falsy and non-string variables, values and relations, of mixed types
    "f3": ([(0, [0, 1]), ("", ["", "q"]), (("t", 1), [False, True])], [0, ""]),
    "f2": ([(None, [0, None, 2]), ("", ["", "q"])], [0, None]),
    # names longer than one character, one name a prefix or concatenation of others, equal value names
    "n3": ([("ab", ["1", "10"]), ("a", ["1", "10"]), ("b", ["1"])], ["rel", "rel_2"]),
    # different values and relations which print alike, and names whose concatenations collide
    "k2": ([("a", ["b_c", 1, "1"]), ("a_b", ["c", 1])], ["1", 1]),
    "k3": ([("a", ["b_c", 1, "1"]), ("a_b", ["c", 1]), ("1", ["1"])], ["1", 1]),
    # everything has one hash and prints alike
    "h2": ([(N("a", 1), [N("x", 1), N("x", 2)]), (N("a", 2), [N("x", 1), N("x", 2)])], [N("r", 1), N("r", 2)]),
    "h3": ([(N("a", i), [N("x", 1), N("x", 2)][:4 - i]) for i in (1, 2, 3)], [N("r", 1)]),
    # four and five variables
    "v4": ([("a", ["x", "y"]), ("b", ["x"]), ("c", ["x"]), ("d", ["x"])], ["r"]),
    "v4b": ([("a", ["x", "y"]), ("b", ["x", "y"]), ("c", ["x", "y"]), ("d", ["x", "y"])], ["r"]),
    "v4one": ([("a", ["x"]), ("b", ["x"]), ("c", ["x"]), ("d", ["x"])], ["r"]),
    "v4two": ([("a", ["x"]), ("b", ["x"]), ("c", ["x"]), ("d", ["x"])], ["r", "s"]),
    "v5one": ([("a", [1]), ("b", [1]), ("c", [1]), ("d", [1]), ("e", [1])], ["r"]),
    # falsy names only
    "n4": ([(0, [0]), ("", [None]), (None, [""]), ((), [False])], [None]),
    # one big domain
    # names that are equal to others which print differently
    "z3": ([(Z("a", 1), [Z("x", 1), Z("y", 2)]), (Z("b", 2), [Z("x", 1), Z("y", 2)]), (Z("c", 3), [Z("x", 1)])], [Z("r", 1), Z("s", 2)]),
    "z2": ([(Z("a", 1), [Z("x", 1), Z("y", 2)]), (Z("b", 2), [Z("x", 1), Z("y", 2)])], [Z("r", 1), Z("s", 2)]),
    "w2": ([("a", ["v0", "v1", "v2", "v3"]), ("b", ["v0", "v1"])], ["r", "s", "t"]),
    "w1": ([("a", ["v0", "v1", "v2"])], ["r"]),
}


def world(name):
    variables, relations = WORLDS[name]
    return [(v, list(vals)) for v, vals in variables], list(relations)


def nodes_of(variables):
    return [(v, x) for v, xs in variables for x in xs]


def pairs_of(variables):
    """All legal endpoint pairs: two values of two different variables."""
    ns = nodes_of(variables)
    return [frozenset({p, q}) for p, q in itertools.combinations(ns, 2) if p[0] != q[0]]


# ---------------------------------------------------------------- samples

def from_edges(edges):
    edges = frozenset(edges)
    return frozenset(n for e, _ in edges for n in e), edges


def single(var, val):
    return frozenset({(var, val)}), frozenset()


def is_connected(m):
    nodes, edges = m
    if len(nodes) <= 1:
        return True
    start = next(iter(nodes))
    seen, todo = {start}, [start]
    while todo:
        n = todo.pop()
        for e, _ in edges:
            if n in e:
                for k in e:
                    if k not in seen:
                        seen.add(k)
                        todo.append(k)
    return len(seen) == len(nodes)


def single_valued(m):
    return len({v for v, _ in m[0]}) == len(m[0])


def all_samples(variables, relations, directed=False, max_vars=None, max_edges=None):
    """Every connected sample with at most one value per variable and at most one relation per pair."""
    out = []
    names = [v for v, _ in variables]
    dom = dict(variables)
    for k in range(1, (max_vars or len(names)) + 1):
        for vs in itertools.combinations(names, k):
            if k == 1:
                out.extend(single(vs[0], x) for x in dom[vs[0]])
                continue
            vpairs = list(itertools.combinations(vs, 2))
            shapes = []
            for rels in itertools.product(*[[NO_RELATION] + rel_options(p, relations, directed) for p in vpairs]):
                es = [(p, r) for p, r in zip(vpairs, rels) if r is not NO_RELATION]
                if max_edges is not None and len(es) > max_edges:
                    continue
                shape = (frozenset((v, 0) for v in vs),
                         frozenset((frozenset({(p[0], 0), (p[1], 0)}), r) for p, r in es))
                if len(es) >= k - 1 and is_connected(shape):
                    shapes.append(es)
            for vals in itertools.product(*[dom[v] for v in vs]):
                val = dict(zip(vs, vals))
                for es in shapes:
                    out.append((frozenset(val.items()),
                                frozenset((frozenset({(p[0], val[p[0]]), (p[1], val[p[1]])}), r) for p, r in es)))
    return out


def rel_options(pair, relations, directed):
    out = list(relations)
    if directed:
        out += [D(pair[0], pair[1], r) for r in relations] + [D(pair[1], pair[0], r) for r in relations]
    return out


def variables_of(m):
    return frozenset(v for v, _ in m[0])


def elements(m):
    return m[0] | m[1]


def subgraph(a, b):
    return a[0] <= b[0] and a[1] <= b[1]


def similarity(a, b):
    ea, eb = elements(a), elements(b)
    if not ea and not eb:
        return Fraction(1)
    return Fraction(len(ea & eb), len(ea | eb))


def endpoint_variables(m):
    return frozenset(frozenset(v for v, _ in e) for e, _ in m[1])


def replace(m, to):
    def n2(n):
        return (n[0], to[n[0]]) if n[0] in to else n
    return frozenset(n2(n) for n in m[0]), frozenset((frozenset(n2(n) for n in e), r) for e, r in m[1])


def belt(m, centers, flt=None):
    """node at one step -> edges that lead to the centers"""
    acc = {}
    for e, r in m[1]:
        if flt is not None and r not in flt:
            continue
        outside = [n for n in e if n not in centers]
        if len(outside) == 1:
            acc.setdefault(outside[0], set()).add((e, r))
    return acc


def external(m, centers, flt=None):
    """Breadth first layers; every reached node keeps the edges which lead one step towards the centers."""
    acc, inner = {}, set(centers)
    while True:
        layer = belt(m, inner, flt)
        if not layer:
            return acc
        acc.update(layer)
        inner |= set(layer)


def can_join(b, s):
    """Joining sample s to a builder holding b is legal."""
    if s == EMPTY:
        return False
    if b[0] and not (b[0] & s[0]):
        return False
    if not s[1]:
        return True     # single node, present already or first
    values = {}
    for v, x in b[0] | s[0]:
        values.setdefault(v, set()).add(x)
    if any(len(values[v]) > 1 and (v, x) not in b[0] for v, x in s[0]):
        return False
    return not relation_conflict(b, s)


def relation_conflict(b, s):
    rel = dict(b[1])
    return any(e in rel and rel[e] != r for e, r in s[1])


def union(a, b):
    return a[0] | b[0], a[1] | b[1]


def text_edges(m):
    def node(n):
        return f"({n[0]}_{n[1]})"
    out = []
    for e, r in m[1]:
        p, q = sorted(node(n) for n in e)
        out.append(f"{p}--{{{r}}}--{q}")
    return sorted(out)


def text(m):
    if m[1]:
        return "{" + "; ".join(text_edges(m)) + "}"
    if m[0]:
        (n,) = m[0]
        return "{" + f"({n[0]}_{n[1]})" + "}"
    return "{}"


def key(m):
    """Order independent, JSON-able rendering for traces."""
    return text(m)


# ---------------------------------------------------------------- networks: dict sample -> count

def condition(outcomes, ev):
    return {o: c for o, c in outcomes.items()
            if subgraph(ev, o) or not (variables_of(ev) & variables_of(o))}


def marginals(outcomes, variables, unobserved=False):
    total = sum(outcomes.values())
    acc = {}
    for o, c in outcomes.items():
        for v, x in o[0]:
            if v in variables:
                acc.setdefault(v, {})
                acc[v][x] = acc[v].get(x, 0) + c
    out = {}
    for v, d in acc.items():
        seen = sum(d.values())
        if unobserved:
            out[v] = {x: Fraction(c, total) for x, c in d.items()}
            out[v]["u"] = Fraction(total - seen, total)
        else:
            out[v] = {x: Fraction(c, seen) for x, c in d.items()}
    return out


def factor_key(m):
    if m[1]:
        return endpoint_variables(m)
    (n,) = m[0]
    return frozenset({("single", n[0])})


def factors(outcomes):
    """Partition in to factors, or None if not factorised."""
    acc = {}
    for o, c in outcomes.items():
        if o == EMPTY:
            return None
        acc.setdefault(factor_key(o), {})[o] = c
    for a, b in itertools.combinations(acc, 2):
        if a & b:
            return None
    return list(acc.values())


def natural_join(fs):
    """Product of factors: all compatible combinations, counts multiplied."""
    acc = {EMPTY: 1}
    for f in fs:
        nxt = {}
        for a, ca in acc.items():
            va = dict(a[0])
            for o, c in f.items():
                if all(va.get(v, x) == x for v, x in o[0]):
                    j = union(a, o)
                    nxt[j] = nxt.get(j, 0) + ca * c
        acc = nxt
    return acc


def globally_consistent(fs):
    """Every outcome of every factor takes part in at least one joint outcome."""
    j = natural_join(fs)
    for f in fs:
        for o in f:
            if not any(subgraph(o, k) for k in j):
                return False
    return bool(j)


def factors_connected(fs):
    vs = [frozenset(v for o in f for v in variables_of(o)) for f in fs]
    if not vs:
        return True
    seen, rest = set(vs[0]), vs[1:]
    while rest:
        nxt = [x for x in rest if x & seen]
        if not nxt:
            return False
        for x in nxt:
            seen |= x
        rest = [x for x in rest if x not in nxt]
    return True

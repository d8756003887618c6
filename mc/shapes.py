"""Larger graphs as pairs of indices, and names whose hashes (so: iteration orders) are assigned."""
import itertools

from . import model as M

SHAPES = ["path", "cycle", "star", "clique", "ladder", "lollipop", "tree", "wheel", "bipartite", "caterpillar"]


def shape(name, n):
    if name == "path":
        idx = [(i, i + 1) for i in range(n - 1)]
    elif name == "cycle":
        idx = [(i, (i + 1) % n) for i in range(n)]
    elif name == "star":
        idx = [(0, i) for i in range(1, n)]
    elif name == "clique":
        idx = itertools.combinations(range(n), 2)
    elif name == "lollipop":
        idx = list(itertools.combinations(range(min(4, n)), 2)) + [(i, i + 1) for i in range(3, n - 1)]
    elif name == "ladder":
        h = n // 2
        idx = ([(i, i + 1) for i in range(h - 1)] + [(h + i, h + i + 1) for i in range(h - 1)]
               + [(i, h + i) for i in range(h)] + ([(n - 2, n - 1)] if n % 2 else []))
    elif name == "tree":
        idx = [((i - 1) // 2, i) for i in range(1, n)]
    elif name == "wheel":
        idx = [(0, i) for i in range(1, n)] + [(i, i + 1) for i in range(1, n - 1)] + [(n - 1, 1)]
    elif name == "bipartite":
        idx = [(i, j) for i in range(n // 2) for j in range(n // 2, n)]
    elif name == "caterpillar":
        h = (n + 1) // 2
        idx = [(i, i + 1) for i in range(h - 1)] + [(i, h + i) for i in range(n - h)]
    else:
        raise ValueError(name)
    return list(dict.fromkeys(tuple(sorted(p)) for p in idx if p[0] != p[1]))


def names(n, h):
    """n variable names; h = 0 plain, 1.. assigned hashes (ascending, descending, scattered, colliding)."""
    plain = [f"v{i}" for i in range(n)]
    if not h:
        return plain
    return [M.HS(s, (0, i, 63 - i, (7 * i) % 32, i % 3)[h]) for i, s in enumerate(plain)]


def sample(vs, idx, value=0, relation="r"):
    """Sample of the pairs idx over variables vs; value / relation may be functions of the index / of the position."""
    val = value if callable(value) else lambda i: value
    rel = relation if callable(relation) else lambda k: relation
    return M.from_edges((frozenset({(vs[i], val(i)), (vs[j], val(j))}), rel(k)) for k, (i, j) in enumerate(idx))


def dense(h, k=13):
    """Variables, relations and outcomes with counts: k values and k relations, all of which occur between v0 and v1."""
    vs = names(4, h)
    rels = [f"r{i}" for i in range(k)]
    model = {}
    for i, j in itertools.product(range(k), repeat=2):
        m = sample(vs, [(0, 1)], lambda v: (i, j)[v], rels[(i + j) % k])
        if (i + 2 * j) % 3 == 0:
            m = M.union(m, sample(vs, [(0, 2)], lambda v: i if v == 0 else 0, rels[j]))
        model[m] = 1 + (5 * i + j) % 7
    for i in range(k):
        model[M.single(vs[2], i)] = 1 + i % 4
    return vs, ([(v, list(range(k))) for v in vs], rels), model

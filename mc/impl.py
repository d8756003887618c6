"""Access to the code under test: construction of real objects from the model and observation of them."""
import contextlib

from . import core
from . import model as M

core.setup_paths()

from scripts.relnet.graph_components import (  # noqa: E402
    ValueNode, RelationEdge, DirectedRelation, BuilderComponentsProvider)
from scripts.relnet.sample_graph import SampleGraph, SampleGraphBuilder  # noqa: E402
from scripts.relnet.sample_set import SampleSet, SampleSetBuilder  # noqa: E402
from scripts.relnet.relation_graph import RelationGraph, RelationGraphBuilder  # noqa: E402
from scripts.relnet.conditional_graph import ConditionalGraph  # noqa: E402


class World:
    """A vocabulary and one network builder (so: one components provider) on it."""

    def __init__(self, name=None, spec=None, rename=None):
        self.variables, self.relations = spec if spec else M.world(name)
        if rename:
            self.variables = [(rename(v), [rename(x) for x in xs]) for v, xs in self.variables]
            self.relations = [rename(r) for r in self.relations]
        self.provider = BuilderComponentsProvider({v: set(xs) for v, xs in M.twin(self.variables)}, set(M.twin(self.relations)))
        self.rgb = RelationGraphBuilder(components_provider=self.provider)
        self.cache = {}

    def sb(self):
        return self.rgb.sample_builder()

    def sample(self, m):
        """The real sample of model m (cached: samples are immutable)."""
        s = self.cache.get(m)
        if s is None:
            s = self.cache[m] = make_sample(self.sb(), M.twin(m))
        return s


def rel_to_impl(r):
    return DirectedRelation(r.s, r.t, r.r) if isinstance(r, M.D) else r


def rel_from_impl(r):
    return M.D(r.source_variable, r.target_variable, r.relation) if isinstance(r, DirectedRelation) else r


def edges_to_impl(edges):
    return frozenset((e, rel_to_impl(r)) for e, r in edges)


def make_sample(builder, m):
    nodes, edges = m
    if edges:
        for e, r in connected_order(edges):
            builder.add_relation(set(e), rel_to_impl(r))
        return builder.build()
    if nodes:
        ((v, x),) = nodes
        return builder.build_single_node(v, x)
    return builder.build_empty()


def connected_order(edges):
    rest = sorted(edges, key=lambda er: (sorted(map(repr, er[0])), repr(er[1])))
    out, seen = [], set()
    while rest:
        i = next((i for i, (e, _) in enumerate(rest) if not seen or e & seen), 0)
        e, r = rest.pop(i)
        seen |= e
        out.append((e, r))
    return out


def view(s):
    """Model of a real sample, read through its nodes and edges."""
    return (frozenset((n.variable, n.value) for n in s.nodes),
            frozenset((frozenset((n.variable, n.value) for n in e.endpoints), rel_from_impl(e.relation))
                      for e in s.edges))


def edge_view(e):
    return frozenset((n.variable, n.value) for n in e.endpoints), rel_from_impl(e.relation)


def node_view(n):
    return n.variable, n.value


def set_view(ss):
    """Model of a real sample collection."""
    out = {}
    for s, c in ss.items():
        k = view(s)
        core.require(k not in out, f"collection lists sample {M.text(k)} twice")
        out[k] = c
    return out


def layers_view(d):
    return {node_view(n): {edge_view(e) for e in es} for n, es in d.items()}


def network(w, outcomes, name=None, order=None):
    """Real network with the given model outcomes, on the components of world w."""
    ssb = empty_network_builder(w)
    if name is not None:
        ssb.set_name(name)
    for m in (order or list(outcomes)):
        ssb.add_outcome(w.sample(m), outcomes[m])
    return ssb.build()


def empty_network_builder(w):
    """An empty network builder that shares the components of w's samples."""
    return RelationGraphBuilder(components_provider=w.provider)


@contextlib.contextmanager
def recorded_pages():
    """Intercept pyvis so that nothing is written and no browser opens; yields the list of shown pages."""
    import pyvis.network
    pages = []
    names = ("show", "write_html", "save_graph")
    saved = {n: getattr(pyvis.network.Network, n) for n in names}

    def show(self, name, *a, **k):
        pages.append((name, [dict(n) for n in self.nodes], [dict(e) for e in self.edges]))
    for n in names:
        setattr(pyvis.network.Network, n, show)
    try:
        yield pages
    finally:
        for n in names:
            setattr(pyvis.network.Network, n, saved[n])

"""
Stand-in for the parts of pgmpy the scripts use: exact, in fractions, by multiplying everything out.

`WRONG` makes it wrong on purpose: a function of (number of the answer, factor) that may edit the answer of an inference.
"""
import itertools
import sys
import types
from fractions import Fraction

WRONG = {"answer": None, "asked": 0}


class DiscreteFactor:
    def __init__(self, variables, cardinality, values):
        self.variables, self.cardinality = list(variables), list(cardinality)
        keys = list(itertools.product(*[range(c) for c in self.cardinality]))
        values = [v if isinstance(v, Fraction) else Fraction(repr(v)) for v in values]
        if len(keys) != len(values):
            raise ValueError("wrong number of values")
        self.table = dict(zip(keys, values))

    @classmethod
    def make(cls, variables, cardinality, table):
        f = DiscreteFactor.__new__(DiscreteFactor)
        f.variables, f.cardinality, f.table = list(variables), list(cardinality), dict(table)
        return f

    def copy(self):
        return self.make(self.variables, self.cardinality, self.table)

    def at(self, d):
        return self.table[tuple(d[v] for v in self.variables)]

    def product(self, other, inplace=False):
        vs = self.variables + [v for v in other.variables if v not in self.variables]
        cs = self.cardinality + [c for v, c in zip(other.variables, other.cardinality) if v not in self.variables]
        keys = [(k, dict(zip(vs, k))) for k in itertools.product(*[range(c) for c in cs])]
        return self.result(self.make(vs, cs, {k: self.at(d) * other.at(d) for k, d in keys}), inplace)

    def __mul__(self, other):
        return self.product(other)

    def result(self, f, inplace):
        if not inplace:
            return f
        self.__dict__.update(f.__dict__)

    def get_value(self, **d):
        return float(self.at(d))

    def set_value(self, value, **d):
        self.table[tuple(d[v] for v in self.variables)] = Fraction(value)

    def normalize(self, inplace=True):
        t = sum(self.table.values())
        return self.result(self.make(self.variables, self.cardinality, {k: v / t for k, v in self.table.items()}), inplace)

    def marginalize(self, variables, inplace=True):
        keep = [i for i, v in enumerate(self.variables) if v not in variables]
        table = {}
        for k, v in self.table.items():
            k = tuple(k[i] for i in keep)
            table[k] = table.get(k, 0) + v
        return self.result(self.make([self.variables[i] for i in keep], [self.cardinality[i] for i in keep], table), inplace)

    def reduce(self, values, inplace=True):
        keep = [i for i, v in enumerate(self.variables) if v not in dict(values)]
        table = {tuple(k[i] for i in keep): p for k, p in self.table.items()
                 if all(k[self.variables.index(v)] == x for v, x in dict(values).items())}
        return self.result(self.make([self.variables[i] for i in keep], [self.cardinality[i] for i in keep], table), inplace)

    def __eq__(self, other):
        return isinstance(other, DiscreteFactor) and dict(zip(self.variables, self.cardinality)) == dict(zip(other.variables, other.cardinality)) \
            and all(abs(v - other.at(dict(zip(self.variables, k)))) < Fraction(1, 10 ** 9) for k, v in self.table.items())

    __hash__ = None


class TabularCPD(DiscreteFactor):
    def __init__(self, variable, variable_card, values, evidence=None, evidence_card=None):
        super().__init__([variable] + list(evidence or []), [variable_card] + list(evidence_card or []), [x for r in values for x in r])


class Network:
    def __init__(self, ebunch=()):
        self.edges, self.nodes, self.factors = list(ebunch or ()), [], []

    def add_cpds(self, *cpds):
        self.factors += cpds

    add_factors = add_cpds

    def add_nodes_from(self, nodes):
        self.nodes += nodes

    def add_edges_from(self, ebunch):
        self.edges += ebunch

    def add_node(self, n):
        self.nodes.append(n)

    def add_edge(self, a, b):
        self.edges.append((a, b))

    def get_cpds(self):
        return self.factors

    get_factors = get_cpds

    def check_model(self):
        return True


class VariableElimination:
    def __init__(self, model):
        self.model = model

    def query(self, variables, evidence=None, **other):
        fs = iter(self.model.factors)
        f = next(fs).copy()
        for g in fs:
            f = f.product(g)
        f.reduce(evidence or {})
        f.marginalize([v for v in f.variables if v not in variables])
        f.normalize()
        if WRONG["answer"]:
            WRONG["answer"](WRONG["asked"], f)
        WRONG["asked"] += 1
        return f


def install():
    if "pgmpy" in sys.modules:
        return
    for name, content in (("pgmpy", {}), ("pgmpy.inference", {"VariableElimination": VariableElimination}), ("pgmpy.factors", {}),
                          ("pgmpy.models", {"BayesianNetwork": Network, "MarkovNetwork": Network}),
                          ("pgmpy.factors.discrete", {"TabularCPD": TabularCPD, "DiscreteFactor": DiscreteFactor})):
        m = types.ModuleType(name)
        m.__path__ = []
        m.__dict__.update(content)
        sys.modules[name] = m

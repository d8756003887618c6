"""Prescribed random numbers in place of the random source of the code under test."""
import bisect
import itertools
import os
import random
import sys

from .core import REPO

_names = {"modules": -1, "found": []}


def imported(functions):
    """(namespace, name, drawing function) of those imported by name in to modules under test."""
    if _names["modules"] != len(sys.modules):
        root = os.path.realpath(REPO) + os.sep
        known = {getattr(random, n) for n in functions}
        _names["found"] = [(vars(m), k, v) for m in list(sys.modules.values())
                           if os.path.realpath(getattr(m, "__file__", None) or "/").startswith(root)
                           for k, v in list(vars(m).items()) if callable(v) and getattr(v, "__self__", None) is random._inst and v in known]
        _names["modules"] = len(sys.modules)
    return _names["found"]


class Numbers:
    """Every drawing function of the random module uses up one prescribed number, in turn (again from the first at the end)."""
    REPLACED = ("random", "choice", "choices", "uniform", "randrange", "randint", "sample", "shuffle")

    def __init__(self, *rs):
        self.rs = list(rs)

    def __enter__(self):
        self.saved = {n: getattr(random, n) for n in self.REPLACED}
        self.bound = [(ns, k, v) for ns, k, v in imported(self.REPLACED)]
        it = itertools.cycle(self.rs)

        def choice(seq):
            return seq[int(next(it) * len(seq))]

        def choices(population, weights=None, *, cum_weights=None, k=1):
            if weights is None and cum_weights is None:
                return [choice(population) for _ in range(k)]
            cum = list(cum_weights or itertools.accumulate(weights))
            return [population[min(bisect.bisect(cum, next(it) * cum[-1]), len(cum) - 1)] for _ in range(k)]

        def randrange(start, stop=None, step=1):
            return choice(range(start) if stop is None else range(start, stop, step))

        def sample(population, k, **_):
            rest = list(population)
            return [rest.pop(int(next(it) * len(rest))) for _ in range(k)]

        def shuffle(x):
            x[:] = sample(x, len(x))
        new = {"sample": sample, "shuffle": shuffle, "random": lambda: next(it), "choice": choice, "choices": choices,
               "uniform": lambda a, b: a + (b - a) * next(it), "randrange": randrange,
               "randint": lambda a, b: choice(range(a, b + 1))}
        for n, f in new.items():
            setattr(random, n, f)
        for ns, k, v in self.bound:
            ns[k] = new[v.__name__]

    def __exit__(self, *a):
        for ns, k, v in self.bound:
            ns[k] = v
        for n, f in self.saved.items():
            setattr(random, n, f)

"""Counters and sampling over complete small domains."""
import itertools
import random
from fractions import Fraction

from .. import pac
from ..core import Violation, attempt, close, equal, require
from ..numbers import Numbers

util = pac.util

ID = "D07"
ASSUMPTIONS = ["keys of sampled counters are orderable, shares are not negative and have a positive total",
               "a random number that falls exactly between two shares may go to either",
               "a list of pairs is a distribution that adds up to 1"]
KEYS = ["a", 0, ("t", 1)]
VALUES = [0, 1, -2, 2.5]
FINE = [0, 1e-7, -3e-7, 2e12]


def bounds(tier):
    return ("all counters over up to 3 keys with 4 values each or absent (125, and as many of values far apart and close together), all pairs of them for sum, difference and product; all "
            "histories of 4 increments, readings, scalings and normalisations; sampling from all distributions of up to 4 shares out of 0, "
            "1, 2, 3 and 0.5 with each random number of a grid of 97 that separates all shares and 6 next to 0 and 1, from 5 to 60 shares, of several draws at once, of up to 257 draws in 7 patterns from 12 and 40 shares; counters of 50 and 2000 keys with 6 "
            "patterns of values; all interleavings of 9 draws from up to 3 sources of fixed numbers")


def cases(tier):
    out = [["pairs", k, 25] for k in range(25)]
    out += [["single", k, 5] for k in range(5)]
    out += [["pairs", k, 25, True] for k in range(25)] + [["single", k, 5, True] for k in range(5)]
    out += [["histories", k, 5 if tier == "thorough" else 4] for k in range(len(OPS))]
    out += [["sampling", n, k, 5] for n in (1, 2, 3, 4) for k in range(5)]
    out += [["many"], ["draws"], ["misc"], ["fixed"]] + [["wide", n, k] for n in (50, 2000) for k in range(6)]
    return out


def run_case(case, st):
    globals()["case_" + case[0]](st, *case[1:])


def counters(values=VALUES):
    for vals in itertools.product([None] + values, repeat=3):
        yield {k: v for k, v in zip(KEYS, vals) if v is not None}


def make(d):
    c = util.Counter()
    for k, v in d.items():
        c[k] = v
    return c


def nonzero(d):
    return {k: v for k, v in d.items() if v}


def check_unchanged(c, d, what):
    require(dict(c) == d, f"{what} changed its operand {d} to {dict(c)}")     # a new 0 would count as largest of negative ones


def case_pairs(st, part, parts, fine=False):
    all_ = list(counters(FINE if fine else VALUES))
    for n, (x, y) in enumerate(itertools.product(all_, repeat=2)):
        if n % parts != part:
            continue
        a, b = make(x), make(y)
        keys = set(x) | set(y)
        for name, f, g in (("sum", lambda: a + b, lambda p, q: p + q), ("difference", lambda: a - b, lambda p, q: p - q)):
            got = f()
            require(isinstance(got, util.Counter), f"{name} is a counter")
            equal(nonzero(dict(got)), nonzero({k: g(x.get(k, 0), y.get(k, 0)) for k in keys}), f"{name} of {x} and {y}")
            equal(got["other"], 0, "absent key of a result")
            check_unchanged(a, x, name)
            check_unchanged(b, y, name)
        close(a * b, sum(x.get(k, 0) * y.get(k, 0) for k in keys), f"product of {x} and {y}")
        close(b * a, sum(x.get(k, 0) * y.get(k, 0) for k in keys), f"product of {y} and {x}")
        check_unchanged(a, x, "product")
        check_unchanged(b, y, "product")
        if n % 5 == 0:
            # results are independent of their operands
            s, d = a + b, a - b
            before = dict(s), dict(d)
            a["a"] += 7
            b["new"] = 3
            equal((dict(s), dict(d)), before, "results after their operands changed")
            c = make(x)
            c += make(y)
            equal(nonzero(dict(c)), nonzero({k: x.get(k, 0) + y.get(k, 0) for k in keys}), f"{x} increased by {y}")
        st.step(4)
        st.state((tuple(map(repr, x.items())), tuple(map(repr, y.items()))))
    st.trace()


def case_single(st, part, parts, fine=False):
    for n, x in enumerate(counters(FINE if fine else VALUES)):
        if n % parts != part:
            continue
        a = make(x)
        close(a.totalCount(), sum(x.values()), f"total of {x}")
        top = a.argMax()
        if not x:
            require(top is None, "largest key of an empty counter")
        else:
            require(top in x and x[top] == max(x.values()), f"largest key of {x} is {top!r}")
        ks = a.sortedKeys()
        equal(sorted(map(repr, ks)), sorted(map(repr, x)), f"sorted keys of {x}")
        require(all(x[p] >= x[q] for p, q in zip(ks, ks[1:])), f"keys of {x} sorted as {ks}")
        check_unchanged(a, x, "a query")
        c = a.copy()
        require(isinstance(c, util.Counter) and dict(c) == x, "copy of a counter")
        c["a"] += 1
        c["fresh"] = 2
        check_unchanged(a, x, "a change of the copy")
        for key in KEYS + ["absent"]:
            equal(make(x)[key], x.get(key, 0), f"{key!r} of {x}")
        for by in (2, 0.5, -4):
            c = a.copy()
            c.divideAll(by)
            equal(set(c), set(x), "keys after division")
            for k in x:
                close(c[k], Fraction(x[k]) / Fraction(by), f"{x} divided by {by}")
        total = sum(map(Fraction, x.values()))
        if total:
            c = a.copy()
            c.normalize()
            d = util.normalize(a)
            check_unchanged(a, x, "normalisation of a copy")
            for k in x:
                close(c[k], Fraction(x[k]) / total, f"{x} normalised")
                close(d[k], Fraction(x[k]) / total, f"normalised version of {x}")
            equal((set(c), set(d)), (set(x), set(x)), "keys after normalisation")
        else:
            c = a.copy()
            c.normalize()
            equal(dict(c), x, "normalisation of a counter without weight")
        for keys in ((), KEYS, ["z", "a", "a"]):
            c = a.copy()
            c.incrementAll(keys, 3)
            want = dict(x)
            for k in keys:
                want[k] = want.get(k, 0) + 3
            equal(nonzero(dict(c)), nonzero(want), f"{x} incremented at {keys}")
        vec = list(x.values())
        if sum(vec):
            got = util.normalize(vec)
            for p, q in zip(got, vec):
                close(p, Fraction(q) / sum(map(Fraction, vec)), f"vector {vec} normalised")
            equal((len(got), vec), (len(vec), list(x.values())), "normalised vector")
        st.step(12)
        st.state(tuple(map(repr, x.items())))
    st.trace()


OPS = [("inc", "a", 1), ("inc", "b", 2), ("inc", "b", -2), ("read", "a"), ("all",), ("div",), ("norm",), ("iadd",), ("self",), ("copy",)]


def case_histories(st, first, depth):
    for seq in itertools.product(range(len(OPS)), repeat=depth - 1):
        c, m = util.Counter(), {}
        kept = []
        for k in (first,) + seq:
            op = OPS[k]
            if op[0] == "inc":
                c[op[1]] += op[2]
                m[op[1]] = m.get(op[1], 0) + op[2]
            elif op[0] == "read":
                equal(c[op[1]], m.get(op[1], 0), "value read")
            elif op[0] == "all":
                c.incrementAll(["a", "c"], 1)
                for x in "ac":
                    m[x] = m.get(x, 0) + 1
            elif op[0] == "div":
                c.divideAll(2)
                m = {x: v / 2 for x, v in m.items()}
            elif op[0] == "norm":
                t = sum(m.values())
                c.normalize()
                if t:
                    m = {x: v / t for x, v in m.items()}
            elif op[0] == "iadd":
                o = make({"a": 4, "d": 1})
                c += o
                m["a"], m["d"] = m.get("a", 0) + 4, m.get("d", 0) + 1
                equal(dict(o), {"a": 4, "d": 1}, "added counter")
            elif op[0] == "self":
                c = c + c - c
            elif op[0] == "copy":
                kept.append((c, dict(c)))
                c = c.copy()
            st.step()
        for o, before in kept:
            equal(nonzero(dict(o)), nonzero(before), "counter after its copy went on")
        for x in set(m) | set(c):
            close(c[x], m.get(x, 0), f"history {[OPS[k] for k in (first,) + seq]}: {x!r}")
        close(c.totalCount(), sum(m.values()), "total")
        st.state((first,) + seq)
    st.trace()


# ------------------------------------------------------------------ sampling

GRID = 97


EXTREME = [0.0, 2.0 ** -53, 2.0 ** -1074, 1 - 2.0 ** -53, 1 - 2.0 ** -52, 1 - 2.0 ** -50]


def owner(shares, r):
    """Index of the share of the total in which r lies; None next to a border between two shares."""
    total = sum(map(Fraction, shares))
    positive = [i for i, s in enumerate(shares) if s > total / 10 ** 8]
    if r <= Fraction(1, 10 ** 9):
        return positive[0]
    if r >= 1 - Fraction(1, 10 ** 9):
        return positive[-1]
    acc = Fraction(0)
    for i, s in enumerate(shares):
        nxt = acc + Fraction(s) / total
        if acc + Fraction(1, 10 ** 9) < r < nxt - Fraction(1, 10 ** 9):
            return i
        acc = nxt
    return None


SHARES = [0, 1, 2, 3, 0.5]


def case_sampling(st, n, part, parts):
    for k, shares in enumerate(itertools.product(SHARES, repeat=n)):
        if k % parts != part or not sum(shares):
            continue
        values = [f"v{i}" for i in range(n)]
        c = make(dict(zip(values, shares)))
        scaled = [Fraction(s) / sum(map(Fraction, shares)) for s in shares]
        pairs = [(float(p), v) for p, v in zip(scaled, values)]
        for r in [(g + 0.5) / GRID for g in range(GRID)] + EXTREME:
            i = owner(shares, Fraction(r))
            if i is None:
                continue
            with Numbers(r):
                got = [util.sample(c), util.sample(list(shares), list(values)), util.sampleFromCounter(c), util.chooseFromDistribution(c),
                       util.chooseFromDistribution(pairs), util.nSample(list(shares), list(values), 1)[0]]
            if got != [values[i]] * len(got):
                raise Violation(f"shares {shares} with random number {r:.5f}: drawn {got}, expected {values[i]!r}")
            st.step(6)
        equal(dict(c), dict(zip(values, shares)), "counter after sampling")
        st.state(shares)
    st.trace()


def case_many(st):
    for n in range(5, 61):
        for kind in range(4):
            shares = [[1] * n, list(range(n)), [n - i for i in range(n)], [0.1 * (i % 3) for i in range(n)]][kind]
            pairs = [(float(Fraction(s) / sum(map(Fraction, shares))), i) for i, s in enumerate(shares)]
            values = list(range(n))
            c = make(dict(zip(values, shares)))
            for r in EXTREME + [(g + 0.5) / 997 for g in range(997 if n in (5, 10, 40) else 0)]:
                i = owner(shares, Fraction(r))
                if i is None:
                    continue
                with Numbers(r):
                    got = (util.sample(c), util.sample(shares, values), util.nSample(shares, values, 1), util.chooseFromDistribution(pairs),
                           util.sampleFromCounter(c), util.chooseFromDistribution(c))
                if got != (i, i, [i], i, i, i):
                    raise Violation(f"{n} shares of kind {kind} with random number {r}: drawn {got}, expected {i}")
                st.step()
            st.state((n, kind))
    st.trace()


def case_draws(st):
    """Several draws at once: one value per random number, as in single draws."""
    for shares in ((1, 1), (1, 2, 3), (0.25, 0, 0.75), (2, 2, 2, 2)):
        values = [f"v{i}" for i in range(len(shares))]
        pool = [0.03, 0.2, 0.31, 0.45, 0.6, 0.77, 0.93]
        for n in (0, 1, 2, 3, 4):
            for rs in itertools.product(pool, repeat=n):
                with Numbers(*(rs or (0.5,))):
                    got = util.nSample(list(shares), list(values), n)
                want = sorted(values[owner(shares, Fraction(r))] for r in rs)
                st.step()
                if sorted(got) != want:
                    raise Violation(f"shares {shares}, random numbers {rs}: drawn {got}, expected {want}")
        st.state(shares)
    # many draws from many shares
    for n in (12, 40):
        for kind in range(4):
            shares = [[1] * n, list(range(n)), [n - i for i in range(n)], [0.1 * (i % 3) for i in range(n)]][kind]
            for count in (*range(9, 17), 33, 64, 100, 257):
                for step in range(7):
                    rs = [((k * (2 * step + 1) * 37 + step) % 499 + 0.25) / 499 for k in range(count)]
                    rs = [r for r in rs if owner(shares, Fraction(r)) is not None]
                    with Numbers(*rs):
                        got = util.nSample(list(shares), list(range(n)), len(rs))
                    want = sorted(owner(shares, Fraction(r)) for r in rs)
                    st.step()
                    if sorted(got) != want:
                        raise Violation(f"{n} shares of kind {kind}, random numbers {rs}: drawn {got}, expected {want}")
                    with Numbers(*rs):
                        got = [util.sample(list(shares), list(range(n))) for _ in rs]
                    if sorted(got) != want:
                        raise Violation(f"{n} shares of kind {kind}, random numbers {rs} one by one: drawn {got}, expected {want}")
            for v in range(n):
                values = [i % 11 for i in range(n)]
                close(util.getProbability(v, shares, values), sum(Fraction(s) for s, w in zip(shares, values) if w == v), "probability of a value")
            st.state((n, kind))
    st.trace()


def case_misc(st):
    for shares in itertools.product((0, 0.25, 0.5), repeat=3):
        for values in itertools.product("xy", repeat=3):
            for v in "xyz":
                close(util.getProbability(v, shares, values), sum(s for s, w in zip(shares, values) if w == v), "probability of a value")
                st.step()
    for p in (0, 0.25, 0.5, 1):
        for g in range(20):
            r = (g + 0.5) / 20
            with Numbers(r):
                equal(bool(util.flipCoin(p)), r < p, f"coin of probability {p} with random number {r}")
            st.step()
    for x2, y2 in itertools.product(range(0, 12), repeat=2):
        for dx, dy in itertools.product((-0.2, 0, 0.2), repeat=2):
            pos = (x2 / 2 + dx, y2 / 2 + dy)
            if min(pos) < 0:
                continue
            x, y = util.nearestPoint(pos)
            require(abs(x - pos[0]) <= 0.5 and abs(y - pos[1]) <= 0.5 and x == int(x) and y == int(y), f"nearest point of {pos}: {(x, y)}")
            st.step()
    for a, b in itertools.product(itertools.product((-1, 0, 2.5), repeat=2), repeat=2):
        close(util.manhattanDistance(a, b), abs(a[0] - b[0]) + abs(a[1] - b[1]), "distance")
    for rows, cols in ((1, 1), (2, 2), (3, 3)):
        m = [[10 * i + j for j in range(cols)] for i in range(rows)]
        equal(util.arrayInvert(m), [[m[i][j] for i in range(rows)] for j in range(cols)], "transposed")
    for bits in itertools.product((True, False), repeat=6):
        m = [list(bits[:3]), list(bits[3:])]
        equal(sorted(util.matrixAsList(m)), sorted((i, j) for i in range(2) for j in range(3) if m[i][j]), "cells of a matrix")
    for x in (-2, -0.5, 0, 1, 3):
        equal(util.sign(x), 1 if x >= 0 else -1, "sign")
    st.trace()
    st.state("misc")


def case_fixed(st):
    """Sources of fixed numbers all give the same numbers, whatever was drawn elsewhere."""
    first = util.FixedRandom()
    want = [first.random.random() for _ in range(9)]
    require(len(set(want)) == 9 and all(0 <= w < 1 for w in want), f"numbers {want}")
    for order in itertools.product(range(3), repeat=9):
        made = {}
        for who in order:
            if who not in made:
                made[who] = (util.FixedRandom(), [])
            random.seed(who)
            random.random()
            made[who][1].append(made[who][0].random.random())
        for _, got in made.values():
            if got != want[:len(got)]:
                raise Violation(f"fixed numbers drawn in order {order}: {got} instead of {want[:len(got)]}")
        st.step()
        st.state(order)
    st.trace()


def case_wide(st, n, k):
    f = [lambda i: i, lambda i: -i, lambda i: (i * 37) % 101, lambda i: (i % 7) - 3 + 0.25, lambda i: 1, lambda i: 10.0 ** (i % 12)][k]
    x = {(i % 10, f"k{i}"): f(i) for i in range(n)}
    y = {(i % 10, f"k{i}"): i % 5 for i in range(n // 2, n + n // 2)}
    a, b = make(x), make(y)
    total = sum(map(Fraction, x.values()))
    close(a.totalCount(), total, "total of a large counter")
    top = a.argMax()
    equal(x[top], max(x.values()), "largest of a large counter")
    ks = a.sortedKeys()
    equal(sorted(ks), sorted(x), "keys of a large counter")
    require(all(x[p] >= x[q] for p, q in zip(ks, ks[1:])), "large counter sorted")
    s, d = a + b, a - b
    for key in set(x) | set(y):
        close(s[key], Fraction(x.get(key, 0)) + y.get(key, 0), f"sum at {key}")
        close(d[key], Fraction(x.get(key, 0)) - y.get(key, 0), f"difference at {key}")
    close(a * b, sum(Fraction(x[key]) * y[key] for key in x if key in y), "product of large counters")
    check_unchanged(a, x, "arithmetic")
    check_unchanged(b, y, "arithmetic")
    c = a.copy()
    c.incrementAll(list(y), 2)
    for key in set(x) | set(y):
        close(c[key], Fraction(x.get(key, 0)) + (2 if key in y else 0), f"incremented at {key}")
    if total:
        c = a.copy()
        c.normalize()
        e = util.normalize(a)
        for key in x:
            close(c[key], Fraction(x[key]) / total, f"normalised at {key}")
            close(e[key], Fraction(x[key]) / total, f"normalised at {key}")
    check_unchanged(a, x, "normalisation of a copy")
    c = a.copy()
    c.divideAll(4)
    for key in x:
        close(c[key], Fraction(x[key]) / 4, f"divided at {key}")
    st.step(10)
    st.state((n, k))
    st.trace()

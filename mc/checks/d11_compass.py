"""Directions, steps, places and agent records: every direction, speed, small board and random draw."""
import itertools
import random
from fractions import Fraction

from .. import pac
from ..core import Violation, attempt, close, equal, require
from ..numbers import imported
from ..pac import REVERSE, VEC

game, layout, util = pac.game, pac.layout_module, pac.util
Actions, Configuration, Directions, AgentState, Grid = game.Actions, game.Configuration, game.Directions, game.AgentState, game.Grid

ID = "D11"
ASSUMPTIONS = ["a step goes along one axis", "Python's generator of random bits is fair; draws with more than the stated number of calls of it are cut off",
               "of several corners equally far away any may be given"]
NAMES = ("North", "East", "South", "West", "Stop")
LEFT = {"North": "West", "West": "South", "South": "East", "East": "North", "Stop": "Stop"}


def bounds(tier):
    n = "every grid of walls of up to 4 x 3 cells" if tier == "thorough" else "every grid of walls of up to 3 x 3 cells"
    return (f"all directions at 7 speeds; steps from 25 places (between cells, too) with 33 vectors; {n} with every cell and every place nearest to it; "
            "possible moves on the same grids inside of an outer wall; all pairs of 150 configurations and of 450 agent records; random places and corners: every draw "
            "of up to 4 random numbers on all boards of walls of up to 3 x 2 cells inside of an outer wall and on larger ones without; farthest corners from every place")


def cases(tier):
    out = [["directions"], ["steps"], ["records"], ["corners"]]
    sizes = [(w, h) for w in (1, 2, 3) for h in (1, 2, 3)]
    if tier == "thorough":
        sizes += [(4, 1), (4, 2), (4, 3), (1, 4), (2, 4)]
    out += [["cells", w, h] for w, h in sizes]
    out += [["moves", w, h] for w, h in sizes]
    out += [["draws", w, h] for w in (1, 2, 3) for h in (1, 2)]
    return out


def run_case(case, st):
    globals()["case_" + case[0]](st, *case[1:])


def case_directions(st):
    for d in NAMES:
        equal(Directions.REVERSE[d], REVERSE[d], f"reverse of {d}")
        equal(Directions.LEFT[d], LEFT[d], f"left of {d}")
        equal(Directions.RIGHT[LEFT[d]], d, f"right of {LEFT[d]}")
        equal(Actions.reverseDirection(d), REVERSE[d], f"reversed {d}")
        equal(Actions.reverseDirection(Actions.reverseDirection(d)), d, f"{d} reversed twice")
        st.step(5)
        for speed in (None, 1, 0.5, 2, 0.25, 0.1, 3):
            v = Actions.directionToVector(d) if speed is None else Actions.directionToVector(d, speed)
            k = 1 if speed is None else speed
            equal(tuple(v), tuple(c * k for c in VEC[d]), f"step of {d} at speed {speed}")
            equal(Actions.vectorToDirection(v), d, f"direction of {v}")
            st.state((d, speed))
            st.step(2)
    equal(set(Directions.REVERSE), set(NAMES), "directions")
    ok, _ = attempt(lambda: Actions.directionToVector("Up"))
    require(not ok, "a direction that does not exist is taken")
    st.trace()


PLACES = [(x / 2, y / 2) for x in range(2, 7) for y in range(2, 7)]
WHOLE = [(x, y) for x in range(5) for y in range(5)]
SIZES = (1, 0.5, 2, 0.1, 0.001, 1e-6, 7, 100)


def case_steps(st):
    vectors = [(0, 0)] + [(dx * k, dy * k) for k in SIZES for dx, dy in ((1, 0), (-1, 0), (0, 1), (0, -1))]
    for v in vectors:
        want = next(d for d in NAMES if (v[0] > 0) - (v[0] < 0) == VEC[d][0] and (v[1] > 0) - (v[1] < 0) == VEC[d][1])
        equal(Actions.vectorToDirection(v), want, f"direction of {v}")
        for p in PLACES + WHOLE:
            for d in NAMES:
                c = Configuration(p, d)
                n = c.generateSuccessor(v)
                equal(tuple(n.getPosition()), (p[0] + v[0], p[1] + v[1]), f"place after {v} from {p}")
                equal(n.getDirection(), d if want == "Stop" else want, f"direction after {v} from {p} facing {d}")
                equal((tuple(c.getPosition()), c.getDirection()), (p, d), "configuration stepped from")
                equal(bool(c.isInteger()), all(float(t).is_integer() for t in p), f"{p} is whole")
                st.step(4)
            st.state((p, v))
    for p in PLACES + WHOLE + [(-1, 0), (-2.5, 3)]:
        for d in NAMES:
            n = Actions.getSuccessor(p, d)
            equal(tuple(n), (p[0] + VEC[d][0], p[1] + VEC[d][1]), f"place {d} of {p}")
            equal(tuple(Actions.getSuccessor(n, REVERSE[d])), tuple(p), f"there and back from {p} {d}")
            st.step(2)
    st.trace(len(vectors))


def grids(w, h):
    for bits in itertools.product((False, True), repeat=w * h):
        g = Grid(w, h)
        cells = {}
        for k, b in enumerate(bits):
            g[k // h][k % h] = b
            cells[k // h, k % h] = b
        yield g, cells


OFF = [(0, 0), (0.25, 0), (-0.25, 0), (0, 0.25), (0, -0.25), (0.4, -0.4)]


def case_cells(st, w, h):
    """Free neighbours, at the border of the grid, too."""
    for g, cells in grids(w, h):
        for (x, y), wall in cells.items():
            want = sorted((x + dx, y + dy) for dx, dy in VEC.values() if cells.get((x + dx, y + dy), True) is False)
            for ox, oy in OFF:
                p = (x + ox, y + oy) if ox or oy else (x, y)
                if p[0] < 0 or p[1] < 0:
                    continue
                got = Actions.getLegalNeighbors(p, g)
                equal(sorted(tuple(c) for c in got), want, f"neighbours of {p} with walls {cells}")
                st.step()
        require(all(g[x][y] == b for (x, y), b in cells.items()), "the walls changed")
        st.state(tuple(cells.values()))
        st.trace()


def case_moves(st, w, h):
    """Possible actions of a configuration, within an outer wall."""
    for g0, cells0 in grids(w, h):
        g = Grid(w + 2, h + 2, True)
        for (x, y), b in cells0.items():
            g[x + 1][y + 1] = b
        for (x, y), wall in cells0.items():
            if wall:
                continue
            x, y = x + 1, y + 1
            want = sorted(d for d, (dx, dy) in VEC.items() if not cells0.get((x - 1 + dx, y - 1 + dy), True))
            for d in NAMES:
                for p in ((x, y), (float(x), float(y))):
                    equal(sorted(Actions.getPossibleActions(Configuration(p, d), g)), want, f"moves from {p} facing {d}")
                for ox, oy in ((0.5, 0), (-0.5, 0), (0, 0.5), (0, -0.5), (0.1, 0), (0, -0.1), (0.9, 0), (0, 0.9)):
                    equal(list(Actions.getPossibleActions(Configuration((x + ox, y + oy), d), g)), [d], f"moves between cells from {(x + ox, y + oy)} facing {d}")
                st.step(10)
        st.state(tuple(cells0.values()))
        st.trace()


def case_records(st):
    confs = [((x, y), d) for x, y in PLACES[:20] + WHOLE[:10] for d in NAMES]
    for a in confs:
        ca = Configuration(*a)
        require(not (ca == None), "a configuration equals None")       # noqa: E711
        for b in confs:
            cb = Configuration(*b)
            same = a == b
            equal(bool(ca == cb), same, f"configurations {a} and {b} are equal")
            equal(bool(ca != cb), not same, f"configurations {a} and {b} differ")
            if same:
                equal(hash(ca), hash(cb), f"hashes of equal configurations {a}")
            st.step(2)
        st.state(a)
    recs = [(p, d, t) for p in [(1, 1), (1, 2), (2, 1), (1.5, 1), (2, 2), (1, 1.5), (3, 1), (1, 3), (3, 3), (0, 0)] for d in NAMES for t in (0, 1, 2, 20, 39, 40, 13, 5, 27)]

    def make(r, pac_=False):
        s = AgentState(Configuration((1, 1), "Stop"), pac_)
        s.configuration = Configuration(r[0], r[1])
        s.scaredTimer = r[2]
        return s
    for a in recs:
        sa = make(a)
        require(not (sa == None), "an agent record equals None")       # noqa: E711
        for b in recs:
            sb = make(b)
            equal(bool(sa == sb), a == b, f"agent records {a} and {b} are equal")
            equal(bool(sa != sb), a != b, f"agent records {a} and {b} differ")
            if a == b:
                equal(hash(sa), hash(sb), f"hashes of equal agent records {a}")
            st.step(2)
        for isp in (False, True):
            s = make(a, isp)
            s.numCarrying, s.numReturned = 3, 5
            c = s.copy()
            require(c == s and hash(c) == hash(s), f"the copy of the agent record {a} is not equal to it")
            equal((c.isPacman, c.numCarrying, c.numReturned, c.scaredTimer), (isp, 3, 5, a[2]), f"copy of the agent record {a}")
            equal((tuple(c.start.getPosition()), c.start.getDirection()), ((1, 1), "Stop"), f"start in the copy of the agent record {a}")
            equal((tuple(c.getPosition()), c.getDirection()), (a[0], a[1]), f"place in the copy of the agent record {a}")
            equal((tuple(s.getPosition()), s.getDirection()), (a[0], a[1]), f"place of the agent record {a}")
            c.scaredTimer, c.configuration, c.numCarrying = 77, Configuration((9, 9), "North"), 1
            equal((tuple(s.getPosition()), s.getDirection(), s.scaredTimer, s.numCarrying), (a[0], a[1], a[2], 3), f"agent record {a} after its copy changed")
            c2 = s.copy()
            s.scaredTimer, s.configuration = 66, Configuration((8, 8), "South")
            equal((tuple(c2.getPosition()), c2.getDirection(), c2.scaredTimer), (a[0], a[1], a[2]), f"copy of the agent record {a} after the original changed")
            st.step(6)
        st.state(a)
    none = AgentState(None, False)
    equal(none.getPosition(), None, "place of an agent that is not placed")
    st.trace(len(confs) + len(recs))


def corners_of(w, h):
    return {(1, 1), (1, h - 2), (w - 2, 1), (w - 2, h - 2)}


def case_corners(st):
    for w in range(3, 9):
        for h in range(3, 8):
            lay = layout.Layout(["%" * w] + ["%" + " " * (w - 2) + "%"] * (h - 2) + ["%" * w])
            cs = corners_of(w, h)
            for x in range(w):
                for y in range(h):
                    got = tuple(lay.getFurthestCorner((x, y)))
                    far = max(abs(x - a) + abs(y - b) for a, b in cs)
                    require(got in cs and abs(x - got[0]) + abs(y - got[1]) == far, f"farthest corner from {(x, y)} on a board of {w} x {h}: {got}")
                    st.step()
            st.state((w, h))
            mass = explore(lay.getRandomCorner, 3, st)
            uniform(mass, cs if len(cs) == 4 else None, cs, f"random corner on a board of {w} x {h}")
            st.trace()


class Cut(BaseException):
    pass


def explore(f, calls, st):
    """Probability of each result over all outcomes of up to `calls` random draws."""
    mass = {}
    stack = [()]
    old_bits, old_rand = getattr(random._inst, "__dict__", {}).get("getrandbits"), random.random
    bound = [x for x in imported(("random",)) if x[2].__name__ == "random"]
    try:
        while stack:
            prefix = stack.pop()
            log, used = [], [Fraction(1)]

            def draw(n):
                k = len(log)
                if k >= calls:
                    raise Cut()
                log.append(n)
                used[0] /= n
                if k < len(prefix):
                    return prefix[k]
                for other in range(1, n):
                    stack.append(tuple(prefix) + tuple(0 for _ in range(k - len(prefix))) + (other,))
                return 0
            random._inst.getrandbits = lambda k: draw(1 << k)
            number = lambda: (draw(60) + 0.5) / 60          # noqa: E731
            random.random = number
            random._inst.random = number
            for ns, k, _ in bound:
                ns[k] = number
            try:
                got = tuple(f())
            except Cut:
                st.count("cut off")
                continue
            mass[got] = mass.get(got, 0) + used[0]
            st.step()
    finally:
        random._inst.__dict__.pop("getrandbits", None)
        random._inst.__dict__.pop("random", None)
        random.random = old_rand
        for ns, k, v in bound:
            ns[k] = v
    return mass


def uniform(mass, every, allowed, what):
    require(set(mass) <= set(allowed), lambda: f"{what}: {sorted(set(mass) - set(allowed))} came out, allowed are {sorted(allowed)}")
    if not mass or every is None:
        return
    for p in every:
        if p not in mass:
            raise Violation(f"{what}: {p} cannot come out")
    if len(set(mass.values())) != 1:
        raise Violation(f"{what}: not equally likely: { {p: float(m) for p, m in mass.items()} }")


def case_draws(st, w, h):
    for g, cells in grids(w, h):
        free = {(x + 1, y + 1) for (x, y), b in cells.items() if not b}
        if not free:
            continue
        text = ["%" * (w + 2)] + ["%" + "".join("%" if cells[x, y] else " " for x in range(w)) + "%" for y in reversed(range(h))] + ["%" * (w + 2)]
        lay = layout.Layout(text)
        mass = explore(lay.getRandomLegalPosition, 4, st)
        uniform(mass, free, free, f"random place on {text}")
        st.state(tuple(text))
        st.trace()

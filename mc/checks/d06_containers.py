"""Stack, queue and priority queues: every operation sequence up to a depth."""
import itertools

from .. import pac
from ..core import Violation, attempt, equal, require

util = pac.util

ID = "D06"
ASSUMPTIONS = ["items given to update are held at most once", "priorities can be ordered",
               "an updated item keeps its place in the order of insertion"]


def bounds(tier):
    d = (9, 8, 6) if tier == "thorough" else (8, 7, 5)
    return (f"stack and queue: all sequences of {d[0]} pushes (3 items, equal ones included) and pops; priority queue: all sequences of "
            f"up to {d[1]} pushes with 3 priorities and pops, all of {d[2]} operations out of pushes, pops and updates (4 items, 4 priorities), of 4 such operations with 6 kinds of priorities (parts of one, beyond "
            "the precision of floats, infinite, tuples) and with 8 kinds of items (made anew each time); "
            "all 7-permutations of priorities pushed, updated and drained, runs of 40 and of 3000 items; unorderable items; the "
            "function-driven queue with the same sequences")


def cases(tier):
    d = (9, 8, 6) if tier == "thorough" else (8, 7, 5)
    out = [["linear", c, k, d[0]] for c in ("Stack", "Queue") for k in range(4)]
    out += [["push", k, f, d[1]] for k in range(4) for f in (0, 1)]
    out += [["update", k, j, f, d[2]] for k in range(UPDATE_OPS) for j in (0, 1, 2, 3) for f in (0, 1)]
    out += [["updated", a, k] for a in range(len(ALPHABETS)) for k in range(UPDATE_OPS)]
    out += [["kinds", a, k] for a in range(len(KINDS)) for k in range(UPDATE_OPS)]
    out += [["permutations", k, 7] for k in range(7)]
    out += [["long", k] for k in range(6)] + [["thousands", k] for k in range(6)]
    return out


def run_case(case, st):
    globals()["case_" + case[0]](st, *case[1:])


class Thing:
    """An item that can be compared for equality only."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Thing) and self.n == o.n

    __hash__ = None

    def __repr__(self):
        return f"Thing({self.n})"


ITEMS = [0, None, ("a", 1)]


def case_linear(st, cls, first, depth):
    """ops 0..2: push item, 3: pop"""
    for seq in itertools.product(range(4), repeat=depth - 1):
        seq = (first,) + seq
        c, model = getattr(util, cls)(), []
        other = getattr(util, cls)()
        for op in seq:
            st.step()
            if op < 3:
                c.push(ITEMS[op])
                model.append(ITEMS[op])
            elif model:
                want = model.pop() if cls == "Stack" else model.pop(0)
                got = c.pop()
                if got != want or type(got) is not type(want):
                    raise Violation(f"{cls} after {seq}: popped {got!r}, expected {want!r}")
            else:
                require(not attempt(c.pop)[0], f"popping from an empty {cls} succeeds")
            if bool(c.isEmpty()) != (not model):
                raise Violation(f"{cls} after {seq}: isEmpty is {c.isEmpty()} with {len(model)} items")
        while model:
            want = model.pop() if cls == "Stack" else model.pop(0)
            equal(c.pop(), want, f"{cls} drained after {seq}")
        require(c.isEmpty() and other.isEmpty(), f"{cls} is empty at the end")
        st.trace()
        st.state((cls, seq))


class Model:
    """List of [priority, number, item]."""

    def __init__(self):
        self.items, self.n = [], 0

    def push(self, item, p):
        self.items.append([p, self.n, item])
        self.n += 1

    def pop(self):
        e = min(self.items, key=lambda x: (x[0], x[1]))
        self.items.remove(e)
        return e[2]

    def update(self, item, p):
        for e in self.items:
            if e[2] == item:
                if p < e[0]:
                    e[0] = p
                return
        self.push(item, p)

    def holds(self, item):
        return any(e[2] == item for e in self.items)


class Boxed:
    """Adapter: the function-driven queue gets its priority from the item."""

    def __init__(self, by_function):
        self.f = by_function
        self.prio = {}
        self.q = util.PriorityQueueWithFunction(lambda item: self.prio[item.n]) if by_function else util.PriorityQueue()

    def push(self, item, p):
        if self.f:
            self.prio[item.n] = p
            self.q.push(item)
        else:
            self.q.push(item, p)


PRIOS = [0, -1, 2.5]
ALPHABETS = [[1, 2, 3, 0], [1.25, 1.5, 1.75, 1.0], [2 ** 60 + 1, 2 ** 60 + 2, 2 ** 61, 2 ** 60], [1e-300, 2e-300, float("inf"), -float("inf")],
             [1 + 2 ** -50, 1 + 2 ** -49, 2, 1], [(1, 2), (1, 3), (2, 0), (0, 9)]]


def drain(q, model, where):
    while model.items:
        require(not q.q.isEmpty(), f"{where}: empty too early")
        want, got = model.pop(), q.q.pop()
        if not (got == want):
            raise Violation(f"{where}: drained {got!r}, expected {want!r}")
    require(q.q.isEmpty(), f"{where}: not empty when all is popped")
    require(not attempt(q.q.pop)[0], f"{where}: popping from an empty queue succeeds")


def case_push(st, first, by_function, depth):
    for seq in itertools.product(range(4), repeat=depth - 1):
        seq = (first,) + seq
        q, model = Boxed(by_function), Model()
        for k, op in enumerate(seq):
            st.step()
            if op < 3:
                t = Thing(k)
                q.push(t, PRIOS[op])
                model.push(t, PRIOS[op])
            elif model.items:
                want, got = model.pop(), q.q.pop()
                if not (got == want):
                    raise Violation(f"priority queue after {seq[:k + 1]} (priorities {PRIOS}): popped {got!r}, expected {want!r}")
            else:
                require(not attempt(q.q.pop)[0], "popping from an empty priority queue succeeds")
            if bool(q.q.isEmpty()) != (not model.items):
                raise Violation(f"priority queue after {seq[:k + 1]}: isEmpty is {q.q.isEmpty()}")
        drain(q, model, f"priority queue after {seq} (priorities {PRIOS})")
        st.trace()
        st.state((by_function, seq))


UP = [1, 2, 3, 0]
UPDATE_OPS = 4 * 4 + 1


def case_update(st, first, second, by_function, depth):
    """ops: update item i to priority p (16), or pop"""
    tails = itertools.product(range(UPDATE_OPS), repeat=depth - 2)
    for tail in tails:
        for s2 in range(second, UPDATE_OPS, 4):
            seq = (first, s2) + tail
            q, model = Boxed(by_function), Model()
            for k, op in enumerate(seq):
                if op == 16:
                    if not model.items:
                        break
                    want, got = model.pop(), q.q.pop()
                    if not (got == want):
                        raise Violation(f"updates {seq[:k + 1]}: popped {got!r}, expected {want!r}")
                else:
                    t, p = Thing(op // 4), UP[op % 4]
                    if not model.holds(t) and k % 2:
                        q.push(t, p)
                        model.push(t, p)
                    else:
                        q.q.update(t, p)
                        model.update(t, p)
                    if q.q.isEmpty():
                        raise Violation(f"updates {seq[:k + 1]}: empty after an update")
            st.step(len(seq))
            drain(q, model, f"after updates {[(o // 4, UP[o % 4]) if o < 16 else 'pop' for o in seq]}")
            st.trace()
    st.state((first, second, by_function))


def case_updated(st, alphabet, first):
    """Pushes, updates and pops (4 operations) with priorities of other kinds: parts of one, beyond floats, far apart, tuples."""
    prios = ALPHABETS[alphabet]
    for by_function in (0, 1):
        for tail in itertools.product(range(UPDATE_OPS), repeat=3):
            seq = (first,) + tail
            q, model = Boxed(by_function), Model()
            for k, op in enumerate(seq):
                where = f"priorities {prios}: updates {seq[:k + 1]}"
                if op == 16:
                    if not model.items:
                        break
                    want, got = model.pop(), q.q.pop()
                    require(got == want, lambda: f"{where}: popped {got!r}, expected {want!r}")
                else:
                    t, p = Thing(op // 4), prios[op % 4]
                    if not model.holds(t) and k % 2:
                        q.push(t, p)
                        model.push(t, p)
                    else:
                        q.q.update(t, p)
                        model.update(t, p)
            drain(q, model, f"priorities {prios}: after {seq}")
            st.step(len(seq))
            st.trace()
    st.state((alphabet, first))


KINDS = [lambda i, k: float(f"{i}.5"), lambda i, k: "".join(["name", str(i)]), lambda i, k: (i, ("x", i)), lambda i, k: [i, []],
         lambda i, k: float(i) if k % 2 else i, lambda i, k: {"n": i}, lambda i, k: [None, True, 0, ""][i], lambda i, k: {i}]


def case_kinds(st, kind, first):
    """Pushes, updates and pops (4 operations) of items of other kinds, equal ones made anew for every operation."""
    for tail in itertools.product(range(UPDATE_OPS), repeat=3):
        seq = (first,) + tail
        q, model = util.PriorityQueue(), Model()
        where = f"items like {KINDS[kind](1, 0)!r}: updates {seq}"
        for k, op in enumerate(seq):
            if op == 16:
                if not model.items:
                    break
                want, got = model.pop(), q.pop()
                require(got == want, lambda: f"{where}: popped {got!r}, expected {want!r}")
            else:
                t, p = KINDS[kind](op // 4, k), UP[op % 4]
                if not model.holds(t) and k % 2:
                    q.push(t, p)
                    model.push(t, p)
                else:
                    q.update(t, p)
                    model.update(t, p)
        while model.items:
            require(not q.isEmpty(), f"{where}: empty too early")
            want, got = model.pop(), q.pop()
            require(got == want, lambda: f"{where}: drained {got!r}, expected {want!r}")
        require(q.isEmpty(), f"{where}: not empty when all is popped")
        st.step(len(seq))
        st.trace()
    st.state((kind, first))


def case_permutations(st, first, n):
    for rest in itertools.permutations([p for p in range(n) if p != first]):
        perm = (first,) + rest
        for raised in (None, 0, n // 2, n - 1):
            q, model = Boxed(0), Model()
            for i, p in enumerate(perm):
                q.push(Thing(i), p)
                model.push(Thing(i), p)
            if raised is not None:
                for p in (n, -1, perm[raised] - 0.5, -2):
                    q.q.update(Thing(raised), p)
                    model.update(Thing(raised), p)
            drain(q, model, f"priorities {perm}, item {raised} updated")
            st.step(n)
        st.trace()
        st.state(perm)


def case_long(st, k):
    for by_function in (0, 1):
        for step in (1, 7, 11, 13):
            q, model = Boxed(by_function), Model()
            for i in range(40):
                p = (i * step + k) % (3 + k * 4)
                q.push(Thing(i), p)
                model.push(Thing(i), p)
                if i % 5 == k % 5:
                    equal(q.q.pop(), model.pop(), "long run")
                if i % 3 == 0:
                    t = Thing(i // 2)
                    q.prio[t.n] = -i
                    q.q.update(t, -i % 4)
                    model.update(t, -i % 4)
            drain(q, model, f"long run {k} {step}")
            st.step(40)
            st.trace()
            st.state((k, by_function, step))


def case_thousands(st, k):
    """Stack, queue and priority queue holding up to 3000 items, filled and emptied in turns."""
    import heapq
    n = 3000
    for cls in ("Stack", "Queue"):
        c, model = getattr(util, cls)(), []
        for i in range(n):
            c.push(i % 1000)
            model.append(i % 1000)
            if k and i % (2 * k) == 0:
                equal(c.pop(), model.pop() if cls == "Stack" else model.pop(0), f"{cls} after {i} pushes")
            st.step()
        while model:
            require(not c.isEmpty(), f"{cls} is empty too early")
            equal(c.pop(), model.pop() if cls == "Stack" else model.pop(0), f"{cls} with {len(model)} items left")
            st.step()
        require(c.isEmpty(), f"{cls} is not empty")
    q, heap, live = util.PriorityQueue(), [], {}
    for i in range(n):
        p = (i * (7 + k)) % 501
        q.push(i, p)
        heapq.heappush(heap, (p, i))
        live[i] = p
        if k and i % (k + 2) == 0:
            equal(q.pop(), take(heap, live), f"priority queue after {i} pushes")
        if k and i % 40 == k:
            j = max(live) - i % 17
            if j in live:
                q.update(j, p - 250)
                if p - 250 < live[j]:
                    live[j] = p - 250
                    heapq.heappush(heap, (p - 250, j))
        st.step()
    while live:
        require(not q.isEmpty(), "priority queue is empty too early")
        equal(q.pop(), take(heap, live), f"priority queue with {len(live)} items left")
        st.step()
    require(q.isEmpty(), "priority queue is not empty")
    st.state(k)
    st.trace()


def take(heap, live):
    import heapq
    while True:
        p, i = heapq.heappop(heap)
        if live.get(i) == p:
            del live[i]
            return i

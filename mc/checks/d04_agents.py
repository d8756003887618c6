"""Ghost distributions and keyboard agents in every reachable position."""
import itertools
import sys
import types
from fractions import Fraction

from .. import pac
from ..core import Violation, attempt, close, equal, require
from ..numbers import Numbers
from ..pac import BOARDS, VEC, Board

# keys come from a window: replaced by a module under the check's control, put in place before the agents are loaded
KEYS = {"waiting": [], "pressed": []}
_stub = types.ModuleType("graphicsUtils")
_stub.keys_waiting = lambda *a, **k: list(KEYS["waiting"])
_stub.keys_pressed = lambda *a, **k: list(KEYS["pressed"])
_stub.wait_for_keys = lambda *a, **k: list(KEYS["pressed"])
sys.modules["graphicsUtils"] = _stub

import ghostAgents        # noqa: E402
import keyboardAgents     # noqa: E402

ID = "D04"
ASSUMPTIONS = ["keys are those reported by the window since the last call, or else those of the last call that had any",
               "agents are asked for a move only in positions where one is legal",
               "which of several pressed legal directions is taken is left open"]
NAMES = ("corridor", "pocket", "loop", "two", "twin", "tall", "near", "room", "three", "cross", "plaza", "four", "fork")


def bounds(tier):
    n = 20000 if tier == "thorough" else 3000
    return (f"up to {n} reachable positions on each of 13 boards (up to 4 ghosts, crossings of 3 and 4 ways): distributions of random and directional ghosts for 6 attack and flee "
            "probabilities, on whole cells also with the time to be scared set to 8 values, choice for every random number on a grid separating all shares; the distributions also for every two cells of a board "
            f"of two rows of {60 if tier == 'thorough' else 36} cells with a rung every third cell, lying and standing, with 3 times to be scared; "
            "keyboard agents: every set of up to 3 keys in "
            "every position of 6 boards, all key histories of length 4 over 12 key sets")


def cases(tier):
    n = 20000 if tier == "thorough" else 3000
    out = [["ghosts", b, k, 8, n] for b in NAMES for k in range(8)]
    out += [["far", t, k, 8, 60 if tier == "thorough" else 36] for t in (0, 1) for k in range(8)]
    out += [["keys", b, k, 8, n] for b in ("room", "corridor", "loop", "two", "cross", "plaza") for k in range(8)]
    out += [["histories", b, k, 8, 5 if tier == "thorough" else 4] for b in ("room", "corridor") for k in range(8)]
    return out


def run_case(case, st):
    globals()["case_" + case[0]](st, *case[1:])


TIMES = (0, 1, 2, 3, 20, 39, 40, 100)
PROBS = [(0.8, 0.8), (1.0, 0.5), (0.0, 1.0), (0.5, 0.0), (1 / 3, 0.9), (0.99, 0.01)]


def directional(board, m, i, legal, attack, flee):
    """Exact distribution in fractions of the given probabilities."""
    x, y, d, scared = m[0][i]
    px, py = m[0][0][:2]
    step = 1 if scared else 2
    dist = {a: abs(x + VEC[a][0] * step - px) + abs(y + VEC[a][1] * step - py) for a in legal}
    best = (max if scared else min)(dist.values())
    p = Fraction(flee if scared else attack)
    near = [a for a in legal if dist[a] == best]
    return {a: (1 - p) / len(legal) + (p / len(near) if a in near else 0) for a in legal}


def check_dist(agent, r, want, where, st):
    got = dict(agent.getDistribution(r))
    for a, p in got.items():
        if p and a not in want:
            raise Violation(f"{where}: the illegal move {a} has probability {p}")
    for a, p in want.items():
        close(got.get(a, 0), p, f"{where}: probability of {a} in {got}")
    close(sum(got.values()), 1, f"{where}: sum of probabilities")
    st.step()


def check_choice(agent, r, want, where, st):
    """Each random number gives a legal move of positive probability; the share of numbers per move is its probability."""
    n = 48
    hits = dict.fromkeys(want, 0)
    for k in range(n):
        with Numbers((k + 0.5) / n):
            a = agent.getAction(r)
        if a not in hits:
            raise Violation(f"{where}: {a} is chosen, legal are {sorted(want)}")
        hits[a] += 1
    st.step(n)
    for a, p in want.items():
        if abs(hits[a] - float(p) * n) > 1.01:
            raise Violation(f"{where}: {a} is chosen by {hits[a]} of {n} evenly spread random numbers, its probability is {float(p):.4f}")


def case_ghosts(st, bname, part, parts, limit):
    board = Board(BOARDS[bname])
    n = len(board.start()[0])
    for k, (m, t, r) in enumerate(pac.reachable(board, limit=limit)):
        if k % parts != part or m[4]:
            continue
        for i in range(1, n):
            legal = board.legal(m, i)
            if not legal:
                continue
            where = f"{pac.text(m)}: ghost {i}"
            want = {a: Fraction(1, len(legal)) for a in legal}
            g = ghostAgents.RandomGhost(i)
            check_dist(g, r, want, f"{where} (random)", st)
            if k % 5 == 0:
                check_choice(g, r, want, f"{where} (random)", st)
            for pa, pf in PROBS:
                g = ghostAgents.DirectionalGhost(i, pa, pf)
                want = directional(board, m, i, legal, pa, pf)
                check_dist(g, r, want, f"{where} (attack {pa}, flee {pf})", st)
                if k % 25 == 0:
                    check_choice(g, r, want, f"{where} (attack {pa}, flee {pf})", st)
            check_dist(ghostAgents.DirectionalGhost(i), r, directional(board, m, i, legal, 0.8, 0.8), f"{where} (default)", st)
            if m[0][i][0] % 1 or m[0][i][1] % 1:
                continue
            # the same place with every other time left to be scared
            for left in TIMES:
                c = r.deepCopy()
                c.data.agentStates[i].scaredTimer = left
                a = list(m[0])
                a[i] = m[0][i][:3] + (left,)
                mm = (tuple(a),) + m[1:]
                for pa, pf in PROBS[:2]:
                    check_dist(ghostAgents.DirectionalGhost(i, pa, pf), c, directional(board, mm, i, legal, pa, pf),
                               f"{where}, scared for {left} (attack {pa}, flee {pf})", st)
        if pac.view(r) != m:
            raise Violation(f"an agent changed the state {pac.text(m)}")
        st.state((bname, pac.strip(m)))
        st.trace()


def ladder(length, turned):
    """Two long rows with a rung every third cell, as a list of texts; turned: two columns."""
    rows = ["%" * (length + 2), "%" + " " * length + "%", "%" + "".join(" " if k % 3 == 1 else "%" for k in range(length)) + "%", "%" + " " * length + "%", "%" * (length + 2)]
    return ["".join(c) for c in zip(*rows)] if turned else rows


def case_far(st, turned, part, parts, length):
    """Pacman and a ghost in every two cells of a long board."""
    rows = ladder(length, turned)
    cells = [(x, y) for y, line in enumerate(rows) for x, c in enumerate(line) if c == " "]
    for k, (px, py) in enumerate(cells):
        if k % parts != part:
            continue
        for gx, gy in cells:
            if abs(gx - px) + abs(gy - py) < 2:
                continue
            grid = [list(line) for line in rows]
            grid[py][px], grid[gy][gx] = "P", "G"
            board = Board(["".join(line) for line in grid])
            r, m = pac.start(board), board.start()
            for left in (0, 2, 40):
                r.data.agentStates[1].scaredTimer = left
                mm = ((m[0][0], m[0][1][:3] + (left,)),) + m[1:]
                legal = board.legal(mm, 1)
                where = f"{'column' if turned else 'row'} of {length}: Pacman at {m[0][0][0] // 2, m[0][0][1] // 2}, ghost at {m[0][1][0] // 2, m[0][1][1] // 2} scared for {left}"
                for pa, pf in PROBS[:2]:
                    check_dist(ghostAgents.DirectionalGhost(1, pa, pf), r, directional(board, mm, 1, legal, pa, pf), f"{where} (attack {pa}, flee {pf})", st)
                check_dist(ghostAgents.RandomGhost(1), r, {a: Fraction(1, len(legal)) for a in legal}, f"{where} (random)", st)
            st.state((turned, px, py, gx, gy))
            st.trace()


KEYMAP = {keyboardAgents.KeyboardAgent: {"a": "West", "d": "East", "w": "North", "s": "South", "q": "Stop",
                                         "Left": "West", "Right": "East", "Up": "North", "Down": "South"},
          keyboardAgents.KeyboardAgent2: {"j": "West", "l": "East", "i": "North", "k": "South", "u": "Stop"}}


def allowed(keymap, keys, last, legal):
    """Moves the agent may return."""
    dirs = {keymap[k] for k in keys if k in keymap}
    if "Stop" in dirs and "Stop" in legal:
        return {"Stop"}
    go = (dirs - {"Stop"}) & legal
    if go:
        return go
    if last in legal:
        return {last}
    return {"Stop"} if "Stop" in legal else set(legal)


def press(agent, r, waiting, pressed, x=0.0):
    KEYS["waiting"], KEYS["pressed"] = list(waiting), list(pressed)
    with Numbers(x):
        return agent.getAction(r)


def case_keys(st, bname, part, parts, limit):
    board = Board(BOARDS[bname])
    n = len(board.start()[0])
    for k, (m, t, r) in enumerate(pac.reachable(board, limit=limit)):
        if k % parts != part or m[4]:
            continue
        cls = (keyboardAgents.KeyboardAgent, keyboardAgents.KeyboardAgent2)[k // parts % 2]
        keymap = KEYMAP[cls]
        names = sorted(keymap) + ["x"]
        sets = [c for size in (0, 1, 2, 3) for c in itertools.combinations(names, size)]
        for i in range(n):
            legal = board.legal(m, i)
            if not legal:
                continue
            for j, keys in enumerate(sets if i == 0 else sets[::5]):
                agent = cls(i)
                cut = j % (len(keys) + 1)
                a = press(agent, r, keys[:cut], keys[cut:], (j % 7) / 7)
                want = allowed(keymap, keys, "Stop", legal)
                st.step()
                if a not in want:
                    raise Violation(f"{pac.text(m)}: agent {i} with keys {keys} returns {a}, expected one of {sorted(want)}")
                if j % 3 == 0:       # and once more without keys: the last ones and the last move count
                    b = press(agent, r, [], [], (j % 5) / 5)
                    want = allowed(keymap, keys, a, legal)
                    if b not in want:
                        raise Violation(f"{pac.text(m)}: agent {i} after keys {keys} and move {a} returns {b} without keys, expected one of {sorted(want)}")
        st.state((bname, pac.strip(m)))
        st.trace()


SETS = [(), ("a",), ("d",), ("w",), ("s",), ("q",), ("a", "w"), ("s", "d"), ("a", "q"), ("x",), ("Up", "a"), ("Left",)]


def case_histories(st, bname, part, parts, depth):
    """All key histories, Pacman moving as his agent says (ghosts stay where they are)."""
    board = Board(BOARDS[bname])
    keymap = KEYMAP[keyboardAgents.KeyboardAgent]
    for n, seq in enumerate(itertools.product(range(len(SETS)), repeat=depth)):
        if n % parts != part:
            continue
        m, r = board.start(), pac.start(board)
        agent = keyboardAgents.KeyboardAgent(0) if n % 2 else keyboardAgents.KeyboardAgent()
        keys, last = (), "Stop"
        for j, q in enumerate(seq):
            if m[4]:
                break
            if SETS[q]:
                keys = SETS[q]
            a = press(agent, r, *((SETS[q], ()) if (n + j) % 2 else ((), SETS[q])))
            legal = board.legal(m, 0)
            want = allowed(keymap, keys, last, legal)
            st.step()
            if a not in want:
                raise Violation(f"{pac.text(m)}: after keys {[SETS[x] for x in seq[:j + 1]]} the agent returns {a}, expected one of {sorted(want)}")
            last = a
            m, r = board.move(m, 0, a), r.generateSuccessor(0, a)
        st.state((bname, pac.strip(m), keys, last))
        st.trace()
    pac.quiet_explored()

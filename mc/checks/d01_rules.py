"""All reachable positions of small boards, every move of every agent compared with the rules."""
import itertools
import os

from .. import pac
from ..core import DEMO, Violation, attempt, equal, require
from ..pac import BIG, BOARDS, VEC, Board, game

ID = "D01"
ASSUMPTIONS = ["boards are closed by walls and the moves of all agents are made through generateSuccessor",
               "the score does not influence the rules: states are told apart without it, each step's score is compared"]
QUICK = {"corridor": 4, "pocket": 12, "loop": 12, "two": 40, "twin": 30, "stuck": 8, "tall": 10, "near": 4, "room": 20, "three": 24,
         "last": 2, "alone": 1, "cross": 12, "plaza": 12, "four": 12, "fork": 12}
LIMIT = {"quick": 12000, "thorough": 400000}


def bounds(tier):
    return (f"breadth first over all positions reachable with moves in turn on 16 boards (1 to 4 ghosts, crossings, dead ends, loops, capsules), up "
            f"to {LIMIT[tier]} positions per board; every legal and illegal move of every agent (also out of turn) in each; all boards of one "
            "and two inner cells rows with every placement of agents, food and capsule, to depth 7 "
            "(a reduced alphabet of contents); the shipped board breadth first to a quarter of that limit, boards with 14 ghosts, 14 capsules, 13 rows and 13 columns to a twelfth "
            "(14 ghosts: a sixtieth); full scare periods of 40 moves with every combination of waiting and moving back and forth; "
            "two capsules eaten 2 to 5 ghost moves apart after 0 to 21 moves, a ghost in a corridor along either axis, from either end, until "
            "the scare has ended and beyond; after every fifth of these positions every ghost is caught")


def cases(tier):
    out = [["board", b, k, QUICK[b], LIMIT[tier]] for b in BOARDS for k in range(QUICK[b])]
    out += [["tiny", k, 32, 9 if tier == "thorough" else 6] for k in range(32)]
    out += [["shipped", k, 16, LIMIT[tier] // 4] for k in range(16)]
    out += [["board", b, k, 8, LIMIT[tier] // (60 if b == "crowd" else 12)] for b in BIG for k in range(8)]
    out += [["rescare", k] for k in range(4)]
    out += [["scare", b, g] for b in ("near", "twin", "corridor", "room") for g in range(4)]
    return out


def run_case(case, st):
    globals()["case_" + case[0]](st, *case[1:])


def check_state(board, m, r, st, where=""):
    """Legal moves, refusal of the others and all successors."""
    got = pac.view(r)
    if got != m:
        raise Violation(f"{where}position is {pac.text(got)}, expected {pac.text(m)}")
    succ = []
    for i in range(len(m[0])):
        want = board.legal(m, i)
        legal = list(r.getLegalActions(i))
        if set(legal) != want or len(set(legal)) != len(legal):
            raise Violation(f"{where}{pac.text(m)}: legal moves of agent {i} are {legal}, expected {sorted(want)}")
        for a in list(VEC) + ["Up"]:
            st.step()
            ok, s2 = attempt(lambda: r.generateSuccessor(i, a))
            if ok != (a in want):
                raise Violation(f"{where}{pac.text(m)}: agent {i} moving {a} is {'accepted' if ok else f'refused: {s2!r}'}")
            if ok:
                m2 = board.move(m, i, a)
                v2 = pac.view(s2)
                if v2 != m2:
                    raise Violation(f"{where}{pac.text(m)}: agent {i} moving {a} gives {pac.text(v2)}, expected {pac.text(m2)}")
                succ.append((i, a, m2, s2))
    if m[4] is None:
        a = sorted(board.legal(m, 0))[-1]
        require(sorted(r.getLegalPacmanActions()) == sorted(board.legal(m, 0)), "legal Pacman moves")
        equal(pac.view(r.generatePacmanSuccessor(a)), board.move(m, 0, a), "Pacman's successor")
    equal(r.getPacmanPosition(), (m[0][0][0] / 2, m[0][0][1] / 2), "Pacman's position")
    equal([tuple(p) for p in r.getGhostPositions()], [(x / 2, y / 2) for x, y, _, _ in m[0][1:]], "ghost positions")
    equal(r.getNumFood(), len(m[1]), "number of food")
    equal(r.getNumAgents(), len(m[0]), "number of agents")
    return succ


def check_home(board, m, r, st):
    """A ghost caught now goes home, whatever happened to it before: each is put, scared, on Pacman's place in a copy."""
    if m[4] is not None:
        return
    for i in range(1, len(m[0])):
        st.step()
        s = r.deepCopy()
        ghost = s.data.agentStates[i]
        ghost.scaredTimer = 5
        ghost.configuration = game.Configuration(s.getPacmanPosition(), "East")
        s = s.generateSuccessor(0, "Stop")
        got = (tuple(s.getGhostPosition(i)), s.getGhostState(i).scaredTimer)
        if got != (board.home[i], 0):
            raise Violation(f"ghost {i} caught in {pac.text(m)} is at {got[0]}, scared for {got[1]}; its home is {board.home[i]}")


def case_board(st, name, part, parts, limit):
    board = Board({**BOARDS, **BIG}[name])
    for n, (m, t, r) in enumerate(pac.reachable(board, limit=limit)):
        if n % parts == part:
            check_state(board, m, r, st)
            if n % (parts * 5) == part:
                check_home(board, m, r, st)
            st.state((name, pac.strip(m), t))
            st.trace()
            if m[4] is None and len(m[1]) < len(board.food):
                for x, y in itertools.product(range(board.w), range(board.h)):
                    if (bool(r.hasFood(x, y)), bool(r.hasWall(x, y))) != ((x, y) in m[1], (x, y) in board.walls):
                        raise Violation(f"food or wall at {(x, y)} of {pac.text(m)}")
            st.sample(pac.text(m))
        if n % 2000 == 0:
            pac.quiet_explored()


def case_shipped(st, part, parts, limit):
    """The board that comes with the demo."""
    with open(os.path.join(DEMO, "layouts", "mediumClassic.lay")) as f:
        board = Board([line.strip() for line in f if line.strip()])
    for n, (m, t, r) in enumerate(pac.reachable(board, limit=limit)):
        if n % parts == part:
            check_state(board, m, r, st)
            st.state(("shipped", pac.strip(m), t))
            st.trace()


def tiny_boards():
    """Every board of 1x5 and 2x3 inner cells with one Pacman, one or two ghosts, some food and at most two capsules."""
    for rows, cols in ((1, 5), (2, 3)):
        n = rows * cols
        for cells in itertools.product(" .oPG%", repeat=n):
            if cells.count("P") != 1 or not 1 <= cells.count("G") <= 2 or not 1 <= cells.count(".") <= 2 or \
                    cells.count("o") > 1 or cells.count("%") > 1:
                continue
            lines = ["".join(cells[r * cols:(r + 1) * cols]) for r in range(rows)]
            yield ["%" * (cols + 2)] + [f"%{x}%" for x in lines] + ["%" * (cols + 2)]


def case_tiny(st, part, parts, depth):
    for n, text in enumerate(tiny_boards()):
        if n % parts != part:
            continue
        board = Board(text)
        d = depth if n % 7 == 0 else depth - 2
        level, seen = [(board.start(), pac.start(board))], set()
        for _ in range(d):
            nxt = []
            for m, r in level:
                for i, a, m2, s2 in check_state(board, m, r, st, f"board {text}: "):
                    if pac.strip(m2) not in seen and len(seen) < 60:
                        seen.add(pac.strip(m2))
                        nxt.append((m2, s2))
            level = nxt
        pac.quiet_explored()
        st.trace()
        for k in seen:
            st.state((n, k))
        st.sample(text)


def case_scare(st, name, plan):
    """Whole scare periods: Pacman takes the capsule, then waits or walks while the ghosts move (all their choices, distinct positions)."""
    board = Board(BOARDS[name])
    level = [(board.start(), 0, pac.start(board))]
    seen = set()
    n = len(level[0][0][0])
    for turn in range(140 * n):
        nxt = []
        for m, t, r in level:
            legal = sorted(board.legal(m, t))
            if m[4]:
                continue
            if t == 0:
                if plan == 0:
                    legal = legal[:1] + legal[-1:]
                elif any(g[3] for g in m[0][1:]):
                    legal = ["Stop"] if plan == 1 else [a for a in legal if a != "Stop"][:plan - 1] or ["Stop"]
            for a in legal or [None]:
                m2 = board.move(m, t, a) if a else m
                k = (pac.strip(m2), (t + 1) % n)
                if k in seen or len(seen) > 4000:
                    continue
                seen.add(k)
                r2 = r.generateSuccessor(t, a) if a else r
                st.step()
                got = pac.view(r2)
                if got != m2:
                    raise Violation(f"{pac.text(m)}: agent {t} moving {a} gives {pac.text(got)}, expected {pac.text(m2)}")
                nxt.append((m2, (t + 1) % n, r2))
                if len(seen) % 4 == 0:
                    check_home(board, m2, r2, st)
        if not nxt:
            break
        level = nxt
        pac.quiet_explored()
    for k in seen:
        st.state((name, plan, k))
    st.trace()


def case_rescare(st, k):
    """Two capsules, so that the scare ends while a ghost is half way between two cells, at every cell and in every direction."""
    rows = ["%%%%%%%%%%%%%", "%Po o . . . %", "%%%%%%%%%%%%%", "%G         %%" if k & 1 else "%         G%%", "%%%%%%%%%%%%%"]
    if k & 2:
        rows = ["".join(col) for col in zip(*rows)]
    board = Board(rows)
    there = "South" if k & 2 else "East"
    for delay in range(22):
        for wait in range(4):
            plan = ["Stop"] * delay + [there] + ["Stop"] * wait + [there, there] + ["Stop"] * 46
            m, r = board.start(), pac.start(board)
            for a in plan:
                for i in (0, 1):
                    move = a if i == 0 else sorted(board.legal(m, 1))[-1]
                    m2 = board.move(m, i, move)
                    r = r.generateSuccessor(i, move)
                    st.step()
                    got = pac.view(r)
                    if got != m2:
                        raise Violation(f"board {rows} after {plan}: {pac.text(m)}: agent {i} moving {move} gives {pac.text(got)}, expected "
                                        f"{pac.text(m2)}")
                    m = m2
                    if i:
                        require(set(r.getLegalActions(1)) == board.legal(m, 1), f"legal moves of the ghost in {pac.text(m)}")
                        st.state((k, pac.strip(m)))
                        if m[0][1][3] < 3:
                            check_home(board, m, r, st)
            st.trace()
        pac.quiet_explored()

"""
Reference model of the demo game and access to the real one.

Positions are counted in half cells so that everything is exact. A model state is
(agents, food, capsules, score, over) with agents a tuple of (x2, y2, direction, scared), food and
capsules frozensets of cells and over one of None, "win", "lose".
"""
import itertools

from . import core

core.setup_paths()

import game            # noqa: E402  (the demo's modules are top level modules)
import layout as layout_module  # noqa: E402
import pacman          # noqa: E402
import util            # noqa: E402

VEC = {"North": (0, 1), "South": (0, -1), "East": (1, 0), "West": (-1, 0), "Stop": (0, 0)}
REVERSE = {"North": "South", "South": "North", "East": "West", "West": "East", "Stop": "Stop"}

BOARDS = {
    # corridor: one ghost, capsule between
    "corridor": ["%%%%%%%%",
                 "%P o .G%",
                 "%%%%%%%%"],
    # ghost in a dead end, food on both sides
    "pocket": ["%%%%%%",
               "%.P .%",
               "%% %%%",
               "%G  o%",
               "%%%%%%"],
    # loop with one ghost and a capsule
    "loop": ["%%%%%",
             "%Po.%",
             "% % %",
             "%. G%",
             "%%%%%"],
    # two ghosts in a narrow hall
    "two": ["%%%%%%",
            "%GPo %",
            "%%. G%",
            "%%%%%%"],
    # two ghosts in one corridor with two capsules
    "twin": ["%%%%%%%%%%",
             "%o P.o1 2%",
             "%%%%%%%%%%"],
    # a ghost that cannot move and one in a one way pocket
    "stuck": ["%%%%%%%",
              "%G%P..%",
              "%%%%o%%",
              "%%%%G%%",
              "%%%%%%%"],
    # not square, taller than wide
    "tall": ["%%%%",
             "%.G%",
             "%o %",
             "%P %",
             "% .%",
             "%%%%"],
    # capsule next to the ghost: scared at once, eaten between cells
    "near": ["%%%%%%%",
             "%Po G.%",
             "%%%%%%%"],
    # open room
    "room": ["%%%%%",
             "%P .%",
             "% o %",
             "%. G%",
             "%%%%%"],
    # three ghosts
    "three": ["%%%%%%",
              "%3 .1%",
              "% Po %",
              "%2%%%%",
              "%%%%%%"],
    # only one food and the ghost on top of the way
    "last": ["%%%%%%",
             "%P.oG%",
             "%%%%%%"],
    # a ghost that starts, without a direction, where four ways meet
    "cross": ["%%%%%", "%% P%", "% G %", "%o .%", "%%%%%"],
    "plaza": ["%%%%%%%", "%  .  %", "% %P% %", "%o G o%", "% % % %", "%  .  %", "%%%%%%%"],
    # four ghosts
    "four": ["%%%%%%%", "%4.o.3%", "% %P% %", "%1   2%", "%%%%%%%"],
    # three ways meet
    "fork": ["%%%%%%%", "%.%%%.%", "%  G  %", "%%% %%%", "%o P o%", "%%%%%%%"],
    # no ghosts at all
    "alone": ["%%%%%",
              "%P.%%",
              "%o .%",
              "%%%%%"],
}

# more agents, capsules, rows or columns than ten
BIG = {
    "crowd": ["%%%%%%%%%%%%%%%%",
              "%Po.GG   Go . G%",
              "%%G%G%G%G%G%%%%%",
              "%%G%G% % % %GGG%",
              "%%%%%%%%%%%%%%%%"],
    "capsules": ["%%%%%%%%%%%%%%%%",
                 "%Poooooo oooooo%",
                 "% %%%%%%%%%%%%.%",
                 "%G  oo         %",
                 "%%%%%%%%%%%%%%%%"],
    "tower": ["%%%%"] + [f"%{c}{d}%" for c, d in zip("P.o.  . .. o.", "% %.% %.% %.G")] + ["%%%%"],
    "hall": ["%%%%%%%%%%%%%%%", "%P.o.  . .. o.%", "% % %.% %.%.% %", "%%%%%%%%%%%% G%", "%%%%%%%%%%%%%%%"],
}


class Board:
    def __init__(self, text):
        self.text = list(text)
        self.h, self.w = len(text), len(text[0])
        cells = {(x, self.h - 1 - r): c for r, line in enumerate(text) for x, c in enumerate(line)}
        self.cells = cells
        self.walls = frozenset(p for p, c in cells.items() if c == "%")
        self.food = frozenset(p for p, c in cells.items() if c == ".")
        self.capsules = frozenset(p for p, c in cells.items() if c == "o")
        agents = sorted((0 if c == "P" else 1 if c == "G" else int(c), p) for p, c in cells.items() if c in "PG1234")
        self.agents = agents
        self.home = [p for _, p in agents]

    def start(self, ghosts=1000):
        ags = [(2 * x, 2 * y, "Stop", 0) for i, (x, y) in self.agents[:1 + ghosts]]
        return tuple(ags), self.food, self.capsules, 0, None

    def legal(self, s, i):
        ags, food, caps, score, over = s
        if over:
            return set()
        x, y, d, scared = ags[i]
        if x % 2 or y % 2:
            moves = {d}
        else:
            moves = {a for a, (dx, dy) in VEC.items() if (x // 2 + dx, y // 2 + dy) not in self.walls}
        if i > 0:
            moves.discard("Stop")
            if len(moves) > 1:
                moves.discard(REVERSE[d])
        return moves

    def move(self, s, i, a):
        """The state after a legal move."""
        ags, food, caps, score, over = s
        ags = list(ags)
        x, y, d, scared = ags[i]
        dx, dy = VEC[a]
        step = 1 if i > 0 and scared > 0 else 2
        x, y = x + dx * step, y + dy * step
        d = d if a == "Stop" else a
        if i == 0:
            ags[0] = (x, y, d, scared)
            score -= 1
            p = (x // 2, y // 2)
            if p in food:
                food = food - {p}
                score += 10
                if not food:
                    score += 500
                    over = "win"
            if p in caps:
                caps = caps - {p}
                ags[1:] = [g[:3] + (40,) for g in ags[1:]]
            hit = range(1, len(ags))
        else:
            if scared == 1:                      # back on a whole cell: half way counts as the farther cell
                x, y = (x + 1) // 2 * 2, (y + 1) // 2 * 2
            ags[i] = (x, y, d, max(0, scared - 1))
            hit = [i]
        px, py = ags[0][:2]
        for g in hit:
            gx, gy, gd, gs = ags[g]
            if abs(gx - px) + abs(gy - py) <= 1:     # 0.7 cells: at most half a cell
                if gs > 0:
                    hx, hy = self.home[g]
                    ags[g] = (2 * hx, 2 * hy, "Stop", 0)
                    score += 200
                elif over != "win":
                    over = "lose"
                    score -= 500
        return tuple(ags), food, caps, score, over


def view(state):
    """Model state of a real one, through its accessors."""
    def agent(a):
        x, y = a.getPosition()
        x2, y2 = 2 * x, 2 * y
        return (int(x2) if x2 == int(x2) else x2, int(y2) if y2 == int(y2) else y2, a.getDirection(), a.scaredTimer)
    ags = tuple(agent(a) for a in [state.getPacmanState()] + list(state.getGhostStates()))
    food = state.getFood()
    caps = list(state.getCapsules())
    core.require(len(set(caps)) == len(caps), "a capsule is listed twice")
    over = "win" if state.isWin() else "lose" if state.isLose() else None
    core.require(not (state.isWin() and state.isLose()), "a state is both won and lost")
    sc = state.getScore()
    return (ags, frozenset((x, y) for x in range(food.width) for y in range(food.height) if food[x][y]), frozenset(caps),
            int(sc) if sc == int(sc) else sc, over)


def start(board, ghosts=1000):
    s = pacman.GameState()
    s.initialize(layout_module.Layout(list(board.text)), ghosts)
    return s


def quiet_explored():
    """GameState keeps every state it ever saw in a class attribute; forget them to bound memory."""
    reset = getattr(pacman.GameState, "getAndResetExplored", None)
    if reset:
        reset()


def text(s):
    ags, food, caps, score, over = s
    return f"agents {[(x / 2, y / 2, d, t) for x, y, d, t in ags]} food {sorted(food)} capsules {sorted(caps)} score {score} {over or ''}"


def reachable(board, ghosts=1000, limit=None, depth=None, real=True):
    """Breadth first: yields (model state, whose turn, real state) of every state reachable with moves in turn, once."""
    m0 = board.start(ghosts)
    n = len(m0[0])
    seen = {(strip(m0), 0)}
    level = [(m0, 0, start(board, ghosts) if real else None)]
    d = 0
    while level and (depth is None or d <= depth):
        nxt = []
        for m, t, r in level:
            yield m, t, r
            if limit and len(seen) >= limit:
                continue
            for a in sorted(board.legal(m, t)) or ([None] if m[4] is None else []):
                if a is None:                           # an agent without a legal move misses its turn
                    m2, r2 = m, r
                else:
                    m2 = board.move(m, t, a)
                    r2 = r.generateSuccessor(t, a) if real else None
                k = (strip(m2), (t + 1) % n)
                if k not in seen:
                    seen.add(k)
                    nxt.append((m2, (t + 1) % n, r2))
        level = nxt
        d += 1
        if real:
            quiet_explored()


def strip(m):
    """A state without its score: the rules do not depend on it."""
    return m[:3] + m[4:]

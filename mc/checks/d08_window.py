"""The game window: its picture after every history of moves is the picture of the position."""
import contextlib
import io
import itertools
import re
from collections import Counter

from .. import vclock
from .. import tk
tk.install()
from .. import pac                                    # noqa: E402
from ..core import Violation, close, equal, require   # noqa: E402
from ..pac import BOARDS, Board, game                 # noqa: E402

import graphicsDisplay                                # noqa: E402
import graphicsUtils                                  # noqa: E402

ID = "D08"
ASSUMPTIONS = ["the window system is a stand-in that keeps the items of each canvas; how it paints them is not examined",
               "an agent other than the one that moved is shown as it was after its own last move, as the window is told of one "
               "agent at a time", "a game starts from the start of its layout"]
ZOOMS = (1.0, 0.5, 2.0)
BIG = ["%%%%%%%%%%%%%", "%.%.  %o  %.%", "% %%%%  %%% %", "%   P   %G% %", "%%%%%% %%%  %", "%o.  % %  1.%", "% %% 2   %%%%", "%%%%%%%%%%%%%"]
CROWD = ["%%%%%%%%%", "%GG.GoGG%", "% %G %G %", "%.G.P..G%", "%GG  GGo%", "%%%%%%%%%"]


def boards():
    return dict(BOARDS, big=BIG, crowd=CROWD, **{b: pac.BIG[b] for b in ("capsules", "tower", "hall")})


def bounds(tier):
    d = "14 (at most 150000 per board)" if tier == "thorough" else "7 (at most 1500 per board)"
    return (f"all move histories of {d} moves on 21 boards (up to 13 ghosts, 14 capsules, 15 rows, 16 columns), the whole picture compared with that of the position "
            "after every move; two complete games per board and speed (7 frame times of up to 2.5 s, 3 zooms), one of up to 60 moves in which Pacman goes for capsules and food, every frame between two cells; "
            "each thing drawn on each cell, in each direction, scared or not; scores of up to 7 digits one after the other; stepping by keys with all patterns of 4 pauses; all "
            "sets of up to 2 shown cells followed by another; beliefs of 1 to 3, 6, 7 and 13 ghosts with 6 weights on every cell; all "
            "sequences of 4 rows of distances of 1, 2, 3 and 7 ghosts; two games one after the other")


def cases(tier):
    d, n = (14, 150000) if tier == "thorough" else (7, 1500)
    out = [["history", b, k, 8, d, n] for b in boards() for k in range(8)]
    out += [["pieces", b, z] for b in boards() for z in range(3)]
    out += [["whole", b, z, f, p] for b in boards() for z in range(3) for f in (0, 0.1, 0.04) for p in range(2)]
    out += [["whole", b, 0, f, p] for b in boards() for f in (0.008, 0.3, 0.7, 2.5) for p in range(2)]
    out += [["whole", b, z, 0, 2] for b in boards() for z in range(3)]
    out += [["stepping", k] for k in range(16)]
    out += [["cells", b, z] for b in ("corridor", "loop", "tall", "capsules", "tower", "hall") for z in range(3)]
    out += [["beliefs", b, z] for b in ("corridor", "loop", "tall", "three", "crowd", "tower", "hall") for z in range(3)]
    out += [["scores", b] for b in ("corridor", "room")]
    out += [["distances", n] for n in (1, 2, 3, 7)]
    out += [["again", b] for b in boards()]
    return out


def run_case(case, st):
    tk.reset()
    with vclock.running():
        globals()["case_" + case[0]](st, *case[1:])


# ---------------------------------------------------------------- pictures

def canvas():
    wins = tk.screen.open()
    equal(len(wins), 1, "number of open windows")
    cs = [c for c in wins[0].children_ if isinstance(c, tk.Canvas) and not c.destroyed]
    equal(len(cs), 1, "number of canvases")
    require(cs[0].packed, "the canvas is part of the window")
    return cs[0]


def near_grid(v, digits):
    """A rounded coordinate, such that the coordinates things usually have are not close to where the rounding changes."""
    return round(v + 0.3183 * 10 ** -digits, digits)


def item(c, i):
    kind, coords, o = c.items[i]
    style = {k: str(o.get(k, tk.DEFAULTS.get(k))) for k in ("fill", "outline", "text")}
    style["width"] = round(float(o.get("width", 1)), 2)
    if kind == "arc":
        style["start"], style["extent"] = round(float(o.get("start", 0)) % 360, 2), round(float(o.get("extent", 90)), 2)
        style["style"] = o.get("style", "pieslice")
    return kind, tuple(near_grid(v, 2) for v in coords), tuple(sorted(style.items()))


def shown(c):
    return [i for i in c.find_all() if c.items[i][2].get("state", "normal") == "normal"]


def picture(c=None):
    """Everything on the canvas but texts."""
    c = c or canvas()
    return Counter(item(c, i) for i in shown(c) if c.items[i][0] != "text")


def texts(c=None):
    c = c or canvas()
    return [c.items[i][2].get("text", "") for i in shown(c) if c.items[i][0] == "text"]


def check_score(score, where):
    found = [re.findall(r"-?\d+", t) for t in map(str, texts())]
    require([str(score)] in found, f"{where}: the score {score} is not shown, but {texts()}")


class Studio:
    """Pictures of single things on an otherwise empty board, from displays of their own."""

    def __init__(self, board, zoom):
        self.board, self.zoom, self.cache = board, zoom, {}
        self.walls = self.draw({}, [])

    def draw(self, things, agents):
        rows = [["%" if (x, self.board.h - 1 - r) in self.board.walls else " " for x in range(self.board.w)] for r in range(self.board.h)]
        for (x, y), c in things.items():
            rows[self.board.h - 1 - y][x] = c
        keep = tk.screen.windows
        tk.screen.windows = []
        graphicsUtils.end_graphics()
        s = pac.pacman.GameState()
        s.initialize(pac.layout_module.Layout(["".join(r) for r in rows]), 10)
        s.data.agentStates = agents
        g = graphicsDisplay.PacmanGraphics(self.zoom)
        g.initialize(s.data)
        p = picture()
        g.finish()
        require(not tk.screen.open(), "the window is closed at the end")
        tk.screen.windows = keep
        return p

    def get(self, key):
        if key not in self.cache:
            if key[0] == "agent":
                _, i, x2, y2, d, scared = key

                def agent(pos, is_pacman, timer=0):
                    a = game.AgentState(game.Configuration(pos, d) if pos else None, is_pacman)
                    a.scaredTimer = timer
                    return a
                others = [agent(None, k == 0) for k in range(i)]
                p = self.draw({}, others + [agent((x2 / 2, y2 / 2), i == 0, 7 if scared else 0)])
                p.subtract(self.draw({}, others))
            else:
                p = self.draw({key[1]: key[0]}, [])
                p.subtract(self.walls)
            p = Counter({k: n for k, n in p.items() if n})
            require(p and all(n > 0 for n in p.values()), f"{key} is drawn")
            self.cache[key] = p
        return self.cache[key]

    def whole(self, m, seen):
        """The picture of a position, agents as last seen."""
        out = Counter(self.walls)
        for p in m[1]:
            out.update(self.get((".", p)))
        for p in m[2]:
            out.update(self.get(("o", p)))
        for i, a in enumerate(seen):
            out.update(self.get(("agent", i, a[0], a[1], a[2], bool(a[3]))))
        return out


def prepare(board, zoom):
    """Draw everything that can be needed, before the display under test has its window."""
    s = Studio(board, zoom)
    free = [(x, y) for x in range(board.w) for y in range(board.h) if (x, y) not in board.walls]
    for p in free:
        s.get((".", p))
        s.get(("o", p))
    return s, free


def agents_ahead(s, m):
    for i, a in enumerate(m[0]):
        s.get(("agent", i, a[0], a[1], a[2], bool(a[3])))


def describe(diff):
    return [f"{k[0]} at {k[1][:4]} {dict(k[2]).get('fill')}" for k in list(diff)[:3]]


def check_picture(s, m, seen, where):
    got, want = picture(), s.whole(m, seen)
    if got != want:
        raise Violation(f"{where}: missing in the window {describe(want - got)}, unexpected {describe(got - want)}")
    check_score(m[3], where)


# ---------------------------------------------------------------- histories

def histories(board, depth, limit):
    """All move histories, as lists of (agent, move, model state), shortest bound that stays within the limit."""
    out = [([], board.start())]
    n = len(board.start()[0])
    for k in range(depth):
        nxt = []
        for h, m in out:
            if m[4]:
                nxt.append((h, m))
                continue
            for a in sorted(board.legal(m, k % n)):
                m2 = board.move(m, k % n, a)
                nxt.append((h + [(k % n, a, m2)], m2))
            if not board.legal(m, k % n):
                nxt.append((h, m))
        if len(nxt) > limit:
            break
        out = nxt
    return [h for h, _ in out]


def play(board, s, hist, zoom, frame, st, seen_before=None, where="", on_step=None):
    m, r = board.start(), pac.start(board)
    d = graphicsDisplay.PacmanGraphics(zoom, frame)
    d.initialize(r.data)
    seen = list(m[0])
    common = 0
    if seen_before is not None:
        while common < min(len(hist), len(seen_before)) and hist[common][:2] == seen_before[common][:2]:
            common += 1
    if not common:
        check_picture(s, m, seen, f"{where} at the start")
    for k, (i, a, m2) in enumerate(hist):
        r = r.generateSuccessor(i, a)
        before = seen[i]
        seen[i] = m2[0][i]
        t = vclock.clock.now
        if on_step:
            on_step(d, r, before, seen[i], i)
        else:
            d.update(r.data)
        if k >= common:
            check_picture(s, m2, seen, f"{where} after {[x[:2] for x in hist[:k + 1]]}")
            if on_step is None and i == 0:
                equal_time(vclock.clock.now - t, frame if frame > 0.01 else 0, f"{where}: time of a move of Pacman")
            elif on_step is None:
                equal_time(vclock.clock.now - t, 0, f"{where}: time of a move of a ghost")
        st.step()
        m = m2
    d.finish()
    require(not tk.screen.open(), f"{where}: the window is closed at the end")
    return m


def equal_time(got, want, what):
    if abs(got - want) > 0.005:
        raise Violation(f"{what}: {got}, expected {want}")


def start_agents(s, board, hists):
    for h in hists:
        for _, _, m in h:
            agents_ahead(s, m)
    agents_ahead(s, board.start())


def case_history(st, bname, part, parts, depth, limit):
    board = Board(boards()[bname])
    hists = histories(board, depth, limit)
    mine = hists[len(hists) * part // parts:len(hists) * (part + 1) // parts]
    s, _ = prepare(board, 1.0)
    start_agents(s, board, mine)
    last = None
    for h in mine:
        m = play(board, s, h, 1.0, 0, st, last, bname)
        last = h
        st.state((bname, tuple(x[:2] for x in h)))
        st.trace()


def plan(board, p, limit=60):
    """A long game: Pacman and ghosts take their moves in turn from the legal ones."""
    m, out, i, n = board.start(), [], 0, len(board.start()[0])
    while m[4] is None and len(out) < limit:
        legal = sorted(board.legal(m, i))
        k = len(out)
        ok = [a for a in legal if board.move(m, i, a)[4] is None]
        a = (ok or legal)[(k * k + p * k // n + p) % len(ok or legal)] if legal else None
        if p == 2 and i == 0 and ok:
            a = greedy(board, m, ok)
        if a:
            m = board.move(m, i, a)
            out.append((i, a, m))
        elif i == 0:
            break
        i = (i + 1) % n
    return out


def greedy(board, m, ok):
    """Pacman's next move to the nearest capsule, then food."""
    goals = m[2] or m[1]
    at = (m[0][0][0] // 2, m[0][0][1] // 2)
    paths, seen = [(at, None)], {at}
    for p, first in paths:
        if first and p in goals:
            return first if first in ok else ok[0]
        for a, (dx, dy) in pac.VEC.items():
            q = (p[0] + dx, p[1] + dy)
            if q not in seen and q not in board.walls:
                seen.add(q)
                paths.append((q, first or a))
    return ok[0]


def case_whole(st, bname, z, frame, p):
    board = Board(boards()[bname])
    s, _ = prepare(board, ZOOMS[z])
    h = plan(board, p)
    start_agents(s, board, [h])
    frames = []
    g = 30 * ZOOMS[z]

    def watch():
        frames.append(pacman_centre(canvas()))
    if frame > 0.01:
        def step(d, r, before, after, i):
            frames.clear()
            tk.screen.on_wait = watch
            t = vclock.clock.now
            d.update(r.data)
            tk.screen.on_wait = None
            equal_time(vclock.clock.now - t, frame if i == 0 else 0, "time of a move")
            if i == 0:
                a, b = (centre(board, x[0] / 2, x[1] / 2, g) for x in (before, after))
                prev = -0.01
                require(len(frames) >= 3, "Pacman glides in several frames")
                for c in frames:
                    q = max(abs(c[0] - a[0]), abs(c[1] - a[1])) / g
                    require(q >= prev - 0.05, "Pacman glides forward")
                    off = abs((c[0] - a[0]) * (b[1] - a[1]) - (c[1] - a[1]) * (b[0] - a[0])) / g
                    require(off <= 1.5 and q <= 1.05, f"Pacman at {c} is not on the way from {a} to {b}")
                    prev = q
        play(board, s, h, ZOOMS[z], frame, st, None, bname, step)
    else:
        play(board, s, h, ZOOMS[z], frame, st, None, bname)
    st.state((bname, z, frame, p))
    st.trace()


def centre(board, x, y, g):
    return (x + 1) * g, (board.h - y) * g


def box(items):
    xs = [v for k in items for v in k[1][::2]]
    ys = [v for k in items for v in k[1][1::2]]
    return min(xs), min(ys), max(xs), max(ys)


def pacman_centre(c):
    """Pacman is the round thing with a mouth, as large as a cell."""
    found = [k for k in map(lambda i: item(c, i), shown(c)) if k[0] == "arc" and dict(k[2])["fill"] == graphicsDisplay.PACMAN_COLOR and dict(k[2])["extent"] < 358]
    equal(len(found), 1, "Pacmen in the window")
    x0, y0, x1, y1 = found[0][1]
    return (x0 + x1) / 2, (y0 + y1) / 2


# ---------------------------------------------------------------- single things

ANGLE = {"East": 0, "North": 90, "West": 180, "South": 270}


def opt(k, name):
    return dict(k[2])[name]


def near(b, c, tol, what):
    mid = (b[0] + b[2]) / 2, (b[1] + b[3]) / 2
    if max(abs(mid[0] - c[0]), abs(mid[1] - c[1])) > tol:
        raise Violation(f"{what} is drawn around {mid}, its cell around {c}")


def case_pieces(st, bname, z):
    board = Board(boards()[bname])
    zoom = ZOOMS[z]
    g = 30 * zoom
    s, free = prepare(board, zoom)
    size = {}
    for what, p in itertools.product(".o", free):
        piece = s.get((what, p))
        b = box(piece)
        near(b, centre(board, *p, g), 1.01, f"{what} on {p}")
        w = b[2] - b[0]
        require(0 < w < g, f"size of {what}")
        require(abs(size.setdefault(what, w) - w) < 0.1, f"{what} has the same size everywhere")
        require(all(opt(k, "fill") not in ("", "#000000") for k in piece), f"{what} is visible")
        st.step()
    require(size["."] < size["o"], "food is smaller than a capsule")
    colours = {}
    half = sorted({(2 * x + dx, 2 * y + dy) for x, y in free for dx, dy in ((0, 0), (1, 0), (-1, 0), (0, 1), (0, -1))
                   if (dx, dy) == (0, 0) or (x + dx, y + dy) in free})
    look = {}
    for d in list(ANGLE) + ["Stop"]:
        for i in range(14):
            for scared in (0, 1)[:1 + (i > 0)]:
                for x2, y2 in half if i < 2 else half[:2]:
                    if i == 0 and (x2 % 2 or y2 % 2):
                        continue
                    key = ("agent", i, x2, y2, d, bool(scared))
                    piece = s.get(key)
                    c = centre(board, x2 / 2, y2 / 2, g)
                    shape = frozenset((k[0], tuple(near_grid(v - c[n % 2], 1) for n, v in enumerate(k[1])), k[2]) for k in piece)
                    lk = look.setdefault((i, d, scared), shape)
                    equal(shape, lk, f"{key} looks the same everywhere")
                    st.step()
                    if i == 0:
                        near(box(piece), c, 1.01, "Pacman")
                        k = next(iter(piece))
                        require(k[0] == "arc" and len(piece) == 1, "Pacman is a round figure with a mouth")
                        gap = (opt(k, "start") + opt(k, "extent") / 2 + 180) % 360
                        want = ANGLE.get(d, 0)
                        require(abs((gap - want + 180) % 360 - 180) < 1 and opt(k, "extent") < 350, f"Pacman's mouth is at {gap} degrees, he goes {d}")
                    else:
                        body = max(piece, key=lambda k: (box([k])[2] - box([k])[0]) * (box([k])[3] - box([k])[1]))
                        near(box([body]), c, 0.05 * g, "ghost")
                        require(g * 0.5 < box([body])[2] - box([body])[0] <= g * 1.05, "size of a ghost")
                        equal(opt(body, "fill"), opt(body, "outline"), "outline of a ghost")
                        equal(colours.setdefault((i, scared), opt(body, "fill")), opt(body, "fill"), "colour of a ghost")
                        rest = [k for k in piece if k != body]
                        pupils = [k for k in rest if opt(k, "fill") == "#000000"]
                        eyes = [k for k in rest if opt(k, "fill") == "#ffffff"]
                        equal((len(pupils), len(eyes)), (2, 2), "eyes of a ghost")
                        eb, pb = box(eyes), box(pupils)
                        dx = (pb[0] + pb[2]) / 2 - c[0]
                        vx, vy = pac.VEC[d]
                        require(abs(dx - vx * g * 0.13) < 0.8, f"ghost going {d} looks {dx} to the right")
                        look[i, d, scared, "y"] = (pb[1] + pb[3]) / 2 - c[1]
        if z == 0:
            st.state((bname, d))
    for i, scared in colours:
        up, mid, down = (look[i, d, scared, "y"] for d in ("North", "Stop", "South"))
        require(up < mid < down, "ghosts look up and down")
    equal(len({colours[i, 1] for i in range(1, 14)}), 1, "scared ghosts look alike")
    normal = [colours[i, 0] for i in range(1, 14)]
    equal(len(set(normal[:5])), 5, "ghosts have colours of their own")
    require(colours[1, 1] not in normal, "scared ghosts have another colour")
    for i in range(14):
        ds = list(ANGLE) if i else ["North", "South", "West"]
        equal(len({look[i, d, 0] for d in ds}), len(ds), "directions look different")
    walls(s, board, g)
    st.trace()
    st.state((bname, z))


def walls(s, board, g):
    """Wall figures lie on wall cells, and every side of a wall towards a free cell (or the outside) has one."""
    lines = [k for k in s.walls if not (k[0] == "polygon" and box([k])[2] - box([k])[0] > (board.w - 1) * g)]
    equal(len(s.walls) - len(lines), 1, "backgrounds")
    area = {p: [] for p in board.walls}
    for k in lines:
        x0, y0, x1, y1 = box([k])
        inside = [p for p in board.walls if abs((x0 + x1) / 2 - centre(board, *p, g)[0]) <= g / 2 + 1 and abs((y0 + y1) / 2 - centre(board, *p, g)[1]) <= g / 2 + 1]
        require(inside and x1 - x0 <= g / 2 + 3 and y1 - y0 <= g / 2 + 3, f"wall figure {k[:2]} is not on a wall")
        require(opt(k, "fill") not in ("", "#000000"), "walls are visible")
        for p in inside:
            c = centre(board, *p, g)
            area[p].append((x0 - c[0], y0 - c[1], x1 - c[0], y1 - c[1], k))
    cells = {(x, y) for x in range(board.w) for y in range(board.h)}
    for p in board.walls:
        x, y = p
        for dx, dy in itertools.product((-1, 1), repeat=2):
            around = [(x + dx, y), (x, y + dy), (x + dx, y + dy)]
            solid = [q in board.walls for q in around]
            figures = [f for f in area[p] if quadrant(f, dx, dy, g)]
            require(bool(figures) == (not all(solid)), f"corner {(dx, dy)} of the wall {p} of {board.text} has {len(figures)} figures")


def quadrant(f, dx, dy, g):
    """Does an edge of the figure run in this quadrant of its cell?"""
    x0, y0, x1, y1, k = f
    if k[0] == "arc":
        a = (opt(k, "start") + opt(k, "extent") / 2) % 360
        mx, my = (x0 + x1) / 2, (y0 + y1) / 2
        ex, ey = (1 if a < 90 or a > 270 else -1), (-1 if 0 < a < 180 else 1)     # screen: y grows downwards
        if abs(mx) < 2 and abs(my) < 2:
            return (ex, ey) == (dx, -dy)
        return (mx > 0, my > 0) == (dx > 0, dy < 0)
    mx, my = (x0 + x1) / 2, (y0 + y1) / 2
    return (mx > 0) == (dx > 0) and (my > 0) == (dy < 0) and max(abs(mx), abs(my)) <= g / 2 + 1


# ---------------------------------------------------------------- stepping by keys

def case_stepping(st, pattern):
    """With a negative frame time each move of Pacman waits for a key; q goes on without waiting."""
    board = Board(BOARDS["room"])
    s, _ = prepare(board, 1.0)
    hist = [h for h in histories(board, 8, 4000) if len(h) == 8][pattern * 7 % 50]
    start_agents(s, board, [hist])
    for q_at, key in itertools.product((None, 0, 1, 2), ("space", "a")):
        tk.reset()
        steps = [0]
        freed = [False]
        end = vclock.clock.now + 600

        def too_long():
            require(vclock.clock.now < end, f"the game still waits for a key, q was pressed at move {q_at} of Pacman")
        tk.screen.on_wait = too_long

        def step(d, r, before, after, i):
            t = vclock.clock.now
            if i:
                d.update(r.data)
                equal_time(vclock.clock.now - t, 0, "time of a ghost's move")
                return
            k = steps[0]
            steps[0] += 1
            delay = 3 + (pattern >> k & 1)
            if not freed[0]:
                for ks in (["q"] if k == q_at else []) + [key] * (k != q_at or key == "a"):      # q alone or with another key
                    tk.screen.post_at(delay + 0.02, "<KeyPress>", keysym=ks, char=ks[:1])
                    tk.screen.post_at(delay + 0.22, "<KeyRelease>", keysym=ks, char=ks[:1])
            d.update(r.data)
            spent = vclock.clock.now - t
            if freed[0]:
                require(spent < 0.25, f"after q the game still waits {spent}")
            else:
                require(delay <= spent <= delay + 1.5, f"a step took {spent}, the key was pressed after {delay}")
            freed[0] |= k == q_at
            while tk.screen.timed or tk.screen.queue:       # the key is let go before the next move
                graphicsUtils.sleep(0.5)
        with contextlib.redirect_stdout(io.StringIO()):
            play(board, s, hist, 1.0, -1, st, None, "stepping", step)
        st.state((pattern, q_at, key))
    tk.reset()
    d = graphicsDisplay.PacmanGraphics(1.0, -1)
    r = pac.start(board)
    d.initialize(r.data)
    end = vclock.clock.now + 60

    def give_up():
        if vclock.clock.now > end:
            raise tk.Blocked()
    tk.screen.on_wait = give_up
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            d.update(r.generateSuccessor(hist[0][0], hist[0][1]).data)
        raise Violation("a step is made without a key")
    except tk.Blocked:
        pass
    st.trace()


SCORES = [0, 1, -1, 8, -8] + [x * k for k in (10, 99, 100, 999, 1000, 9999, 12345, 100000, 999999, 1234567) for x in (1, -1)]


def case_scores(st, bname):
    """Scores of any length, one after the other."""
    board = Board(boards()[bname])
    for a, b in itertools.product(SCORES, repeat=2):
        r = pac.start(board)
        d = graphicsDisplay.PacmanGraphics()
        d.initialize(r.data)
        for x in (a, b):
            r = r.deepCopy()
            r.data.score = x
            r = r.generateSuccessor(0, sorted(r.getLegalActions(0))[0])
            d.update(r.data)
            check_score(r.data.score, f"{bname}, scores of {a} and {b}")
            st.step()
            if r.isWin() or r.isLose():
                break
        st.state((a, b))
        d.finish()
    st.trace()


def case_distances(st, n):
    """Distances of the ghosts handed to the window: shown in their order beside the score, whatever was shown before."""
    board = Board(BIG)
    rows = [[], [str(i) for i in range(n)], [str(2 * i + 5) for i in range(n)], ["?"] * n]
    for seq in itertools.product(rows, repeat=4):
        r = pac.start(board)
        d = graphicsDisplay.PacmanGraphics()
        d.initialize(r.data)
        want = []
        for row in seq:
            r = r.generateSuccessor(0, sorted(r.getLegalActions(0))[0])
            r.data.ghostDistances = list(row)
            d.update(r.data)
            want = row or want
            c = canvas()
            beside = [(c.items[i][1][0], str(c.items[i][2].get("text", ""))) for i in shown(c) if c.items[i][0] == "text"]
            score = [t for _, t in beside if re.findall(r"-?\d+", t) == [str(r.data.score)] and t.strip() != str(r.data.score)]
            equal(len(score), 1, f"texts with the score {r.data.score} among {beside}")
            equal([t.strip() for _, t in sorted(beside) if t != score[0]], want, f"distances shown after {seq}")
            require(list(r.data.ghostDistances) == row, "distances handed over changed")
            st.step()
        st.state((n, tuple(map(tuple, seq))))
        d.finish()
    st.trace()


# ---------------------------------------------------------------- overlays

def overlay(base, c, g):
    """Items on the canvas that are not part of the base picture, in order, and whether they are right above the background."""
    rest, out, order = Counter(base), [], []
    for i in shown(c):
        if c.items[i][0] == "text":
            continue
        k = item(c, i)
        if rest[k] > 0:
            rest[k] -= 1
            order.append("b")
        else:
            out.append(k)
            order.append("o")
    require(not +rest, "the picture below shown cells is complete")
    return out, "".join(order)


def cell_of(board, k, g):
    x0, y0, x1, y1 = box([k])
    require(abs(x1 - x0 - g) < 1 and abs(y1 - y0 - g) < 1, f"a shown cell fills its cell: {k[1]}")
    x, y = (x0 + x1) / 2 / g - 1, board.h - (y0 + y1) / 2 / g
    require(abs(x - round(x)) < 0.05 and abs(y - round(y)) < 0.05, "a shown cell is on a cell")
    return round(x), round(y)


def check_cells(board, base, cells, g, where, under=1):
    got, order = overlay(base, canvas(), g)
    equal(sorted(cell_of(board, k, g) for k in got), sorted(cells), f"{where}: cells shown")
    require(re.fullmatch("b" * under + "o*b*", order), f"{where}: shown cells hide other things")
    at = {cell_of(board, k, g): int(opt(k, "fill")[1:3], 16) for k in got}
    shades = [at[c] for c in cells]
    equal(shades, sorted(shades, reverse=True), f"{where}: cells fade in their order")
    require(all(opt(k, "fill")[3:] in ("0000", "3f3f", "4040") for k in got), f"{where}: cells are shown in red")


def case_cells(st, bname, z):
    board = Board(boards()[bname])
    zoom = ZOOMS[z]
    g = 30 * zoom
    s, free = prepare(board, zoom)
    h = plan(board, 0, 6)
    start_agents(s, board, [h])
    seqs = [()] + [c for n in (1, 2) for c in itertools.permutations(free[:5], n)] + [tuple(free), tuple(reversed(free))]
    for n, (a, b) in enumerate(itertools.product(seqs, repeat=2)):
        r = pac.start(board)
        d = graphicsDisplay.PacmanGraphics(zoom)
        d.initialize(r.data)
        m, seen = board.start(), list(board.start()[0])
        base = s.whole(m, seen)
        d.drawExpandedCells(list(a))
        check_cells(board, base, a, g, f"cells {a}")
        i, act, m = h[n % 2]
        if n % 2 == 0:
            seen[i] = m[0][i]
            d.update(r.generateSuccessor(i, act).data)
            base = s.whole(m, seen)
            check_cells(board, base, a, g, f"cells {a} after a move")
        d.drawExpandedCells(list(b))
        check_cells(board, base, b, g, f"cells {b} after {a}")
        d.clearExpandedCells()
        check_cells(board, base, (), g, "no cells")
        d.finish()
        st.step(3)
        st.state((bname, z, a, b))
        st.trace()


def rgb(k):
    c = opt(k, "fill")
    return tuple(int(c[j:j + 2], 16) for j in (1, 3, 5))


WEIGHTS = (0, 0.01, 0.1, 0.3, 0.7, 1.0)


def case_beliefs(st, bname, z):
    """Every cell is lit by the weights the beliefs give it, whatever the other cells have."""
    board = Board(boards()[bname])
    zoom = ZOOMS[z]
    g = 30 * zoom
    s, free = prepare(board, zoom)
    agents_ahead(s, board.start())
    every = [(x, y) for x in range(board.w) for y in range(board.h)]
    base = s.whole(board.start(), board.start()[0])
    ghosts = [opt(max(s.get(("agent", i, 2, 2, "Stop", False)), key=lambda k: box([k])[2] - box([k])[0]), "fill") for i in range(1, 14)]
    hue = [tuple(int(c[j:j + 2], 16) / 255 for j in (1, 3, 5)) for c in ghosts]
    d = graphicsDisplay.PacmanGraphics(zoom)
    d.initialize(pac.start(board).data)

    def show(n, shift, ws):
        dists = []
        for i in range(n):
            c = pac.util.Counter()
            for k, p in enumerate(every):
                w = ws[(k * (i + 1) + shift + i) % len(ws)]
                if w:
                    c[p] = w
            dists.append(c)
        keep = [dict(c) for c in dists]
        d.updateDistributions(dists)
        equal([{k: v for k, v in dict(c).items() if v} for c in dists], keep, "beliefs after drawing")
        got, order = overlay(base, canvas(), g)
        equal(sorted(cell_of(board, k, g) for k in got), sorted(every), "cells with beliefs")
        require(re.fullmatch(r"bo*b*", order), "beliefs hide other things")
        at = {cell_of(board, k, g): rgb(k) for k in got}
        for p in every:
            weights = [c.get(p, 0) for c in keep]
            want = [0.0] * 3
            for w, h in zip(weights, hue):
                if w:
                    want = [min(1.0, c + 0.95 * v * w ** .3) for c, v in zip(want, h)]
            if any(abs(a - b * 255) > 6 for a, b in zip(at[p], want)):
                raise Violation(f"cell {p} with beliefs {weights} is shown in {at[p]}, expected about {[round(b * 255) for b in want]}")
            if not any(weights):
                equal(at[p], (0, 0, 0), f"cell {p} nobody is believed in")
            st.step()
        st.state((bname, z, n, shift, ws))

    for n in (1, 2, 3, 6, 7, 13):
        for shift in range(len(WEIGHTS)):
            show(n, shift, WEIGHTS)
            show(n, shift, (0,))
            show(n, shift, (0,) * (len(every) - 1) + (1.0,))
    d.finish()
    st.trace()


def case_again(st, bname):
    """The same display used for two games, the window left open or closed in between; and two displays one after the other."""
    board = Board(boards()[bname])
    s, _ = prepare(board, 1.0)
    h = plan(board, 1, 12)
    start_agents(s, board, [h])
    for fresh, close_it, n in itertools.product((0, 1), (0, 1), (0, 3, len(h))):
        marks = [(x, y) for x in range(board.w) for y in range(board.h)][:3 * close_it + n]
        d = graphicsDisplay.PacmanGraphics(1.0)
        for rnd in range(3):
            if rnd and fresh:
                d = graphicsDisplay.PacmanGraphics(1.0)
            m, r = board.start(), pac.start(board)
            d.initialize(r.data)
            seen = list(m[0])
            check_picture(s, m, seen, f"start of game {rnd + 1}")
            for i, a, m in h[:n]:
                r = r.generateSuccessor(i, a)
                seen[i] = m[0][i]
                d.update(r.data)
                check_picture(s, m, seen, f"game {rnd + 1}")
                st.step()
            d.drawExpandedCells(marks)
            check_cells(board, s.whole(m, seen), marks, 30.0, f"game {rnd + 1}")
            if close_it:
                d.finish()
                require(not tk.screen.open(), "the window is closed at the end")
        d.finish()
        require(not tk.screen.open(), "the window is closed at the end")
        st.state((bname, fresh, close_it, n))
    # games on different layouts in one display, with cells and beliefs shown in between
    other = Board(BIG if bname != "big" else BOARDS["loop"])
    s2, _ = prepare(other, 1.0)
    h2 = plan(other, 1, 6)
    start_agents(s2, other, [h2])
    for close_it, n, beliefs, k in itertools.product((0, 1), (0, 2), (0, 1), (1, 5)):
        d = graphicsDisplay.PacmanGraphics(1.0)
        for brd, studio, hist in ((board, s, h), (other, s2, h2), (board, s, h)):
            m, r = brd.start(), pac.start(brd)
            every = [(x, y) for x in range(brd.w) for y in range(brd.h)]
            marks = every[:k]
            d.initialize(r.data)
            check_picture(studio, m, m[0], "start of a game on another layout")
            seen = list(m[0])
            base = studio.whole(m, seen)
            if beliefs:
                d.updateDistributions([pac.util.Counter()])
                base = picture()
            d.drawExpandedCells(marks)
            check_cells(brd, base, marks, 30.0, "game on another layout", 1 + beliefs * len(every))
            d.clearExpandedCells()
            for i, a, m in hist[:n]:
                r = r.generateSuccessor(i, a)
                seen[i] = m[0][i]
                d.update(r.data)
                if not beliefs:
                    check_picture(studio, m, seen, "game on another layout")
                st.step()
            d.drawExpandedCells(marks)
            if close_it:
                d.finish()
        d.finish()
        st.state((bname, close_it, n, beliefs, k))
    st.trace()

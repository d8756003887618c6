"""Commands yield the games they describe: all combinations of options, and all patterns of won and lost games."""
import contextlib
import io
import itertools
import os
import pickle
import re
import sys
import tempfile
import types

from .. import vclock
from .. import tk
tk.install()
from .. import pac                                    # noqa: E402
from ..core import Violation, attempt, close, equal, require     # noqa: E402
from ..pac import BOARDS, Board, pacman                # noqa: E402

import ghostAgents                                    # noqa: E402
import graphicsDisplay                                # noqa: E402
import keyboardAgents                                 # noqa: E402

ID = "D10"
ASSUMPTIONS = ["the module textDisplay (options -t, -q, training games) is not part of the repository: a stand-in takes its place",
               "agents are looked up in *Agents.py (the name ends in gents.py) of the working directory and of $PYTHONPATH; a name is defined in one of them only",
               "a text after -a holds no name twice and no value with '=' or ','"]


def bounds(tier):
    n = 4 if tier == "thorough" else 3
    return ("all combinations of 13 options with 2 to 5 settings each (41472 commands), abbreviated and written out; arguments for agents of up to 3 names; "
            "what is not understood; sessions of up to "
            f"{n} games, with every pattern of wins and losses, every number of training games, recorded or not, on 3 boards, with every frame time and zoom of 3; "
            "sessions of as many with games stopped by an error at once or after a move; 13 games in 11 patterns with 7 numbers of training games; 5 to 16 ghosts; 4 to 14 names after -a; agents out of 23 modules in 12 directories; the demo program with each of all boards in place of its own; "
            "the same command with a fixed seed twice, for every combination of agents, layout and number of games of up to 3")


def cases(tier):
    n = 4 if tier == "thorough" else 3
    out = [["options", k, 48] for k in range(48)] + [["arguments"], ["refused"]]
    out += [["session", b, k] for b in PLANS for k in range(1, n + 1)]
    out += [["shown", b] for b in PLANS] + [["seed", b] for b in PLANS] + [["demo"]]
    out += [["stopped", b, k] for b in PLANS for k in range(1, n + 1)]
    out += [["many", b] for b in PLANS] + [["everybody"], ["modules"]]
    return out


AGENTS = """
import random
from game import Agent
class PlanAgent(Agent):
    made = []
    def __init__(self, index=0, **kw):
        self.index, self.kw, self.plans, self.game = index, kw, [], -1
        PlanAgent.made.append(self)
    def registerInitialState(self, state):
        self.game += 1
        self.left = list(self.plans[self.game % len(self.plans)]) if self.plans else []
    def getAction(self, state):
        return self.left.pop(0)
class ChancePacman(Agent):
    n = 0
    def getAction(self, state):
        self.n += 1
        if self.n > 60 and self.n % 2:
            moves = state.getLegalActions(0)
            return moves[0]
        return random.choice(state.getLegalActions(0))
class FirstGhost(Agent):
    def getAction(self, state):
        return sorted(state.getLegalActions(self.index))[0]
"""
PLANS = ("last", "room", "pocket")
HOME = None


def prepare():
    """A working directory of this process with layouts and agents."""
    global HOME
    if HOME:
        os.chdir(HOME)
        return
    HOME = tempfile.mkdtemp(dir=os.getcwd())
    os.makedirs(HOME + "/layouts")
    for b in BOARDS:
        with open(f"{HOME}/layouts/{b}.lay", "w") as f:
            f.write("\n".join(BOARDS[b]) + "\n")
    with open(HOME + "/planAgents.py", "w") as f:
        f.write(AGENTS)
    os.environ["PYTHONPATH"] = os.path.dirname(os.path.abspath(pacman.__file__))
    sys.path.insert(0, HOME)
    os.chdir(HOME)


class Quiet:
    """textDisplay's displays."""
    log = []

    def __init__(self, *a, **k):
        Quiet.log.append(("made",))

    def initialize(self, state, isBlue=False):
        Quiet.log.append(("initialize",))

    def update(self, state):
        Quiet.log.append(("update",))

    def checkNullDisplay(self):
        return True

    def pause(self):
        pass

    def draw(self, state):
        pass

    def finish(self):
        Quiet.log.append(("finish",))


def run_case(case, st):
    import random
    prepare()
    tk.reset()
    text = sys.modules["textDisplay"] = types.ModuleType("textDisplay")
    text.NullGraphics, text.PacmanGraphics, text.SLEEP_TIME = type("NullGraphics", (Quiet,), {}), type("PacmanGraphics", (Quiet,), {}), 0
    state = random.getstate()
    try:
        with vclock.running():
            globals()["case_" + case[0]](st, *case[1:])
    finally:
        random.setstate(state)


def command(*argv):
    err, out = io.StringIO(), io.StringIO()
    with contextlib.redirect_stderr(err), contextlib.redirect_stdout(out):
        try:
            return pacman.readCommand(list(argv))
        except SystemExit as e:
            raise ValueError(f"refused: {err.getvalue()[-200:]}") from e


# ---------------------------------------------------------------- options

OPTIONS = [  # destination, option short, long, settings (None: not given)
    ("numGames", "-n", "--numGames", (None, "3")),
    ("layout", "-l", "--layout", (None, "room", "two.lay")),
    ("pacman", "-p", "--pacman", (None, "PlanAgent")),
    ("graphics", None, None, (None, "-q", "--quietTextGraphics", "-t", "--textGraphics")),
    ("ghost", "-g", "--ghosts", (None, "DirectionalGhost", "FirstGhost")),
    ("numGhosts", "-k", "--numghosts", (None, "0", "1")),
    ("zoom", "-z", "--zoom", (None, "0.5")),
    ("seed", "-f", "--fixRandomSeed", (None, "")),
    ("record", "-r", "--recordActions", (None, "")),
    ("training", "-x", "--numTraining", (None, "2")),
    ("frameTime", None, "--frameTime", (None, "-1", "0")),
    ("catch", "-c", "--catchExceptions", (None, "")),
    ("timeout", None, "--timeout", (None, "7")),
]
DEFAULT_LAYOUT = "mediumClassic"


def case_options(st, part, parts):
    import planAgents
    graphic = {None: graphicsDisplay.PacmanGraphics}
    shipped = open(os.path.join(os.path.dirname(pacman.__file__), "layouts", DEFAULT_LAYOUT + ".lay")).read().split("\n")
    shipped = [l.strip() for l in shipped if l.strip()]
    with open(f"{HOME}/layouts/{DEFAULT_LAYOUT}.lay", "w") as f:
        f.write("\n".join(shipped) + "\n")
    from textDisplay import NullGraphics, PacmanGraphics
    for n, setting in enumerate(itertools.product(*(o[3] for o in OPTIONS))):
        if n % parts != part:
            continue
        v = dict(zip((o[0] for o in OPTIONS), setting))
        argv = []
        for k, (dest, short, long, _) in enumerate(OPTIONS):
            if v[dest] is None:
                continue
            if dest == "graphics":
                argv.append(v[dest])
                continue
            name = short if short and (n + k) % 3 else long
            if v[dest] == "":
                argv.append(name)
            elif name == long and (n // 3 + k) % 2:
                argv.append(f"{name}={v[dest]}")
            else:
                argv += [name, v[dest]]
        where = " ".join(argv)
        text = v["graphics"] is not None
        ok, args = attempt(lambda: command(*argv))
        st.step()
        if text and v["pacman"] is None:
            require(not ok, f"{where}: a keyboard agent without a window is accepted")
            continue
        if v["training"] and v["pacman"] is None:      # that agent takes no such argument
            require(not ok, f"{where}: an agent without training is trained")
            continue
        if not ok:
            raise Violation(f"{where}: refused ({args})")
        lines = shipped if v["layout"] is None else BOARDS[v["layout"].replace(".lay", "")]
        equal(str(args["layout"]).split("\n"), list(lines), f"{where}: layout")
        equal(type(args["pacman"]).__name__, "KeyboardAgent" if v["pacman"] is None else "PlanAgent", f"{where}: pacman")
        if v["pacman"]:
            equal({k: str(x) for k, x in args["pacman"].kw.items()}, {"numTraining": v["training"]} if v["training"] else {}, f"{where}: arguments of pacman")
        equal([type(g).__name__ for g in args["ghosts"]], [v["ghost"] or "RandomGhost"] * int(v["numGhosts"] or 4), f"{where}: ghosts")
        equal([g.index for g in args["ghosts"]], list(range(1, len(args["ghosts"]) + 1)), f"{where}: indices of the ghosts")
        d = args["display"]
        want = graphicsDisplay.PacmanGraphics if not text else NullGraphics if v["graphics"] in ("-q", "--quietTextGraphics") else PacmanGraphics
        require(type(d) is want, f"{where}: display {type(d)}")
        equal(args["numGames"], int(v["numGames"] or 1), f"{where}: games")
        equal(args.get("numTraining", 0), int(v["training"] or 0), f"{where}: training games")
        equal(bool(args["record"]), v["record"] is not None, f"{where}: record")
        equal(bool(args["catchExceptions"]), v["catch"] is not None, f"{where}: catchExceptions")
        equal(args["timeout"], int(v["timeout"] or 30), f"{where}: timeout")
        if want is PacmanGraphics:
            close(sys.modules["textDisplay"].SLEEP_TIME, float(v["frameTime"] or 0.1), f"{where}: time between texts")
        planAgents.PlanAgent.made.clear()
        st.trace()
    st.state(("options", part))


def case_arguments(st):
    import planAgents
    words = [("alpha", None), ("beta", "2"), ("gamma", "x y"), ("delta", ""), ("numTraining", "5")]
    for n in (1, 2, 3):
        for combo in itertools.permutations(words, n):
            text = ",".join(k if x is None else f"{k}={x}" for k, x in combo)
            want = {k: "1" if x is None else x for k, x in combo}
            for training in (0, 3):
                planAgents.PlanAgent.made.clear()
                argv = ["-p", "PlanAgent", "-l", "room", "-a" if n % 2 else "--agentArgs", text] + ["-x", str(training)] * bool(training)
                args = command(*argv)
                w = dict(want)
                if training:
                    w.setdefault("numTraining", str(training))
                equal({k: str(x) for k, x in args["pacman"].kw.items()}, w, f"{argv}: arguments of pacman")
                equal(len(planAgents.PlanAgent.made), 1, f"{argv}: agents made")
                equal(args.get("numTraining", 0), training, f"{argv}: training games")
                st.step()
                st.trace()
    st.state("arguments")


def case_refused(st):
    good = ["-l", "room", "-p", "PlanAgent"]
    for name, bad in {"junk": good + ["junk"], "junk first": ["junk"] + good, "layout": ["-l", "no_such_layout"], "pacman": ["-l", "room", "-p", "NoAgent"],
                      "ghost": good + ["-g", "NoGhost"], "option": good + ["--what"], "number": good + ["-n", "many"], "zoom": good + ["-z", "wide"],
                      "missing": good + ["-k"], "keyboard 2": ["-l", "room", "-q", "-p", "KeyboardAgent2"], "timeout": good + ["--timeout", "soon"],
                      "dotted": ["-l", "room.lay.lay"], "argument": ["-l", "room", "-p", "ChancePacman", "-a", "unknown=1"]}.items():
        ok, r = attempt(lambda: command(*bad))
        require(not ok, f"{name}: {bad} is accepted")
        st.step()
        st.trace()
    words = ["alpha", "beta=2", "gamma="]
    for twice in ("delta=1=2", "delta==", "a=b=c=d", "===="):
        for n in range(4):
            for combo in itertools.permutations(words, n):
                for at in range(n + 1):
                    text = ",".join(combo[:at] + (twice,) + combo[at:])
                    ok, r = attempt(lambda: command(*good, "-a", text))
                    require(not ok, f"arguments {text} are accepted")
                    st.step()
    for option in ("-n", "-k", "-x", "-z", "--timeout", "--frameTime"):
        for number in ("", " ", "x", "1x", "--1", "1,5", "1e", "0x", "one") + (() if option in ("-z", "--frameTime") else ("1.5", "1e3", "2.0")):
            ok, r = attempt(lambda: command(*good, option, number))
            require(not ok, f"{option} {number!r} is accepted")
            st.step()
    require(attempt(lambda: command(*good))[0], "a good command is refused")
    st.state("refused")


# ---------------------------------------------------------------- sessions

def ghost_moves(board, m, n):
    """Pacman's turn again, after the ghosts took their first moves; None when the game ended."""
    hist = []
    for i in range(1, n):
        if m[4]:
            break
        a = sorted(board.legal(m, i))[0]
        m = board.move(m, i, a)
        hist.append((i, a))
    return m, hist


def plans(board, ghosts):
    """Shortest games Pacman wins and loses against first-move ghosts, as lists of his moves."""
    start = board.start(ghosts)
    n = len(start[0])
    todo, seen, out = [(start, [])], {start[:3]}, {}
    while todo and len(out) < 2:
        nxt = []
        for m, moves in todo:
            for a in sorted(board.legal(m, 0)):
                m2, _ = ghost_moves(board, board.move(m, 0, a), n)
                if m2[4]:
                    out.setdefault(m2[4], moves + [a])
                elif m2[:3] not in seen:
                    seen.add(m2[:3])
                    nxt.append((m2, moves + [a]))
        todo = nxt
    return out


def replay(board, moves, ghosts):
    m, hist = board.start(ghosts), []
    n = len(m[0])
    for a in moves:
        m = board.move(m, 0, a)
        hist.append((0, a))
        m, h = ghost_moves(board, m, n)
        hist += h
    return m, hist


def play(args):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        games = pacman.runGames(**args)
    return games, out.getvalue()


def numbers(text, head):
    found = [l for l in text.splitlines() if l.startswith(head)]
    equal(len(found), 1, f"lines '{head}'")
    return found[0][len(head):]


def case_session(st, bname, count):
    board = Board(BOARDS[bname])
    for ghosts in (0, 1, 4):
        p = plans(board, ghosts)
        if not p:
            continue
        kinds = sorted(p)
        for pattern in itertools.product(kinds, repeat=count):
            for training in range(count + 1):
                for record in (0, 1):
                    session(st, board, bname, p, pattern, training, record, ghosts)
    st.state((bname, count))


def session(st, board, bname, p, pattern, training, record, ghosts):
    count = len(pattern)
    where = f"{bname}, {ghosts} ghosts, games {pattern}, {training} of them training"
    argv = ["-p", "PlanAgent", "-l", bname, "-g", "FirstGhost", "-k", str(ghosts), "-n", str(count), "--frameTime=0"]
    argv += ["-x", str(training)] * bool(training) + ["-r"] * record + ["-c"] * (count % 2)
    args = command(*argv)
    args["pacman"].plans = [p[k] for k in pattern]
    Quiet.log.clear()
    shown = Spy(args["display"])
    args["display"] = shown
    before = set(os.listdir("."))
    games, text = play(args)
    equal(len(games), count - training, f"{where}: games returned")
    ends = [replay(board, p[k], ghosts) for k in pattern]
    for g, (m, hist) in zip(games, ends[training:]):
        equal(pac.view(g.state), m, f"{where}: end of a game")
        equal([tuple(x) for x in g.moveHistory], hist, f"{where}: history of a game")
    real = [m for m, _ in ends[training:]]
    moves = sum(len(h) for _, h in ends[training:])
    equal(shown.log.count("update"), moves, f"{where}: moves shown")
    equal(shown.log.count("initialize"), count - training, f"{where}: games shown")
    equal(shown.log.count("finish"), count - training, f"{where}: games closed")
    require(not tk.screen.open(), f"{where}: the window is closed")
    if training:
        equal(Quiet.log.count(("update",)), sum(len(h) for _, h in ends[:training]), f"{where}: moves of training games")
    said = re.findall(r"victorious|died", text)
    equal(said, ["victorious" if m[4] == "win" else "died" for m in real], f"{where}: results announced")
    if real:
        wins = [m[4] == "win" for m in real]
        close(float(numbers(text, "Average Score:")), sum(m[3] for m in real) / len(real), f"{where}: average score")
        equal([float(x) for x in numbers(text, "Scores:").split(",")], [float(m[3]) for m in real], f"{where}: scores")
        w = re.findall(r"[\d.]+", numbers(text, "Win Rate:"))
        equal([int(w[0]), int(w[1])], [sum(wins), len(wins)], f"{where}: win rate")
        require(abs(float(w[2]) - sum(wins) / len(wins)) < 0.00501, f"{where}: win rate {w[2]}")
        equal([x.strip() for x in numbers(text, "Record:").split(",")], ["Win" if x else "Loss" for x in wins], f"{where}: record")
    else:
        require("Average" not in text and "Win Rate" not in text, f"{where}: results of training games are reported")
    files = sorted(set(os.listdir(".")) - before)
    equal(len(files), count * record, f"{where}: recorded games")
    got = []
    for f in files:
        with open(f, "rb") as h:
            rec = pickle.load(h)
        got.append([tuple(x) for x in rec["actions"]])
        equal(str(rec["layout"]), "\n".join(board.text), f"{where}: recorded layout")
        os.remove(f)
    if record:
        equal(sorted(got), sorted(h for _, h in ends), f"{where}: recorded moves")
    pac.quiet_explored()
    st.step(sum(len(h) for _, h in ends))
    st.trace()


def case_stopped(st, bname, count):
    """Games among which some are ended by an error of Pacman's agent, at once or after a move: they count, as lost ones do."""
    board = Board(BOARDS[bname])
    for ghosts in (0, 1, 4):
        p = plans(board, ghosts)
        if not p:
            continue
        p = {**p, "at once": [], "after a move": max(p.values(), key=len)[:1]}
        p = {k: v for k, v in p.items() if k in ("win", "lose") or not replay(board, v, ghosts)[0][4]}
        for pattern in itertools.product(sorted(p), repeat=count):
            for training in range(count + 1):
                where = f"{bname}, {ghosts} ghosts, games {pattern}, {training} of them training"
                args = command("-p", "PlanAgent", "-l", bname, "-g", "FirstGhost", "-k", str(ghosts), "-n", str(count), "-q", "-c",
                               *(["-x", str(training)] * bool(training)))
                args["pacman"].plans = [p[k] for k in pattern]
                with contextlib.redirect_stderr(io.StringIO()):
                    games, text = play(args)
                ends = [replay(board, p[k], ghosts) for k in pattern][training:]
                equal(len(games), len(ends), f"{where}: games returned")
                for g, (m, hist) in zip(games, ends):
                    equal(pac.view(g.state), m, f"{where}: end of a game")
                    equal([tuple(x) for x in g.moveHistory], hist, f"{where}: history of a game")
                if ends:
                    wins = [m[4] == "win" for m, _ in ends]
                    close(float(numbers(text, "Average Score:")), sum(m[3] for m, _ in ends) / len(ends), f"{where}: average score")
                    equal([float(x) for x in numbers(text, "Scores:").split(",")], [float(m[3]) for m, _ in ends], f"{where}: scores")
                    w = re.findall(r"[\d.]+", numbers(text, "Win Rate:"))
                    equal([int(w[0]), int(w[1])], [sum(wins), len(wins)], f"{where}: win rate")
                    equal([x.strip() for x in numbers(text, "Record:").split(",")], ["Win" if x else "Loss" for x in wins], f"{where}: record")
                pac.quiet_explored()
                st.step(sum(len(h) for _, h in ends))
                st.trace()
    st.state((bname, count, "stopped"))


def case_many(st, bname):
    """Thirteen games, one or all but one of them lost, or in turn."""
    board = Board(BOARDS[bname])
    for ghosts in (1, 4):
        p = plans(board, ghosts)
        kinds = sorted(p)
        n = 13
        for pattern in sorted({tuple(kinds[(k in odd) % len(kinds)] for k in range(n)) for odd in
                               [(), tuple(range(n)), tuple(range(0, n, 2)), (0,), (9,), (10,), (11,), (12,), tuple(range(12)), tuple(range(10)), tuple(range(11))]}):
            for training in (0, 1, 9, 10, 11, 12, 13):
                session(st, board, bname, p, pattern, training, training % 2, ghosts)
        st.state((bname, ghosts, "many"))


def case_everybody(st):
    """Up to 16 ghosts asked for on a board of 14, and up to 14 names for the agent."""
    board = Board(pac.BIG["crowd"])
    with open(f"{HOME}/layouts/crowd.lay", "w") as f:
        f.write("\n".join(board.text) + "\n")
    for k in (5, 9, 10, 11, 12, 13, 14, 16):
        args = command("-p", "PlanAgent", "-l", "crowd", "-g", "FirstGhost", "-k", str(k), "--frameTime=0")
        equal([g.index for g in args["ghosts"]], list(range(1, k + 1)), f"indices of {k} ghosts")
        moves, m = [], board.start(k)
        while not m[4] and len(moves) < 12:
            legal = sorted(board.legal(m, 0))
            ok = [a for a in legal if not ghost_moves(board, board.move(m, 0, a), len(m[0]))[0][4]] or legal
            moves.append(ok[len(moves) % len(ok)])
            m, _ = ghost_moves(board, board.move(m, 0, moves[-1]), len(m[0]))
        want, hist = replay(board, moves, k)
        args["pacman"].plans = [moves]
        args["catchExceptions"] = True          # the plan may end before the game does
        with contextlib.redirect_stderr(io.StringIO()):
            games, _ = play(args)
        equal(pac.view(games[0].state), want, f"end of a game with {k} ghosts")
        equal([tuple(x) for x in games[0].moveHistory], hist, f"history of a game with {k} ghosts")
        pac.quiet_explored()
        tk.reset()
        st.step(len(hist))
        st.state(("ghosts", k))
        st.trace()
    import planAgents
    for n in range(4, 15):
        for valued in (0, 1, 2):
            text = ",".join(f"n{i}={i * i}" if (i + valued) % 3 else f"n{i}" for i in range(n))
            planAgents.PlanAgent.made.clear()
            args = command("-p", "PlanAgent", "-l", "room", "-a", text)
            equal({k: str(x) for k, x in args["pacman"].kw.items()}, {f"n{i}": str(i * i) if (i + valued) % 3 else "1" for i in range(n)},
                  f"arguments {text} of pacman")
            st.step()
    st.trace()


def case_modules(st):
    """Agents in any of many modules in any of many directories of $PYTHONPATH."""
    old = os.environ["PYTHONPATH"], list(sys.path)
    here = os.getcwd()
    try:
        with tempfile.TemporaryDirectory(dir=here) as top:
            dirs = []
            for i in range(12):
                d = os.path.join(top, f"d{i}")
                os.makedirs(d)
                dirs.append(d)
                for j in range(12 if i == 3 else 1):
                    with open(f"{d}/m{i}x{j}Agents.py", "w") as f:
                        f.write(f"from game import Agent\nclass A{i}x{j}(Agent):\n    where = 'm{i}x{j}'\n")
                with open(f"{d}/broken{i}Agents.py", "w") as f:
                    f.write("import no_such_module_at_all\n")
                with open(f"{d}/other{i}.py", "w") as f:
                    f.write(f"class Hidden{i}: pass\n")
            for sep in ":;":
                if sep == ";":
                    paths = dirs[:2] + [os.path.join(top, "missing")] + dirs[2:] + [old[0]]
                else:
                    paths = [os.path.join(top, "missing")] + list(reversed(dirs)) + [old[0]]
                os.environ["PYTHONPATH"] = sep.join(paths)
                sys.path[:] = old[1] + dirs
                for i in range(12):
                    for j in range(12 if i == 3 else 1):
                        args = command("-p", f"A{i}x{j}", "-l", "room")
                        equal(type(args["pacman"]).where, f"m{i}x{j}", f"agent A{i}x{j}")
                        args = command("-p", "PlanAgent", "-g", f"A{i}x{j}", "-k", "2", "-l", "room")
                        equal([type(g).where for g in args["ghosts"]], [f"m{i}x{j}"] * 2, f"ghosts A{i}x{j}")
                        st.step(2)
                    require(not attempt(lambda: command("-p", f"Hidden{i}", "-l", "room"))[0], "an agent in a module that is not *Agents.py is taken")
                st.trace()
    finally:
        os.environ["PYTHONPATH"] = old[0]
        sys.path[:] = old[1]
        for name in [m for m in sys.modules if re.fullmatch(r"m\d+x\d+Agents", m)]:
            del sys.modules[name]
    st.state("modules")


class Spy:
    def __init__(self, display):
        self.display, self.log = display, []

    def __getattr__(self, name):
        f = getattr(self.display, name)
        if name in ("initialize", "update", "finish"):
            self.log.append(name)
        return f


def case_shown(st, bname):
    """Zoom and frame time reach the window."""
    board = Board(BOARDS[bname])
    p, base = plans(board, 4), None
    for zoom, frame, kind in itertools.product((None, "0.5", "2"), (None, "0", "0.04"), sorted(p)):
        tk.reset()
        argv = ["-p", "PlanAgent", "-l", bname, "-g", "FirstGhost"] + ["-z", zoom] * bool(zoom) + ["--frameTime", frame] * bool(frame)
        args = command(*argv)
        args["pacman"].plans = [p[kind]]
        d = args["display"]
        times, sizes = [], set()
        update = d.update

        def watched(state):
            t = vclock.clock.now
            update(state)
            if state._agentMoved == 0:
                times.append(vclock.clock.now - t)
            c = tk.screen.open()[0].children_[0]
            xs = [x for _, cs, _ in c.items.values() for x in cs[::2]]
            sizes.add((round(float(c.opts["width"])), round(max(xs) - min(xs))))
        d.update = watched
        play(args)
        for a, b in sizes:
            base = base or a
            w = base * float(zoom or 1)
            require(abs(a - w) < 3 and abs(b - w) < 3 and a > board.w * 30 * float(zoom or 1) - 1, f"{argv}: the window is {a} wide, its picture {b}, expected {w}")
        for t in times:
            require(abs(t - float(frame or 0.1)) < 0.005, f"{argv}: a move takes {t}")
        equal(len(times), len(p[kind]), f"{argv}: moves of Pacman")
        pac.quiet_explored()
        st.step(len(times))
        st.state((bname, zoom, frame, kind))
        st.trace()


def case_seed(st, bname):
    """With -f a command plays the same games each time, whatever was drawn before."""
    import random
    for ghost, k, n, opt in itertools.product(("RandomGhost", "DirectionalGhost"), ("1", "4"), ("1", "2", "3"), ("-f", "--fixRandomSeed")):
        argv = ["-p", "ChancePacman", "-l", bname, "-g", ghost, "-k", k, "-n", n, opt, "--frameTime", "0"]
        seen = []
        for drawn in (0, 1, 5):
            for _ in range(drawn):
                random.random()
            args = command(*argv)
            limit = Limit(args["display"])
            args["display"] = limit
            try:
                games, _ = play(args)
                seen.append([[tuple(x) for x in g.moveHistory] for g in games])
            except Limit.Over:
                seen.append(limit.log)
            pac.quiet_explored()
            tk.reset()
        require(seen[0] == seen[1] == seen[2], f"{argv}: different games with one seed")
        st.step(3)
        st.state((bname, ghost, k, n, opt))
        st.trace()


class Limit:
    """Ends a session after some moves."""

    class Over(BaseException):
        pass

    def __init__(self, display):
        self.display, self.log = display, []

    def update(self, state):
        self.log.append(str(state))
        if len(self.log) > 150:
            raise Limit.Over()

    def initialize(self, state, *a):
        pass

    def finish(self):
        pass


# ---------------------------------------------------------------- the demo program

def case_demo(st):
    import ghostAgents
    import importlib
    import inspect
    here = os.getcwd()
    own = os.path.join(os.path.dirname(os.path.abspath(pacman.__file__)), "layouts", "mediumClassic.lay")
    boards = {b: list(rows) for b, rows in BOARDS.items()}
    boards["own"] = open(own).read().strip().splitlines()
    real, signature = pacman.runGames, inspect.signature(pacman.runGames)
    asked = []

    def recorded(*a, **k):
        asked.append(signature.bind(*a, **k))
        asked[-1].apply_defaults()
        return []
    pacman.runGames = recorded
    try:
        for name, rows in boards.items():
            with tempfile.TemporaryDirectory(dir=here) as d:
                os.chdir(d)
                os.makedirs("layouts")
                with open("layouts/mediumClassic.lay", "w") as f:
                    f.write("\n".join(rows) + "\n")
                with open("layouts/smallClassic.lay", "w") as f:
                    f.write("%%%%\n%P.%\n%%%%\n")
                sys.modules.pop("demo", None)
                del asked[:]
                try:
                    importlib.import_module("demo").main()
                finally:
                    os.chdir(here)
            st.step()
            equal(len(asked), 1, "games started by the demo program")
            a = asked[0].arguments
            equal([r.strip() for r in str(a["layout"]).splitlines()], [r.strip() for r in rows], f"board of the demo program, {name}")
            require(type(a["pacman"]) is keyboardAgents.KeyboardAgent and a["pacman"].index == 0, f"pacman of the demo program: {a['pacman']!r}")
            require([type(g) for g in a["ghosts"]] == [ghostAgents.RandomGhost] * 2 and [g.index for g in a["ghosts"]] == [1, 2],
                    f"ghosts of the demo program: {[(g, g.index) for g in a['ghosts']]}")
            require(isinstance(a["display"], graphicsDisplay.PacmanGraphics), f"display of the demo program: {a['display']!r}")
            equal((a["numGames"], bool(a["record"]), a["numTraining"], bool(a["catchExceptions"])), (1, False, 0, False),
                  "games, recording, training games and exceptions caught in the demo program")
            st.state(name)
    finally:
        pacman.runGames = real
        sys.modules.pop("demo", None)
        os.chdir(here)
    st.trace()

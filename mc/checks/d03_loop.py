"""The game loop under every history, every point and kind of failure of every agent, in virtual time."""
import io
import itertools
import os
import pickle
import signal
import sys

from .. import vclock
from .. import pac
from ..core import Violation, attempt, equal, require
from ..pac import BIG, BOARDS, Board, game, pacman

ID = "D03"
ASSUMPTIONS = ["time passes only inside the agents: clock and alarm are virtual, signal handlers are the real ones",
               "an illegal move that ended the game may or may not be kept at the end of the history",
               "what agents beyond a failing one are told of the end is not specified",
               "the limits inside a game which an agent plays on its own run out before the limit it is under itself"]
POINTS = ("load", "start", "observe", "act", "final")
T_MOVE, T_WARN, T_START, T_TOTAL, MAX_WARN = 5, 3, 7, 9, 1


def bounds(tier):
    d = 8 if tier == "thorough" else 5
    return (f"on 6 boards all move histories of up to {d} moves times every failure: each agent, each of load, start, observation, action and "
            "final, each call of it, each kind (exception, hanging, illegal move, no move), with and without exception handling and "
            "muting, each starting agent, agents with and without each callback; all duration patterns of up to 3 rounds out of "
            "quick, slow and over the limit for observation, action and start of one agent, and for start and up to 3 actions of both, with equal and "
            "with different limits of the agents, and with 6 durations that are not whole seconds; three rounds of 15 agents with every agent beginning, failing in each way at each call, or slow by the same patterns; games of 1200 moves that end in a win, or with a failure after 2 to 599 moves of each agent; up to 300 moves of 1 or 0.75 seconds "
            "against total limits of 2 to 299, of 4 seconds against 0 to 140 slow moves; a game which an agent plays inside of each of its callbacks, of every outcome and "
            "with every combination of muting and exception handling of both games, the agent then going on, failing or exceeding its limit")


def cases(tier):
    d = 8 if tier == "thorough" else 5
    out = []
    for b in ("last", "near", "alone", "corridor", "two", "stuckfree"):
        for catch, mute in itertools.product((0, 1), repeat=2):
            for s in range(len(board_of(b).start()[0])):
                out.append(["history", b, catch, mute, s, d])
    for b in ("last", "near", "two"):
        for catch, mute in itertools.product((0, 1), repeat=2):
            out += [["faults", b, catch, mute, s] for s in range(len(board_of(b).start()[0]))]
    out += [["time", k, 8, 3 if tier == "thorough" else 2] for k in range(8)]
    out += [["shares", w, k, 4] for w in range(len(LIMITS)) for k in range(4)]
    out += [["fractions", w, k, 4] for w in range(len(LIMITS)) for k in range(4)]
    out += [["setup", b] for b in (*BOARDS, *BIG)]
    out += [["many", catch, k] for catch in (0, 1) for k in range(15)]
    out += [["whole", b, k] for b in ("last", "near", "alone", "corridor", "two", "loop") for k in range(6)]
    out += [["recorded"], ["timeout"]] + [["nested", catch, mute] for catch in (0, 1) for mute in (0, 1)]
    out += [["long", catch, mute] for catch in (0, 1) for mute in (0, 1)] + [["patience", k] for k in range(4)]
    return out


def board_of(name):
    return Board(["%%%%%", "%P..%", "%G  %", "%%%%%"] if name == "stuckfree" else BOARDS[name])


def run_case(case, st):
    globals()["case_" + case[0]](st, *case[1:])


class Boom(Exception):
    pass


class Rules(pacman.ClassicGameRules):
    """The classic rules with separate limits; records reported crashes."""

    def __init__(self, limits=None):
        super().__init__(30)
        self.limits = limits or {}
        self.crashes = []
        self.quiet = True

    def agentCrash(self, game, agentIndex):
        self.crashes.append(agentIndex)
        super().agentCrash(game, agentIndex)

    def getMaxTotalTime(self, i):
        return self.limit("total", 10 ** 6, i)

    def limit(self, kind, default, i):
        x = self.limits.get(kind, default)
        return x[i] if isinstance(x, tuple) else x

    def getMaxStartupTime(self, i):
        return self.limit("start", 30, i)

    def getMoveWarningTime(self, i):
        return self.limit("warn", 30, i)

    def getMoveTimeout(self, i):
        return self.limit("move", 30, i)

    def getMaxTimeWarnings(self, i):
        return self.limit("warnings", 0, i)


class Display:
    def __init__(self):
        self.log = []

    def snap(self, data):
        s = pacman.GameState()
        s.data = data
        return pac.view(s)

    def initialize(self, data, *a, **k):
        self.log.append(("initialize", self.snap(data)))

    def update(self, data):
        self.log.append(("update", self.snap(data)))

    def finish(self):
        self.log.append(("finish",))


def vandalise(state):
    """What an agent does to a state it was given must not matter."""
    d = state.data
    d.score += 12345
    d.capsules.clear()
    for x in range(d.food.width):
        for y in range(d.food.height):
            d.food[x][y] = not d.food[x][y]
    for a in d.agentStates:
        a.scaredTimer = 3
        a.configuration = game.Configuration((0, 0), "West")
    for x in range(d.layout.walls.width):
        d.layout.walls[x][1] = not d.layout.walls[x][1]
    d._win = d._lose = False


def make_agent(i, script):
    """script: .on(i, point, state) is called at every callback and returns the result or raises."""
    def method(point):
        def f(self, state):
            print(f"<{i}>")
            print(f"<{i}>", file=sys.stderr)
            return script.on(i, point, state)
        return f
    members = {"getAction": method("act")}
    for point, name in (("start", "registerInitialState"), ("observe", "observationFunction"), ("final", "final")):
        if point in script.callbacks:
            members[name] = method(point)
    return type("StubAgent", (), members)()


class Script:
    """Drives all agents through a list of choices and one fault; predicts what the loop has to do."""

    def __init__(self, board, choices, callbacks, fault=None, durations=None):
        self.board, self.choices, self.callbacks, self.fault = board, choices, callbacks, fault
        self.durations = durations
        self.calls = {}
        self.log = []
        self.current = board.start()
        self.moves = []
        self.inside = {}

    def on(self, i, point, state):
        seen = pac.view(state)
        self.log.append((i, point, seen))
        n = self.calls[i, point] = self.calls.get((i, point), 0) + 1
        if (i, point, n) in self.inside:
            self.inside[i, point, n]()
        if self.durations is not None:
            d = self.durations.get((i, point, n), 0)
            if point != "final":
                vandalise(state)
            vclock.advance(d)
        elif point != "final":
            vandalise(state)
        if self.fault and self.fault[:3] == (i, point, n):
            kind = self.fault[3]
            if kind == "raise":
                raise Boom("failing agent")
            if kind == "hang":
                vclock.advance(1000)
            if kind == "illegal":
                return "Upwards"
            if kind == "none":
                return None
        if point == "observe":
            s = pac.start(self.board)       # an observation of the agent's own making, recognised in act
            s.data.score = 77
            return s
        if point == "act":
            legal = sorted(self.board.legal(self.current, i))
            k = len(self.moves)
            if k >= len(self.choices) or not legal:
                raise Boom("end of the script")
            a = legal[self.choices[k] % len(legal)]
            self.moves.append((i, a))
            self.before = self.current
            self.current = self.board.move(self.current, i, a)
            return a
        return None


def predict(board, choices, callbacks, fault, start, n, catch, null=None):
    """(moves executed, final model state, crashed agent or None, timed out, callback log)"""
    log, calls = [], {}
    m = board.start()
    moves = []

    def call(i, point, state):
        log.append((i, point, state))
        k = calls[i, point] = calls.get((i, point), 0) + 1
        return fault[3] if fault and fault[:3] == (i, point, k) else None

    for i in range(n):
        if null == i:
            return moves, m, i, False, log
        if "start" in callbacks:
            bad = call(i, "start", m)
            if bad:
                return moves, m, i, bad == "hang", log
    i = start
    while m[4] is None:
        observed = m
        if "observe" in callbacks:
            bad = call(i, "observe", m)
            if bad == "hang" or bad == "raise":
                return moves, m, i, bad == "hang", log
            observed = board.start()[:3] + (77,) + board.start()[4:]
        bad = call(i, "act", observed)
        legal = sorted(board.legal(m, i))
        if bad or len(moves) >= len(choices) or not legal:
            return moves, m, i, bad == "hang", log
        a = legal[choices[len(moves)] % len(legal)]
        moves.append((i, a))
        m = board.move(m, i, a)
        i = (i + 1) % n
    for i in range(n):
        if "final" in callbacks:
            bad = call(i, "final", m)
            if bad:
                return moves, m, i, False, log
    return moves, m, None, False, log


def run_game(board, script, start, catch, mute, null=None, limits=None):
    """Runs the real loop; returns everything observed."""
    n = len(board.start()[0])
    rules, display = Rules(limits), Display()
    agents = [None if null == i else make_agent(i, script) for i in range(n)]
    g = game.Game(agents, display, rules, startingIndex=start, muteAgents=bool(mute), catchExceptions=bool(catch))
    g.state = pac.start(board)
    rules.initialState = g.state.deepCopy()
    out, err = io.StringIO(), io.StringIO()
    old = sys.stdout, sys.stderr
    handler = signal.getsignal(signal.SIGALRM)

    def mark(*a):       # stands for the embedding program's own handler
        raise Violation("the caller's alarm handler was called")
    signal.signal(signal.SIGALRM, mark)
    sys.stdout, sys.stderr = out, err
    try:
        with vclock.running() as clock:
            ok, res = attempt(g.run)
            streams = sys.stdout is out and sys.stderr is err
            pending = clock.deadline
            restored = signal.getsignal(signal.SIGALRM) is mark
    finally:
        sys.stdout, sys.stderr = old
        signal.signal(signal.SIGALRM, handler)
        signal.setitimer(signal.ITIMER_REAL, 0)
    return g, rules, display, ok, res, streams, pending, restored, out.getvalue() + err.getvalue()


def compare(board, script, want, start, catch, mute, null, st, limits=None, where=None):
    moves, m, crashed, timed, log = want
    n = len(board.start()[0])
    where = where or f"board {board.text}, start {start}, catch {catch}, mute {mute}, fault {script.fault}, load failure {null}, moves {moves}"
    g, rules, display, ok, res, streams, pending, restored, output = run_game(board, script, start, catch, mute, null, limits)
    st.step(1 + len(moves))
    st.trace()
    if isinstance(res, Violation):
        raise res
    if not catch and crashed is not None and null is None:
        require(not ok, f"{where}: the failure of an agent is swallowed without exception handling")
    else:
        require(ok, f"{where}: the game does not contain the failure: {res!r}")
        require(streams, f"{where}: output streams are not restored")
    require(pending is None, f"{where}: an alarm is left pending")
    require(restored, f"{where}: the caller's alarm handler is not restored")
    if script.log != log:
        i = next((k for k, (x, y) in enumerate(zip(script.log, log)) if x != y), min(len(script.log), len(log)))
        raise Violation(f"{where}: callback {i} is {script.log[i] if i < len(script.log) else 'missing'}, expected "
                        f"{log[i] if i < len(log) else 'none'}")
    equal(pac.view(g.state), m, f"{where}: state of the game")
    hist = [tuple(x) for x in g.moveHistory]
    illegal = script.fault and script.fault[3] in ("illegal", "none") and crashed is not None
    if hist != moves and not (illegal and hist[:-1] == moves and hist[-1][0] == crashed and len(hist) == len(moves) + 1):
        raise Violation(f"{where}: history is {hist}")
    seen = [board.start()]
    for i, a in moves:
        seen.append(board.move(seen[-1], i, a))
    show = [("initialize", seen[0])] + [("update", s) for s in seen[1:]]
    equal([e for e in display.log if e[0] != "finish"], show, f"{where}: display")
    if ok and (crashed is None or catch or null is not None):
        equal(bool(g.gameOver), True, f"{where}: game over")
        equal(bool(g.agentCrashed), crashed is not None, f"{where}: crashed")
        equal(bool(g.agentTimeout), timed, f"{where}: timed out")
        equal(rules.crashes, [] if crashed is None else [crashed], f"{where}: reported crashes")
        equal(g.getProgress(), 1.0, f"{where}: progress of a finished game")
    if crashed is None:
        require(display.log[-1] == ("finish",), f"{where}: display is not finished")
    if mute:
        require("<" not in output, f"{where}: output of a muted agent is shown: {output!r}")
        for i in range(n):
            k = sum(1 for x in log if x[0] == i)
            equal(g.agentOutput[i].getvalue().count(f"<{i}>"), 2 * k, f"{where}: kept output of agent {i}")
            for j in range(n):
                require(i == j or f"<{j}>" not in g.agentOutput[i].getvalue(), f"{where}: output of agents is mixed up")
    else:
        for i in range(n):
            equal(output.count(f"<{i}>"), 2 * sum(1 for x in log if x[0] == i), f"{where}: shown output of agent {i}")
    st.state((tuple(board.text), start, catch, mute, null, script.fault, tuple(moves), len(log)))
    st.sample(where)


CALLBACKS = [(), ("start", "observe", "final"), ("final",), ("observe",), ("start",)]


def histories(board, start, depth):
    """All choice lists of up to depth moves (in the model), each once."""
    n = len(board.start()[0])

    def go(m, i, choices):
        yield choices
        if len(choices) < depth and m[4] is None:
            for k, a in enumerate(sorted(board.legal(m, i))):
                yield from go(board.move(m, i, a), (i + 1) % n, choices + [k])
    yield from go(board.start(), start, [])


def case_history(st, bname, catch, mute, start, depth):
    board = board_of(bname)
    n = len(board.start()[0])
    for k, choices in enumerate(histories(board, start, depth)):
        for cb in (CALLBACKS if k % 9 == 0 else CALLBACKS[:2]):
            script = Script(board, choices, cb)
            compare(board, script, predict(board, choices, cb, None, start, n, catch), start, catch, mute, None, st)
    pac.quiet_explored()


def case_faults(st, bname, catch, mute, start):
    board = board_of(bname)
    n = len(board.start()[0])
    every = list(histories(board, start, 5 if bname != "two" else 4))
    ends = [c for c in every if len(c) >= 3][::3 if bname != "two" else 23] + every[:3]
    full = longest(board, start)
    for choices in ends + full:
        for cb in (CALLBACKS[1], ()):
            for i in range(n):
                compare(board, Script(board, choices, cb), predict(board, choices, cb, None, start, n, catch, i), start, catch, mute, i, st)
                for point in POINTS[1:]:
                    if point != "act" and point not in cb:
                        continue
                    for nth in ((1, 2, 3) if point in ("act", "observe") else (1,)):
                        for kind in ("raise", "hang", "illegal", "none"):
                            if kind == "hang" and (not catch or point == "final") or kind in ("illegal", "none") and point != "act":
                                continue
                            fault = (i, point, nth, kind)
                            script = Script(board, choices, cb, fault)
                            want = predict(board, choices, cb, fault, start, n, catch)
                            compare(board, script, want, start, catch, mute, None, st)
    pac.quiet_explored()


def longest(board, start):
    """Some complete games: a win and a loss, if found within 9 moves."""
    found = {}
    n = len(board.start()[0])
    level = [(board.start(), start, [])]
    for _ in range(9):
        nxt, seen = [], set()
        for m, i, c in level:
            for k, a in enumerate(sorted(board.legal(m, i))):
                m2 = board.move(m, i, a)
                if m2[4]:
                    found.setdefault(m2[4], c + [k])
                elif (pac.strip(m2), i) not in seen:
                    seen.add((pac.strip(m2), i))
                    nxt.append((m2, (i + 1) % n, c + [k]))
        level = nxt[:2000]
    return list(found.values())


def case_time(st, part, parts, rounds):
    """Virtual durations of start, observation and action against all limits."""
    board = board_of("corridor")
    limits = LIMITS[0]
    n = 2
    slots = [(i, p, k) for i in range(n) for k in range(1, rounds + 1) for p in ("observe", "act")]
    choices = [0] * (n * rounds)
    k = 0
    for startup in itertools.product((0, 6, 8), repeat=n):
        for durs in itertools.product((0, 2, 4, 6), repeat=min(len(slots), 4)):
            for active in (range(n) if rounds > 1 else (0,)):
                k += 1
                if k % parts != part:
                    continue
                mine = [s for s in slots if s[0] == active][:len(durs)]
                d = dict(zip(mine, durs))
                d.update({(i, "start", 1): s for i, s in enumerate(startup)})
                for cb in (("start", "observe"), ()):
                    if not cb and any(startup):
                        continue
                    dd = {s: x for s, x in d.items() if s[1] == "act" or s[1] in cb}
                    want, why = timed_prediction(board, choices, cb, dd, n)
                    where = f"durations {dd}, limits {limits}: expected {why}"
                    script = Script(board, choices, cb, durations=dd)
                    compare(board, script, want, 0, 1, k % 2, None, st, limits, where)


LIMITS = [{"move": T_MOVE, "warn": T_WARN, "start": T_START, "total": T_TOTAL, "warnings": MAX_WARN},
          {"move": (5, 3), "warn": (3, 1), "start": (7, 5), "total": (9, 11), "warnings": (1, 2)},
          {"move": (3, 7), "warn": (1, 5), "start": (5, 9), "total": (21, 9), "warnings": (0, 1)}]


def case_shares(st, which, part, parts):
    """Durations of both agents: each is charged with its own time and slow moves only, against its own limits."""
    board, limits, n = board_of("corridor"), LIMITS[which], 2
    slots = [(i, "act", k) for k in (1, 2) for i in range(n)] + [(0, "act", 3)]
    k = 0
    for startup in itertools.product((0, 6), repeat=n):
        for durs in itertools.product((0, 2, 4, 6), repeat=len(slots)):
            k += 1
            if k % parts != part:
                continue
            d = dict(zip(slots, durs))
            d.update({(i, "start", 1): s for i, s in enumerate(startup)})
            cb = ("start", "observe") if k % 3 else ("start",)
            want, why = timed_prediction(board, [0] * 5, cb, d, n, limits)
            compare(board, Script(board, [0] * 5, cb, durations=d), want, 0, 1, k % 2, None, st, limits,
                    f"durations {d}, limits {limits}: expected {why}")


def case_fractions(st, which, part, parts):
    """Parts of a second count: durations of one agent that are not whole seconds. An alarm rings at whole seconds only, so
    patterns are left out in which observing and acting together exceed the limit of a move by less than that."""
    board, limits, n, k = board_of("corridor"), LIMITS[which], 2, 0
    for active in range(n):
        slots = [(active, p, j) for j in (1, 2) for p in ("observe", "act")]
        for durs in itertools.product((0.25, 0.75, 1.5, 2.75, 3.5, 4.75), repeat=4):
            k += 1
            if k % parts != part:
                continue
            for startup in (0, 4.75, 6.5, 7.5) if k % 3 == 0 else (0.75,):
                for cb in (("start", "observe"), ("start",)):
                    d = dict(zip(slots, durs))
                    d[(active, "start", 1)] = startup
                    d = {x: t for x, t in d.items() if x[1] == "act" or x[1] in cb}
                    doubt = []
                    want, why = timed_prediction(board, [0] * 4, cb, d, n, limits, doubt)
                    if not doubt:
                        compare(board, Script(board, [0] * 4, cb, durations=d), want, 0, 1, k % 2, None, st, limits,
                                f"durations {d}, limits {limits}: expected {why}")


def timed_prediction(board, choices, cb, durations, n, limits=LIMITS[0], doubt=None):
    def limit(kind, i):
        x = limits[kind][i] if isinstance(limits[kind], tuple) else limits[kind]
        if doubt is not None and kind != "warnings":
            v = {"start": durations.get((i, "start", 1), 0), "total": total[i], "warn": spent, "move": spent}[kind]
            if v == x or kind == "move" and x < v < x + 1 and observed % 1:
                doubt.append((kind, i, v))
        return x
    spent = observed = 0
    total, warns = [0] * n, [0] * n
    log, m, moves = [], board.start(), []
    for i in range(n):
        if "start" in cb:
            log.append((i, "start", m))
            t = durations.get((i, "start", 1), 0)
            if t > limit("start", i):
                return (moves, m, i, True, log), f"agent {i} out of time on startup"
            total[i] += t
    i, rounds = 0, [0] * n
    while len(moves) < len(choices):
        rounds[i] += 1
        spent = observed = 0
        seen = m
        if "observe" in cb:
            log.append((i, "observe", m))
            spent = durations.get((i, "observe", rounds[i]), 0)
            if spent > limit("move", i):
                return (moves, m, i, True, log), f"agent {i} out of time observing"
            seen = board.start()[:3] + (77,) + board.start()[4:]
            observed = spent
        log.append((i, "act", seen))
        spent += durations.get((i, "act", rounds[i]), 0)
        if spent > limit("move", i):
            return (moves, m, i, True, log), f"agent {i} out of time moving"
        if spent > limit("warn", i):
            warns[i] += 1
            if warns[i] > limit("warnings", i):
                return (moves, m, i, True, log), f"agent {i} too often slow"
        total[i] += spent
        if total[i] > limit("total", i):
            return (moves, m, i, True, log), f"agent {i} out of total time"
        legal = sorted(board.legal(m, i))
        a = legal[0]
        moves.append((i, a))
        m = board.move(m, i, a)
        if m[4]:
            return (moves, m, None, False, log), "end of game"
        i = (i + 1) % n
    if "observe" in cb:
        log.append((i, "observe", m))
        # the script ends with the next action
        rounds[i] += 1
        if durations.get((i, "observe", rounds[i]), 0) > limit("move", i):
            return (moves, m, i, True, log), f"agent {i} out of time observing"
        seen = board.start()[:3] + (77,) + board.start()[4:]
    else:
        seen = m
    log.append((i, "act", seen))
    t = durations.get((i, "act", rounds[i] if "observe" in cb else rounds[i] + 1), 0)
    return (moves, m, i, False, log), "end of the script"


def case_setup(st, bname):
    """newGame: one agent per agent of the board, as far as there are ghost agents."""
    board = Board({**BOARDS, **BIG}[bname])
    n = len(board.start()[0]) - 1
    for k in range(n + 3):
        for catch in (False, True):
            rules = pacman.ClassicGameRules(5)
            lay = pac.layout_module.Layout(list(board.text))
            ghosts = [object() for _ in range(k)]
            me = object()
            disp = Display()
            g = rules.newGame(lay, me, ghosts, disp, True, catch)
            equal(len(g.agents), 1 + min(n, k), "number of agents")
            require(g.agents[0] is me and all(a is b for a, b in zip(g.agents[1:], ghosts)), "agents in order")
            equal(pac.view(g.state), board.start(min(n, k)), "state of a new game")
            equal((bool(g.gameOver), bool(g.agentCrashed), bool(g.agentTimeout), list(g.moveHistory)), (False, False, False, []), "new game")
            equal([rules.getMaxTotalTime(0), rules.getMaxStartupTime(0), rules.getMoveTimeout(0)], [5, 5, 5], "time limits")
            equal(g.getProgress(), 1.0 if board.food else 0, "progress of a new game")
            # a played game does not disturb a later one of the same layout
            g.state = g.state.generateSuccessor(0, sorted(board.legal(board.start(min(n, k)), 0))[0])
            g2 = rules.newGame(lay, me, ghosts, disp, True, catch)
            equal(pac.view(g2.state), board.start(min(n, k)), "state of a second game on the same layout")
            st.step(2)
            st.state((bname, k, catch))
    st.trace()


def case_whole(st, bname, plan):
    """Long games through newGame with agents that follow a plan, all options of the loop."""
    board = Board(BOARDS[bname])
    n = len(board.start()[0])
    choices, m, i = [], board.start(), 0
    for k in range(60):
        if m[4]:
            break
        legal = sorted(board.legal(m, i))
        c = (k * plan + plan + i) % len(legal)
        if plan % 2:        # avoid the end for a while
            ok = [j for j, a in enumerate(legal) if board.move(m, i, a)[4] is None]
            c = ok[(k * plan) % len(ok)] if ok and k < 45 else c
        choices.append(c)
        m = board.move(m, i, legal[c])
        i = (i + 1) % n
    for catch, mute in itertools.product((0, 1), repeat=2):
        for cb in CALLBACKS[:3]:
            compare(board, Script(board, choices, cb), predict(board, choices, cb, None, 0, n, catch), 0, catch, mute, None, st)


def case_many(st, catch, who):
    """Three rounds of fifteen agents: every agent begins, fails in every way, is slow at every point."""
    board = Board(BIG["crowd"])
    n = len(board.start()[0])

    def plan(start):
        choices, m, i = [], board.start(), start
        while len(choices) < 46 and not m[4]:
            legal = sorted(board.legal(m, i))
            c = (len(choices) + len(choices) // n) % len(legal)
            safe = [j for j, a in enumerate(legal) if not board.move(m, i, a)[4]]
            c = safe[c % len(safe)] if safe else c
            choices.append(c)
            m = board.move(m, i, legal[c])
            i = (i + 1) % n
        return choices
    for start in sorted({0, who}):
        choices = plan(start)
        require(len(choices) > 2 * n, "plan of a game of fifteen agents")
        where = f"game of {n} agents, {len(choices)} moves from agent {start}"
        for mute in (0, 1):
            for cb in CALLBACKS[:3]:
                compare(board, Script(board, choices, cb), predict(board, choices, cb, None, start, n, catch), start, catch, mute, None, st, where=where)
        for cb in (CALLBACKS[1], ()):
            compare(board, Script(board, choices, cb), predict(board, choices, cb, None, start, n, catch, who), start, catch, 0, who, st,
                    where=f"{where}, agent {who} not loaded")
            for point, kind, nth in itertools.product(POINTS[1:], ("raise", "hang", "illegal", "none"), (1, 2, 3)):
                if point != "act" and (point not in cb or kind in ("illegal", "none") or point != "observe" and nth > 1) or \
                        kind == "hang" and (not catch or point == "final"):
                    continue
                fault = (who, point, nth, kind)
                compare(board, Script(board, choices, cb, fault), predict(board, choices, cb, fault, start, n, catch), start, catch, nth % 2, None, st,
                        where=f"{where}, {kind} of agent {who} at {point} {nth}")
    if catch:
        limits = {"move": 5, "warn": 3, "start": 7, "total": tuple(9 + 2 * i for i in range(n)), "warnings": tuple(i % 3 for i in range(n))}
        for first, durs in itertools.product((0, 6, 8), itertools.product((0, 2, 4, 6), repeat=3)):
            d = {(who, "act", k + 1): x for k, x in enumerate(durs)}
            d[who, "start", 1] = first
            for other in {(who + 1) % n, (who + 11) % n}:
                d.update({(other, "start", 1): 6, (other, "act", 1): 2})
            want, why = timed_prediction(board, plan_safe(board, n), ("start", "observe"), d, n, limits)
            compare(board, Script(board, plan_safe(board, n), ("start", "observe"), durations=d), want, 0, 1, 0, None, st, limits,
                    f"{n} agents, durations {d}, limits {limits}: expected {why}")
    pac.quiet_explored()


def plan_safe(board, n):
    """timed_prediction takes the first legal move throughout."""
    m, k = board.start(), 0
    while k < 46 and not m[4]:
        m = board.move(m, k % n, sorted(board.legal(m, k % n))[0])
        k += 1
    return [0] * k


def inner_game(catch, mute, end, seconds, seen):
    """A game as an agent may play it in order to think; its agents take some seconds in all and print."""
    board = board_of("last")

    class Player:
        def __init__(self, i):
            self.i = i

        def getAction(self, state):
            print("(inside)")
            print("(inside)", file=sys.stderr)
            vclock.advance(seconds)
            if end == "failure":
                raise Boom("failing agent of the inner game")
            if end == "timeout":
                vclock.advance(1000)
            return sorted(state.getLegalActions(self.i))[0]
    rules = Rules({"move": 2, "start": 2})
    g = game.Game([Player(0), Player(1)], Display(), rules, muteAgents=bool(mute), catchExceptions=bool(catch))
    g.state = pac.start(board)
    rules.initialState = g.state.deepCopy()

    def play():
        streams = sys.stdout, sys.stderr
        ok, res = attempt(g.run)
        seen.append((ok, bool(g.gameOver), bool(g.agentCrashed), bool(g.agentTimeout), catch and (sys.stdout, sys.stderr) != streams,
                     [o.getvalue().count("(inside)") > 0 for o in g.agentOutput]))
        if not ok:
            sys.stdout, sys.stderr = streams
    return play


def case_nested(st, catch, mute):
    """An agent plays a game of its own inside of a callback; then the outer game goes on under its own rules."""
    board, n, cb = board_of("corridor"), 2, CALLBACKS[1]
    choices = [0] * 5
    limits = {"move": 9, "start": 9, "warn": 100, "total": 10 ** 6, "warnings": 9}
    for icatch, imute, end in itertools.product((0, 1), (0, 1), ("win", "failure", "timeout")):
        if end == "timeout" and not icatch:
            continue
        for i, point, nth in itertools.product(range(n), POINTS[1:4], (1, 2)):
            if point == "start" and nth > 1:
                continue
            for then in (None, "raise", "hang", "late", "in time"):
                if then in ("hang", "late") and not catch:
                    continue
                fault = (i, point, nth, then) if then in ("raise", "hang") else (i, point, nth, "hang") if then == "late" else None
                script = Script(board, choices, cb, fault if then != "late" else None)
                seen = []
                play = inner_game(icatch, imute, end, 1 if then in ("late", "in time") and end == "win" else 0, seen)

                def whole():
                    play()
                    if then == "late":      # past the limit since the call began
                        vclock.advance(60)
                    if then == "in time":
                        vclock.advance(1)
                script.inside[i, point, nth] = whole
                where = (f"agent {i} plays a game{' with muted agents' if imute else ''}{', failures contained' if icatch else ''}, that ends with a {end}, "
                         f"in its call {nth} of {point}, then {then or 'goes on'}; outer game catch {catch}, mute {mute}")
                want = predict(board, choices, cb, fault, 0, n, catch)
                compare(board, script, want, 0, catch, mute, None, st, limits=limits, where=where)
                equal(len(seen), 1, f"{where}: games played inside")
                ok, over, crashed, timed, lost, printed = seen[0]
                equal(ok, end == "win" or bool(icatch), f"{where}: inner game ends by itself")
                require(not lost, f"{where}: inner game does not restore the output streams")
                if ok:
                    equal((over, crashed, timed), (True, end != "win", end == "timeout"), f"{where}: inner game over, crashed, timed out")
                equal(printed[0], bool(imute), f"{where}: output of the agents of the inner game kept")
                st.state((i, point, nth, then, icatch, imute, end, catch, mute))


def case_long(st, catch, mute):
    """A game of many moves, and failures late in it."""
    board, n = Board(["%%%%%%%%%%", "%.P  %G  %", "%%%%%%%%%%"]), 2
    choices, m, i = [], board.start(), 0
    while m[4] is None:
        legal = sorted(board.legal(m, i))
        c = len(choices) // 2 % len(legal)
        if i == 0 and len(choices) >= 1200:
            c = legal.index("West")
        elif i == 0 and board.move(m, 0, legal[c])[4]:
            c = legal.index("East")
        choices.append(c)
        m = board.move(m, i, legal[c])
        i = (i + 1) % n
    require(m[4] == "win" and len(choices) > 1190, "plan of the long game")
    for cb in CALLBACKS[:3]:
        compare(board, Script(board, choices, cb), predict(board, choices, cb, None, 0, n, catch), 0, catch, mute, None, st, where=f"game of {len(choices)} moves")
        for i in range(n):
            for nth in (2, 33, 101, 257, 512, 599):
                for point, kind in (("act", "raise"), ("act", "illegal"), ("observe", "raise"), ("act", "hang"), ("observe", "hang")):
                    if point == "observe" and point not in cb or kind == "hang" and not catch:
                        continue
                    fault = (i, point, nth, kind)
                    compare(board, Script(board, choices, cb, fault), predict(board, choices, cb, fault, 0, n, catch), 0, catch, mute, None, st,
                            where=f"game of {len(choices)} moves, {kind} of agent {i} at {point} {nth}")
    pac.quiet_explored()


def case_patience(st, part):
    """Many moves of one second against a limit of the total; many slow moves against a number of warnings."""
    board, n = Board(["%%%%%%%%%%", "%P  %. G %", "%%%%%%%%%%"]), 2
    cb = (("start", "observe"), ())[part % 2]
    who = part // 2
    for k in (2, 9, 31, 64, 100, 140, 257, 299):
        d = {(who, "act", j): 1 for j in range(1, 301)}
        limits = {"move": 5, "warn": 3, "start": 7, "total": k + 0.5, "warnings": 2}
        want, why = timed_prediction(board, [0] * 600, cb, d, n, limits)
        compare(board, Script(board, [0] * 600, cb, durations=d), want, 0, 1, part % 2, None, st, limits, f"moves of 1 second, total limit {k + 0.5}: expected {why}")
    for k in (2, 9, 31, 64, 100):
        d = {(who, "act", j): 0.75 for j in range(1, 301)}
        limits = {"move": 5, "warn": 3, "start": 7, "total": k + 0.1, "warnings": 2}
        want, why = timed_prediction(board, [0] * 600, cb, d, n, limits)
        compare(board, Script(board, [0] * 600, cb, durations=d), want, 0, 1, part % 2, None, st, limits, f"moves of 0.75 seconds, total limit {k + 0.1}: expected {why}")
    for k in (0, 1, 2, 7, 30, 63, 140):
        d = {(who, "act", j): 4 for j in range(1, 301) if j % 2}
        limits = {"move": 5, "warn": 3, "start": 7, "total": 10 ** 6 + 0.5, "warnings": k}
        want, why = timed_prediction(board, [0] * 600, cb, d, n, limits)
        compare(board, Script(board, [0] * 600, cb, durations=d), want, 0, 1, part % 2, None, st, limits, f"slow moves of 4 seconds, {k} of them allowed: expected {why}")
    pac.quiet_explored()


def case_recorded(st):
    """runGames: every game starts afresh, is recorded as played and reported."""
    board = board_of("last")
    for count in (1, 2, 3, 12):
        class Always:
            def __init__(self, i):
                self.i = i

            def getAction(self, s):
                return sorted(s.getLegalActions(self.i))[0]
        lay = pac.layout_module.Layout(list(board.text))
        old, out = sys.stdout, io.StringIO()
        before = set(os.listdir("."))
        sys.stdout = out
        try:
            games = pacman.runGames(lay, Always(0), [Always(1)], Display(), count, True)
        finally:
            sys.stdout = old
        equal(len(games), count, "games returned")
        m, i, moves = board.start(), 0, []
        while m[4] is None:
            a = sorted(board.legal(m, i))[0]
            moves.append((i, a))
            m = board.move(m, i, a)
            i = 1 - i
        for g in games:
            equal(pac.view(g.state), m, "final state of a game")
            equal([tuple(x) for x in g.moveHistory], moves, "history of a game")
        files = sorted(set(os.listdir(".")) - before)
        equal(len(files), count, "recorded games")
        for f in files:
            with open(f, "rb") as h:
                rec = pickle.load(h)
            equal([tuple(x) for x in rec["actions"]], moves, "recorded moves")
            equal(str(rec["layout"]), "\n".join(board.text), "recorded layout")
            os.remove(f)
        text = out.getvalue()
        require(f"Average Score: {float(m[3])}" in text, f"reported average in {text!r}")
        require(("%d/%d" % (count if m[4] == "win" else 0, count)) in text, "reported win rate")
        st.step(count)
    st.trace()


def case_timeout(st):
    """TimeoutFunction alone: results, failures, nesting of limits and functions that end just in time."""
    for limit, dur, nested, fails in itertools.product((1, 2, 5), (0, 0.5, 1.5, 3, 7), (None, 1, 4), (False, True)):
        def inner():
            vclock.advance(dur)
            if fails:
                raise Boom("x")
            return "inner"

        calls = []

        def work(*a, **k):
            calls.append((a, k))
            return inner()
        old = signal.getsignal(signal.SIGALRM)
        with vclock.running() as clock:
            ok, res = attempt(lambda: util_timeout(work, limit)(1, k=2))
            deadline = clock.deadline
            again = attempt(lambda: util_timeout(lambda: 5, limit)())
            clock.now += 100
            calm = attempt(lambda: vclock.advance(100))
        require(signal.getsignal(signal.SIGALRM) == old, "handler after a timed call")
        equal(calls, [((1,), {"k": 2})], "arguments of a timed call")
        late = dur > limit
        where = f"timed call of {dur} s with limit {limit} s {'that fails' if fails else ''}"
        equal(ok, not late and not fails, where)
        if ok:
            equal(res, "inner", where)
        else:
            require(isinstance(res, pac.util.TimeoutFunctionException) if late else isinstance(res, Boom), f"{where}: {res!r}")
        equal(deadline, None, f"{where}: pending alarm")
        equal(again, (True, 5), f"{where}: next timed call")
        require(calm[0], "an alarm after the call")
        st.step()
        st.state((limit, dur, fails))
    st.trace()


def util_timeout(f, limit):
    return pac.util.TimeoutFunction(f, limit)

"""Keys and clicks in the window reach the program, after every history of events and questions."""
import contextlib
import io
import itertools

from .. import vclock
from .. import tk
tk.install()
from .. import pac                                    # noqa: E402
from ..core import Violation, equal, require          # noqa: E402
from ..numbers import Numbers                         # noqa: E402
from ..pac import BOARDS, Board, game, pacman, util    # noqa: E402

import graphicsDisplay                                # noqa: E402
import graphicsUtils                                  # noqa: E402
import keyboardAgents                                 # noqa: E402

ID = "D09"
ASSUMPTIONS = ["the window system is a stand-in: it hands over one event at a time, in order, when the program lets the window work",
               "which of several buttons clicked is handed out first is left open",
               "which of several pressed legal directions is taken is left open"]


def bounds(tier):
    d = 7 if tier == "thorough" else 6
    return (f"all histories of {d} steps out of press and release of two keys, focus in and out, keys_pressed, keys_waiting, sleep and a new window; "
            "wait_for_keys with every history of up to 4 timed events (5 kinds, 3 gaps, 3 situations before); wait_for_click with every history of 6 out of "
            "4 kinds of clicks and questions, and with clicks arriving later; closing of the window in each of 5 calls; up to 40 keys at once, every first, "
            "2nd, 3rd, 5th or none let go and pressed again; either keyboard agent asked with every set of its keys, and with up to 12 other keys, where any set of ways is open; complete games of a "
            f"keyboard agent in the window by every sequence of {5 if tier == 'thorough' else 4} out of 8 things done at the keyboard, on 4 boards")


def cases(tier):
    d = 7 if tier == "thorough" else 6
    out = [["keys", k, d] for k in range(100)]
    out += [["wait", b, g] for b in range(3) for g in range(9)]
    out += [["click", k, 6] for k in range(5)] + [["late"], ["close"], ["sleep"]]
    out += [["sets", k, 16] for k in range(16)] + [["chord"]]
    out += [["game", b, k, 5 if tier == "thorough" else 4] for b in ("room", "corridor", "loop", "plaza") for k in range(8)]
    return out


def run_case(case, st):
    tk.reset()
    with vclock.running():
        globals()["case_" + case[0]](st, *case[1:])


def window():
    tk.reset()
    graphicsUtils.begin_graphics(100, 80)
    tk.screen.delivered.clear()


class Held:
    """What the events handled so far say about the keyboard."""

    def __init__(self):
        self.seen, self.down, self.fresh = 0, set(), set()

    def event(self, kind, key):
        if kind == "<KeyPress>":
            self.down.add(key)
            self.fresh.add(key)
        elif kind == "<KeyRelease>":
            self.down.discard(key)
        elif kind in ("<FocusIn>", "<FocusOut>"):
            self.down, self.fresh = set(), set()

    def follow(self):
        for kind, e in tk.screen.delivered[self.seen:]:
            self.event(kind, e.keysym)
        self.seen = len(tk.screen.delivered)
        return self.down


EVENTS = {"+a": ("<KeyPress>", "a"), "+b": ("<KeyPress>", "b"), "-a": ("<KeyRelease>", "a"), "-b": ("<KeyRelease>", "b"),
          "in": ("<FocusIn>", ""), "out": ("<FocusOut>", "")}
OPS = list(EVENTS) + ["pressed", "waiting", "sleep", "window"]


def ask_pressed(h, where):
    queue = list(tk.screen.queue)
    n = len(tk.screen.delivered)
    got = sorted(graphicsUtils.keys_pressed())
    done = tk.screen.delivered[n:]
    want = sorted(h.follow())
    if got != want:
        raise Violation(f"{where}: keys_pressed() is {got}, held are {want}")
    if queue and not done:
        raise Violation(f"{where}: keys_pressed() does not handle a pending event")
    if len(queue) > 1 and queue[0][0] == "<KeyRelease>" and queue[1][0] == "<KeyPress>":
        x = queue[0][1].keysym
        if x == queue[1][1].keysym and x not in got:
            raise Violation(f"{where}: the repeating key {x} seems released")


def ask_waiting(h, where):
    h.follow()
    got = sorted(graphicsUtils.keys_waiting())
    want = sorted(h.fresh)
    h.follow()
    h.fresh = set()
    if got != want:
        raise Violation(f"{where}: keys_waiting() is {got}, pressed since the last call are {want}")


def case_keys(st, part, depth):
    first = (OPS[part // 10], OPS[part % 10])
    for rest in itertools.product(OPS, repeat=depth - 2):
        seq = first + rest
        window()
        h = Held()
        for op in seq:
            if op in EVENTS:
                tk.screen.post(EVENTS[op][0], keysym=EVENTS[op][1], char=EVENTS[op][1])
            elif op == "pressed":
                ask_pressed(h, seq)
            elif op == "waiting":
                ask_waiting(h, seq)
            elif op == "sleep":
                graphicsUtils.sleep(0.05)
                h.follow()
                require(not tk.screen.queue, f"{seq}: sleep does not handle events")
            else:
                h = Held()
                graphicsUtils.begin_graphics(100, 80)
                tk.screen.queue.clear()
                h.seen = len(tk.screen.delivered)
                equal(len(tk.screen.open()), 1, "open windows")
        while tk.screen.queue:
            ask_pressed(h, seq)
        ask_pressed(h, seq)
        ask_waiting(h, seq)
        ask_waiting(h, seq)
        st.step(depth)
        st.trace()
    st.state((first, depth))
    graphicsUtils.end_graphics()
    require(not tk.screen.open(), "end_graphics closes the window")


def patient(seconds=60):
    """From now on the program may wait this long."""
    end = vclock.clock.now + seconds

    def give_up():
        if vclock.clock.now > end:
            raise tk.Blocked()
    tk.screen.on_wait = give_up


GAPS = (0.02, 0.12, 0.7)
BEFORE = ([], ["+a"], ["+a", "-a"])
LATER = ["+a", "+b", "-a", "-b", "out"]


def case_wait(st, before, gaps):
    for n in range(5):
        for seq in itertools.product(LATER, repeat=n):
            window()
            h = Held()
            for op in BEFORE[before]:
                tk.screen.post(EVENTS[op][0], keysym=EVENTS[op][1])
            if gaps % 2:
                graphicsUtils.sleep(0.1)
            t, moments = 0.0, []
            for k, op in enumerate(seq):
                t += GAPS[(gaps + k * (gaps // 3)) % 3]
                tk.screen.post_at(t, EVENTS[op][0], keysym=EVENTS[op][1])
                moments.append(t)
            h.follow()
            model, kept, since = Held(), [(0.0, frozenset(h.down))], None
            for op in BEFORE[before]:
                model.event(*EVENTS[op])
                kept += [(0.0, frozenset(model.down))] * (gaps % 2 == 0)
            for op, at in zip(seq, moments):
                model.event(*EVENTS[op])
                kept.append((at, frozenset(model.down)))
            start = vclock.clock.now
            patient(30)
            where = f"{BEFORE[before]} and then {list(zip(seq, moments))}"
            try:
                got = frozenset(graphicsUtils.wait_for_keys())
            except tk.Blocked:
                long = [k for k, (at, d) in enumerate(kept) if d and (k + 1 == len(kept) or kept[k + 1][0] - at > 0.3)]
                require(not long, f"{where}: wait_for_keys() does not see the keys")
                got = None
            took = vclock.clock.now - start
            tk.screen.on_wait = None
            if got is not None:
                require(got, f"{where}: wait_for_keys() returns without a key")
                first = min([at for at, d in kept if d], default=None)
                require(first is not None and took >= first - 0.001, f"{where}: {sorted(got)} returned before a key was pressed")
                states = {d for at, d in kept if at <= took + 0.001}
                require(got in states, f"{where}: wait_for_keys() returns {sorted(got)}, which were never held together")
                ends = [at for k, (at, d) in enumerate(kept) if d and (k + 1 == len(kept) or kept[k + 1][0] - at > 0.3)]
                require(not ends or took <= min(ends) + 1, f"{where}: wait_for_keys() returns after {took}")
            st.step()
            st.trace()
    st.state((before, gaps))


CLICKS = {"left": "<Button-1>", "middle": "<Button-2>", "right": "<Button-3>", "ctrl": "<Control-Button-1>"}
BUTTON = {"<Button-1>": "left", "<Button-2>": "right", "<Button-3>": "right", "<Control-Button-1>": "ctrl_left"}


class Clicks:
    def __init__(self):
        self.seen, self.open = len(tk.screen.delivered), {}

    def follow(self):
        for kind, e in tk.screen.delivered[self.seen:]:
            if kind in BUTTON:
                self.open[BUTTON[kind]] = (e.x, e.y)
        self.seen = len(tk.screen.delivered)

    def ask(self, where):
        """One call; expects some click, queued or still to come."""
        patient(20)
        try:
            got = graphicsUtils.wait_for_click()
        except tk.Blocked:
            self.follow()
            require(not self.open, f"{where}: wait_for_click() does not see {self.open}")
            return False
        finally:
            tk.screen.on_wait = None
        self.follow()
        pos, button = got
        if self.open.get(button) != tuple(pos):
            raise Violation(f"{where}: wait_for_click() returns {got}, not yet handed out are {self.open}")
        del self.open[button]
        return True


def drain():
    """Take the clicks an earlier history left."""
    window()
    patient(1)
    with contextlib.suppress(tk.Blocked):
        for _ in range(9):
            graphicsUtils.wait_for_click()
    tk.screen.on_wait = None


def case_click(st, part, depth):
    ops = list(CLICKS) + ["ask"]
    for rest in itertools.product(ops, repeat=depth - 1):
        seq = (ops[part],) + rest
        drain()
        c = Clicks()
        for k, op in enumerate(seq):
            if op != "ask":
                tk.screen.post(CLICKS[op], x=k * 3 - 3, y=(k * 7 - 7) % 11)
                continue
            if not c.ask(seq):
                require(not tk.screen.queue, f"{seq}: events are left")
        graphicsUtils.sleep(0.1)
        c.follow()
        while c.open:
            c.ask(seq)
        require(not c.ask(seq), f"{seq}: a click that was not there")
        st.step(depth)
        st.trace()
    st.state((part, depth))


def case_late(st):
    for n in (1, 2, 3):
        for seq in itertools.product(list(CLICKS), repeat=n):
            for gap in (0.01, 0.3):
                drain()
                c = Clicks()
                for k, op in enumerate(seq):
                    tk.screen.post_at((k + 1) * gap, CLICKS[op], x=k, y=0)
                start = vclock.clock.now
                c.ask(seq)
                took = vclock.clock.now - start
                require(gap - 0.001 <= took <= gap + 1, f"{seq}: a click after {gap} is handed out after {took}")
                if gap > 0.1:
                    for k in range(1, n):
                        require(c.ask(seq), f"{seq}: click {k} is lost")
                st.step()
                st.trace()
    st.state("late")


def case_sleep(st):
    for secs in (0, 0.01, 0.05, 0.1, 0.25, 1, 2.5, 10):
        for shown in (0, 1):
            if shown:
                window()
            else:
                graphicsUtils.end_graphics()
                tk.reset()
            h = Held()
            for k in range(4):
                tk.screen.post_at(secs * k / 4, "<KeyPress>", keysym="abcd"[k])
            t = vclock.clock.now
            graphicsUtils.sleep(secs)
            took = vclock.clock.now - t
            require(abs(took - secs) < 0.002, f"sleep({secs}) takes {took}")
            if shown:
                graphicsUtils.sleep(0.01)
                equal(sorted(graphicsUtils.keys_waiting()), list("abcd"), f"keys of sleep({secs})")
            st.step()
            st.trace()
    st.state("sleep")


def case_close(st):
    """The program ends when its window is closed."""
    calls = {"keys_pressed": lambda: graphicsUtils.keys_pressed(), "wait_for_keys": lambda: graphicsUtils.wait_for_keys(),
             "wait_for_click": lambda: graphicsUtils.wait_for_click(), "sleep": lambda: graphicsUtils.sleep(0.1)}
    for name, f in calls.items():
        for late in (0, 0.02):
            if late and name == "keys_pressed":
                continue
            window()
            tk.screen.post_at(late, "WM_DELETE_WINDOW")
            patient(5)
            try:
                f()
                raise Violation(f"{name} goes on although the window was closed")
            except SystemExit:
                pass
            except tk.Blocked:
                raise Violation(f"{name} waits although the window was closed")
            st.step()
    for late in (0, 0.5):
        window()
        tk.screen.post_at(late, "WM_DELETE_WINDOW")
        with contextlib.redirect_stdout(io.StringIO()):
            graphicsUtils.end_graphics()
        graphicsUtils.sleep(0)
        st.step()
    st.state("close")
    st.trace()


# ---------------------------------------------------------------- games

class Over(BaseException):
    pass


KEYMAP = {"a": "West", "d": "East", "w": "North", "s": "South", "q": "Stop", "Left": "West", "Right": "East", "Up": "North", "Down": "South"}
DONE = ("nothing", "a", "d", "w", "s", "q", "hold Up", "hold Left")


KEYMAP2 = {"j": "West", "l": "East", "i": "North", "k": "South", "u": "Stop"}


def allowed(keys, last, legal, keymap=KEYMAP):
    dirs = {keymap[k] for k in keys if k in keymap}
    if "Stop" in dirs and "Stop" in legal:
        return {"Stop"}
    go = (dirs - {"Stop"}) & legal
    if go:
        return go
    if last in legal:
        return {last}
    return {"Stop"} if "Stop" in legal else set(legal)


class Watched:
    """The agent under test, watched: what it could know of the keyboard, and what it does."""
    keymap = KEYMAP

    def watch(self, board, log, turns):
        self.board, self.log, self.turns = board, log, turns
        self.last_keys, self.last, self.past, self.down = [()], "Stop", [set()], set()
        self.seen = 0
        self.fresh = set()
        return self

    def follow(self, end):
        for kind, e in tk.screen.delivered[self.seen:end]:
            if kind == "<KeyPress>":
                self.down.add(e.keysym)
                self.fresh.add(e.keysym)
            elif kind == "<KeyRelease>":
                self.down.discard(e.keysym)
        self.seen = end

    def getAction(self, state):
        if len(self.log) >= self.turns:
            raise Over()
        self.follow(len(tk.screen.delivered))
        early = set(self.fresh)
        with Numbers(0.4):
            a = super().getAction(state)
        self.fresh = set()                    # pressed while it was deciding: known now, or the next time
        self.follow(len(tk.screen.delivered))
        late = set(self.fresh)
        keys = [early | self.down, early | late | self.down]
        m = pac.view(state)
        legal = self.board.legal(m, 0)
        want = set()
        now = []
        for k in keys:
            for old in self.last_keys:
                u = tuple(sorted(k)) or old
                want |= allowed(u, self.last, legal, self.keymap)
                now.append(u)
        if a not in want:
            raise Violation(f"{self.log}: with keys {keys[0]} (before: {self.last_keys}) the player moves {a}, expected one of {sorted(want)}")
        self.last_keys = sorted(set(now))
        self.last = a
        self.log.append(a)
        return a


class Player(Watched, keyboardAgents.KeyboardAgent):
    pass


class Player2(Watched, keyboardAgents.KeyboardAgent2):
    keymap = KEYMAP2


OTHER = ["z", "A", "space", "Return", "F1", "e", "x", "1", "Shift_L", "Tab", "c", "v"]


def case_sets(st, part, parts):
    """Every set of keys of either agent held, with others, where every set of ways is open, after a move in each direction."""
    n = 0
    for ways in itertools.product((0, 1), repeat=4):
        up, down, left, right = ("% "[w] for w in ways)
        board = Board(["%%%%%", "%G%.%", f"%{'%'}{up}{'%'}%", f"%{left}P{right}%", f"%{'%'}{down}{'%'}%", "%%%%%"])
        state = pac.start(board)
        for cls in (Player, Player2):
            keys = list(cls.keymap)
            for held in itertools.product((0, 1), repeat=len(keys)):
                held = [k for k, h in zip(keys, held) if h]
                n += 1
                if n % parts != part:
                    continue
                for last, more in ((None, 0), (keys[0], 3), (keys[1], 0), (keys[2], 12), (keys[3], 1)):
                    window()
                    player = cls().watch(board, [], 99)
                    if last:
                        tk.screen.post("<KeyPress>", keysym=last, char=last[:1])
                        graphicsUtils.sleep(0.1)
                        player.getAction(state)
                        tk.screen.post("<KeyRelease>", keysym=last, char=last[:1])
                        graphicsUtils.sleep(0.1)
                    for k in OTHER[:more // 2] + held + OTHER[more // 2:more]:
                        tk.screen.post("<KeyPress>", keysym=k, char=k[:1])
                    graphicsUtils.sleep(0.1)
                    player.getAction(state)
                    for k in held[:1]:
                        tk.screen.post("<KeyRelease>", keysym=k, char=k[:1])
                    graphicsUtils.sleep(0.1)
                    player.getAction(state)
                    for k in held[1:] + OTHER[:more]:
                        tk.screen.post("<KeyRelease>", keysym=k, char=k[:1])
                    graphicsUtils.sleep(0.1)
                    player.getAction(state)
                    st.step(4)
                st.state((ways, cls.__name__, tuple(held)))
                st.trace()


def case_chord(st):
    """Many keys held at once, some let go."""
    for n in range(41):
        names = [f"k{i}" for i in range(n)]
        for every, order in itertools.product((1, 2, 3, 5, n + 1), (1, -1)):
            for end in (None, "<FocusIn>", "<FocusOut>"):
                window()
                h = Held()
                for k in names:
                    tk.screen.post("<KeyPress>", keysym=k)
                graphicsUtils.sleep(0.1)
                ask_pressed(h, f"{n} keys held")
                for k in names[::every][::order]:
                    tk.screen.post("<KeyRelease>", keysym=k)
                graphicsUtils.sleep(0.1)
                ask_pressed(h, f"{n} keys held, every {every}. let go")
                if end:
                    tk.screen.post(end)
                    graphicsUtils.sleep(0.1)
                ask_waiting(h, f"{n} keys held, every {every}. let go")
                for k in names[::every]:
                    tk.screen.post("<KeyPress>", keysym=k)
                graphicsUtils.sleep(0.1)
                ask_pressed(h, f"{n} keys held, every {every}. let go and pressed again")
                ask_waiting(h, f"{n} keys held, every {every}. let go and pressed again")
                ask_waiting(h, f"{n} keys held, nothing new")
                if len(names[::every]) and every > 1:
                    patient(5)
                    got = sorted(graphicsUtils.wait_for_keys())
                    tk.screen.on_wait = None
                    equal(got, sorted(h.down), f"wait_for_keys() with {n} keys")
                st.step(4)
        st.state(n)
        st.trace()


class Ghost(game.Agent):
    """Takes the first or the last of its legal moves."""

    def getAction(self, state):
        legal = sorted(state.getLegalActions(self.index))
        return legal[self.index % 2 - 1]


def case_game(st, bname, part, depth):
    board = Board(BOARDS[bname])
    tried = 0
    for n, seq in enumerate(itertools.product(DONE, repeat=depth)):
        if n % 8 != part:
            continue
        tk.reset()
        for k, what in enumerate(seq):
            if what == "nothing":
                continue
            key, at = what.split()[-1], 0.1 * k + 0.03
            tk.screen.post_at(at, "<KeyPress>", keysym=key, char=key[:1])
            if what.startswith("hold"):
                for j in range(3):
                    tk.screen.post_at(at + 0.05 + 0.03 * j, "<KeyRelease>", keysym=key, char=key[:1])
                    tk.screen.post_at(at + 0.05 + 0.03 * j, "<KeyPress>", keysym=key, char=key[:1])
                tk.screen.post_at(at + 0.25, "<KeyRelease>", keysym=key, char=key[:1])
            else:
                tk.screen.post_at(at + 0.02, "<KeyRelease>", keysym=key, char=key[:1])
        log = []
        player = Player().watch(board, log, depth + 4)
        display = graphicsDisplay.PacmanGraphics(1.0, 0.1)
        ghosts = [Ghost(i + 1) for i in range(len(board.start()[0]) - 1)]
        patient(1000)
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out), Numbers(0.4):
                games = pacman.runGames(layout=pac.layout_module.Layout(list(board.text)), pacman=player, ghosts=ghosts, display=display,
                                        numGames=1, record=False, catchExceptions=False, timeout=30)
            m = pac.view(games[0].state)
            require(m[4], "a game is over when runGames returns")
            require(not tk.screen.open(), "the window is closed after the game")
            require(str(m[3]) in out.getvalue(), "the score is reported")
        except Over:
            pass
        pac.quiet_explored()
        st.step(len(log))
        st.state((bname, seq))
        st.trace()
        tried += 1
    require(tried, "games were played")

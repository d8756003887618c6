"""
A window system under the check's control, in place of tkinter: canvases keep their items, input events are
delivered when the program lets the window work, time is virtual. Import before the code under test.
"""
import sys
import types

from . import vclock


class Blocked(BaseException):
    """The program waits for something that never comes."""


class TclError(Exception):
    pass


class Event:
    def __init__(self, **kw):
        self.char, self.keysym, self.keycode, self.x, self.y, self.num = "", "", 0, 0, 0, 0
        self.__dict__.update(kw)


ALIAS = {"<Key>": "<KeyPress>", "<ButtonPress-1>": "<Button-1>", "<1>": "<Button-1>", "<ButtonPress-2>": "<Button-2>",
         "<ButtonPress-3>": "<Button-3>", "<Control-ButtonPress-1>": "<Control-Button-1>", "<2>": "<Button-2>", "<3>": "<Button-3>"}


class Screen:
    """All windows, pending input (queued now, or due at a time) and an observer called whenever the program lets time pass."""

    def __init__(self):
        self.windows, self.queue, self.timed, self.delivered, self.on_wait = [], [], [], [], None

    def open(self):
        return [w for w in self.windows if not w.destroyed]

    def post(self, kind, **kw):
        self.queue.append((kind, Event(**kw)))

    def post_at(self, delay, kind, **kw):
        self.timed.append((vclock.clock.now + delay, len(self.timed), kind, kw))
        self.timed.sort(key=lambda t: t[:2])


screen = Screen()


def reset():
    screen.__init__()


class Misc:
    def __init__(self):
        self.bound, self.destroyed = {}, False

    def bind(self, sequence=None, func=None, add=None):
        sequence = ALIAS.get(sequence, sequence)
        self.bound[sequence] = self.bound.get(sequence, []) * bool(add) + [func]

    def _alive(self):
        if self.destroyed:
            raise TclError("application has been destroyed")


class Tk(Misc):
    def __init__(self, *a, **k):
        super().__init__()
        self.children_, self.timers, self.quitting, self.ids = [], [], False, 0
        screen.windows.append(self)

    def protocol(self, name=None, func=None):
        self._alive()
        self.bound[name] = [func]

    wm_protocol = protocol

    def title(self, *a):
        self._alive()

    resizable = geometry = wm_title = wm_resizable = wm_geometry = title

    def destroy(self):
        self._alive()
        self.destroyed = True
        for c in self.children_:
            c.destroyed = True

    def after(self, ms, func=None, *args):
        self._alive()
        if func is None:
            return vclock.advance(ms / 1000)
        self.ids += 1
        self.timers.append((vclock.clock.now + int(ms) / 1000, self.ids, func, args))
        self.timers.sort(key=lambda t: t[:2])
        return f"after#{self.ids}"

    def after_cancel(self, i):
        self.timers = [t for t in self.timers if f"after#{t[1]}" != i]

    def _arrive(self):
        while screen.timed and screen.timed[0][0] <= vclock.clock.now:
            _, _, kind, kw = screen.timed.pop(0)
            screen.post(kind, **kw)

    def _one(self):
        """Handle one event; False when there is none."""
        self._arrive()
        if screen.queue:
            kind, ev = screen.queue.pop(0)
            screen.delivered.append((kind, ev))
            for w in [self] + self.children_:
                for f in w.bound.get(kind, []):
                    f(ev)
            return True
        if self.timers and self.timers[0][0] <= vclock.clock.now:
            _, _, func, args = self.timers.pop(0)
            func(*args)
            return True
        return False

    def dooneevent(self, flags=0):
        self._alive()
        if self._one():
            return 1
        if flags & DONT_WAIT:
            return 0
        self._pass()
        return int(self._one())

    def _pass(self):
        due = [t[0] for t in self.timers[:1]] + [t[0] for t in screen.timed[:1]]
        if not due:
            raise Blocked()
        if screen.on_wait:
            screen.on_wait()
        vclock.advance(max(0.0, min(due) - vclock.clock.now))

    def mainloop(self, n=0):
        self._alive()
        self.quitting = False
        while not self.quitting and not self.destroyed:
            if not self._one():
                self._pass()

    def quit(self):
        self.quitting = True

    def update(self):
        self._alive()
        while self._one():
            pass

    def update_idletasks(self):
        self._alive()


DEFAULTS = {"fill": "", "outline": "black", "width": 1, "state": "normal", "text": "", "start": 0.0, "extent": 90.0}
OPTIONS = {"polygon": {"fill", "outline", "smooth", "width", "state", "tags"}, "arc": {"fill", "outline", "extent", "start", "style", "width", "state", "tags"},
           "oval": {"fill", "outline", "width", "state", "tags"}, "rectangle": {"fill", "outline", "width", "state", "tags"},
           "line": {"fill", "width", "smooth", "state", "tags"}, "text": {"fill", "text", "font", "anchor", "width", "state", "tags"},
           "image": {"image", "anchor", "state", "tags"}}


class Canvas(Misc):
    def __init__(self, master=None, **opts):
        super().__init__()
        self.opts, self.items, self.order, self.ids, self.packed = opts, {}, [], 0, False
        master.children_.append(self)

    def pack(self, *a, **k):
        self.packed = True

    grid = place = pack

    def update(self):
        self._alive()

    update_idletasks = update

    def _create(self, kind, coords, opts):
        self._alive()
        flat = []
        for c in coords:
            for v in (c if isinstance(c, (list, tuple)) else [c]):
                flat.extend(v if isinstance(v, (list, tuple)) else [v])
        bad = set(opts) - OPTIONS[kind]
        if bad or len(flat) % 2 or kind in ("arc", "oval", "rectangle", "line") and len(flat) < 4:
            raise TclError(f"create {kind} {coords} {opts}")
        self.ids += 1
        self.items[self.ids] = [kind, [float(v) for v in flat], dict(opts)]
        self.order.append(self.ids)
        return self.ids

    def create_polygon(self, *c, **o):
        return self._create("polygon", c, o)

    def create_arc(self, *c, **o):
        return self._create("arc", c, o)

    def create_oval(self, *c, **o):
        return self._create("oval", c, o)

    def create_rectangle(self, *c, **o):
        return self._create("rectangle", c, o)

    def create_line(self, *c, **o):
        return self._create("line", c, o)

    def create_text(self, *c, **o):
        return self._create("text", c, o)

    def create_image(self, *c, **o):
        return self._create("image", c, o)

    def coords(self, i, *new):
        self._alive()
        if i not in self.items:
            return []
        if new:
            flat = []
            for c in new:
                flat.extend(c if isinstance(c, (list, tuple)) else [c])
            if len(flat) % 2:
                raise TclError(f"coords {new}")
            self.items[i][1] = [float(v) for v in flat]
            return None
        return list(self.items[i][1])

    def move(self, i, dx, dy):
        c = self.coords(i)
        self.coords(i, *[v + (dx, dy)[k % 2] for k, v in enumerate(c)]) if c else None

    def moveto(self, i, x, y):
        c = self.coords(i)
        self.move(i, x - min(c[::2]), y - min(c[1::2])) if c else None

    def itemconfigure(self, i, cnf=None, **opts):
        self._alive()
        if i in self.items:
            opts = {**(cnf or {}), **opts}
            if set(opts) - OPTIONS[self.items[i][0]]:
                raise TclError(f"itemconfigure {self.items[i][0]} {opts}")
            self.items[i][2].update(opts)

    itemconfig = itemconfigure

    def itemcget(self, i, option):
        return str(self.items[i][2].get(option, DEFAULTS.get(option, "")))

    def delete(self, *ids):
        self._alive()
        for i in ids:
            if i == "all":
                self.items, self.order = {}, []
            elif i in self.items:
                del self.items[i]
                self.order.remove(i)

    def _place(self, i, other, up):
        self._alive()
        if i not in self.items:
            return
        if other is not None and other not in self.items:
            raise TclError(f'tagOrId "{other}" doesn\'t match any items')
        self.order.remove(i)
        at = (len(self.order) if up else 0) if other is None else self.order.index(other) + up
        self.order.insert(at, i)

    def tag_lower(self, i, below=None):
        self._place(i, below, 0)

    def tag_raise(self, i, above=None):
        self._place(i, above, 1)

    lower, lift = tag_lower, tag_raise

    def find_all(self):
        return tuple(self.order)

    def type(self, i):
        return self.items[i][0] if i in self.items else None

    def bbox(self, i):
        c = self.coords(i)
        return (min(c[::2]), min(c[1::2]), max(c[::2]), max(c[1::2])) if c else None

    def postscript(self, **k):
        return "%!PS\n"


DONT_WAIT = 2
module = types.ModuleType("tkinter")
module.__path__ = []
module.Tk, module.Canvas, module.TclError, module.Event, module.NW = Tk, Canvas, TclError, Event, "nw"
module.PhotoImage = lambda *a, **k: object()
module._tkinter = types.ModuleType("_tkinter")
module._tkinter.DONT_WAIT, module._tkinter.TclError = DONT_WAIT, TclError
module.TkVersion = 8.6


def install():
    sys.modules["tkinter"] = module

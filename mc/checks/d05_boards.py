"""Layouts, grids, packing and drawing of boards."""
import itertools
import os

from .. import pac
from ..core import Violation, attempt, equal, require
from ..pac import BOARDS, Board, game, layout_module, pacman

ID = "D05"
ASSUMPTIONS = ["layouts are rectangular and have one Pacman where a state is drawn"]
CHARS = " %.oPG1234x"


def bounds(tier):
    return ("layouts: all fillings of boards of up to 4 cells (1x1 to 2x2, 1x4, 4x1) with 11 characters, every pair of characters at every pair "
            "of cells of 5 larger boards up to 7x9; grids: all fillings up to 10 cells, every single cell, complement and stripes of all sizes "
            "up to 13x13 (beyond five packed words), pairs of grids of up to 6 cells of all shapes, of 9x9, 13x10 and 31x8 grids with one filled cell or none, of 8x8 and 4x16 grids with up to two and of 6x4 grids with up to three; drawings of all reachable positions "
            "of 12 boards (limit 400); boards of up to 60 x 40 cells and of up to 60 ghosts filled in 7 patterns; lookup of layout files in every directory up to 3 levels up, "
            "also of the same name in up to 10 directories and with contents which change")


def cases(tier):
    out = [["tiny", w, h, k, 8] for w, h in ((1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (1, 4), (4, 1)) for k in range(8)]
    out += [["pairs", w, h, k, 11] for w, h in ((3, 3), (5, 2), (2, 6), (7, 9), (31, 2)) for k in range(11)]
    out += [["fill", w, h] for w in range(1, 11) for h in range(1, 11) if w * h <= (14 if tier == "thorough" else 10)]
    out += [["sizes", w] for w in range(1, 14)]
    out += [["history", w, h, k] for w, h in ((2, 2), (3, 3), (2, 5)) for k in range(w * h)]
    out += [["equal"], ["files"], ["big"]] + [["vast", w, h] for w, h in ((60, 40), (33, 12), (12, 33), (100, 3), (3, 70))]
    out += [["drawn", b, 4000 if tier == "thorough" else 400] for b in BOARDS]
    return out


def run_case(case, st):
    globals()["case_" + case[0]](st, *case[1:])


# ------------------------------------------------------------------ layouts

def check_layout(text, lay, where):
    b = Board(text)
    equal((lay.width, lay.height), (b.w, b.h), f"{where}: size")
    cells = list(itertools.product(range(b.w), range(b.h)))
    equal({p for p in cells if lay.walls[p[0]][p[1]]}, set(b.walls), f"{where}: walls")
    equal({p for p in cells if lay.isWall(p)}, set(b.walls), f"{where}: isWall")
    equal({p for p in cells if lay.food[p[0]][p[1]]}, set(b.food), f"{where}: food")
    equal(sorted(lay.capsules), sorted(b.capsules), f"{where}: capsules")
    equal([(bool(p), tuple(x)) for p, x in lay.agentPositions], [(i == 0, p) for i, p in b.agents], f"{where}: agents")
    equal((lay.getNumGhosts(), lay.totalFood), (sum(1 for i, _ in b.agents if i), len(b.food)), f"{where}: numbers")
    equal(str(lay), "\n".join(text), f"{where}: text")


def spoil(lay):
    for x in range(lay.width):
        for y in range(lay.height):
            lay.walls[x][y] = not lay.walls[x][y]
            lay.food[x][y] = not lay.food[x][y]
    lay.capsules.append((9, 9))
    lay.agentPositions.append((True, (9, 9)))
    lay.layoutText[0] = "?" * lay.width


def check_text(text, st):
    src = list(text)
    lay = layout_module.Layout(src)
    check_layout(text, lay, f"layout {text}")
    equal(src, list(text), "text after reading")
    copy = lay.deepCopy()
    check_layout(text, copy, f"copy of layout {text}")
    spoil(copy)
    check_layout(text, lay, f"layout {text} after its copy was changed")
    c2 = lay.deepCopy()
    spoil(lay)
    check_layout(text, c2, f"copy of layout {text} after the original was changed")
    st.step(4)
    st.state(tuple(text))


def case_tiny(st, w, h, part, parts):
    for n, cells in enumerate(itertools.product(CHARS, repeat=w * h)):
        if n % parts == part:
            check_text(["".join(cells[r * w:(r + 1) * w]) for r in range(h)], st)
    st.trace()


def case_pairs(st, w, h, part, parts):
    a = CHARS[part]
    cells = list(itertools.product(range(h), range(w)))
    for b in CHARS:
        for n, ((r1, c1), (r2, c2)) in enumerate(itertools.permutations(cells, 2)):
            if w * h > 20 and (n + ord(b)) % 37:
                continue
            grid = [[" "] * w for _ in range(h)]
            grid[r1][c1], grid[r2][c2] = a, b
            check_text(["".join(row) for row in grid], st)
    st.trace()


def case_files(st):
    """A layout is found by name in ./layouts, then here, then the same up to three levels up; the cwd stays."""
    home = os.getcwd()
    top = os.path.join(home, f"d05_{os.getpid()}")
    dirs = [top]
    for n in ("a", "b", "c", "d"):
        dirs.append(os.path.join(dirs[-1], n))
    os.makedirs(dirs[-1])
    texts = {}
    try:
        k = 0
        for place, sub in itertools.product(range(5), ("layouts", "")):
            for cwd in range(place, 5):
                k += 1
                name = f"lay{k}"
                text = ["%%%%%", f"%P.{'oG '[k % 3]}%", "%" * 5]
                folder = os.path.join(dirs[place], sub)
                os.makedirs(folder, exist_ok=True)
                with open(os.path.join(folder, name + ".lay"), "w") as f:
                    f.write("\n".join(text) + ("\n" if k % 2 else ""))
                os.chdir(dirs[cwd])
                for ask in (name, name + ".lay"):
                    lay = layout_module.getLayout(ask)
                    equal(os.getcwd(), dirs[cwd], "current directory after looking up a layout")
                    if cwd - place <= 3:
                        require(lay is not None, f"layout in {sub or '.'} {cwd - place} levels up is not found")
                        check_layout(text, lay, "loaded layout")
                    else:
                        require(lay is None, "layout more than 3 levels up")
                    st.step()
                equal(layout_module.getLayout(name + "none"), None, "unknown layout")
                equal(os.getcwd(), dirs[cwd], "current directory after a failed look up")
                st.state((place, sub, cwd))
        # the same name in several directories, and contents that change between the look ups
        places = [(d, sub) for d in range(5) for sub in ("layouts", "")]

        def write(i, n):
            text = ["%" * 6,
                    "%P" + "".join(".o G"[(n >> (2 * j)) % 4] for j in range(3)) + "%", "%" * 6]
            d, sub = places[i]
            with open(os.path.join(dirs[d], sub, "same.lay"), "w") as f:
                f.write("\n".join(text))
            return text
        n = 0
        there = {}
        for i in list(range(len(places))) + [0, 3, 9, 5]:
            n += 1
            there[i] = write(i, n)
            for cwd in (0, 4, 2, 1, 3):
                os.chdir(dirs[cwd])
                found = [j for up in range(4) if cwd >= up for j in (2 * (cwd - up), 2 * (cwd - up) + 1) if j in there]
                for ask in ("same", "same.lay"):
                    lay = layout_module.getLayout(ask)
                    if found:
                        require(lay is not None, "layout is not found")
                        check_layout(there[found[0]], lay, "layout found first")
                        spoil(lay)
                    else:
                        require(lay is None, "layout more than 3 levels up")
                    st.step()
                st.state(("same", n, cwd))
        for i in list(there):
            d, sub = places[i]
            os.unlink(os.path.join(dirs[d], sub, "same.lay"))
        os.chdir(dirs[2])
        equal(layout_module.getLayout("same"), None, "layout which is gone")
    finally:
        os.chdir(home)
        import shutil
        shutil.rmtree(top)
    st.trace()


# ------------------------------------------------------------------ grids

def make(w, h, cells):
    g = game.Grid(w, h)
    for x, y in cells:
        g[x][y] = True
    return g


def check_grid(w, h, cells, st, deep=True):
    where = f"grid {w}x{h} with {sorted(cells)[:40]}"
    g = make(w, h, cells)
    every = list(itertools.product(range(w), range(h)))
    got = {(x, y) for x, y in every if g[x][y]}
    equal(got, set(cells), f"{where}: cells")
    equal((g.count(), g.count(True), g.count(False)), (len(cells), len(cells), w * h - len(cells)), f"{where}: counts")
    if deep:
        yes, no = list(map(tuple, g.asList())), list(map(tuple, g.asList(False)))
        equal((sorted(yes), sorted(no)), (sorted(cells), sorted(set(every) - set(cells))), f"{where}: lists")
        equal(str(g), "\n".join("".join("T" if (x, y) in cells else "F" for x in range(w)) for y in reversed(range(h))), f"{where}: text")
    packed = g.packBits()
    require(all(isinstance(i, int) for i in packed), f"{where}: packed in to integers")
    back = game.reconstituteGrid(tuple(packed))
    require((back.width, back.height) == (w, h) and {(x, y) for x, y in every if back[x][y]} == set(cells),
            lambda: f"{where}: unpacked grid differs: {back.asList()}")
    require(back == g and g == back and hash(back) == hash(g), f"{where}: unpacked grid is unequal")
    require(game.reconstituteGrid(back) is back, "a grid need not be unpacked")
    for c in (g.copy(), g.deepCopy()):
        require(c == g and hash(c) == hash(g) and (c.width, c.height) == (w, h), f"{where}: copy")
        x, y = (w - 1, h - 1) if len(cells) % 2 else (0, h // 2)
        c[x][y] = not c[x][y]
        require(not c == g and bool(g[x][y]) == ((x, y) in cells), f"{where}: copy is not independent")
        c[x][y] = not c[x][y]
        g[x][y] = not g[x][y]
        require(bool(c[x][y]) == ((x, y) in cells) and not c == g, f"{where}: original is not independent")
        g[x][y] = not g[x][y]
    st.step(6)
    return packed


def case_fill(st, w, h):
    seen = {}
    every = list(itertools.product(range(w), range(h)))
    for bits in itertools.product((0, 1), repeat=w * h):
        cells = frozenset(p for p, b in zip(every, bits) if b)
        packed = check_grid(w, h, cells, st, deep=len(cells) < 4)
        require(seen.setdefault(packed, cells) == cells, "two grids packed alike")
        st.state((w, h, cells))
    full = game.Grid(w, h, True)
    equal(full.count(), w * h, "grid of initial value True")
    require(full == make(w, h, every), "grid of initial value True")
    st.trace()


def case_sizes(st, w):
    for h in range(1, 14):
        every = list(itertools.product(range(w), range(h)))
        patterns = [frozenset({p}) for p in every] + [frozenset(every) - {p} for p in every[::3]]
        patterns += [frozenset(every), frozenset(), frozenset(p for p in every if sum(p) % 2), frozenset(p for p in every if p[0] % 3 == 1),
                     frozenset(p for p in every if p[1] % 2)]
        seen = set()
        for cells in patterns:
            seen.add(check_grid(w, h, cells, st, deep=len(cells) in (1, w * h)))
            st.state((w, h, cells))
        equal(len(seen), len(set(patterns)), f"packings of {w}x{h} grids")
    st.trace()


def case_history(st, w, h, first):
    """Cells set and cleared, three or four times, one grid asked everything after each or every other change."""
    every = list(itertools.product(range(w), range(h)))
    for tail, often in itertools.product(itertools.product(every, repeat=3 if w * h < 6 else 2), (True, False)):
        g, cells = game.Grid(w, h), set()
        twin = g.copy()
        for k, p in enumerate((every[first],) + tail):
            if not often and k % 2:      # asked after every other change only
                cells ^= {p}
                g[p[0]][p[1]] = twin[p[0]][p[1]] = p in cells
                continue
            where = f"grid {w}x{h} with {sorted(cells)} and {p} turned over"
            if often:
                hash(g), hash(twin), g == twin, g.count(), g.asList(), g.packBits()
            cells ^= {p}
            g[p[0]][p[1]] = p in cells
            twin[p[0]][p[1]] = p in cells
            fresh = make(w, h, cells)
            require(g == fresh and fresh == g and g == twin and hash(g) == hash(fresh) == hash(twin), lambda: f"{where}: unequal to a fresh one")
            equal((g.count(), g.count(False), sorted(g.asList()), sorted(g.asList(False))),
                  (len(cells), w * h - len(cells), sorted(cells), sorted(set(every) - cells)), f"{where}: cells")
            require(game.reconstituteGrid(g.packBits()) == fresh and tuple(g.packBits()) == tuple(fresh.packBits()), lambda: f"{where}: packed")
            if not cells:
                require(g == game.Grid(w, h) and hash(g) == hash(game.Grid(w, h)), "emptied grid")
            st.step()
            st.state((w, h, frozenset(cells)))
        st.trace()


def case_big(st):
    for w, h in ((1, 60), (60, 1), (20, 11), (31, 30), (2, 45)):
        every = list(itertools.product(range(w), range(h)))
        for k in (1, 2, 3, 7, 29, 30, 31):
            check_grid(w, h, frozenset(every[k - 1::k]), st)
        st.state((w, h))
    st.trace()


def case_vast(st, w, h):
    for k in range(7):
        for few in (0, 1):
            rows = []
            for r in range(h):
                row = ""
                for c in range(w):
                    i = r * w + c
                    x = CHARS[(i * (k + 1) + r) % len(CHARS)]
                    if x in "PG1234" and (few and i % 23 != k or i % 5):
                        x = "."
                    row += x
                rows.append(row)
            check_text(rows, st)
    st.trace()


def case_equal(st):
    grids = []
    for w, h in ((1, 1), (1, 2), (2, 1), (2, 2), (1, 4), (4, 1), (3, 2), (2, 3), (1, 6), (6, 1)):
        every = list(itertools.product(range(w), range(h)))
        for bits in itertools.product((0, 1), repeat=w * h):
            cells = frozenset(p for p, b in zip(every, bits) if b)
            grids.append((w, h, cells, make(w, h, cells)))
    for (w1, h1, c1, g1), (w2, h2, c2, g2) in itertools.product(grids, repeat=2):
        same = (w1, h1, c1) == (w2, h2, c2)
        if (g1 == g2) != same:
            raise Violation(f"grids {w1}x{h1} {sorted(c1)} and {w2}x{h2} {sorted(c2)} compare as {g1 == g2}")
        st.step()
        if same:
            require(hash(g1) == hash(g2), "hash of equal grids")
    for w, h, most in ((9, 9, 1), (13, 10, 1), (31, 8, 1), (8, 8, 2), (4, 16, 2), (6, 4, 3)):
        every = list(itertools.product(range(w), range(h)))
        few = [(cells, make(w, h, cells)) for n in range(most + 1) for cells in itertools.combinations(every, n)]
        for (c1, g1), (c2, g2) in itertools.combinations(few, 2):
            if g1 == g2:
                raise Violation(f"grids {w}x{h} {c1} and {c2} are equal")
            st.step()
    for _, _, _, g in grids:
        require(not (g == None), "a grid equals None")  # noqa: E711
    st.trace()
    st.state("equal")


# ------------------------------------------------------------------ drawings

PAC = {"North": "v", "South": "^", "West": ">", "East": "<", "Stop": "<"}


def drawing(board, m):
    ags, food, caps, score, over = m
    rows = []
    for y in reversed(range(board.h)):
        row = ""
        for x in range(board.w):
            c = "." if (x, y) in food else "%" if (x, y) in board.walls else " "
            for i, (ax, ay, d, _) in enumerate(ags):
                if ((ax + 1) // 2, (ay + 1) // 2) == (x, y):
                    c = PAC[d] if i == 0 else "G"
            if (x, y) in caps:
                c = "o"
            row += c
        rows.append(row)
    return "\n".join(rows) + f"\nScore: {score}\n"


def case_drawn(st, bname, limit):
    board = Board(BOARDS[bname])
    for m, t, r in pac.reachable(board, limit=limit):
        got, want = str(r), drawing(board, m)
        st.step()
        if got != want:
            raise Violation(f"{pac.text(m)} is drawn as\n{got}\nexpected\n{want}")
        st.state((bname, pac.strip(m)))
    st.trace()

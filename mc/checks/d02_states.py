"""Trees of successors, copies, edits of copies and queries: every state obtained stays as it was."""
import itertools

from .. import pac
from ..core import Violation, attempt, equal, require
from ..pac import BIG, BOARDS, Board, game, pacman

ID = "D02"
ASSUMPTIONS = ["a state is edited only through a deep copy of it (results of getGhostState, getFood and getCapsules are read only)",
               "equality of states does not consider whether the game is over, deep copies do preserve it"]
NAMES = ("near", "two", "last", "loop", "pocket", "twin", "alone", "three", "corridor", "room")
ALL = {**BOARDS, **BIG}
SMALL = ("near", "last", "alone", "corridor")


def bounds(tier):
    d = 5 if tier == "thorough" else 4
    return (f"on 14 boards (one with 14 ghosts, one with 14 capsules, two 13 cells long) all sequences of {d} ({d + 1} on small boards, {d - 1} with 14 ghosts) operations out of: each move of each agent from the newest, an older or a copied state, "
            "deep copying, querying and displaying, editing a deep copy in each of 8 ways; all states obtained re-read after each; all "
            f"histories of up to 12 moves with agents in any order, as long as there are at most {40000 if tier == 'thorough' else 4000} of a length (then those of Pacman alone), "
            f"on {len(ALL)} boards: same content, equal states and hashes; all "
            "sequences of up to "
            f"{d + 1} (4 on the four large boards) moves from the newest or first state and readings of the record of explored states; all "
            "pairs of up to 260 reachable states and of states differing in one component (any agent, capsule or cell) compared for equality and hash")


def cases(tier):
    d = 5 if tier == "thorough" else 4
    out = [["tree", b, k, 16, d + (b in SMALL)] for b in NAMES for k in range(16)]
    out += [["tree", b, k, 4, d - (b == "crowd")] for b in BIG for k in range(4)]
    out += [["pairs", b] for b in NAMES + tuple(BIG)]
    out += [["single", b] for b in NAMES + tuple(BIG)]
    out += [["ways", b, 40000 if tier == "thorough" else 4000] for b in ALL]
    out += [["record", b, 4 if b in BIG else d + 1] for b in NAMES + tuple(BIG)]
    out += [["walk", b, k] for b in NAMES + tuple(BIG) for k in range(3)]
    return out


def run_case(case, st):
    globals()["case_" + case[0]](st, *case[1:])


def facts(s):
    walls = s.getWalls()
    return (pac.view(s), str(s), hash(s), tuple(tuple(map(bool, col)) for col in walls.data), s.getNumFood(), s.getNumAgents(),
            str(s.data.layout), tuple(map(tuple, s.getCapsules())), tuple(map(str, s.data.agentStates)))


def content(s):
    return (s.getScore(), sorted(s.getCapsules()), s.getFood().asList(),
            [(a.getPosition(), a.getDirection(), a.scaredTimer) for a in s.data.agentStates])


EDITS = 8


def edit(c, how):
    """Change a deep copy through its own data."""
    d = c.data
    if how == 0:
        for x in range(d.food.width):
            for y in range(d.food.height):
                d.food[x][y] = not d.food[x][y]
    elif how == 1:
        d.capsules.append((0, 0))
        d.capsules.reverse()
    elif how == 2:
        for a in d.agentStates:
            a.scaredTimer += 3
            a.configuration = game.Configuration((1, 1), "North")
    elif how == 3:
        d.score += 100
        d.agentStates.reverse()
    elif how == 4:
        for x in range(d.layout.walls.width):
            for y in range(d.layout.walls.height):
                d.layout.walls[x][y] = not d.layout.walls[x][y]
    elif how == 5:
        d.layout.capsules.append((1, 1))
        d.layout.agentPositions.clear()
        d.layout.food[1][1] = not d.layout.food[1][1]
    elif how == 6:
        del d.agentStates[-1]
        d.capsules.clear()
    elif how == 7:
        c.data = pacman.GameState(c).data
        c.data.score = -1


def query(s, n):
    """Ask everything; edit what is documented as a copy."""
    p = s.getPacmanState()
    p.configuration = game.Configuration((0, 0), "South")
    p.scaredTimer = 9
    for i in range(n):
        for a in s.getLegalActions(i):
            s.generateSuccessor(i, a)
        s.getLegalActions(i).append("Stop")
    str(s), hash(s), s == s, s.getScore(), s.getNumFood(), s.getFood().asList(), s.getFood().copy(), s.getWalls().packBits()
    w = s.getFood().copy()
    for x in range(w.width):
        w[x][0] = True
    attempt(lambda: s.getGhostState(n - 1) and s.getGhostPosition(n - 1))
    for i in range(n):
        attempt(lambda: s.generateSuccessor(i, "Up"))


def check_copy(s, c):
    equal(facts(c), facts(s), "deep copy")
    require(c == s and s == c and hash(c) == hash(s), "a deep copy equals its original with the same hash")
    equal((c.isWin(), c.isLose()), (s.isWin(), s.isLose()), "outcome of a deep copy")


def case_tree(st, bname, part, parts, depth):
    board = Board(ALL[bname])
    n = len(board.start()[0])

    def ops(states):
        """(kind, index of the state, argument)"""
        out = []
        for k in {len(states) - 1, len(states) // 2, 0}:
            m = states[k][0]
            for i in range(n):
                moves = sorted(board.legal(m, i))
                for a in moves if k == len(states) - 1 else moves[:1]:
                    out.append(("move", k, i, a))
        last = len(states) - 1
        out += [("copy", last), ("query", last), ("again", last), ("editcopy", last, len(states) % EDITS)]
        return out

    count = [0]

    def recheck(states, trace):
        for m, s, f in states:
            now = facts(s)
            if now != f:
                raise Violation(f"board {bname}: after {trace} the state {pac.text(m)} reads {pac.text(now[0])}: {now[1:]} instead of {f[1:]}")

    def rebuild(trace):
        """Replays the trace from the start: fresh objects, so that no branch of the search disturbs another."""
        states = [(board.start(), pac.start(board), None)]
        states[0] = (states[0][0], states[0][1], facts(states[0][1]))
        equal(states[0][2][0], states[0][0], "initial state")
        for op in trace:
            k = op[1]
            m, s, f = states[k]
            if op[0] == "move":
                m2 = board.move(m, op[2], op[3])
                s2 = s.generateSuccessor(op[2], op[3])
                states.append((m2, s2, facts(s2)))
                equal(states[-1][2][0], m2, f"successor of {pac.text(m)}")
            elif op[0] == "copy":
                c = s.deepCopy()
                check_copy(s, c)
                states.append((m, c, facts(c)))
            elif op[0] == "query":
                query(s, n)
            elif op[0] == "again":
                for i in range(n):
                    for a in sorted(board.legal(m, i))[:2]:
                        x, y = s.generateSuccessor(i, a), s.generateSuccessor(i, a)
                        if not (x == y and hash(x) == hash(y) and facts(x) == facts(y)):
                            raise Violation(f"computing the successor of {pac.text(m)} for {(i, a)} twice gives different states")
            elif op[0] == "editcopy":
                c = s.deepCopy()
                edit(c, op[2])
        return states

    def go(trace):
        states = rebuild(trace)
        recheck(states, trace)
        st.step()
        st.state((bname, tuple(pac.strip(m) for m, _, _ in states)))
        if len(trace) == depth:
            st.trace()
            return
        for op in ops(states):
            if len(trace) == 1:
                count[0] += 1
                if count[0] % parts != part:
                    continue
            # beyond depth 3 only go on where the state space grew or was touched by an edit or copy
            if len(trace) >= 3 and op[0] == "move" and op[1] != len(states) - 1:
                continue
            if len(trace) >= 3 and op[0] == "move" and op[2] > 1:
                continue
            go(trace + [op])
    go([])
    pac.quiet_explored()


def case_pairs(st, bname):
    """Equality and hash of all pairs of reachable states."""
    board = Board(ALL[bname])
    states = []
    for m, t, r in pac.reachable(board, limit=260):
        states.append((m, r, hash(r)))
    states = states[:260]
    copies = [s.deepCopy() for _, s, _ in states[::4]]
    for (m, s, h), c in zip(states[::4], copies):
        check_copy(s, c)
        c.data.score += 1
        edit(c, 2)
        require(facts(s)[0] == m, "state changed with its deep copy")

    def key(m):
        return m[:4]
    for (m1, s1, h1), (m2, s2, h2) in itertools.combinations_with_replacement(states, 2):
        st.step()
        same = key(m1) == key(m2)
        if (s1 == s2) != same or (s2 == s1) != same:
            raise Violation(f"{pac.text(m1)} and {pac.text(m2)} compare as {'equal' if not same else 'unequal'}")
        if same and h1 != h2:
            raise Violation(f"{pac.text(m1)}: equal states with different hashes")
    for i, (m, s, h) in enumerate(states):
        equal(hash(s), h, "hash of a state over time")
        st.state((bname, m))
    st.trace()
    # states as dictionary keys
    d = {s: m for m, s, _ in states}
    equal(len(d), len({key(m) for m, _, _ in states}), "distinct states as keys")


def case_ways(st, bname, limit):
    """All histories of moves, agents in any order: states with one content are equal with one hash, whatever led to them."""
    board = Board(ALL[bname])
    m, r = board.start(), pac.start(board)
    level, seen = [(m, r, ())], {}
    n = len(m[0])
    while level:
        nxt = []
        for m, r, hist in level:
            first = seen.setdefault(m[:4], (r, hist, hash(r)))
            for s in (r, r.deepCopy()) if len(hist) < 4 else (r,):
                if not (s == first[0] and first[0] == s):
                    raise Violation(f"{pac.text(m)} after {hist} is not equal to the same after {first[1]}")
                if hash(s) != first[2]:
                    raise Violation(f"{pac.text(m)} has another hash after {hist} than after {first[1]}")
            st.step()
            if not m[4] and len(hist) < (12 if n < 12 else 3):
                nxt += [(m, r, hist, i, a) for i in range(n) for a in sorted(board.legal(m, i))]
        if len(nxt) > limit:
            # what is left: Pacman alone, for as long as that is few enough
            nxt = [x for x in nxt if x[3] == 0 and all(i == 0 for i, _ in x[2])]
            if len(nxt) > limit:
                break
        level = [(board.move(m, i, a), r.generateSuccessor(i, a), hist + ((i, a),)) for m, r, hist, i, a in nxt]
        pac.quiet_explored()
    st.state((bname, len(seen)))
    st.trace()


def case_record(st, bname, depth):
    """The record of explored states: what successors were asked of and these successors, until it is read."""
    board = Board(ALL[bname])
    m0 = board.start()
    n = len(m0[0])

    def go(trace):
        pac.quiet_explored()
        states, record = [(m0, pac.start(board))], set()
        for op in trace:
            st.step()
            if op is None:
                got = pacman.GameState.getAndResetExplored()
                equal({pac.view(s)[:4] for s in got}, record, f"record of explored states after {trace}")
                equal(len(got), len(record), "number of explored states recorded")
                again = pacman.GameState.getAndResetExplored()
                equal(len(again), 0, "record read again")
                again.add(states[0][1])
                record = set()
            else:
                k, i, a = op
                m, s = states[k]
                m2, s2 = board.move(m, i, a), s.generateSuccessor(i, a)
                record |= {m[:4], m2[:4]}
                states.append((m2, s2))
        kept = {pac.view(s)[:4] for s in pacman.GameState.getAndResetExplored()}
        equal(kept, record, f"record of explored states after {trace}")
        st.state((bname, tuple(pac.strip(m) for m, _ in states), len(record)))
        if len(trace) == depth:
            st.trace()
            return
        m = states[-1][0]
        nxt = [(len(states) - 1, i, a) for i in (0, n - 1) for a in sorted(board.legal(m, i))] if not m[4] else []
        if len(states) > 1:
            nxt += [(0, i, a) for i in (0, n - 1) for a in sorted(board.legal(m0, i))[:1]]
        for op in dict.fromkeys(nxt + ([None] if trace and trace[-1] is not None else [])):
            go(trace + [op])
    go([])
    pac.quiet_explored()


def case_single(st, bname):
    """States that differ in exactly one component."""
    board = Board(ALL[bname])
    for n, (m, t, r) in enumerate(pac.reachable(board, limit=60)):
        changed = []
        for how in range(17):
            c = r.deepCopy()
            d = c.data
            if how == 0:
                d.score += 1
            elif how == 1:
                d.score -= 500
            elif how == 16:                             # the score need not be whole
                d.score += 0.25
            elif how == 2 and d.capsules:
                d.capsules.pop()
            elif how == 3:
                d.capsules.append((1, 1))
            elif how == 4:
                d.food[1][1] = not d.food[1][1]
            elif how == 5:
                d.food[board.w - 2][board.h - 2] = not d.food[board.w - 2][board.h - 2]
            elif how == 10 and d.capsules:              # as many capsules, one of them elsewhere
                x, y = d.capsules[-1]
                d.capsules[-1] = (y, x) if x != y else (x + 1, y)
            elif how == 11 and d.capsules:
                x, y = d.capsules[0]
                d.capsules[0] = (x, y + 1)
            elif how in (12, 13) and m[1]:              # as much food, one piece elsewhere
                (x, y), (u, v) = min(m[1]), min(set(itertools.product(range(board.w), range(board.h))) - m[1])
                if how == 13:
                    (x, y), (u, v) = max(m[1]), max(set(itertools.product(range(board.w), range(board.h))) - m[1])
                d.food[x][y], d.food[u][v] = False, True
            elif how == 14 and len(d.agentStates) > 2 and m[0][1] != m[0][2]:
                d.agentStates[1], d.agentStates[2] = d.agentStates[2], d.agentStates[1]
            elif how == 15 and m[0][0][:2] != m[0][-1][:2]:       # two agents change places
                a, b = d.agentStates[0], d.agentStates[-1]
                p, q = a.getPosition(), b.getPosition()
                a.configuration, b.configuration = game.Configuration(q, a.getDirection()), game.Configuration(p, b.getDirection())
            elif how in (6, 7, 8, 9) and (how != 8 or len(d.agentStates) > 1):
                a = d.agentStates[-1 if how in (6, 8) else 0]
                x, y = a.getPosition()
                if how == 6:
                    a.scaredTimer += 1
                elif how == 9:
                    a.configuration = game.Configuration((x, y), "Fancy")
                else:
                    a.configuration = game.Configuration((x + 0.5, y), a.getDirection())
            else:
                continue
            st.step()
            was = content(c)
            if how in (0, 1, 3, 4, 5, 6, 16):
                str(c)
            hash(c), c == r
            require(content(c) == was, f"{pac.text(m)} with component {how} changed: reading that state changed it")
            if c == r or r == c:
                raise Violation(f"{pac.text(m)} equals a state that differs in component {how}")
            for o in changed:
                require(not (o == c), "states changed in different ways are equal")
            changed.append(c)
            equal(pac.view(r), m, "state after its copy was changed")
        if n % 12 == 0:                                 # every agent, capsule and cell in turn
            for k in range(len(m[0]) * 3 + len(m[2]) + board.w * board.h):
                c = r.deepCopy()
                d = c.data
                if k < 3 * len(m[0]):
                    a = d.agentStates[k // 3]
                    x, y = a.getPosition()
                    if k % 3 == 0:
                        a.scaredTimer += 1
                    elif k % 3 == 1:
                        a.configuration = game.Configuration((x, y), "Fancy")
                    else:
                        a.configuration = game.Configuration((x + 0.5, y), a.getDirection())
                elif k < 3 * len(m[0]) + len(m[2]):
                    d.capsules[k - 3 * len(m[0])] = (0, 0)
                else:
                    x, y = divmod(k - 3 * len(m[0]) - len(m[2]), board.h)
                    d.food[x][y] = not d.food[x][y]
                st.step()
                if c == r or r == c:
                    raise Violation(f"{pac.text(m)} equals a state that differs in its component {k} (agents, capsules, food cells)")
                equal(pac.view(r), m, "state after its copy was changed")
        require(not (r == None) and not (r == 5) and r != "state", "a state equals something else")  # noqa: E711
        st.state((bname, m))
    st.trace()


def case_walk(st, bname, plan):
    """Long games: every state on the way kept and re-read at the end, all siblings computed from each."""
    board = Board(ALL[bname])
    m, r = board.start(), pac.start(board)
    n = len(m[0])
    kept, turn = [], 0
    for step in range(150):
        kept.append((m, r, facts(r)))
        if m[4]:
            break
        legal = sorted(board.legal(m, turn))
        for a in legal:
            r.generateSuccessor(turn, a)
        if legal:
            # prefer moves that do not end the game, so that walks get long
            safe = [a for a in legal if board.move(m, turn, a)[4] is None] or legal
            a = safe[(step * (plan + 1) + plan) % len(safe)]
            r2 = r.generateSuccessor(turn, a)
            m = board.move(m, turn, a)
            equal(pac.view(r2), m, "successor")
            r = r2.deepCopy() if step % 5 == plan else r2
            if step % 7 == plan:
                edit(r2.deepCopy(), step % EDITS)
                query(r2, n)
        turn = (turn + 1) % n
        st.step()
    for m, s, f in kept:
        if facts(s) != f:
            raise Violation(f"board {bname}: state {pac.text(m)} changed while the game went on")
        st.state((bname, plan, m))
    for (m1, s1, f1), (m2, s2, f2) in itertools.combinations(kept, 2):
        if (s1 == s2) != (m1[:4] == m2[:4]):
            raise Violation(f"{pac.text(m1)} and {pac.text(m2)}: wrong equality")
    st.trace()
    pac.quiet_explored()

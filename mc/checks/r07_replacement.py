"""Value replacement: every sample x every replacement map."""
import itertools

from .. import model as M
from ..core import Violation, attempt, equal, require
from ..impl import World, view
from ..shapes import SHAPES, names, sample, shape

ID = "R07"
ASSUMPTIONS = ["samples have one value per variable"]
WORLDS = ["z3", "z2", "z2+d", "s3", "f3", "n3", "w2", "v4", "s3r1", "k2", "k3", "h2", "h3", "n4", "s3+d2", "s3r1+d", "f2+d"]


def bounds(tier):
    return ("every sample of 18 vocabularies (directed relations in 4) and every map that gives each variable no, "
            "each known, or an unknown new value, with and without a variable outside the vocabulary; samples of 10 shapes "
            "on 5 to 8 (thorough: 10) variables under 5 hash assignments with every subset of the variables replaced"
            + ("; 4 variables with 2 values each in thorough" if tier == "thorough" else ""))


def space(name):
    base = name.split("+")[0]
    v, r = M.world(base)
    if name.endswith("+d2"):
        return M.all_samples(v, r, directed=True, max_vars=2)
    return M.all_samples(v, r, directed=name.endswith("+d"))


def cases(tier):
    return [["all", w, k, 32] for w in WORLDS + ["v4b"] + (["f3+d", "v4+d"] if tier == "thorough" else [])
            for k in range(32)] + [["large", s, n, h] for s in SHAPES
                                   for n in ((5, 8) if tier == "quick" else (5, 6, 7, 8, 9, 10)) for h in range(5)]


NONE = object()


def run_case(case, st):
    if case[0] == "large":
        return large(st, *case[1:])
    _, wname, part, parts = case
    w = World(wname.split("+")[0])
    sp = space(wname) + [M.EMPTY]
    names = [v for v, _ in w.variables]
    options = [[NONE] + xs + (["?unknown?"] if i < 2 else []) for i, (v, xs) in enumerate(w.variables)]
    for i, m in enumerate(sp):
        if i % parts != part:
            continue
        s = w.sample(m)
        st.state(m)
        for vals in itertools.product(*options):
            to = {v: x for v, x in zip(names, vals) if x is not NONE}
            check(w, s, m, to, st)
            if i % 7 == 0:
                check(w, s, m, {**to, "?no such variable?": 1}, st)
        st.trace()
        st.sample(M.text(m))


def check(w, s, m, to, st):
    st.step()
    keep = dict(to)
    relevant = {v: x for v, x in to.items() if v in M.variables_of(m)}
    ok, res = attempt(lambda: s.transform_with_replaced_values(to))
    want = "?unknown?" not in relevant.values()
    if ok != want:
        raise Violation(f"replacement {to} in {M.text(m)} {'accepted' if ok else 'refused: ' + repr(res)}")
    equal(view(s), m, "original after replacement")
    equal(to, keep, "replacement map after the call")
    if not ok:
        return
    expected = M.replace(m, relevant)
    equal(view(res), expected, f"replacement {to} in {M.text(m)}")
    if expected == m:
        require(res is s, f"replacement {to}, which changes nothing in {M.text(m)}, gives another object")
        named = s.transform_with_replaced_values(to, "N")
        equal(view(named), m, f"replacement {to}, which changes nothing in {M.text(m)}, under a new name")
    else:
        require(res == w.sample(expected) and hash(res) == hash(w.sample(expected)),
                f"replacement {to} in {M.text(m)} is unequal to the sample built directly")
        named = s.transform_with_replaced_values(to, "N")
        equal(named.name, "N", "name of the result")
        own = M.text(expected)
        if own != M.text(M.twin(expected)):      # equal values that print differently: the text of the components
            own = w.sample(expected).text_view()
        equal((res.name, res.text_view(), named.text_view()), (own,) * 3, f"name and texts of replacement {to} in {M.text(m)}")
        equal(named == res, True, "named and unnamed result equal")
        equal(frozenset(res.included_variables), M.variables_of(m), "variables of the result")
        back = res.transform_with_replaced_values({v: x for v, x in m[0] if v in relevant})
        require(back == s and hash(back) == hash(s) and view(back) == m, f"replacing back {to} in {M.text(m)}: {back}")
        require(res.is_compatible(w.provider), "the result belongs to the same network")
        st.step(2)


def large(st, shp, n, h):
    """Every subset of the variables of a larger sample gets the other value."""
    vs = names(n, h)
    w = World(spec=([(v, [0, 1]) for v in vs], ["r", "s"]))
    m = sample(vs, shape(shp, n), value=lambda i: i % 2, relation=lambda k: "rs"[k % 2])
    s = w.sb().build_from_edges(m[1])
    for bits in range(1 << n):
        to = {v: 1 - i % 2 for i, v in enumerate(vs) if bits >> i & 1}
        if bits % 3 == 0:       # those that stay are named, too
            to.update({v: i % 2 for i, v in enumerate(vs) if not bits >> i & 1})
        st.step()
        res = s.transform_with_replaced_values(to)
        want = M.replace(m, to)
        equal(view(res), want, f"replacement {to} in {M.text(m)}")
        require((res is s) == (bits == 0), f"replacement {to} in {M.text(m)}: same object")
        if bits % 5 == 0:
            d = w.sb().build_from_edges(want[1])
            require(res == d and hash(res) == hash(d), f"replacement {to} in {M.text(m)} is unequal to the sample built directly")
        back = res.transform_with_replaced_values({v: i % 2 for i, v in enumerate(vs)})
        require(back == s and view(back) == m, f"replacing back {to} in {M.text(m)}")
        st.state((shp, n, h, bits))
    equal(view(s), m, "original after the replacements")
    st.trace()

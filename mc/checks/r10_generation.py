"""Generation of the outcome space for every small vocabulary."""
import itertools

from .. import model as M
from ..core import attempt, equal, require
from ..impl import World, RelationGraphBuilder, network, set_view, view

ID = "R10"
ASSUMPTIONS = ["values within a variable, variables, and relations are pairwise unequal"]


def bounds(tier):
    return ("every vocabulary shape of 1 to 3 variables with 1 to 3 values each and 1 or 2 relations (3 relations and 4 values "
            "up to 2 variables), domains of 5 to 8 values and 4 or 5 relations with up to 3 variables, up to 130 values of one and 33 of two variables, up to 70 relations of two and 9 of three variables, 4 variables with up to 2 values and 1 relation or 1 value (one with 2) and 2 relations, "
            "5 variables with 2 values and 1 relation or 1 value and 2 relations, 6 variables with 1 value and 1 relation"
            + (", and 12 larger shapes" if tier == "thorough" else "")
            + ", with 6 alphabets (plain, falsy, mixed types, names that are prefixes or print alike, names of one text and one hash up to 6 values in all); refusal for every "
            "single outcome added before, after generation and after building")


STYLES = ["plain", "falsy", "mixed", "prefix", "alike", "same"]


def vocabulary(style, shape, n_rel):
    if style == "plain":
        return [(f"v{i}", [f"x{j}" for j in range(k)]) for i, k in enumerate(shape)], [f"r{j}" for j in range(n_rel)]
    if style == "falsy":
        names = [0, "", None, (), frozenset(), b""]
        vals = [0, "", None, (), frozenset(), b"", 0.5, ((),)]
        return [(names[i], vals[:k]) for i, k in enumerate(shape)], [0, "", None, (), b""][:n_rel]
    if style == "mixed":
        return ([(i if i % 2 else ("t", i), [j if j % 2 else f"{i}" for j in range(k)][:k]) for i, k in enumerate(shape)]
                if max(shape) <= 2 else [(i, [(i, j) for j in range(k)]) for i, k in enumerate(shape)]), \
            [1, "1", (1,), None, 1.5][:n_rel]
    if style == "prefix":
        return [("a" * (i + 1), ["1" * (j + 1) for j in range(k)]) for i, k in enumerate(shape)], \
            ["r" * (j + 1) for j in range(n_rel)]
    if style == "same":                                 # names told apart by equality only
        return [(M.N("v", i), [M.N("x", j) for j in range(k)]) for i, k in enumerate(shape)], [M.N("r", j) for j in range(n_rel)]
    if style == "alike":
        return [(["1", 1, "a", "a_1", "a_1_1", "1_a"][i], ["1", 1, "1_1", "1 ", "(1)", (1,), "1_", "_1"][:k])
                for i, k in enumerate(shape)], ["1", 1, "1 ", (1,), "(1,)"][:n_rel]


def shapes(tier):
    out = []
    for n in (1, 2):
        for s in itertools.product((1, 2, 3, 4), repeat=n):
            out += [(s, r) for r in (1, 2, 3)]
    for s in itertools.product((1, 2, 3), repeat=3):
        out += [(s, r) for r in (1, 2)]
    out += [(s, 3) for s in itertools.product((1, 2), repeat=3)]
    for s in itertools.product((1, 2), repeat=4):
        out.append((s, 1))
    out += [((1, 1, 1, 1), 2), ((1, 1, 1, 1, 1), 1), ((2, 1, 1, 1), 2), ((2, 1, 2, 1, 1), 1), ((2, 2, 2, 2, 2), 1), ((3, 1, 3, 2), 1)]
    out += [((1, 1, 1, 1, 1), 2), ((1, 1, 1, 1, 1, 1), 1)]
    for k in (5, 6, 7, 8):
        out += [((k,), 1), ((k,), 5), ((k, 2), 2), ((2, k), 1), ((1, k, 1), 2)]
    out += [((1, 1), 4), ((1, 1), 5), ((2, 2), 5), ((6, 2), 4), ((5, 5), 2), ((1, 1, 1), 4), ((1, 2, 1), 5)]
    out += [((1, 1), k) for k in (6, 7, 8, 9, 10, 12, 16, 24, 40, 70)] + [((k,), 1) for k in (9, 10, 11, 12, 16, 24, 40, 130)]
    out += [((k, 1), 2) for k in (9, 12, 33)] + [((2, 3), 9), ((12, 11), 1), ((1, 1, 1), 6), ((1, 1, 1), 9), ((2, 1, 1), 8), ((9, 9, 1), 1)]
    if tier == "thorough":
        out += [((2, 2, 1, 1), 2), ((2, 2, 2, 2), 2), ((3, 2, 2, 1), 1), ((3, 3, 3, 3), 1), ((3, 2, 2, 2, 2), 1),
                ((3, 3, 3), 3), ((1, 1, 1, 1), 3), ((1, 1, 1, 1), 4), ((5, 5, 2), 2), ((6, 5), 4), ((2, 1, 1, 1, 1, 1), 1),
                ((2, 1, 1, 1, 1), 2)]
    return out


def cases(tier):
    out = []
    for s, r in shapes(tier):
        for style in STYLES:
            heavy = len(s) >= 4 or (len(s) == 3 and sum(s) >= 8 and r == 2)
            if style not in ("plain", "prefix") and (max(s) > 8 or r > 5):
                continue                        # these alphabets have not so many names
            if style == "same" and (len(s) > 3 or sum(s) > 6 or r > 3 or (len(s) == 3 and sum(s) * r > 8)):
                continue                        # all of one hash: slow
            if heavy and style not in ("plain", "alike") and tier == "quick":
                continue
            out.append(["gen", style, list(s), r])
    out.sort(key=lambda c: -len(c[2]) * sum(c[2]) * c[3])
    out += [["refuse", style] for style in STYLES]
    return out


def run_case(case, st):
    if case[0] == "refuse":
        return refuse(st, case[1])
    _, style, shape, n_rel = case
    variables, relations = vocabulary(style, shape, n_rel)
    want = M.all_samples(variables, relations)
    b = RelationGraphBuilder({v: set(xs) for v, xs in variables}, set(relations))
    res = b.generate_all_possible_outcomes()
    net = res.build()
    got = {}
    for s, c in net.outcomes.items():
        got[view(s)] = got.get(view(s), 0) + c
    equal(len(net.outcomes.samples()), len(want), f"number of generated outcomes for {variables} and {relations}")
    equal(net.outcomes.length, len(want), "number of generated outcomes with counts")
    missing = [M.text(m) for m in want if m not in got][:3]
    known = set(want)
    wrong = [M.text(m) for m in got if m not in known][:3]
    require(not missing and not wrong, f"{variables}, {relations}: missing outcomes {missing}, unexpected {wrong}")
    require(all(c == 1 for c in got.values()), "an outcome is generated more than once")
    require(not attempt(b.generate_all_possible_outcomes)[0], "generating twice is refused")
    equal(set_view(b.build().outcomes), {m: 1 for m in want}, "outcomes after refused second generation")
    for m in want:
        st.state((style, M.text(m)))
    st.step(len(want))
    st.trace()
    st.sample([style, shape, n_rel, len(want)])


def refuse(st, style):
    variables, relations = vocabulary(style, (2, 2, 1), 2)
    w = World(spec=(variables, relations))
    for m in [M.EMPTY] + M.all_samples(variables, relations):
        b = RelationGraphBuilder(components_provider=w.provider)
        b.add_outcome(w.sample(m))
        require(not attempt(b.generate_all_possible_outcomes)[0], f"generation after adding {M.text(m)} is refused")
        equal(set_view(b.build().outcomes), {m: 1}, "outcomes after refused generation")
        nb = network(w, {m: 2}).builder()
        require(not attempt(nb.generate_all_possible_outcomes)[0], "generation on a builder of a network is refused")
        equal(set_view(nb.build().outcomes), {m: 2}, "outcomes after refused generation")
        st.step(2)
        st.state(M.text(m))
        st.trace()
    b = RelationGraphBuilder(components_provider=w.provider).generate_all_possible_outcomes()
    equal({view(s) for s in b.build().outcomes.samples()}, set(M.all_samples(variables, relations)),
          "generation on components in use")

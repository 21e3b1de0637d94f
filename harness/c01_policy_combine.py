"""Combination of a superior's and a subordinate's metadata policy for one claim."""
import itertools

from sx.engine import Bag, call

OPS = ["value", "add", "default", "one_of", "subset_of", "superset_of", "essential"]
LISTS = {"add", "one_of", "subset_of", "superset_of"}

CROSS = {
    frozenset({"superset_of", "subset_of"}): [("superset_of", "subset_of")],
    frozenset({"superset_of", "subset_of", "default"}):
        [("superset_of", "subset_of"), ("default", "subset_of"), ("superset_of", "default")],
    frozenset({"subset_of", "default"}): [("default", "subset_of")],
    frozenset({"superset_of", "default"}): [("superset_of", "default")],
    frozenset({"one_of", "default"}): [("default", "one_of")],
    frozenset({"subset_of", "add"}): [("add", "subset_of")],
}
COVERS = ["combined", "refused", "compatible"]
BOUNDS = {
    "quick": "one claim; superior and subordinate each carry any 0..3 of the 7 operators; value "
             "sets of 1..2 elements (value/default: a list of 1..2 or a single string); elements are strings "
             "of unbounded domain known only up to equality",
    "thorough": "as quick with any 0..4 operators on each side and value sets of 1..2",
}
ASSUMPTIONS = ["operator values are lists of strings (essential: a boolean)"]


def cases(tier):
    k = 2 if tier == "quick" else 4
    subs = [c for n in range(0, k + 1) for c in itertools.combinations(OPS, n)]
    return [{"sup": list(a), "sub": list(b)} for a in subs for b in subs]


def side(S, who, ops, total):
    """an operator dictionary with symbolic contents"""
    p = {}
    for op in ops:
        n = f"{who}.{op}"
        if op == "essential":
            p[op] = S.bool(n)
        else:
            ln = S.size(n + ".len", 1, 2) if total <= 4 else 1 + (op in ("subset_of", "one_of"))
            p[op] = [S.atom(f"{n}[{i}]") for i in range(ln)]
    return p


def within(S, a, b):
    return S.subset(a, b)


def same(S, a, b):
    return S.and_(S.subset(a, b), S.subset(b, a))


def listeq(S, a, b):
    return S.and_(*[S.eq(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else False


def run(S, case):
    from fedservice.entity.function import PolicyError
    from fedservice.entity.function.policy import combine

    tot = len(case["sup"]) + len(case["sub"])
    sup = side(S, "sup", case["sup"], tot)
    sub = side(S, "sub", case["sub"], tot)
    ss, cs = set(sup), set(sub)

    st, r = call(combine, {"metadata_policy": {"c": dict(sup), "only_sup": {"one_of": ["x"]}}},
                 {"metadata_policy": {"c": dict(sub), "only_sub": {"add": ["y"]}}})
    if st == "raise":
        S.check(isinstance(r, PolicyError), "conflicting policies are refused with a policy error",
                {"exception": repr(type(r))})
        S.cover("refused")
        S.observe("outcome", "refused")
    else:
        S.cover("combined")
        mp = r["metadata_policy"]
        S.check(mp.get("only_sup") == {"one_of": ["x"]} and mp.get("only_sub") == {"add": ["y"]},
                "a claim only one of the two speaks about keeps its policy")
        R = mp["c"]
        S.observe("outcome", {k: (Bag(v) if isinstance(v, list) else v) for k, v in R.items()})

    accepted = st == "ok"

    # --- what must be refused --------------------------------------------------------------
    reasons = []
    if "value" in ss and cs:
        if "essential" in cs:
            if cs != {"essential"}:
                reasons.append(True)
        elif "value" in cs:
            reasons.append(S.not_(listeq(S, sup["value"], sub["value"])))
        else:
            reasons.append(True)
    elif "value" not in ss:
        if "essential" in ss and "essential" in cs:
            reasons.append(S.and_(sup["essential"], S.not_(sub["essential"])))
        if "one_of" in ss | cs and {"subset_of", "superset_of"} & (ss | cs):
            reasons.append(True)
        for op in ("subset_of", "one_of", "superset_of"):
            if op in ss and op in cs:
                reasons.append(S.not_(S.or_(*[S.member(x, sub[op]) for x in sup[op]])))
        if "default" in ss and "default" in cs:
            reasons.append(S.not_(listeq(S, sup["default"], sub["default"])))
    if "value" not in ss and "value" in cs:
        # a fixed value must respect what the superior demands
        for op in ("one_of", "subset_of"):
            if op in ss:
                reasons.append(S.not_(within(S, sub["value"], sup[op])))
        for op in ("superset_of", "add"):
            if op in ss:
                reasons.append(S.not_(within(S, sup[op], sub["value"])))
    # contradictions between different operators (a single operator dictionary nobody can obey)
    comb = (ss | cs) - {"essential"}
    if "value" not in comb:
        def eff(op):           # what the two sides demand together
            a, b = sup.get(op), sub.get(op)
            if a is None or b is None:
                return [(x, True) for x in (a if b is None else b)]
            if op == "add":
                return [(x, True) for x in a + b]
            if op == "default":
                return [(x, True) for x in a]
            return [(x, S.member(x, b)) for x in a]

        def inside(a, b):
            eb = eff(b)
            return S.and_(*[S.implies(c, S.or_(*[S.and_(S.eq(x, y), d) for y, d in eb]))
                            for x, c in eff(a)])
        for x, y in CROSS.get(frozenset(comb), ()):
            reasons.append(S.not_(inside(x, y)))
    S.check(S.implies(S.or_(*reasons), not accepted), "a forbidden combination is refused",
            {"sup": sup, "sub": sub})

    # nothing to object to -> accepted
    if not (len(comb & {"default", "add", "superset_of", "subset_of", "one_of"}) > 1) and \
            not ("value" in ss and "value" in cs):
        S.check(S.implies(S.not_(S.or_(*reasons)), accepted), "compatible policies are accepted",
                {"sup": sup, "sub": sub})
        S.cover("compatible")
    if not accepted:
        return

    # --- what the combination must still demand ---------------------------------------------
    if "value" in ss:
        S.check("value" in R and listeq(S, R["value"], sup["value"]),
                "a value fixed by the superior stays")
        return
    for op in ("subset_of", "one_of"):
        if op in ss or op in cs:
            S.check(op in R and len(R[op]) > 0, f"{op} survives and is not empty")
            if op in R:
                for side_ in (sup, sub):
                    if op in side_:
                        S.check(within(S, R[op], side_[op]), f"{op} only shrinks",
                                {"sup": sup, "sub": sub, "R": R})
    if "superset_of" in ss or "superset_of" in cs:
        S.check("superset_of" in R, "superset_of survives")
        both = [x["superset_of"] for x in (sup, sub) if "superset_of" in x]
        if "superset_of" in R:
            for x in both:
                S.check(S.subset(R["superset_of"], x), "superset_of demands nothing nobody asked")
            if len(both) == 1:
                S.check(S.subset(both[0], R["superset_of"]), "superset_of of one side is kept")
            else:
                S.check(S.and_(*[S.implies(S.member(x, both[1]), S.member(x, R["superset_of"]))
                                 for x in both[0]]), "what both sides demand stays demanded")
    if "add" in ss or "add" in cs:
        S.check("add" in R and S.and_(*[S.subset(x["add"], R["add"]) for x in (sup, sub)
                                        if "add" in x]), "added values are never lost")
        if "add" in R:
            S.check(S.subset(R["add"], [v for x in (sup, sub) if "add" in x for v in x["add"]]),
                    "nothing is added that nobody asked for")
    if "default" in ss:
        S.check("default" in R and listeq(S, R["default"], sup["default"]),
                "a superior's default stays")
    elif "default" in cs:
        S.check("default" in R and listeq(S, R["default"], sub["default"]), "default is kept")
    if "value" in cs:
        S.check("value" in R and listeq(S, R["value"], sub["value"]), "value is kept")
    if "essential" in ss:
        S.check("essential" in R and S.implies(sup["essential"], R["essential"]),
                "an essential claim stays essential")
    if "essential" in cs:
        S.check("essential" in R and S.implies(sub["essential"], R["essential"]),
                "a subordinate can make a claim essential")
    S.check(set(R) <= ss | cs, "no operator is invented")

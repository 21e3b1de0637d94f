"""Effective metadata of a subject at the end of a verified trust chain."""
import copy
import itertools

from sx.engine import Bag, call

OPS = ["value", "add", "default", "one_of", "subset_of", "superset_of", "essential"]
COVERS = ["resolved", "refused", "meta-conflict", "silent-type", "one-after-another", "falsy"]
BOUNDS = {
    "quick": "chains of 2..4 statements, each superior statement has at most 1 operator for the "
             "claim (values: lists of 1..2 strings) or asserts the claim itself, subject's value "
             "absent, single or a list of 2; two entity types; strings known up to equality; chains of 7 statements where one or "
             "two superiors say something; two chains one after the other; asserted "
             "values that are strings, booleans, empty strings or empty lists, by up to three superiors",
    "thorough": "as quick with up to 2 operators per statement on chains of 3",
}
ASSUMPTIONS = ["the statements are those a chain verification has already accepted"]


def cases(tier):
    menu = [()] + [(o,) for o in OPS] + [("metadata",)]
    out = []
    for n in (1, 2, 3):
        for combo in itertools.product(menu, repeat=n):
            for shape in ("absent", "scalar", "list"):
                if n == 3 and shape == "absent" and tier == "quick" and () in combo:
                    continue
                out.append({"sup": [list(x) for x in combo], "shape": shape})
    # far away superiors
    for o in menu[1:]:
        for at in range(6):
            out.append({"sup": [list(o) if i == at else [] for i in range(6)], "shape": "list"})
        for at in ((0, 5), (1, 4), (3, 5)):
            out.append({"sup": [list(o) if i in at else [] for i in range(6)], "shape": "list"})
    # one chain after the other
    for a in menu:
        for b in menu:
            out.append({"sup": [list(a)], "then": [list(b)], "shape": "list"})
            out.append({"sup": [list(a), []], "then": [[], list(b)], "shape": "list"})
    # asserted values of every kind
    for own in (False, True):
        for n in (1, 2, 3):
            out.append({"sup": [], "asserts": n, "own": own, "shape": "list"})
    if tier != "quick":
        two = [tuple(c) for c in itertools.combinations(OPS, 2)]
        for a in two:
            for b in menu + two:
                for shape in ("absent", "scalar", "list"):
                    out.append({"sup": [list(a), list(b)], "shape": shape})
                    out.append({"sup": [list(b), list(a)], "shape": shape})
    # superset_of on single values is outside
    return [c for c in out if not (c["shape"] == "scalar" and
                                   any("superset_of" in s for s in c["sup"]))]


RP, FE = "openid_relying_party", "federation_entity"


def statements(S, sups, pre=""):
    """what superiors say: their statements, policies and assertions"""
    chain, pols, asserted = [], [], []
    for i, ops in enumerate(sups):
        st = {"iss": f"https://e{i}", "sub": f"https://e{i + 1}", "exp": 1}
        p = {}
        for op in ops:
            nm = f"{pre}s{i}.{op}"
            if op == "metadata":
                v = [S.atom(nm)]
                asserted.append((i, v))
                st["metadata"] = {RP: {"c": v, "extra": "sup"}}
            elif op == "essential":
                p[op] = S.bool(nm)
            else:
                p[op] = [S.atom(f"{nm}[{k}]") for k in range(2 if op != "default" else 1)]
        # a policy of another entity type that must have no influence
        st["metadata_policy"] = {FE: {"c": {"value": ["federation"]}}}
        if p:
            st["metadata_policy"][RP] = {"c": dict(p)}
        pols.append(p)
        chain.append(st)
    return chain, pols, asserted


def subject(n, base):
    leaf = {"iss": f"https://e{n}", "sub": f"https://e{n}", "exp": 1,
            "metadata": {RP: {"x": "own"}, "openid_provider": {"c": ["op"]}}}
    if base is not None:
        leaf["metadata"][RP]["c"] = list(base) if isinstance(base, list) else base
    return leaf


def again(S, case):
    """what was computed for one chain has no bearing on another one, nor on the same one renewed"""
    from fedservice.entity.function.policy import TrustChainPolicy
    from fedservice.entity_statement.statement import TrustChain
    base = [S.atom("meta[0]"), S.atom("meta[1]")]
    first, _, _ = statements(S, case["sup"])
    second, _, _ = statements(S, case["then"], "then.")
    n = len(first)
    used = TrustChainPolicy(lambda *a: None)
    call(used, TrustChain(exp=1, verified_chain=copy.copy(first) + [subject(n, base)]))
    res = []
    for f in (used, TrustChainPolicy(lambda *a: None)):
        tc = TrustChain(exp=1, verified_chain=unfold(second) + [subject(n, base)])
        st, r = call(f, tc)
        res.append((st, tc.metadata.get(RP, {}) if st == "ok" else {"err": str(type(r))}))
    (k1, m1), (k2, m2) = res
    S.observe("out", k1)
    S.check(k1 == k2 and set(m1) == set(m2), "a chain gives the same, whatever was computed before", {"res": res})
    c1, c2 = m1.get("c"), m2.get("c")
    if isinstance(c1, list) and isinstance(c2, list):
        S.check(S.and_(S.subset(c1, c2), S.subset(c2, c1)), "a chain gives the same, whatever was computed before", {"res": res})
    S.cover("one-after-another")


def asserts(S, case):
    """whatever superiors assert, also an empty or a false value"""
    from fedservice.entity.function import PolicyError
    from fedservice.entity.function.policy import TrustChainPolicy
    from fedservice.entity_statement.statement import TrustChain
    n, chain, said = case["asserts"], [], []
    kinds = ["none", "atom", False, True, "", "empty"]
    for i in range(n):
        v = S.choose(f"says{i}", kinds)
        v = S.atom(f"v{i}", ("",)) if v == "atom" else [] if v == "empty" else v
        st = {"iss": f"https://e{i}", "sub": f"https://e{i + 1}", "exp": 1}
        if not (isinstance(v, str) and v == "none"):
            st["metadata"] = {RP: {"c": v, f"o{i}": i}, FE: {"c": "federation"}}
            said.append(v)
        chain.append(st)
    leaf = subject(n, None)
    if case["own"]:
        leaf["metadata"][RP]["c"] = S.choose("own", [False, "", "mine"])
    own = leaf["metadata"][RP].get("c")
    tc = TrustChain(exp=1, verified_chain=chain + [leaf])
    st, r = call(TrustChainPolicy(lambda *a: None), tc)
    S.cover("falsy")

    def same(a, b):
        strs = [isinstance(x, (bool, list)) for x in (a, b)]
        if any(strs):
            return all(strs) and type(a) is type(b) and a == b
        return S.eq(a, b)
    conflict = S.or_(*[S.not_(same(a, b)) for a, b in zip(said, said[1:])])
    info = {"said": said, "own": own, "out": repr(r) if st == "raise" else tc.metadata}
    S.observe("out", st)
    if st == "raise":
        S.check(isinstance(r, PolicyError), "refusal is a policy error", info)
        S.check(conflict, "a chain without contradictions is accepted", info)
        return
    S.check(S.not_(conflict), "contradicting statements in a chain are refused", info)
    M = tc.metadata[RP]
    want = own if case["own"] else said[0] if said else None
    if want is None:
        S.check("c" not in M, "no value comes from nowhere", info)
    else:
        S.check("c" in M and same(M["c"], want), "what superiors assert is there where the subject is silent", info)
    S.check({k: v for k, v in M.items() if k != "c"} ==
            {"x": "own", **{f"o{i}": i for i in range(n) if "metadata" in chain[i]}}, "all that superiors assert is there", info)


def unfold(v):
    if isinstance(v, dict):
        return {k: unfold(x) for k, x in v.items()}
    return [unfold(x) for x in v] if isinstance(v, list) else v


def run(S, case):
    if "then" in case:
        return again(S, case)
    if "asserts" in case:
        return asserts(S, case)
    from fedservice.entity.function import PolicyError
    from fedservice.entity.function.policy import TrustChainPolicy
    from fedservice.entity_statement.statement import TrustChain

    n = len(case["sup"])
    chain, pols, asserted = statements(S, case["sup"])
    before = unfold(chain)
    if case["shape"] == "absent":
        base = None
    elif case["shape"] == "scalar":
        base = S.atom("meta")
    else:
        base = [S.atom("meta[0]"), S.atom("meta[1]")]
    leaf = subject(n, base)
    chain.append(leaf)
    tc = TrustChain(exp=1, verified_chain=chain)
    st, r = call(TrustChainPolicy(lambda *a: None), tc)
    S.check(chain[:n] == before, "what the superiors stated is left as it was")

    # statements asserting different values for one claim contradict each other
    conflict = S.or_(*[S.not_(S.eq(a[1][0], b[1][0])) for a in asserted for b in asserted])
    ess_drop = S.or_(*[S.and_(pols[i]["essential"], S.not_(pols[j]["essential"]))
                       for i in range(n) for j in range(i + 1, n)
                       if "essential" in pols[i] and "essential" in pols[j]
                       and not any("value" in p for p in pols)])
    S.check(S.implies(S.or_(conflict, ess_drop), st == "raise"),
            "contradicting statements in a chain are refused")
    if st == "raise":
        S.observe("out", "refused")
        S.cover("refused")
        S.check(isinstance(r, PolicyError), "refusal is a policy error", {"exc": repr(type(r))})
        # harmless chains are not refused
        used = [o for s in case["sup"] for o in s]
        if not set(used) - {"add", "default", "metadata", "essential"} and used.count("default") <= 1 \
                and "default" not in used and not ("metadata" in used and "add" in used):
            missing = S.and_(base is None and "add" not in used and "metadata" not in used,
                             S.or_(*[p["essential"] for p in pols if "essential" in p]))
            S.check(S.or_(conflict, ess_drop, missing,
                          ), "a chain without contradictions is accepted")
        if S.symbolic is False or True:
            if asserted and len(asserted) > 1:
                S.cover("meta-conflict")
        return
    S.cover("resolved")
    M = tc.metadata[RP]
    got = M.get("c")
    S.observe("out", Bag(got) if isinstance(got, list) else got)
    S.check(set(tc.metadata) == {RP, "openid_provider"},
            "exactly the entity types the subject has get metadata")
    S.check(tc.metadata["openid_provider"] == {"c": ["op"]},
            "an entity type nobody has a policy for keeps its metadata")
    S.check(M.get("x") == "own", "claims without policy are kept")
    S.cover("silent-type")
    vals = None if got is None else got if isinstance(got, list) else [got]
    fixed = [p["value"] for p in pols if "value" in p]
    for i, p in enumerate(pols):
        if "value" in p:
            S.check(vals is not None and S.and_(S.subset(vals, p["value"]),
                                                S.subset(p["value"], vals)),
                    "a value fixed anywhere in the chain is the value", {"got": got, "pols": pols})
        for op in ("subset_of", "one_of"):
            if op in p:
                S.check(vals is None or S.subset(vals, p[op]),
                        f"no value outside any superior's {op}", {"got": got, "pols": pols})
        if "one_of" in p and not fixed:
            S.check(vals is None or len(vals) == 1, "one_of leaves a single value")
        if "essential" in p:
            S.check(S.implies(p["essential"], vals is not None),
                    "a claim any superior calls essential is present")
        if "add" in p and not any("subset_of" in q or "value" in q for q in pols):
            S.check(vals is not None and S.subset(p["add"], vals),
                    "values any superior adds are present", {"got": got, "pols": pols})
    if not fixed:
        sup = [p["superset_of"] for p in pols if "superset_of" in p]
        if sup and vals is not None:
            for x in sup[0]:
                S.check(S.implies(S.and_(*[S.member(x, s) for s in sup[1:]]), S.member(x, vals)),
                        "values demanded by all superiors are present")
        # nothing appears out of thin air
        src = [v for p in pols for o in ("add", "default") if o in p for v in p[o]]
        src += [v for _, a in asserted for v in a]
        src += [] if base is None else base if isinstance(base, list) else [base]
        S.check(vals is None or S.subset(vals, src), "no value comes from nowhere")
        if base is not None:
            dropped_ok = S.or_(*[True for p in pols if "subset_of" in p])
            bl = base if isinstance(base, list) else [base]
            S.check(S.or_(dropped_ok, vals is not None and S.subset(bl, vals)),
                    "only subset_of takes values away from the subject")

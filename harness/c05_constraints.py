"""max_path_length and naming constraints of a verified trust chain."""
import itertools

from sx.engine import call

COVERS = ["accepted", "refused-length", "refused-name", "longer-than-limit", "spelling"]
BOUNDS = {
    "quick": "chains of 1..4 subordinate statements (with or without the leaf's entity configuration) with any "
             "integer or no max_path_length at every level; naming constraints at up to two levels of chains of "
             "1..3 subordinate statements, permitted/excluded lists of up to 2 entries of 1..2 labels with and "
             "without leading dot, subjects of 2..3 labels with and without port, path, query, "
             "user information and final dot; constraints at every level of chains of 5; labels known up to equality",
    "thorough": "chains of 1..6 statements for max_path_length; naming constraints at up to three levels and "
                "subjects of 1..4 labels",
}
ASSUMPTIONS = ["host name labels are lower-case words; entity identifiers are https/http URLs",
               "constraints are only used in subordinate statements (as the specification has it)"]
OUTSIDE = "international domain names, IP address literals, constraints inside entity configurations"
BUDGET = {"quick": 500, "thorough": 3600}


def cases(tier):
    out = []
    for n in range(1, 5 if tier == "quick" else 7):
        for ec in (True, False):
            for ta in (True, False):
                out.append({"k": "len", "n": n, "ec": ec, "ta_ec": ta})
    names = [[], [(1, True)], [(2, True)], [(2, False)], [(1, True), (2, False)]]
    subj = [(2, ""), (3, ""), (3, ":8443/p.q"), (2, "/x.y/z")]
    if tier != "quick":
        names += [[(3, False)], [(2, True), (2, True)]]
        subj += [(4, ""), (1, "/p")]
    for n in (1, 2, 3):
        lv = list(range(n))
        for where in [w for r in (1, 2) for w in itertools.combinations(lv, r)]:
            for kinds in itertools.product(("permitted", "excluded"), repeat=len(where)):
                for sp in itertools.product(names[1:], repeat=len(where)):
                    if tier == "quick" and len(where) == 2 and n == 3 and \
                            (max(len(x) for x in sp) > 1):
                        continue
                    for sj in subj:
                        out.append({"k": "name", "n": n, "subj": list(sj), "where": list(where),
                                    "cons": [[kd, [list(e) for e in x]] for kd, x in zip(kinds, sp)]})
    # many levels that each state something
    for n in (4, 5):
        for kinds in (["permitted"] * n, ["excluded"] * n, (["permitted", "excluded"] * n)[:n], (["excluded", "permitted"] * n)[:n]):
            for x in ([(1, True)], [(2, False)]):
                if x[0][0] == 1 or len(set(kinds)) == 1:
                    out.append({"k": "name", "n": n, "subj": [2, ""], "where": list(range(n)),
                                "cons": [[kd, [list(e) for e in x]] for kd in kinds]})
    # other ways of writing a name
    for odd in ([2, "."], [2, "./p"], [2, "?x.y"], [2, "#x.y"], [2, "/@x.y"], [2, "", "user@"], [2, ":8443", "x.y:pw@"]):
        for kind in ("permitted", "excluded"):
            for x in ([(1, True)], [(2, False)]):
                out.append({"k": "name", "n": 2, "subj": odd, "where": [0], "cons": [[kind, [list(e) for e in x]]]})
    out.append({"k": "case"})
    # both lists in one statement, wrong scheme
    for sj in subj:
        out.append({"k": "both", "subj": list(sj)})
    return out


def host(S, nm, labels, dotted=False, suffix="", prefix=""):
    ls = [S.word(f"{nm}.{i}") for i in range(labels)]
    parts = ["https://" + prefix] + (["."] if dotted else [])
    for i, l in enumerate(ls):
        parts += ([l] if i == 0 else [".", l])
    return ls, S.rope(*parts, suffix)


def covers(S, con, labels):
    cl, dotted = con
    if len(labels) < len(cl) + (1 if dotted else 0):
        return False
    return S.and_(*[S.eq(x, y) for x, y in zip(cl[::-1], labels[::-1])])


def run(S, case):
    from fedservice.entity_statement import constraints as C
    k = case["k"]
    if k == "len":
        n = case["n"]
        chain, lim = [], []
        if case["ta_ec"]:
            chain.append({"iss": "https://e0.org", "sub": "https://e0.org", "exp": 1})
        for i in range(n):
            st = {"iss": f"https://e{i}.org", "sub": f"https://e{i + 1}.org", "exp": 1}
            how = S.choose(f"has{i}", ["no", "empty", "yes"])
            if how == "yes":
                m = S.int(f"max{i}")
                lim.append((i, m))
                st["constraints"] = {"max_path_length": m}
            elif how == "empty":
                st["constraints"] = {}
            chain.append(st)
        if case["ec"]:
            chain.append({"iss": f"https://e{n}.org", "sub": f"https://e{n}.org", "exp": 1})
        st, r = call(C.meets_restrictions, chain)
        S.check(st == "ok", "deciding constraints does not fail", {"exc": repr(r) if st != "ok" else ""})
        if st != "ok":
            return
        r = bool(r)
        S.observe("r", r)
        bad = S.or_(*[m < n - i - 1 for i, m in lim])
        S.check(S.implies(bad, not r),
                "a chain with more intermediates than a superior allows is refused", {"lim": lim, "n": n})
        S.check(S.or_(bad, r), "a chain within every superior's limit is accepted", {"lim": lim, "n": n})
        S.cover("accepted" if r else "refused-length")
        if not r and len(lim) == 1 and lim[0][0] < n - 2:
            S.cover("longer-than-limit")
        return
    # naming
    if k == "case":
        return spelling(S, C)
    labels_n, suffix, prefix = (list(case["subj"]) + [""])[:3]
    if k == "both":
        n, where = 2, [0]
    else:
        n, where = case["n"], case["where"]
    chain, subs, cons = [], [], []
    for i in range(n):
        ls, name = host(S, f"sub{i}", labels_n, False, suffix, prefix)
        subs.append(ls)
        st = {"iss": chain[-1]["sub"] if chain else "https://anchor.org", "sub": name, "exp": 1}
        if i in where:
            if k == "both":
                p = host(S, "p", 1, True)
                x = host(S, "x", 2, False)
                st["constraints"] = {"naming_constraints": {"permitted": [p[1]], "excluded": [x[1]]}}
                cons += [(i, "permitted", [(p[0], True)]), (i, "excluded", [(x[0], False)])]
            else:
                kind, entries = case["cons"][where.index(i)]
                es = [(host(S, f"c{i}.{j}", nl, dot), dot) for j, (nl, dot) in enumerate(entries)]
                st["constraints"] = {"naming_constraints": {kind: [e[0][1] for e in es]}}
                cons.append((i, kind, [(e[0][0], e[1]) for e in es]))
        # iss and sub of a subordinate statement differ
        S.assume(S.not_(S.eq(st["iss"], st["sub"])))
        chain.append(st)
    chain.append({"iss": chain[-1]["sub"], "sub": chain[-1]["sub"], "exp": 1})
    st, r = call(C.meets_restrictions, chain)
    S.check(st == "ok", "deciding constraints does not fail", {"exc": repr(r) if st != "ok" else ""})
    if st != "ok":
        return
    r = bool(r)
    S.observe("r", r)
    bad = []
    for i, kind, es in cons:
        for ls in subs[i:]:
            hit = S.or_(*[covers(S, e, ls) for e in es])
            bad.append(hit if kind == "excluded" else S.not_(hit))
    S.check(S.eq(r, S.not_(S.or_(*bad))),
            "every entity below a superior must have a name its naming constraints allow",
            {"chain": chain, "r": r})
    S.cover("accepted" if r else "refused-name")


def spelling(S, C):
    """host names are the same however they are written"""
    name = S.choose("name", ["https://a.example.org", "https://A.Example.ORG", "http://a.example.org./x", "https://aexample.org",
                             "https://b.A.EXAMPLE.org:443", "https://a.example.com"])
    con = S.choose("con", ["https://.example.org", "https://.EXAMPLE.Org", "https://a.example.org", "https://A.EXAMPLE.org",
                           "https://.org"])
    kind = S.choose("kind", ["permitted", "excluded"])
    host_ = name.split("//")[1].split("/")[0].split(":")[0].rstrip(".").lower()
    c = con.split("//")[1].lower()
    hit = host_ == c or host_.endswith("." + c.lstrip("."))
    chain = [{"iss": "https://anchor.org", "sub": name, "exp": 1, "constraints": {"naming_constraints": {kind: [con]}}},
             {"iss": name, "sub": name, "exp": 1}]
    st, r = call(C.meets_restrictions, chain)
    S.observe("r", r if st == "ok" else st)
    S.cover("spelling")
    S.check(st == "ok" and bool(r) == (hit if kind == "permitted" else not hit),
            "every entity below a superior must have a name its naming constraints allow", {"chain": chain, "r": repr(r)})

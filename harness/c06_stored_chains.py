"""Stored trust chains: used no longer than they are valid, chosen by priority."""
import itertools

from sx.engine import call

COVERS = ["served", "renewed", "gone", "by-priority", "no-priority", "two-anchors", "shorter", "exported"]
BOUNDS = {
    "quick": "up to two stored chains with symbolic expiry, asked for at two arbitrary moments; lists of 1..3 chains "
             "over 3 anchors of symbolic identity and 1..4 statements, priority lists of 0..3 anchors",
    "thorough": "lists of up to 4 chains, priority lists of up to 4 anchors, three moments",
}
ASSUMPTIONS = ["the clock does not run backwards", "a signature verifies exactly with the key that made it"]
OUTSIDE = "chains stored by other processes, persistence"
BUDGET = {"quick": 500, "thorough": 3600}

L, TA, TB, TC = ("https://%s.example.org" % x for x in ("leaf", "ta", "tb", "tc"))
ME = "https://me.example.org"


def setup(symbolic):
    from sx import world
    world.install(symbolic)


def cases(tier):
    out = []
    for api in ("chains", "metadata", "fed"):
        for roots in ([TA], [TA, TB]):
            out.append({"k": "life", "api": api, "roots": roots, "n": 2 if tier == "quick" else 3})
    top, pr = (3, 3) if tier == "quick" else (4, 4)
    for n in range(1, top + 1):
        for p in range(pr + 1):
            out.append({"k": "pick", "n": n, "p": p})
            out.append({"k": "stored", "n": n, "p": p})
        out.append({"k": "save", "n": n})
        out.append({"k": "export", "n": n})
    return out


def run(S, case):
    {"life": life, "pick": pick, "stored": pick, "save": save, "export": export}[case["k"]](S, case)


def life(S, case):
    from sx import world, fed
    from harness.c07_resolution import Federation
    W = world.begin(S)
    F = Federation(S, W)
    F.hints = {L: list(case["roots"]), TA: [], TB: []}
    fe = fed.entity(ME, {a: F.jwks(a) for a in case["roots"]})

    def get():
        if case["api"] == "chains":
            return call(fe.get_trust_chains, L)
        if case["api"] == "metadata":
            return call(fe.get_verified_metadata, L)
        return call(fe.get_federation_entity_metadata, L)

    t, old = 1, []
    for step in range(case["n"]):
        t0, t = t, S.int(f"t{step}", 1, 3_000_000_000)
        S.assume(t0 <= t)
        W.now = t
        for r in case["roots"]:
            # the anchors renew, or let go, at every step
            e = S.int(f"e{step}.{r}", 1, 3_900_000_000)
            if (r, L) in F.exp:
                S.assume(F.exp[r, L] <= e)
            else:
                S.assume(t <= e)
            F.exp[r, L] = e
            old.append((r, e))
        n = len(F.asked)
        r, v = get()
        ok = r == "ok" and bool(v)
        S.observe(f"ok{step}", ok)
        info = {"t": t, "exp": {k[0]: v for k, v in F.exp.items()}, "asked": F.asked[n:], "how": repr(v)[:80]}
        S.cover("served" if len(F.asked) == n else "renewed")
        # which statements that ever were issued are valid now
        alive = {a: S.or_(*[t <= e for b, e in old if b == a]) for a in case["roots"]}
        if ok:
            if case["api"] == "chains":
                S.check(S.and_(*[t <= tc.exp for tc in v]), "no expired chain is handed out", info)
                S.check(S.and_(*[S.implies(alive[a], any(tc.anchor == a for tc in v)) for a in case["roots"]])
                        if len(F.asked) > n else True, "a fresh answer has a chain to every anchor", info)
                if len(v) > 1:
                    S.cover("two-anchors")
            S.check(S.or_(*alive.values()), "nothing is handed out when no statement is valid any more", info)
            if case["api"] == "metadata":
                S.check(v.get("federation_entity", {}).get("federation_fetch_endpoint") == L + "/fetch",
                        "the metadata is the entity's", info)
            if case["api"] == "fed":
                S.check(v.get("federation_fetch_endpoint") == L + "/fetch", "the metadata is the entity's", info)
        else:
            S.cover("gone")
            S.check(S.not_(S.or_(*[t <= F.exp[a, L] for a in case["roots"]])),
                    "an entity with a valid chain has one handed out", info)


def chains(S, n):
    from fedservice.entity_statement.statement import TrustChain
    out = []
    for i in range(n):
        a = S.atom(f"anchor{i}", (TA, TB, TC), other=False)
        size = S.size(f"len{i}", 1, 4) if n <= 2 else S.size(f"len{i}", 2, 3)
        out.append(TrustChain(anchor=a, exp=S.int(f"exp{i}"), iss_path=[L] + ["x"] * (size - 1),
                              verified_chain=[{"n": (i, j)} for j in range(size)]))
    return out


def pick(S, case):
    from sx import world, fed
    world.begin(S)
    fe = fed.entity(ME, {})
    tcs = chains(S, case["n"])
    prio = [S.atom(f"prio{i}", (TA, TB, TC)) for i in range(case["p"])]
    fe.context.tr_priority = prio
    if case["k"] == "stored":
        for i, a in enumerate(tcs):
            for b in tcs[:i]:
                S.assume(S.not_(S.eq(a.anchor, b.anchor)))
        fe.context.trust_chain = {L: {tc.anchor: tc for tc in tcs}, "https://other.example.org": {}}
        r, got = call(fe.pick_from_stored_trust_chains, L)
    else:
        r, got = call(fe.pick_trust_chain, list(tcs))
    info = {"anchors": [t.anchor for t in tcs], "priority": prio, "got": getattr(got, "anchor", got)}
    S.check(r == "ok" and any(got is t for t in tcs), "one of the chains is picked", info)
    if r != "ok":
        return
    # nothing with a higher priority is available
    for i, p in enumerate(prio):
        if any(bool(S.eq(p, t.anchor)) for t in tcs):
            S.cover("by-priority")
            S.check(S.eq(got.anchor, p), "the anchor of the highest priority is picked", info)
            return
    S.cover("no-priority")


def save(S, case):
    from sx import world, fed
    world.begin(S)
    from fedservice import save_trust_chains, get_trust_chain
    from fedservice.entity_statement.statement import chains2dict
    fe = fed.entity(ME, {})
    tcs = chains(S, case["n"])
    r, d = call(chains2dict, list(tcs))
    info = {"anchors": [t.anchor for t in tcs], "len": [len(t.verified_chain) for t in tcs]}
    S.check(r == "ok", "chains can be filed by anchor", info)
    call(save_trust_chains, fe.context, list(tcs))
    for t in tcs:
        for got in (d.get(t.anchor), get_trust_chain(fe.context, L, t.anchor)):
            S.check(got is not None and any(got is x for x in tcs) and S.eq(got.anchor, t.anchor),
                    "every anchor has a chain of its own", info)
            if got is not None:
                if len(got.verified_chain) < len(t.verified_chain):
                    S.cover("shorter")
                S.check(len(got.verified_chain) <= len(t.verified_chain), "of several the shortest", info)
    S.check(not get_trust_chain(fe.context, "https://other.example.org"), "nothing is known about others", info)


def export(S, case):
    from sx import world
    W = world.begin(S)
    tcs = chains(S, case["n"])
    W.now = S.int("now", -5, 5)
    for tc in tcs:
        before = list(tc.verified_chain)
        for _ in range(2):
            r, out = call(tc.export_chain)
            S.check(r == "ok" and out == before[::-1], "the leaf's statement comes first", {"n": len(before)})
            S.check(tc.verified_chain == before, "exporting leaves the chain as it is", {"n": len(before)})
        S.cover("exported")
        r, e = call(tc.is_expired)
        S.check(r == "ok" and S.eq(bool(e), tc.exp < W.now) if not S.symbolic else
                S.or_(S.and_(bool(e), tc.exp < W.now), S.and_(not bool(e), S.not_(tc.exp < W.now))),
                "a chain is expired when its expiry has passed", {"exp": tc.exp, "now": W.now})

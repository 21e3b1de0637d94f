"""Trust chains: only properly linked, signed, unexpired chains from a configured anchor."""
import itertools

from sx.engine import call

COVERS = ["accepted", "refused", "self-issued-top", "second-accepted", "two-keys"]
BOUNDS = {
    "quick": "one chain of 1..4 statements (anchor's statement first, entity configuration last), every statement "
             "with symbolic issuer, subject, signer, header kid, published key and kid, integrity, exp and a symbolic "
             "clock; histories of two chains of 1..3 statements; key sets of 1..2 keys; alg ES256, HS256 or none",
    "thorough": "chains of 1..6 statements, histories of two chains of up to 4 statements",
}
ASSUMPTIONS = ["a signature verifies exactly with the key that made it (JWS and key classes are modelled, the key "
               "jar and JWS/JWT classes are the real cryptojwt)", "every statement has an exp"]
OUTSIDE = "RSA key encodings, x5c/jku header parameters, encrypted statements"
BUDGET = {"quick": 600, "thorough": 5400}

TA, TB, ME, EVIL = "https://ta.example.org", "https://tb.example.org", "https://me.example.org", "https://evil.example.org"


def setup(symbolic):
    from sx import world
    world.install(symbolic)


def cases(tier):
    out = []
    top = 4 if tier == "quick" else 6
    nfree = 1 if tier == "quick" else 2
    for n in range(1, top + 1):
        sets = itertools.combinations(range(n), min(n, nfree if n > 2 else n))
        for free in sets:
            out.append({"k": "one", "n": n, "free": list(free), "two": -1, "alg": -1})
        for i in range(n):
            out.append({"k": "one", "n": n, "free": [], "two": i, "alg": -1})
            out.append({"k": "one", "n": n, "free": [], "two": -1, "alg": i})
        out.append({"k": "honest", "n": n})
    hl = 2 if tier == "quick" else 3
    for a in range(1, hl + 1):
        for b in range(1, hl + 1):
            for fa in range(a):
                for fb in range(b):
                    out.append({"k": "two", "n": [a, b], "free": [fa, fb]})
    return out


def statement(S, W, nm, i, n, pool, above, two=False, alg=False, honest=False, free=True):
    """payload, token and what the harness knows about it"""
    ents = [TA] + [f"https://e{j}.example.org" for j in range(1, n + 1)]
    want_iss = ents[i]
    want_sub = (ents[i + 1] if i < n - 1 else want_iss)
    if free:
        li = [want_iss] + [x for x in ((TA, TB, ME, EVIL) if i == 0 else (EVIL, TA)) if x != want_iss]
        iss = S.atom(f"{nm}iss{i}", li, other=False)
        ls = [want_sub] + [x for x in (TA, ME, want_iss) if x != want_sub]
        sub = S.atom(f"{nm}sub{i}", ls, other=False)
    else:
        iss, sub = want_iss, want_sub
    d = dict(iss=iss, sub=sub, exp=S.int(f"{nm}exp{i}", 0, 4_000_000_000))
    d["signer"] = S.atom(f"{nm}signer{i}", pool)
    d["bad"] = S.bool(f"{nm}bad{i}") if not honest else False
    ks = []
    for j in range(2 if two else 1):
        ks.append((S.atom(f"{nm}key{i}.{j}", pool), S.atom(f"{nm}kid{i}.{j}", ("k1",)) if two else f"k{i}"))
    if two:
        S.assume(S.not_(S.eq(ks[0][1], ks[1][1])))      # key ids are unique within a JWKS
    d["keys"] = ks
    d["alg"] = S.choose(f"{nm}alg{i}", ["ES256", "none", "HS256"]) if alg else "ES256"
    if free:
        how = S.choose(f"{nm}haskid{i}", ["kid", "nokid"])
        d["kid"] = S.atom(f"{nm}hkid{i}", ("ta1", "tb1", f"k{i - 1}")) if how == "kid" else None
    else:
        d["kid"] = "ta1" if i == 0 else above["keys"][0][1] if above["keys"] else "k1"
    pl = {"iss": iss, "sub": sub, "exp": d["exp"], "iat": 0}
    if free and i == n - 1 and S.flag(f"{nm}nojwks{i}"):
        d["keys"] = []
    else:
        pl["jwks"] = W.jwks(*[W.jwk(m, k) for m, k in ks])
    d["payload"] = pl
    if d["alg"] == "HS256" and not S.symbolic:
        d["token"] = hs_token(pl, d["kid"])
    else:
        d["token"] = W.sign(pl, d["signer"], d["kid"], d["alg"], d["bad"])
    return d


def hs_token(pl, kid):
    import json
    from cryptojwt.utils import b64e
    h = {"alg": "HS256"}
    if kid is not None:
        h["kid"] = kid
    return (b64e(json.dumps(h).encode()) + b"." + b64e(json.dumps(pl).encode()) + b"." + b64e(b"x" * 32)).decode()


def good(S, st, anchors, now):
    """what the federation demands of a chain"""
    conj = []
    top = st[0]
    conj.append(S.member(top["iss"], list(anchors) + [ME]))
    for a, keys in anchors.items():
        conj.append(S.implies(S.eq(top["iss"], a), S.member(top["signer"], keys)))
    conj.append(S.not_(S.eq(top["iss"], ME)))      # I never signed any of these
    for i, d in enumerate(st):
        conj.append(S.not_(d["bad"]))
        conj.append(d["alg"] == "ES256")
        conj.append(now <= d["exp"])
        if i:
            conj.append(S.eq(d["iss"], st[i - 1]["sub"]))
            conj.append(S.member(d["signer"], [k for k, _ in st[i - 1]["keys"]]))
    return conj


def run(S, case):
    from sx import world, fed
    W = world.begin(S)
    now = S.int("now", 1, 3_000_000_000)
    W.now = now
    pool = ("kta", "ktb", "ka", "kb")
    anchors = {TA: ["kta"], TB: ["ktb"]}
    fe = fed.entity(ME, {TA: W.jwks(W.jwk("kta", "ta1")), TB: W.jwks(W.jwk("ktb", "tb1"))})
    from fedservice.entity.function import verify_trust_chain

    ns = case["n"] if case["k"] == "two" else [case["n"]]
    honest = case["k"] == "honest"
    extra = {a: list(k) for a, k in anchors.items()}
    for step, n in enumerate(ns):
        st = []
        for i in range(n):
            if case["k"] == "two":
                free = case["free"][step] == i
            else:
                free = i in case.get("free", [])
            st.append(statement(S, W, f"c{step}.", i, n, pool, st[-1] if st else None, two=case.get("two") == i,
                                alg=case.get("alg") == i, honest=honest, free=free))
        conj = good(S, st, extra, now)
        kids = []
        for i, d in enumerate(st):
            if d["kid"] is None:
                kids.append(step == 0)       # which of several keys is left open then
            elif i:
                kids.append(S.or_(*[S.and_(S.eq(d["kid"], k), S.eq(d["signer"], m)) for m, k in st[i - 1]["keys"]]))
            else:
                kids += [S.implies(S.eq(d["iss"], a), S.and_(S.eq(d["kid"], k), S.member(d["signer"], anchors[a])))
                         for a, k in ((TA, "ta1"), (TB, "tb1"))]
        proper = S.and_(*conj, *kids)
        if case["k"] == "two" and step == 0:
            # the history's first chain is accepted, whatever it says about whom
            S.assume(proper)
        before = {w: fed.materials(fe.keyjar, w) for w in (TA, TB, ME)}
        r, tc = call(verify_trust_chain, fe, [d["token"] for d in st])
        ok = r == "ok" and bool(tc)
        S.observe(f"ok{step}", ok)
        info = {"now": now, "chain": [{k: d[k] for k in ("iss", "sub", "exp", "signer", "bad", "alg", "kid", "keys")}
                                      for d in st]}
        if ok:
            S.cover("accepted" if step == 0 else "second-accepted")
            if case.get("two", -1) >= 0:
                S.cover("two-keys")
            S.check(conj[0], "an accepted chain starts at a configured trust anchor", info)
            S.check(S.and_(*conj[1:1 + len(extra) + 1]),
                    "an accepted chain's first statement is signed by a key configured for the anchor", info)
            S.check(S.and_(*[S.and_(S.not_(d["bad"]), d["alg"] == "ES256") for d in st]),
                    "no unsigned or altered statement is accepted", info)
            S.check(S.and_(*[now <= d["exp"] for d in st]), "no expired statement is accepted", info)
            S.check(S.and_(*[S.eq(d["iss"], u["sub"]) for u, d in zip(st, st[1:])]),
                    "each statement is issued by the subject of the one above", info)
            S.check(S.and_(*[S.member(d["signer"], [k for k, _ in u["keys"]]) for u, d in zip(st, st[1:])]),
                    "each statement is signed by a key its superior's statement lists", info)
            S.check(S.eq(tc.anchor, st[0]["iss"]), "the chain's anchor is the issuer of the first statement", info)
            S.check(S.and_(len(tc.iss_path) == n, *[S.eq(a, d["iss"]) for a, d in zip(tc.iss_path, st[::-1])]),
                    "the issuer path lists the issuers from the leaf up", info)
            S.check(S.and_(S.or_(*[S.eq(tc.exp, d["exp"]) for d in st]), *[tc.exp <= d["exp"] for d in st]),
                    "a chain expires with its first statement", info)
            S.check(S.and_(len(tc.verified_chain) == n,
                           *[S.and_(S.eq(v["iss"], d["iss"]), S.eq(v["sub"], d["sub"]), S.eq(v["exp"], d["exp"]))
                             for v, d in zip(tc.verified_chain, st)]),
                    "the verified statements are the ones that were given", info)
            for d in st:
                if not bool(S.member(d["sub"], [TA, TB, ME])):
                    have = fed.materials(fe.keyjar, str(d["sub"]))
                    S.check(S.and_(*[S.member(m, have) for m, _ in d["keys"]]),
                            "the keys an accepted chain lists for an entity are that entity's keys from then on",
                            dict(info, have=have))
            for d in st:
                # an anchor may itself publish further keys of its own
                for a in (TA, TB):
                    if bool(S.and_(S.eq(d["iss"], a), S.eq(d["sub"], a))):
                        extra[a] = extra[a] + [k for k, _ in d["keys"]]
                        S.cover("self-issued-top")
        else:
            S.cover("refused")
            S.check(S.not_(proper), "a proper chain is accepted", dict(info, how=repr(tc) if r != "ok" else ""))
            if step == 0:
                after = {w: fed.materials(fe.keyjar, w) for w in (TA, TB, ME)}
                S.check(S.and_(*[S.and_(len(before[w]) == len(after[w]),
                                        *[S.eq(x, y) for x, y in zip(before[w], after[w])]) for w in before]),
                        "a refused chain leaves the anchors' and my own keys alone", info)
        after = {w: fed.materials(fe.keyjar, w) for w in (TA, TB, ME)}
        S.check(S.and_(*[S.member(m, extra[a]) for a in (TA, TB) for m in after[a]]),
                "nobody but an anchor itself can add to the anchor's keys", info)
        S.check(S.and_(*[S.member(m, before[ME]) for m in after[ME]]), "nobody can add to my keys", info)

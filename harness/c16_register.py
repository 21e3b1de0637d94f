"""What a trust mark issuer says about the trust marks it has issued."""
import json
import os
import shutil
import tempfile

from sx.engine import call

COVERS = ["active", "inactive", "expired", "never-issued", "listed", "empty-list", "renewed", "restored", "by-iat", "token", "foreign-token",
          "forged-token", "sub-list", "own-lifetime"]
BOUNDS = {
    "quick": "up to two issued trust marks (three in the thorough tier) of two ids, one with and one without a lifetime, to two "
             "receivers, at arbitrary times with an arbitrary lifetime or an expiry time of their own; every kind of status and list question at an arbitrary later time; "
             "kept in memory or in files, also after a restart or a dump and load; 9 kinds of trust mark tokens",
    "thorough": "as quick, with three issued trust marks",
}
ASSUMPTIONS = ["a signature verifies exactly with the key that made it", "files are written and read faithfully"]
OUTSIDE = "concurrent writers and crashes while a file is written, HTTP framing"
BUDGET = {"quick": 500, "thorough": 3600}

ME = "https://tmi.example.org"
SUBS = ["https://rp.example.org", "https://rp.example.org/2"]
A, B, C = ("https://marks.example.org/" + x for x in ("a", "a/b", "A"))
IDS = [A, B]
SRV = "fedservice.trust_mark_entity.server."
EP = {"trust_mark": {"path": "trust_mark", "class": SRV + "trust_mark.TrustMark", "kwargs": {}},
      "trust_mark_list": {"path": "trust_mark_list", "class": SRV + "trust_mark_list.TrustMarkList", "kwargs": {}},
      "trust_mark_status": {"path": "trust_mark_status", "class": SRV + "trust_mark_status.TrustMarkStatus", "kwargs": {}}}
TOKENS = ["right", "altered", "unsigned", "stranger", "named-me", "other-issuer", "other-issuer-me", "unregistered", "expired"]


def setup(symbolic):
    from sx import world
    world.install(symbolic)


def cases(tier):
    n = 2 if tier == "quick" else 3
    out = []
    for db in ("simple", "file"):
        for again in ("no", "dump") if db == "simple" else ("no", "restart", "dump"):
            for q in ("status", "list"):
                out.append({"k": q, "db": db, "again": again, "n": n if again == "no" else 2})
        out.append({"k": "iat", "db": db, "again": "no", "n": n})
        for q in ("status", "list", "iat"):
            out.append({"k": q, "db": db, "again": "no", "n": 2, "own": True})
        out.append({"k": "token", "db": db, "again": "no", "n": 1})
    return out


def issuer(fed, W, db, life, tmp):
    spec = {A: {"lifetime": life}, B: {}}
    kw = {"trust_mark_specification": spec, "endpoint": {k: dict(v, kwargs={}) for k, v in EP.items()}}
    if db == "file":
        kw["trust_mark_db"] = {"class": "fedservice.trust_mark_entity.FileDB",
                               "kwargs": {A: os.path.join(tmp, "a"), B: os.path.join(tmp, "b")}}
    return fed.entity(ME, {}, trust_mark_entity={"class": "fedservice.trust_mark_entity.entity.TrustMarkEntity", "kwargs": kw})


def run(S, case):
    tmp = tempfile.mkdtemp(prefix="sx16")
    try:
        check(S, case, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(S, case, tmp):
    from sx import world, fed
    W = world.begin(S)
    db = case["db"]
    life = S.int("life", 1, 100_000_000)
    fe = issuer(fed, W, db, life, os.path.join(tmp))
    tme = fe.server.trust_mark_entity
    issued = []
    last = 1000
    n = S.choose("n", list(range(case["n"] + 1)))
    for i in range(n):
        W.now = t = S.int(f"t{i}", 1000, 3_000_000_000)
        S.assume(t >= last)
        last = t
        mid = S.choose(f"id{i}", IDS[1:] if case.get("own") else IDS)
        sub = S.choose(f"sub{i}", SUBS)
        if any(m[:2] == (mid, sub) for m in issued):
            S.cover("renewed")
        kw = {}
        if case.get("own") and S.flag(f"own{i}"):
            kw["exp"] = S.int(f"exp{i}", 1, 3_900_000_000)
            S.cover("own-lifetime")
        r, tok = call(tme.create_trust_mark, mid, sub, **kw)
        S.check(r == "ok", "a trust mark is issued", {"how": repr(tok)})
        if r != "ok":
            return
        issued.append((mid, sub, t, kw.get("exp", t + life if mid == A else None), tok))
    if case["again"] == "dump":
        S.cover("restored")
        text = tme.dump_trust_marks()
        tmp2 = os.path.join(tmp, "x")
        os.mkdir(tmp2)
        fe = issuer(fed, W, db, life, tmp2)
        tme = fe.server.trust_mark_entity
        tme.load_trust_marks(text)
    elif case["again"] == "restart":
        S.cover("restored")
        fe = issuer(fed, W, db, life, tmp)
        tme = fe.server.trust_mark_entity
    W.now = now = S.int("now", 1000, 3_900_000_000)
    S.assume(now >= last)

    def valid(m):
        return True if m[3] is None else m[3] >= now

    def latest(mid, sub):
        l = [m for m in issued if m[:2] == (mid, sub)]
        return l[-1] if l else None
    info = {"case": case, "issued": [m[:4] for m in issued], "now": now}

    def status(**req):
        r, res = call(fe.server.endpoint["trust_mark_status"].process_request, req)
        info["answer"] = repr(res)
        a = r == "ok" and not isinstance(res, str) and res.get("response_args", {}).get("active") is True
        S.observe("active", a)
        S.cover("active" if a else "inactive")
        return a

    if case["k"] in ("status", "iat"):
        mid, sub = S.choose("qid", IDS + [C]), S.choose("qsub", SUBS)
        m = latest(mid, sub)
        info["asked"] = (mid, sub)
        if case["k"] == "status":
            a = status(trust_mark_id=mid, sub=sub)
            if m is None:
                S.cover("never-issued")
                S.check(not a, "a mark that was never issued is not active", info)
                return
            if a:
                S.check(valid(m), "an expired mark is not active", info)
            else:
                S.cover("expired")
                S.check(S.not_(valid(m)), "a valid mark is active", info)
            return
        S.cover("by-iat")
        mine = [x for x in issued if x[:2] == (mid, sub)]
        iat = S.int("qiat", 1, 3_900_000_000)
        info["asked"] = (mid, sub, iat)
        a = status(trust_mark_id=mid, sub=sub, iat=iat)
        if a:
            S.check(S.or_(*[S.and_(x[2] == iat, valid(x)) for x in mine]) if mine else False,
                    "a mark issued at that time and still valid is what is active", info)
        elif m is not None:
            S.check(S.not_(S.and_(m[2] == iat, valid(m))), "the last issued mark is active if valid", info)
        return
    if case["k"] == "list":
        mid = S.choose("qid", IDS + [C])
        req = {"trust_mark_id": mid}
        want = [s for s in SUBS if latest(mid, s) and bool(valid(latest(mid, s)))]
        if S.flag("bysub"):
            req["sub"] = S.choose("qsub", SUBS)
            want = [s for s in want if s == req["sub"]]
            S.cover("sub-list")
        r, res = call(fe.server.endpoint["trust_mark_list"].process_request, req)
        got = res.get("response_msg") if r == "ok" else None
        got = sorted(W.parsed(got)) if got is not None else []
        S.observe("got", got)
        S.cover("listed" if want else "empty-list")
        info.update(asked=req, answer=repr(res), want=want)
        S.check(r == "ok", "there is an answer", info)
        S.check(got == sorted(want), "exactly those with a valid trust mark are listed, once each", info)
        db = tme.issued
        for nm, f in (("register", db.list), ("issuer", tme.list)):
            for args in ((req["trust_mark_id"],), (req["trust_mark_id"], req.get("sub", ""))):
                if nm == "register" and len(args) > 1 and not args[1]:
                    continue
                r, l = call(f, *args)
                exp = want if len(args) > 1 else [s for s in SUBS if latest(mid, s) and bool(valid(latest(mid, s)))]
                S.check(r == "ok" and sorted(l or []) == sorted(exp), "the register lists exactly the same",
                        dict(info, asked=(nm, args), answer=repr(l)))
        if not want:
            S.check("error" in res or res.get("response_msg") == "[]", "otherwise none", info)
        return
    token(S, case, W, fe, tme, issued, info, status, valid, latest, life)


def token(S, case, W, fe, tme, issued, info, status, valid, latest, life):
    S.cover("token")
    from idpyoidc.key_import import import_jwks
    OTHER = "https://tmi2.example.org"
    fe.keyjar = import_jwks(fe.keyjar, W.jwks(W.jwk("m-other", "k-other", kty="RSA")), OTHER)
    kind = S.choose("token", TOKENS)
    info["token"] = kind
    mid, sub = S.choose("qid", IDS), S.choose("qsub", SUBS)
    m = latest(mid, sub)
    mykid = [k.kid for k in fe.keyjar.get_issuer_keys("") if k.kty == "RSA"][0]
    pl = {"iss": ME, "sub": sub, "id": mid, "iat": 1000}
    if kind == "right":
        if m is None:
            return
        tok = m[4]
    elif kind in ("altered", "unsigned", "unregistered", "expired"):
        if kind == "expired":
            pl["exp"] = S.int("exp", 1, 3_900_000_000)
            S.assume(pl["exp"] < W.now)
        elif kind == "unregistered":
            pl["id"] = C
        tok = W.sign(pl, "own-RSA", mykid, alg="none" if kind == "unsigned" else "RS256", tampered=kind == "altered")
    else:
        if kind in ("other-issuer", "stranger"):
            pl["iss"] = OTHER
        mat, kid = ("m-evil", "k-other") if kind == "stranger" else ("m-other", "k-other")
        if kind in ("named-me",):
            mat, kid = "m-evil", mykid
        tok = W.sign(pl, mat, kid, alg="RS256")
    S.cover({"right": "token", "altered": "forged-token", "unsigned": "forged-token", "named-me": "forged-token"}.get(kind, "foreign-token"))
    a = status(trust_mark=tok)
    if kind == "right":
        if a:
            S.check(valid(m), "an expired mark is not active", info)
        else:
            S.check(S.not_(valid(m)), "the issuer's own valid mark is active", info)
    else:
        S.check(not a, "only marks the issuer itself issued are active", info)

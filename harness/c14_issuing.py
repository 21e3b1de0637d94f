"""Trust marks are issued as specified, by the issuer itself."""
from sx.engine import call

COVERS = ["issued", "unknown-id", "lifetime", "unlimited", "second", "shared-config", "endpoint", "self-signed", "published", "extra"]
BOUNDS = {
    "quick": "two trust mark ids with any combination of lifetime, reference and delegation, any receiver, two issues at "
             "arbitrary times, issuers made from the same configuration, by call, by the trust mark endpoint and self signed",
    "thorough": "as quick, with three issues",
}
ASSUMPTIONS = ["a signature verifies exactly with the key that made it"]
OUTSIDE = "client authentication at the trust mark endpoint, HTTP framing"
BUDGET = {"quick": 400, "thorough": 3600}

ME, OTHER, RP = "https://tmi.example.org", "https://tmi2.example.org", "https://rp.example.org"
A, B, C = ("https://marks.example.org/" + x for x in ("a", "a/b", "A"))
EP = {"trust_mark": {"path": "trust_mark", "class": "fedservice.trust_mark_entity.server.trust_mark.TrustMark", "kwargs": {}}}


def setup(symbolic):
    from sx import world
    world.install(symbolic)


def cases(tier):
    out = []
    n = 2 if tier == "quick" else 3
    for how in ("call", "endpoint", "self"):
        for shared in (False, True):
            out.append({"k": how, "shared": shared, "n": n})
    return out


def run(S, case):
    from sx import world, fed
    W = world.begin(S)
    how = case["k"]
    spec = {A: {}, B: {}}
    want = {A: {}, B: {}}
    life = {}
    if how != "self" and S.flag("life.a"):
        life[A] = spec[A]["lifetime"] = S.int("life", 1, 100_000_000)
    for i, c in ((A, "ref"), (B, "delegation")):
        if S.flag("has." + c):
            spec[i][c] = want[i][c] = "https://marks.example.org/" + c
    conf = {"class": "fedservice.trust_mark_entity.entity." + ("SelfSignedTrustMarkEntity" if how == "self" else "TrustMarkEntity"),
            "kwargs": {"trust_mark_specification": spec}}
    if how != "self":
        conf["kwargs"]["endpoint"] = EP
    kind = "self_signed_trust_mark_entity" if how == "self" else "trust_mark_entity"
    if case["shared"]:
        S.cover("shared-config")
        other = fed.entity(OTHER, {}, owner="other", **{kind: conf})
        if S.flag("other.issues"):
            W.now = 1000
            t = getattr(other.server, kind)
            t(A) if how == "self" else t.create_trust_mark(A, RP)
    fe = fed.entity(ME, {}, **{kind: conf})
    tme = getattr(fe.server, kind)
    last = 1
    toks = []
    for n in range(case["n"]):
        W.now = now = S.int(f"t{n}", 1000, 3_000_000_000)
        S.assume(now >= last)
        last = now
        mid = S.choose(f"id{n}", [A, B, C])
        sub = ME if how == "self" else S.atom(f"sub{n}", (RP, ME))
        kw = {}
        if how != "endpoint" and n == 0 and S.flag("extra"):
            kw["ref"] = "https://marks.example.org/other"
            S.cover("extra")
        if how == "self":
            r, tok = call(tme, mid, **kw)
        elif how == "call":
            r, tok = call(tme.create_trust_mark, mid, sub, **kw)
        else:
            S.cover("endpoint")
            r, tok = call(fe.server.endpoint["trust_mark"].process_request, {"trust_mark_id": mid, "sub": sub})
            if r == "ok":
                tok = tok.get("http_response")
        got = r == "ok" and W.is_token(tok)
        S.observe(f"got{n}", got)
        info = {"case": case, "n": n, "id": mid, "sub": sub, "spec": want.get(mid), "lifetime": life.get(mid), "how": repr(tok) if not got else ""}
        if mid == C:
            S.cover("unknown-id")
            S.check(not got, "no trust mark of an id the issuer does not issue", info)
            if how != "self":
                S.check(not tme.find(C, sub) and not tme.list(C), "and none is registered", info)
            continue
        S.check(got, "a specified trust mark is issued", info)
        if not got:
            return
        S.cover("second" if n else "issued")
        h, pl = W.opened(tok)
        info["mark"] = pl
        S.check(S.or_(W.signed_by(tok, "own-RSA", "RSA"), W.signed_by(tok, "own-EC", "EC")), "signed by the issuer", info)
        S.check(S.and_(S.eq(pl.get("iss"), ME), S.eq(pl.get("sub"), sub), S.eq(pl.get("id"), mid)),
                "by the issuer, of that id, to that receiver", info)
        S.check(S.eq(pl.get("iat"), now), "issued now", info)
        if how == "self":
            S.check("exp" in pl and S.and_(pl["exp"] > now), "self signed marks expire", info)
        elif mid in life:
            S.cover("lifetime")
            S.check("exp" in pl and S.eq(pl["exp"], now + life[mid]), "it expires after the specified lifetime", info)
        else:
            S.cover("unlimited")
            S.check("exp" not in pl, "without a lifetime it does not expire", info)
        rest = {k: v for k, v in pl.items() if k not in ("iss", "sub", "id", "iat", "exp", "jti")}
        S.check(rest == dict(want[mid], **kw), "it contains what is specified", info)
        toks.append(tok)
        if how == "self":
            S.cover("self-signed")
    if how == "self" and toks:
        r, res = call(fe.server.endpoint["entity_configuration"].process_request, {})
        tok = res.get("response") if r == "ok" else None
        S.check(W.is_token(tok), "the entity configuration is there", {"how": repr(res)})
        if W.is_token(tok):
            S.cover("published")
            marks = W.opened(tok)[1].get("trust_marks")
            S.check(isinstance(marks, list) and [str(m) for m in marks] == toks, "self signed marks are published", {"marks": repr(marks)})

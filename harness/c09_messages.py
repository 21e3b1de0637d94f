"""Messages: what is incomplete, untimely, about somebody else or not understood is refused."""
from sx.engine import call

COVERS = ["accepted", "incomplete", "untimely", "wrong-issuer", "critical", "critical-known", "operator", "operator-known",
          "wrong-subject", "status", "secret", "request", "chain-accepted", "chain-critical", "chain-operator"]
BOUNDS = {
    "quick": "entity statements and trust marks with any subset of the required claims, any times and clock, up to two "
             "extension claims, up to two critical names and up to two known ones; policies with up to two extra "
             "operators; every request and metadata message with any subset of its required members; chains of 2..3 "
             "statements of which one has up to two critical names",
    "thorough": "as quick, with three critical and known names and chains of 2..4 statements",
}
ASSUMPTIONS = ["times are positive (a time of 0 counts as missing)", "a signature verifies exactly with the key that made it"]
OUTSIDE = "types of members, serialisation, metadata members beyond the required ones"
BUDGET = {"quick": 300, "thorough": 2400}

SUB, ISS, EVIL = "https://sub.example.org", "https://iss.example.org", "https://evil.example.org"
TA = "https://ta.example.org"
URL = "https://me.example.org/x"

# message, required members, other members
SIMPLE = {
    "ResolveRequest": ({"sub": SUB, "anchor": TA}, {"type": "openid_provider"}),
    "TrustMarkRequest": ({"trust_mark_id": URL, "sub": SUB}, {}),
    "WhoResponse": ({"entities_to_use": [SUB]}, {}),
    "ListResponse": ({"entity_id": [SUB]}, {}),
    "HistoricalKeysResponse": ({"iss": ISS, "iat": 100, "jwks": {"keys": []}}, {}),
    "FederationEntity": ({"federation_fetch_endpoint": URL}, {"name": "x"}),
    "OIDCRPMetadata": ({"redirect_uris": [URL], "client_registration_types": ["automatic"]}, {}),
    "RegistrationRequest": ({"redirect_uris": [URL], "client_registration_types": ["automatic"]}, {}),
    "OauthClientInformationResponse": ({"client_id": SUB}, {"redirect_uris": [URL]}),
    "AuthorizationServerMetadata": ({"issuer": ISS}, {"scopes_supported": ["openid"]}),
    "OAuthProtectedResourceMetadata": ({"resource": URL}, {}),
    "TrustMarkIssuerMetadata": ({"status_endpoint": URL}, {}),
}


def setup(symbolic):
    from sx import world
    world.install(symbolic)


def cases(tier):
    out = []
    top = 2 if tier == "quick" else 3
    for cls in ("EntityStatement", "TrustMark"):
        out.append({"k": "claims", "cls": cls})
        out.append({"k": "times", "cls": cls})
    for nc in range(1, top + 1):
        for nk in range(0, top + 1):
            out.append({"k": "crit", "nc": nc, "nk": nk})
            out.append({"k": "oper", "nc": nc, "nk": nk})
    out += [{"k": "mark"}, {"k": "status"}, {"k": "secret"}]
    for c in SIMPLE:
        out.append({"k": "simple", "cls": c})
    for n in (2, 3) if tier == "quick" else (2, 3, 4):
        for at in range(n):
            for what in ("crit", "policy_language_crit", "none"):
                for m in (1, 2):
                    if what != "none" or (m, at) == (1, 0):
                        out.append({"k": "chain", "n": n, "at": at, "what": what, "m": m})
    return out


def run(S, case):
    from sx import world
    W = world.begin(S)
    globals()["do_" + case["k"]](S, case, W)


def make(cls, args, **kw):
    """a message is made and verified: ok or not"""
    from fedservice import message
    r, m = call(lambda: getattr(message, cls)(**args))
    if r != "ok":
        return False, m
    r, v = call(m.verify, **kw)
    return r == "ok", v


def req(cls):
    d = {"iss": ISS, "sub": SUB, "iat": 100}
    d["exp" if cls == "EntityStatement" else "id"] = 10_000 if cls == "EntityStatement" else URL
    return d


def do_claims(S, case, W):
    W.now = 1000
    args = req(case["cls"])
    gone = [k for k in sorted(args) if S.flag("no." + k)]
    for k in gone:
        del args[k]
    iss = S.atom("expected", (ISS, EVIL), other=False) if S.flag("iss.expected") else None
    ok, how = make(case["cls"], args, **({"iss": iss} if iss is not None else {}))
    info = {"case": case, "gone": gone, "expected": iss, "how": repr(how)}
    S.observe("ok", ok)
    if gone:
        S.cover("incomplete")
        S.check(not ok, "required claims are required", info)
    elif ok:
        S.cover("accepted")
        S.check(iss is None or S.eq(iss, ISS), "a message of somebody else is refused", info)
    else:
        S.cover("wrong-issuer")
        S.check(iss is not None and S.not_(S.eq(iss, ISS)), "a complete message is accepted", info)


def do_times(S, case, W):
    W.now = now = S.int("now", 1, 4_000_000_000)
    args = req(case["cls"])
    args["iat"] = S.int("iat", 1, 4_000_000_000)
    good = [args["iat"] <= now]
    if case["cls"] == "EntityStatement" or S.flag("has.exp"):
        args["exp"] = S.int("exp", 1, 4_000_000_000)
        good.append(now <= args["exp"])
    else:
        args.pop("exp", None)
    if S.flag("has.nbf"):
        args["nbf"] = S.int("nbf", 1, 4_000_000_000)
        good.append(args["nbf"] <= now)
    ok, how = make(case["cls"], args)
    S.observe("ok", ok)
    info = {"case": case, "args": args, "now": now, "how": repr(how)}
    S.cover("accepted" if ok else "untimely")
    S.check(S.and_(*good) if ok else S.not_(S.and_(*good)), "in force, or refused", info)


def names(S, nm, n, lits):
    return [S.atom(f"{nm}{i}", lits) for i in range(n)]


def do_crit(S, case, W):
    W.now = 1000
    args = req("EntityStatement")
    have = [x for x in ("foo", "bar") if S.flag("has." + x)]
    for x in have:
        args[x] = "value"
    crit = names(S, "crit", case["nc"], ("foo", "bar")) if S.flag("crit") else None
    if crit is not None:
        args["crit"] = crit
    known = names(S, "known", case["nk"], ("foo", "bar"))
    ok, how = make("EntityStatement", args, **({"known_extensions": known} if known else {}))
    S.observe("ok", ok)
    info = {"case": case, "have": have, "crit": crit, "known": known, "how": repr(how)}
    crit = crit or []
    bad = S.or_(*[S.and_(S.eq(c, h), S.not_(S.member(h, known))) for c in crit for h in have])
    fine = S.and_(*[S.member(c, known) for c in crit])
    if ok:
        S.cover("critical-known" if crit and have else "accepted")
        S.check(S.not_(bad), "an unknown critical extension is refused", info)
    else:
        S.cover("critical")
        S.check(S.not_(fine), "known or uncritical extensions are accepted", info)


def do_oper(S, case, W):
    W.now = 1000
    args = req("EntityStatement")
    have = [x for x in ("regexp", "glob") if S.flag("has." + x)]
    pol = {"contacts": {"add": ["ops@example.org"]}, "grant_types": {"subset_of": ["code"]}}
    for x in have:
        pol["contacts" if S.flag("first." + x) else "grant_types"][x] = "x"
    args["metadata_policy"] = {"openid_relying_party" if S.flag("rp") else "openid_provider": pol}
    crit = names(S, "crit", case["nc"], ("regexp", "glob")) if S.flag("crit") else None
    if crit is not None:
        args["policy_language_crit"] = crit
    known = names(S, "known", case["nk"], ("regexp", "glob"))
    ok, how = make("EntityStatement", args, **({"known_policy_extensions": known} if known else {}))
    S.observe("ok", ok)
    info = {"case": case, "have": have, "crit": crit, "known": known, "how": repr(how)}
    crit = crit or []
    bad = S.or_(*[S.and_(S.eq(c, h), S.not_(S.member(h, known))) for c in crit for h in have])
    fine = S.and_(*[S.member(c, known) for c in crit])
    if ok:
        S.cover("operator-known" if crit and have else "accepted")
        S.check(S.not_(bad), "an unknown critical policy operator is refused", info)
    else:
        S.cover("operator")
        S.check(S.not_(fine), "known or uncritical policy operators are accepted", info)


def do_mark(S, case, W):
    W.now = 1000
    args = req("TrustMark")
    near = (SUB, EVIL, SUB + "/1", SUB + ".evil.com", SUB[:-1], SUB.upper())
    args["sub"] = S.atom("sub", near)
    who = S.atom("entity", near) if S.flag("has.entity") else None
    ok, how = make("TrustMark", args, **({"entity_id": who} if who is not None else {}))
    S.observe("ok", ok)
    same = who is None or S.eq(who, args["sub"])
    S.cover("accepted" if ok else "wrong-subject")
    S.check(same if ok else S.not_(same), "a trust mark of somebody else is refused",
            {"sub": args["sub"], "entity": who, "how": repr(how)})


def do_status(S, case, W):
    args = {"sub": SUB, "trust_mark_id": URL, "iat": 100, "trust_mark": "a.b.c"}
    for k in sorted(args):
        if S.flag("no." + k):
            del args[k]
    ok, how = make("TrustMarkStatusRequest", args)
    S.cover("status")
    S.check(ok == ("trust_mark" in args or ("sub" in args and "trust_mark_id" in args)),
            "a status request tells which trust mark it is about", {"args": args, "how": repr(how)})


def do_secret(S, case, W):
    args = {"client_id": SUB, "client_secret": "secret", "client_secret_expires_at": S.int("at", 0, 4_000_000_000)}
    for k in sorted(args):
        if S.flag("no." + k):
            del args[k]
    ok, how = make("OauthClientInformationResponse", args)
    S.cover("secret")
    S.check(ok == ("client_id" in args and ("client_secret" not in args or "client_secret_expires_at" in args)),
            "a secret comes with its expiry", {"args": args, "how": repr(how)})


def do_simple(S, case, W):
    must, may = SIMPLE[case["cls"]]
    args = {k: v for k, v in dict(must, **may).items() if not S.flag("no." + k)}
    ok, how = make(case["cls"], args)
    S.cover("request")
    S.check(ok == (not [k for k in must if k not in args]), "exactly complete messages are accepted",
            {"cls": case["cls"], "args": args, "how": repr(how)})


def do_chain(S, case, W):
    from sx import fed
    n = case["n"]
    W.now = 1000
    fe = fed.entity("https://me.example.org", {TA: W.jwks(W.jwk("mta", "kta"))})
    ents = [TA] + [f"https://e{i}.example.org" for i in range(1, n)]
    mats = ["mta"] + [f"m{i}" for i in range(1, n)]
    crit = []
    toks = []
    for i in range(n):
        j = min(i + 1, n - 1)
        pl = {"iss": ents[i], "sub": ents[j], "iat": 1, "exp": 5000, "jwks": W.jwks(W.jwk(mats[j], f"k{j}" if j else "kta"))}
        if i == 0:
            pl["metadata_policy"] = {"openid_relying_party": {"contacts": {"regexp": "x", "add": ["y"]}}}
            pl["foo"] = "value"
        if i == case["at"] and case["what"] != "none":
            crit = names(S, "crit", case["m"], ("foo", "metadata") if case["what"] == "crit" else ("regexp", "add"))
            pl[case["what"]] = crit
        toks.append(W.sign(pl, mats[i], f"k{i}" if i else "kta"))
    r, tc = call(fe.function.verifier, toks)
    ok = r == "ok" and bool(tc)
    S.observe("ok", ok)
    info = {"case": case, "crit": crit, "how": repr(tc)}
    fine = S.and_(*[S.member(c, ["metadata", "add"]) for c in crit])
    known = [e for e in ents[1:] if fed.materials(fe.keyjar, e)]
    if ok:
        S.cover("chain-accepted")
        S.check(fine, "a chain with a critical extension that is not known is refused", info)
    else:
        S.cover("chain-critical" if case["what"] == "crit" else "chain-operator")
        S.check(S.not_(fine), "a chain that is understood is accepted", info)
        S.check(not known, "a refused chain brings no keys", dict(info, known=known))

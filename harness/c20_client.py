"""Requests to federation endpoints: where they go, what they say, and which answers count."""
from urllib.parse import urlparse, parse_qs

from sx.engine import call
from harness import c07_resolution as c07

COVERS = ["accepted", "unsigned", "forged", "foreign", "untimely", "http-error", "url", "list", "list-refused",
          "status", "cached", "aged", "fetched", "unknown-keys"]
BOUNDS = {
    "quick": "each kind of signed answer (entity configuration, entity statement, resolve response) with an arbitrary "
             "signer, issuer, subject, times, content type, HTTP status and form (signed, plain JSON, text); histories of "
             "two entity statement requests with arbitrary clocks around the expiry of the cached configuration, which may be fetched anew; "
             "list requests to a configured anchor and to entities below it with any missing relation, every subset of "
             "filters; status, list and resolve requests with any subset of arguments",
    "thorough": "as quick, with answers altered after signing and unsigned tokens for every content type",
}
ASSUMPTIONS = ["HTTP is a function from URL to status, content type and body", "a signature verifies exactly with the key that made it"]
OUTSIDE = "HTTP redirects, client authentication, encryption of answers"
BUDGET = {"quick": 500, "thorough": 3600}

ME, TA, EVIL = "https://me.example.org", c07.TA, "https://evil.example.com"
X = "https://x.example.org"
SUB = "https://sub.example.org"
CTYPES = ["application/entity-statement+jwt", "application/json", "application/jose", "application/jwt",
          "text/plain", "application/x-www-form-urlencoded", "application/resolve-response+jwt"]


def setup(symbolic):
    from sx import world
    world.install(symbolic)


def cases(tier):
    out = []
    for what in ("config", "statement", "resolve"):
        for form in ("signed", "json", "text", "none") + (("altered",) if tier != "quick" else ()):
            for ct in CTYPES if tier != "quick" or form in ("json", "none") else CTYPES[:3]:
                out.append({"k": "answer", "what": what, "form": form, "ct": ct})
        for status in (204, 302, 400, 404, 500):
            out.append({"k": "http", "what": what, "status": status})
        for m in ("iss", "sub", "exp", "iat", "metadata"):
            out.append({"k": "lacks", "what": what, "m": m})
    for change in ("same", "moved", "fetched"):
        out.append({"k": "cache", "change": change})
    for e in (X, "https://x.example.org:8443", "https://x.example.org/tenant1", "https://x.example.org:8443/a/b", "https://x.example.org/Tenant/B"):
        for tenant in (False, True):
            out.append({"k": "wellknown", "e": e, "tenant": tenant})
    for ask in (c07.L, c07.I1, TA):
        out.append({"k": "list", "ask": ask})
    for svc in ("status", "status-mark", "marks", "resolve"):
        out.append({"k": "query", "svc": svc})
    return out


def run(S, case):
    from sx import world, fed
    W = world.begin(S)
    globals()["do_" + case["k"]](S, case, W, fed)


def setup_fe(W, fed, **kw):
    """a client that knows the keys of X and of EVIL"""
    from idpyoidc.key_import import import_jwks
    fe = fed.entity(ME, {TA: W.jwks(W.jwk("m-ta", "k-ta"))},
                    services=["entity_configuration", "entity_statement", "trust_mark_status", "trust_mark_list", "resolve",
                              "list"], **kw)
    import_jwks(fe.keyjar, W.jwks(W.jwk("mx", "kx")), X)
    import_jwks(fe.keyjar, W.jwks(W.jwk("me", "ke")), EVIL)
    return fe


def message(what, iss, sub):
    d = {"iss": iss, "sub": sub, "iat": 100, "exp": 10_000,
         "metadata": {"federation_entity": {"federation_fetch_endpoint": X + "/fetch", "organization_name": "X"}}}
    if what == "config":
        d["jwks"] = {"keys": []}
    elif what == "statement":
        d["jwks"] = {"keys": []}
        d["constraints"] = {"max_path_length": 2}
    return d


def send(S, W, fe, what, tok, ctype, status=200):
    sub = X if what == "config" else SUB
    W.urls.clear()
    if what == "config":
        W.serve(X + "/.well-known/openid-federation", tok, ctype, status)
        return call(fe.do_request, "entity_configuration", entity_id=X)
    if what == "statement":
        W.default_response = lambda m, url, kw: (status, tok, ctype) if url.startswith(X + "/fetch?") else None
        return call(fe.do_request, "entity_statement", issuer=X, subject=SUB, fetch_endpoint=X + "/fetch")
    W.default_response = lambda m, url, kw: (status, tok, ctype) if url.startswith(X + "/resolve?") else None
    return call(fe.do_request, "resolve", endpoint=X + "/resolve", entity_id=X,
                request_args={"sub": SUB, "anchor": TA})


def is_answer(r, v):
    """did the caller get a message it would use"""
    if r != "ok" or v is None or isinstance(v, str):
        return False
    return "error" not in v and "iss" in v


def state(fe, fed):
    c = fe.function.trust_chain_collector
    return (sorted(str(k) for k in c.config_cache.keys()), sorted(str(k) for k in c.entity_statement_cache.keys()),
            {o: fed.materials(fe.keyjar, o) for o in (X, EVIL, SUB, TA)})


def do_answer(S, case, W, fed):
    what, form = case["what"], case["form"]
    about = X if what == "config" else SUB
    fe = setup_fe(W, fed)
    W.now = now = S.int("now", 1, 4_000_000_000)
    iss = S.atom("iss", (X, EVIL))
    sub = S.atom("sub", (about, EVIL))
    pl = message(what, iss, sub)
    iat, exp = S.int("iat", 1, 4_000_000_000), S.int("exp", 1, 4_000_000_000)
    pl.update(iat=iat, exp=exp)
    who = S.atom("signer", ("mx", "me"))
    kid = S.choose("kid", ["kx", "ke", None])
    if form == "signed":
        tok = W.sign(pl, who, kid)
    elif form == "altered":
        tok = W.sign(pl, who, kid, tampered=True)
    elif form == "none":
        tok = W.sign(pl, "mx", kid, alg="none")
    elif form == "json":
        tok = W.text(pl)
    else:
        tok = "hello"
    before = state(fe, fed)
    r, v = send(S, W, fe, what, tok, case["ct"])
    ok = is_answer(r, v)
    S.observe("ok", ok)
    info = {"case": case, "iss": iss, "sub": sub, "signer": who, "kid": kid, "now": now, "iat": iat, "exp": exp,
            "how": repr(v)}
    if form != "signed":
        S.cover("unsigned")
        S.check(not ok, "an answer that is not signed is refused", info)
    own = S.and_(who == "mx", S.eq(iss, X))
    timely = S.and_(iat <= now, now <= exp)
    if ok:
        S.cover("accepted")
        S.check(own, "the answer is from the one who was asked, signed with its key", info)
        S.check(timely, "the answer is in force", info)
        S.check(S.eq(sub, about), "the answer is about the one asked about", info)
        for k in ("iss", "sub", "iat", "exp"):
            S.check(S.eq(v[k], pl[k]), "the answer is what was sent", dict(info, k=k))
        md = v["metadata"]["federation_entity"]
        S.check(md["organization_name"] == "X", "the answer is what was sent", info)
    else:
        good = S.and_(own, iat <= now, now < exp, S.eq(sub, about)) if form == "signed" and kid == "kx" else False
        if form == "signed":
            S.cover("forged" if S.eq(iss, X) else "foreign")
            if who == "mx" and S.eq(iss, X):
                S.cover("untimely")
        S.check(S.not_(good), "a good answer is accepted", info)
        S.check(state(fe, fed) == before, "a refused answer changes nothing", info)


def do_http(S, case, W, fed):
    fe = setup_fe(W, fed)
    W.now = 1000
    what = case["what"]
    pl = message(what, X, X if what == "config" else SUB)
    known = S.flag("good")
    tok = W.sign(pl, "mx" if known else "me", "kx")
    before = state(fe, fed)
    r, v = send(S, W, fe, what, tok, CTYPES[0], case["status"])
    S.cover("http-error")
    ok = is_answer(r, v)
    S.observe("ok", ok)
    if case["status"] >= 300:
        S.check(not ok, "an error is not an answer", {"case": case, "how": repr(v)})
        S.check(state(fe, fed) == before, "an error changes nothing", {"case": case})
    else:
        S.check(not ok or known, "the answer is properly signed", {"case": case, "how": repr(v)})


def do_lacks(S, case, W, fed):
    what = case["what"]
    fe = setup_fe(W, fed)
    W.now = 1000
    pl = message(what, X, X if what == "config" else SUB)
    del pl[case["m"]]
    before = state(fe, fed)
    tok = W.sign(pl, S.atom("signer", ("mx", "me")), "kx") if S.flag("signed") else W.text(pl)
    r, v = send(S, W, fe, what, tok, S.choose("ct", CTYPES))
    ok = is_answer(r, v)
    S.observe("ok", ok)
    must = ("metadata",) if what == "resolve" else ("iss", "sub", "exp", "iat")
    if case["m"] in must:
        S.check(not ok, "required claims are required", {"case": case, "how": repr(v)})
        S.check(state(fe, fed) == before, "a refused answer changes nothing", {"case": case})


def do_cache(S, case, W, fed):
    """the configuration of the issuer is fetched for its fetch endpoint, used while it is fresh"""
    fe = setup_fe(W, fed)
    t1 = S.int("t1", 101, 3_000_000_000)
    t2 = S.int("t2", 101, 3_000_000_000)
    exp = S.int("exp", 101, 3_900_000_000)
    S.assume(t1 <= t2)
    S.assume(t1 + 300 < exp)
    conf = message("config", X, X)
    conf["exp"] = exp
    es = message("statement", X, SUB)
    es["exp"] = 4_000_000_000
    stmt = W.sign(es, "mx", "kx")
    where = {"fetch": X + "/fetch"}

    def answer(m, url, kw):
        if url == X + "/.well-known/openid-federation":
            return 200, W.sign(conf, "mx", "kx"), CTYPES[0]
        if url.startswith(where["fetch"] + "?"):
            return 200, stmt, CTYPES[0]
        return None
    W.default_response = answer
    W.now = t1
    r, v = call(fe.do_request, "entity_statement", issuer=X, subject=SUB)
    S.check(is_answer(r, v), "a statement is got from the issuer's fetch endpoint", {"how": repr(v), "t1": t1, "exp": exp})
    u = urlparse(W.requests[-1][1])
    S.check(W.requests[-1][1].startswith(X + "/fetch?") and parse_qs(u.query) == {"iss": [X], "sub": [SUB]},
            "the question is who it is about and by whom", {"asked": [q[1] for q in W.requests]})
    W.now = t2
    conf = message("config", X, X)
    conf["exp"] = 4_000_000_000
    if case["change"] != "same":
        conf["metadata"]["federation_entity"]["federation_fetch_endpoint"] = where["fetch"] = X + "/moved"
    if case["change"] == "fetched":
        S.cover("fetched")
        r, v = call(fe.do_request, "entity_configuration", entity_id=X)
        S.check(is_answer(r, v), "a renewed configuration is got", {"how": repr(v), "t2": t2})
    n = len(W.requests)
    r, v = call(fe.do_request, "entity_statement", issuer=X, subject=SUB)
    asked = [q[1] for q in W.requests[n:]]
    ok = is_answer(r, v)
    S.observe("second", (ok, asked))
    info = {"t1": t1, "t2": t2, "exp": exp, "asked": asked, "how": repr(v)}
    if case["change"] == "fetched":
        S.check(ok, "the latest configuration fetched says where to ask", info)
        return
    if len(asked) > 1:
        S.cover("aged")
        S.check(ok, "a statement is got from the issuer's fetch endpoint", info)
    else:
        S.cover("cached")
        S.check(t2 <= exp, "an expired configuration is not used", info)
        S.check(ok == (case["change"] == "same"), "the configured fetch endpoint is asked", info)


def do_wellknown(S, case, W, fed):
    from idpyoidc.key_import import import_jwks
    fe = setup_fe(W, fed)
    W.now = 1000
    e = case["e"]
    p = urlparse(e)
    known = S.flag("known")
    if known:
        import_jwks(fe.keyjar, W.jwks(W.jwk("m2", "k2")), e)
    url = f"{p.scheme}://{p.netloc}{p.path if case['tenant'] else ''}/.well-known/openid-federation"
    W.serve(url, W.sign(message("config", e, e), "m2", "k2"))
    r, v = call(fe.do_request, "entity_configuration", entity_id=e, tenant=case["tenant"])
    S.cover("url")
    S.check([q[:2] for q in W.requests] == [("GET", url)], "an entity configuration is at the well-known URL",
            {"case": case, "asked": [q[1] for q in W.requests]})
    if not known:
        S.cover("unknown-keys")
    S.check(is_answer(r, v) == known, "exactly a configuration signed with known keys is accepted",
            {"case": case, "how": repr(v)})


def do_list(S, case, W, fed):
    """L below I1 below TA; relations may be missing"""
    ask = case["ask"]
    F = c07.Federation(S, W)
    F.edges = {c07.L: [c07.I1], c07.I1: [c07.TA]}
    F.hints[c07.TA] = F.hints[c07.TB] = []
    W.now = 1000
    fe = fed.entity(ME, {TA: F.jwks(TA)}, services=["entity_configuration", "entity_statement", "list"])
    sig = "" if ask != TA else S.choose("conf", ["", "forged", "404"])
    if sig:
        F.conf_fault[TA] = sig
    has = S.flag("has.list")
    plain = F.config
    real = F.sign

    def sign(by, payload, **kw):
        if payload["iss"] == payload["sub"] and has:
            payload["metadata"]["federation_entity"]["federation_list_endpoint"] = payload["sub"] + "/list"
        return real(by, payload, **kw)
    F.sign = sign
    listed = [X, SUB] if S.flag("some") else []
    full = F.answer

    def answer(m, url, kw):
        if "/list" in url:
            return 200, W.text(listed), "application/json"
        return full(m, url, kw)
    W.default_response = answer
    want, args = {}, {}
    for k, vals in (("entity_type", ["openid_provider", ""]), ("trust_marked", [True]), ("trust_mark_id", ["https://m.example.org/a b"]),
                    ("intermediate", [True, False])):
        if S.flag("arg." + k):
            args[k] = S.choose("val." + k, vals) if len(vals) > 1 else vals[0]
            if args[k]:
                want[k] = [str(args[k])]
    r, v = call(fe.do_request, "list", entity_id=ask, **args)
    asked = [q[1] for q in W.requests if "/list" in q[1]]
    path = F.paths(ask, (TA,)) if ask != TA else [[TA]]
    good = bool(path) and has and not sig
    info = {"case": case, "hints": F.hints, "has": has, "conf": sig, "args": args, "asked": asked, "how": repr(v)}
    S.observe("asked", asked)
    if good:
        S.cover("list")
        ok = len(asked) == 1
        S.check(ok, "the list endpoint is asked once", info)
        if ok:
            u = urlparse(asked[0])
            S.check(asked[0].split("?")[0] == ask + "/list", "at the endpoint in the verified metadata", info)
            S.check(parse_qs(u.query) == want, "with exactly the filters given", info)
        S.check(r == "ok" and list(v) == listed, "the list is what the answer says", info)
    else:
        S.cover("list-refused")
        S.check(not [a for a in asked if a.startswith("http")], "no endpoint without verified metadata is asked", info)
        S.check(r != "ok" or not v or "error" in v, "nothing is listed without verified metadata", info)


def do_query(S, case, W, fed):
    fe = setup_fe(W, fed)
    W.now = 1000
    svc = case["svc"]
    ep = "https://tmi.example.org/endpoint"
    tok = W.sign({"iss": X, "sub": SUB, "id": "https://m.example.org/a", "iat": 1}, "mx", "kx")
    active = S.flag("active")
    if svc in ("status", "status-mark"):
        pool = {"sub": SUB, "trust_mark_id": "https://m.example.org/a b", "iat": 17} if svc == "status" else {"trust_mark": tok}
        args = {k: v for k, v in pool.items() if svc != "status" or S.flag("arg." + k)}
        name, kw, body = "trust_mark_status", S.choose("as", ["fetch_endpoint", "endpoint"]), {"active": active}
        want, fine = args, True
    elif svc == "marks":
        args = {"trust_mark_id": "https://m.example.org/a b"}
        name, kw, body = "trust_mark_list", S.choose("as", ["fetch_endpoint", "endpoint"]), [SUB] if active else [X]
        want, fine = args, True
    else:
        pool = {"sub": SUB, "anchor": TA, "type": "openid_provider"}
        args = {k: v for k, v in pool.items() if S.flag("arg." + k)}
        name, kw, body = "resolve", "endpoint", {"error": "x"}
        want, fine = args, "sub" in args and "anchor" in args
    W.default_response = lambda m, url, k: (200, W.text(body), "application/json")
    where = S.flag("where")
    r, v = call(fe.do_request, name, request_args=dict(args), **({kw: ep} if where else {}))
    asked = [q[1] for q in W.requests]
    info = {"case": case, "args": args, "where": where, "asked": asked, "how": repr(v)}
    S.observe("asked", len(asked))
    S.cover("status")
    if not where or not fine:
        S.check(r != "ok" and not asked, "nothing is asked without a complete question or an endpoint", info)
        return
    S.check(len(asked) == 1, "one question is asked", info)
    S.check(asked[0].split("?")[0] == ep, "the question is asked at the given endpoint", info)
    S.check(parse_qs(urlparse(asked[0]).query) == {k: [str(x)] for k, x in want.items()}, "exactly what was given is asked", info)
    if svc.startswith("status"):
        S.check(r == "ok" and v.get("active") is active, "the answer is what was sent", info)
    elif svc == "marks":
        S.check(r == "ok" and list(v) == body, "the answer is what was sent", info)

"""What an OAuth2 client may be registered with."""
from sx.engine import call
from harness import c07_resolution as c07, c17_automatic as c17, c18_explicit as c18
from harness.c17_automatic import L, I1, TA, OP

COVERS = ["registered", "refused", "web", "native", "custom", "http", "fragment", "query", "two", "elsewhere",
          "narrowed", "dropped", "no-overlap", "secret", "no-secret", "not-locked-out", "kept"]
BOUNDS = {
    "quick": "explicit and automatic registration at an authorization server, also of OpenID Connect clients for what is left "
             "behind; up to two redirect URIs with arbitrary schemes and hosts, with or without port, query and fragment; any "
             "application type; 5 sets of response types, of which the server supports some; logout, request and information URIs at arbitrary places; "
             "requested and supported capabilities of up to two values each; arbitrary clocks and secret lifetimes; a refused "
             "registration before or after an accepted one",
    "thorough": "as quick, with every set of response types for every shape of two redirect URIs",
}
ASSUMPTIONS = c07.ASSUMPTIONS + ["URIs are scheme://host[:port]/path with an optional query and fragment, in lower case"]
OUTSIDE = "URIs with user information or percent-encoding, what idpyoidc checks of OpenID Connect clients, client id generators"
BUDGET = {"quick": 400, "thorough": 3600}
WITNESSES_PER_CASE = 15
RTYPES = [None, ["code"], ["code", "token"], ["token"], ["code", "other"]]


def setup(symbolic):
    from sx import world, uri
    if symbolic:
        uri.install()
    world.install(symbolic)
    if symbolic:
        uri.install()


def cases(tier):
    out = []
    for how in ("explicit", "automatic"):
        for rt in range(len(RTYPES)) if how == "explicit" or tier == "thorough" else (0, 1):
            out.append({"k": "redirect", "how": how, "rt": rt, "n": 1})
            if tier == "thorough" or rt == 1 and how == "explicit":
                out.append({"k": "redirect", "how": how, "rt": rt, "n": 2})
        for what in ("post_logout_redirect_uri", "request_uris"):
            out.append({"k": "uri", "how": how, "what": what})
        for what in ("policy_uri", "logo_uri", "tos_uri"):
            for n in (1, 2):
                out.append({"k": "info", "how": how, "what": what, "n": n})
        for what in ("response_types", "grant_types", "response_modes"):
            out.append({"k": "list", "how": how, "what": what})
        for what in ("token_endpoint_auth_method", "token_endpoint_auth_signing_alg", "request_object_signing_alg"):
            out.append({"k": "single", "how": how, "what": what})
            if how == "explicit":
                out.append({"k": "single", "how": how, "what": what, "kind": "oidc"})
        out.append({"k": "secret", "how": how})
        for what in ("redirect", "logout", "info", "info-none", "capability"):
            for kind in ("oauth2", "oidc"):
                out.append({"k": "left", "how": how, "what": what, "kind": kind})
    return out


class Run(c18.Run):
    """a client with a valid chain"""
    def __init__(self, S, case, **kw):
        case = dict(case, kind=case.get("kind", "oauth2"))
        case["end"] = "registration" if case["how"] == "explicit" else "authorization"
        c18.Run.__init__(self, S, case, **kw)
        self.n = 0

    def submit(self, md):
        """(the id the client is registered under or None, its metadata in the response or None)"""
        W, F = self.W, self.F
        before = set(self.cdb)
        self.n += 1
        if self.case["how"] == "explicit":
            m, k = F.key(L)
            tok = W.sign({"iss": L, "sub": L, "iat": W.now, "exp": c07.FAR, "jwks": F.jwks(L), "aud": OP,
                          "authority_hints": [I1], "metadata": {self.typ: md}}, m, k, typ="entity-statement+jwt")
            msg, self.how = self.register(tok)
            if not msg:
                return None, None
            got = W.opened(msg)[1]["metadata"][self.typ]
            return got["client_id"], got
        F.meta[L] = {self.typ: md}
        self.served, self.how = self.ask(None)
        return (L if L in self.cdb else None), None


def uri(S, n, shapes):
    """(text, scheme, host, port, query, fragment)"""
    if n:
        scheme, host = S.atom(f"scheme{n}", ("https", "http")), S.atom(f"name{n}", ("localhost",))
        port, query, frag = S.choose(f"shape{n}", shapes)
        return (S.rope(scheme, "://", host, port, "/cb", "?" + query if query else "", "#" + frag if frag else ""),
                scheme, host, port, query, frag)
    scheme = S.atom(f"scheme{n}", ("https", "http"))
    host = S.choose(f"host{n}", [S.atom(f"name{n}", ("localhost",)), "127.0.0.1"])
    port, query, frag = S.choose(f"shape{n}", shapes)
    t = S.rope(scheme, "://", host, port, "/cb", "?" + query if query else "", "#" + frag if frag else "")
    return t, scheme, host, port, query, frag


SHAPES = [("", "", ""), (":8080", "", ""), ("", "a=1", ""), ("", "", "frag"), ("", "a=1&b=2&a=3", "frag")]


def run(S, case):
    globals()["do_" + case["k"]](S, case)


def base(R):
    md = R.metadata(L)
    return md


def same_uris(S, got, want):
    """stored redirect URIs are (base, query) pairs"""
    if got is None or len(got) != len(want):
        return False
    return S.and_(*[S.and_(S.eq(g[0], w[0]), (g[1] or {}) == w[1]) for g, w in zip(got, want)])


def parsed(query):
    out = {}
    for kv in query.split("&") if query else []:
        k, v = kv.split("=")
        out.setdefault(k, []).append(v)
    return out


def refused(R, before, info):
    R.S.cover("refused")
    R.S.check({k: dict(v) for k, v in R.cdb.items()} == before, "a refused registration changes nothing",
              dict(info, clients=R.clients()))


def do_redirect(S, case):
    R = Run(S, case)
    md = base(R)
    rt = RTYPES[case["rt"]]
    if rt is None:
        md.pop("response_types", None)
    else:
        md["response_types"] = list(rt)
    able = ["code"]
    if case["n"] == 1 and rt and len(rt) > 1:
        able = S.choose("able", [["code"], ["code", "token"], ["token", "id_token"]])
        capable(R, "response_types", able)
    app = S.atom("app", ("web", "native")) if S.flag("typed") else None
    if app is not None:
        md["application_type"] = app
    us = [uri(S, i, SHAPES if case["n"] == 1 else [SHAPES[0], SHAPES[2 + i]]) for i in range(case["n"])]
    md["redirect_uris"] = [u[0] for u in us]
    cid, got = R.submit(md)
    S.observe("ok", cid is not None)
    info = {"case": case, "uris": md["redirect_uris"], "app": app, "able": able, "how": R.how}
    supported = [x for x in rt or [] if x in able]
    overlap = rt is None or supported
    web = True if app is None else S.eq(app, "web")
    native = False if app is None else S.eq(app, "native")
    fits, want = [], []
    for t, scheme, host, port, query, frag in us:
        http, https = S.eq(scheme, "http"), S.eq(scheme, "https")
        loop = S.or_(S.eq(host, "localhost"), S.eq(host, "127.0.0.1"))
        custom = S.not_(S.or_(http, https))
        code = supported == ["code"] and rt is not None
        plain = S.and_(S.or_(https, S.and_(http, code)), not frag)
        fits.append(S.ite(native, S.or_(custom, S.and_(http, loop)),
                          S.ite(web, plain, S.and_(S.or_(http, https), not frag))))
        want.append((custom, t, S.rope(scheme, "://", host, port, "/cb"), parsed(query)))
        for lab, c in (("custom", custom), ("http", http)):
            if c:
                S.cover(lab)
        if frag:
            S.cover("fragment")
        if query:
            S.cover("query")
    if case["n"] == 2:
        S.cover("two")
    ok = S.and_(*fits) if overlap else False
    if cid is None:
        S.check(S.not_(ok), "a client that keeps to the rules is registered", info)
        S.cover("refused")
        S.check(not len(R.cdb), "a refused registration leaves nothing behind", dict(info, clients=R.clients()))
        return
    S.cover("registered")
    S.cover("native" if native else "web")
    S.check(ok, "the redirect URIs suit the kind of client", info)
    c = R.cdb[cid]
    S.check(same_uris(S, c.get("redirect_uris"), [(t, {}) if cu else (b, q) for cu, t, b, q in want]),
            "the redirect URIs are those the client asked for", dict(info, got=c.get("redirect_uris")))


def do_uri(S, case):
    R = Run(S, case)
    md = base(R)
    what = case["what"]
    t, scheme, host, port, query, frag = uri(S, 0, SHAPES)
    md[what] = t if what[-1] != "s" else [t]
    cid, got = R.submit(md)
    S.observe("ok", cid is not None)
    info = {"case": case, "uri": t, "how": R.how}
    ok = not frag if what[-1] != "s" else not query
    S.check((cid is not None) == ok, "no fragment in a logout URI, no query in a request URI", info)
    if cid is None:
        S.cover("refused")
        S.check(not len(R.cdb), "a refused registration leaves nothing behind", info)
        return
    S.cover("registered")
    kept = R.cdb[cid].get(what)
    b = S.rope(scheme, "://", host, port, "/cb")
    if what[-1] == "s":
        S.check(len(kept) == 1 and S.eq(kept[0][0], b) and (kept[0][1] or "") == frag, "recorded as given", dict(info, got=kept))
    else:
        S.check(S.eq(kept[0], b) and (kept[1] or {}) == parsed(query), "recorded as given", dict(info, got=kept))


def do_info(S, case):
    R = Run(S, case)
    md = base(R)
    us = [("https", S.atom(f"host{i}", ("rp",)), S.choose(f"port{i}", ["", ":8080"])) for i in range(case["n"])]
    md["redirect_uris"] = [S.rope(s, "://", h, p, "/cb") for s, h, p in us]
    s, h, p = S.atom("scheme", ("https", "http")), S.atom("host", ("rp",)), S.choose("port", ["", ":8080"])
    md[case["what"]] = t = S.rope(s, "://", h, p, "/info")
    cid, got = R.submit(md)
    S.observe("ok", cid is not None)
    info = {"case": case, "uri": t, "redirect": md["redirect_uris"], "how": R.how}
    there = S.or_(*[S.and_(S.eq(s, a), S.eq(h, b), p == c) for a, b, c in us])
    if cid is None:
        S.cover("elsewhere")
        S.check(S.not_(there), "information at the client's own place is fine", info)
        S.check(not len(R.cdb), "a refused registration leaves nothing behind", info)
    else:
        S.check(there, "information is at the client's own place", info)
        S.check(S.eq(R.cdb[cid].get(case["what"]), t), "recorded as given", info)


def capable(R, claim, vals):
    ctx = R.op.context
    name = ctx.claims.register2preferred[claim]
    ctx.provider_info[name] = vals
    ctx.claims.set_preference(name, vals)


def do_list(S, case):
    R = Run(S, case)
    md = base(R)
    what = case["what"]
    lits = ("code", "zz")
    able = [S.atom(f"able{i}", lits) for i in range(S.size("nable", 1, 2))]
    want = [S.atom(f"want{i}", lits) for i in range(S.size("nwant", 1, 2))]
    capable(R, what, able)
    md[what] = want
    cid, got = R.submit(md)
    S.observe("ok", cid is not None)
    info = {"case": case, "able": able, "want": want, "how": R.how}
    overlap = S.or_(*[S.member(w, able) for w in want])
    if cid is None:
        S.cover("no-overlap")
        S.check(S.not_(overlap), "a client is registered with what both can do", info)
        S.check(not len(R.cdb), "a refused registration leaves nothing behind", info)
        return
    S.check(overlap, "with nothing in common the registration is refused", info)
    for kept in [R.cdb[cid].get(what)] + ([got.get(what)] if got is not None else []):
        S.check(kept is not None, "what both can do is recorded and said", info)
        if kept is None:
            continue
        for x in kept:
            S.check(S.and_(S.member(x, able), S.member(x, want)), "nothing but what both can do", dict(info, got=kept))
        for w in want:
            S.check(S.or_(S.not_(S.member(w, able)), S.member(w, kept)), "all that both can do", dict(info, got=kept))
        if len(kept) < len(want):
            S.cover("narrowed")


def do_single(S, case):
    R = Run(S, case)
    md = base(R)
    what = case["what"]
    able = [S.atom(f"able{i}", ("aa",)) for i in range(S.size("nable", 1, 2))]
    md[what] = want = S.atom("want", ("aa",))
    capable(R, what, able)
    cid, got = R.submit(md)
    S.observe("ok", cid is not None)
    info = {"case": case, "able": able, "want": want, "how": R.how}
    S.check(cid is not None, "a client is registered with what both can do", info)
    if cid is None:
        return
    can = S.member(want, able)
    for x in [R.cdb[cid]] + ([got] if got is not None else []):
        kept = x.get(what)
        if kept is None:
            S.cover("dropped")
            S.check(S.not_(can), "what both can do is recorded and said", info)
        else:
            S.check(S.and_(can, S.eq(kept, want)), "nothing but what both can do", info)


def do_secret(S, case):
    R = Run(S, case)
    W = R.W
    W.now = now = S.int("now", 1_000_000, 2_000_000)
    reg = R.op.get_endpoint("registration")
    life = None
    if S.flag("expires"):
        reg.kwargs["client_secret_expires"] = True
        if S.flag("set"):
            reg.kwargs["client_secret_expires_in"] = life = S.int("life", 1, 10_000_000)
        else:
            life = 2592000
    else:
        reg.kwargs["client_secret_expires"] = False
    md = base(R)
    cid, got = R.submit(md)
    info = {"case": case, "how": R.how, "life": life}
    S.check(cid is not None, "the client is registered", info)
    if cid is None:
        return
    c = R.cdb[cid]
    if case["how"] == "automatic":
        S.cover("no-secret")
        S.check(not c.get("client_secret") and cid == L, "automatic registration gives no secret", info)
        return
    S.cover("secret")
    for x in (c, got):
        S.check(bool(x.get("client_secret")), "there is a secret", info)
        S.check(S.eq(x.get("client_secret_expires_at") or 0, 0 if life is None else now + life), "it expires as configured",
                dict(info, at=x.get("client_secret_expires_at")))
    S.check(c["client_secret"] == got["client_secret"], "it is the one recorded", info)
    S.check(S.eq(c.get("client_id_issued_at"), now), "the id is issued now", info)
    cid2, got2 = R.submit(md)
    S.check(cid2 is not None and cid2 != cid and got2["client_secret"] != got["client_secret"],
            "ids and secrets are never given twice", info)


def do_left(S, case):
    """a refused registration, before or after one that was not"""
    R = Run(S, case)
    W = R.W
    R.F.exp[L, L] = W.now + 1000        # so that the one corrected is seen
    good = base(R)
    bad = dict(good)
    what = case["what"]
    if what == "redirect":
        bad["redirect_uris"] = [S.rope(S.atom("scheme", ("myapp", "gopher"), False), "://", "rp.example.org", "/cb")]
    elif what == "logout":
        bad["post_logout_redirect_uri"] = "https://rp.example.org/x#y"
    elif what == "info":
        bad["policy_uri"] = S.rope("https://", S.word("elsewhere"), ".example.net/policy")
    elif what == "info-none":
        bad["policy_uri"] = "https://rp.example.org/policy"
        del bad["redirect_uris"]
    else:
        bad["response_types"] = [S.atom("rt", ("token", "none"), False)]
    first = S.flag("accepted-first")
    if first:
        cid, _ = R.submit(good)
        S.check(cid is not None, "the client is registered", {"case": case, "how": R.how})
        if cid is None:
            return
        if case["how"] == "automatic":
            return      # it is not registered again
    before = {k: dict(v) for k, v in R.cdb.items()}
    W.now += S.int("later", 0, 100)
    cid, _ = R.submit(bad)
    S.observe("ok", cid is not None)
    info = {"case": case, "how": R.how, "first": first}
    S.check(cid is None, "the registration is refused", info)
    refused(R, before, info)
    S.cover("kept" if first else "not-locked-out")
    R.F.exp[L, L] = c07.FAR
    W.now += S.int("later2", 1001, 2000)
    cid, _ = R.submit(good)
    S.check(cid is not None and (case["how"] == "explicit" or R.served), "the client can register after all",
            dict(info, how=R.how))

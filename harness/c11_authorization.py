"""Authorization requests of federation clients: when, by what means, and saying what."""
from urllib.parse import parse_qs, urlparse

from sx.engine import call

COVERS = ["sent", "refused", "registered", "unregistered", "object", "pushed", "shared", "unshared", "second-choice"]
BOUNDS = {
    "quick": "OpenID Connect and OAuth2 clients; every ordered choice of the two ways of sending requests, or none configured; "
             "servers that list any subset of them with any of 4 sets of methods, or list nothing; one server after another; registered or not, "
             "under its own identifier or another; arbitrary clocks, lifetimes, states, nonces and redirect URIs",
    "thorough": "as quick, with every method list for every order and the request parameters given or left out",
}
ASSUMPTIONS = ["a signature verifies exactly with the key that made it"]
OUTSIDE = ("encrypted request objects, request_uri by reference, the aud of OpenID Connect request objects, pushing "
           "by the library's add-on when the authorization endpoint is chosen (it cannot be switched off)")
BUDGET = {"quick": 300, "thorough": 1200}

L, TA, OP = "https://rp.example.org", "https://ta.example.org", "https://op.example.org"
AZ, PAR = "authorization_endpoint", "pushed_authorization_request_endpoint"
WAYS = [None, [], [AZ], [PAR], [AZ, PAR], [PAR, AZ]]
METHODS = [["request_object"], ["private_key_jwt"], ["private_key_jwt", "request_object"], []]


def setup(symbolic):
    from sx import world
    world.install(symbolic)


def cases(tier):
    out = []
    for kind in ("oidc", "oauth2"):
        for i, ways in enumerate(WAYS):
            par = bool(ways) and PAR in ways
            for az in (None, 0, 1, 2, 3) if tier == "thorough" or ways in ([AZ], [PAR, AZ]) else (None, 0, 1):
                out.append({"kind": kind, "ways": i, "az": az, "k": "plain"})
        for reg in ("own", "other"):
            for az in (None, 0):
                out.append({"kind": kind, "ways": 2, "az": az, "k": "reg", "reg": reg})
        out.append({"kind": kind, "ways": 2, "az": 0, "k": "twice"})
        out.append({"kind": kind, "ways": 2, "az": 0, "k": "other-type"})
        for i in (3, 4, 5):
            out.append({"kind": kind, "ways": i, "az": None, "k": "push"})
        for i in (2, 3, 4, 5):
            out.append({"kind": kind, "ways": i, "az": None, "k": "switch"})
    return out


class Client:
    def __init__(self, S, case):
        from sx import world, app
        self.S, self.case = S, case
        self.W = W = world.begin(S)
        W.now = self.now = S.int("now", 1, 4_000_000_000)
        kind = case["kind"]
        self.ways = WAYS[case["ways"]]
        conf = {} if self.ways is None else {"authorization_request_endpoints": self.ways}
        if case["k"] == "push":
            conf["add_ons"] = {"par": {"function": "idpyoidc.client.oauth2.add_on.par.add_support", "kwargs": {}}}
        W.owner = "fed"
        combo, self.rp = app.client(L, {TA: W.jwks(W.jwk("m-ta", "k-ta"))}, kind, config=conf)
        W.owner = "own"
        self.switch = case["k"] == "switch"
        self.srv = self.rp.get_service("authorization")
        self.ctx = self.rp.context
        if self.switch:
            # pushing as a library does it that can switch it on and off
            from idpyoidc.client.oauth2.add_on.par import push_authorization
            on = self.ctx.add_on["pushed_authorization"] = {"http_client": None, "authn_method": "", "apply": S.choose("apply", [True, False])}

            def push(request_args, service, **kwargs):
                return push_authorization(request_args, service, **kwargs) if on["apply"] else request_args
            self.srv.post_construct.append(push)
        self.lifetime = None
        if case["k"] != "plain" or case["ways"] == 2:
            self.lifetime = S.int("lifetime", 1, 100_000)
            self.srv.conf["request_object_expires_in"] = self.lifetime

    def server(self, lists, typ=None):
        """what the client knows about the server"""
        typ = typ or ("openid_provider" if self.case["kind"] == "oidc" else "oauth_authorization_server")
        md = {"issuer": OP, AZ: OP + "/authorization", PAR: OP + "/par", "response_types_supported": ["code"]}
        if lists is not None:
            md["request_authentication_methods_supported"] = lists
        self.ctx.issuer = OP
        self.ctx.provider_info = md
        self.ctx.server_metadata = {typ: md}
        return md

    def registered(self, cid):
        rr = {"client_id": cid, "redirect_uris": [L + "/cb"], "response_types": ["code"]}
        typ = "oauth_client"
        if self.case["kind"] == "oidc":
            self.ctx.registration_response = rr
            self.ctx.map_preferred_to_registered(rr)
        else:
            self.ctx.registration_response = {typ: rr}
            self.ctx.map_preferred_to_registered(rr)

def run(S, case):
    c = Client(S, case)
    W = c.W
    if c.switch:
        return switch(S, case, c)
    lists = {}
    if case["az"] is not None:
        lists[AZ] = METHODS[case["az"]]
    if case["k"] == "push" or case["k"] == "plain" and c.ways and PAR in c.ways and S.flag("par-listed"):
        lists[PAR] = ["private_key_jwt"]
    listed = lists if lists or case["az"] is not None else S.choose("listed", [None, {}])
    md = c.server(listed, None if case["k"] != "other-type" else "federation_entity")
    reg = case.get("reg") or (S.choose("reg", [None, "own"]) if case["k"] == "plain" else None)
    cid = {"own": L, "other": "client-47", None: L}[reg]
    if reg:
        c.registered(cid)
    args = arguments(S, case)
    for turn in range(2 if case["k"] == "twice" else 1):
        if turn:
            W.now = c.now + S.int("later", 0, 10_000)
        one(S, case, c, args, lists if case["k"] != "other-type" else {}, md, reg, cid)


def switch(S, case, c):
    """one server after the other"""
    args = {"response_type": "code", "redirect_uri": L + "/cb", "state": S.atom("state", ("st", "af0if-jsldkj")),
            "scope": ["openid"] if case["kind"] == "oidc" else ["read"]}
    if case["kind"] == "oidc":
        args["nonce"] = "n-0S6"
    both = {AZ: ["request_object"], PAR: ["private_key_jwt"]}
    for turn in range(2):
        names = S.choose(f"lists{turn}", [[AZ], [PAR], [AZ, PAR], []])
        lists = {k: both[k] for k in names}
        c.turn = str(turn)
        one(S, case, c, args, lists, c.server(lists or None), None, L)


def arguments(S, case):
    args = {"response_type": "code", "redirect_uri": S.atom("redirect", (L + "/cb", L + "/cb2")),
            "state": S.atom("state", ("st", "af0if-jsldkj"))}
    if case["kind"] == "oidc":
        args.update(scope=["openid"], nonce=S.atom("nonce", ("n-0S6", "x")))
    else:
        args["scope"] = ["read"]
    return args


def one(S, case, c, args, lists, md, reg, cid):
    W = c.W
    now = W.now
    n = len(W.requests)
    if case["k"] in ("push", "switch"):
        n_th = getattr(c, "turn", "")
        c.uri = "urn:ietf:params:oauth:request_uri:" + S.choose("ref" + n_th, ["a", "b"])
        c.status = S.choose("status" + n_th, [200, 400, 500] if not c.switch else [200, 400])
        W.serve(OP + "/par", W.text({"request_uri": c.uri, "expires_in": 60}), "application/json", c.status)
    r, req = call(c.srv.construct, request_args=dict(args))
    way = next((w for w in c.ways or [] if w in lists), None)
    info = {"case": case, "listed": lists, "reg": reg, "way": way, "how": repr(req)[:300]}
    ok = r == "ok" and req is not None
    S.observe("ok", ok)
    S.cover("registered" if reg else "unregistered")
    S.cover("shared" if way else "unshared")
    if way and way != c.ways[0]:
        S.cover("second-choice")
    if case["k"] == "push" or c.switch and way == PAR:
        return pushed(S, c, r, req, args, W.requests[n:], cid, info)
    if way == PAR:
        # nothing is set up for pushing here
        S.check(not ok, "what is not set up is not used", info)
        return
    can = (way == AZ and "request_object" in lists[AZ])
    S.check(len(W.requests) == n, "nothing is pushed", info)
    if not ok:
        S.cover("refused")
        S.check(not can, "a request that can be made is made", info)
        S.check(way is not None or not reg, "a registered client can always ask", info)
        S.check(len(W.requests) == n, "nothing is sent", info)
        return
    S.cover("sent")
    S.check(can or (reg is not None and way is None), "asked only by means both can use, or as a registered client", info)
    S.check(S.eq(req["client_id"], cid), "the client ID is the registered one, or the entity ID", info)
    S.check(S.eq(req["response_type"], ["code"]), "response type", info)
    if not can:
        for k, v in args.items():
            if k != "response_type":
                S.check(S.eq(req.get(k), v), "what was asked for is asked", dict(info, k=k))
        return
    S.cover("object")
    tok = req.get("request")
    S.check(tok is not None and W.is_token(tok), "there is a request object", info)
    h, pl = W.opened(tok)
    S.check(h.get("alg") not in (None, "none"), "the request object is signed", info)
    S.check(W.signed_by(tok, "app-RSA"), "with the client's own key", info)
    S.check(S.eq(pl.get("iss"), L), "issued by the client itself", info)
    S.check(S.eq(pl.get("client_id"), cid), "for its own client ID", info)
    for k, v in args.items():
        want = v if k not in ("scope",) else " ".join(v)
        S.check(S.eq(pl.get(k), want), "the request object says what is asked", dict(info, k=k, got=repr(pl.get(k))))
    if case["kind"] == "oauth2":
        aud = pl.get("aud")
        S.check(S.eq(aud if isinstance(aud, str) else (aud or [None])[0], md[AZ]), "for the authorization endpoint", info)
    life = c.lifetime if c.lifetime is not None else 300
    S.check(S.and_(pl["iat"] <= now, now < pl["exp"]), "the request object is in force", info)
    S.check("jti" in pl, "it can be told from any other", info)
    S.check(S.eq(pl["exp"], now + life), "it lasts as long as configured", dict(info, exp=pl["exp"]))


def pushed(S, c, r, req, args, sent, cid, info):
    """the request goes to the server first, the user is sent off with a reference to it"""
    W = c.W
    S.cover("pushed")
    S.check(len(sent) == 1 and sent[0][:2] == ("POST", OP + "/par"), "pushed once, to the endpoint for it",
            dict(info, sent=repr(sent)))
    ok = r == "ok" and req is not None
    S.check(ok == (c.status == 200), "used when the server took it, and only then", info)
    body = {k: v[0] for k, v in parse_qs(sent[0][2]["data"]).items()}
    S.check(body["client_id"] == cid, "pushed for the client's own client ID", info)
    h, pl = W.opened(body["request"])
    S.check(h.get("alg") not in (None, "none") and W.signed_by(body["request"], "app-RSA"), "signed by the client", info)
    for k, v in dict(args, client_id=cid).items():
        got = pl.get(k)
        if k in ("scope", "response_type"):      # the library writes either a list or a string
            got, v = (" ".join(x) if isinstance(x, list) else x for x in (got, v))
        S.check(S.eq(got, v), "the request object says what is asked", dict(info, k=k))
    if ok:
        S.check(req["request_uri"] == c.uri and req["client_id"] == cid, "the request refers to what was pushed", info)
        S.check("state" not in req and "nonce" not in req, "nothing is said outside of what was pushed", info)

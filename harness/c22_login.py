"""A relying party talks to the provider that a valid trust chain describes, and to nobody else."""
from urllib.parse import parse_qs, urlparse

from sx.engine import call
from harness import c07_resolution as c07
from harness.c13_resolve import Fed

COVERS = ["found", "refused", "poser", "automatic", "explicit", "no-common", "sent", "logged-in", "rejected",
          "by-uri", "no-keys", "second-anchor", "token", "no-token", "active", "inactive", "foreign-state"]
BOUNDS = {
    "quick": "a provider below one intermediate and two roots with a fault of any kind at any one configuration or "
             "statement of its chain, superiors that say nothing about its endpoints, force them by policy, or state those it leaves out, keys by value, by URI, both or "
             "neither, an arbitrary issuer claim; both anchors configured in either order or one only, each with a policy "
             "of its own; every combination of registration types on either side; two authorization requests; ID "
             "tokens with an arbitrary signer, issuer, audience, nonce, times and subject, token and userinfo answers "
             "of any status; callbacks with any state and issuer among two providers used at the same time; arbitrary "
             "clocks for the token and session queries",
    "thorough": "as quick, with every case for both registration types and with the policy either way",
}
ASSUMPTIONS = c07.ASSUMPTIONS
OUTSIDE = "other response types than code, redirects, logout, token refresh, idpyoidc's own client"
BUDGET = {"quick": 500, "thorough": 3600}

RP, OP, BANK = "https://rp.example.org", "https://op.example.org", "https://bank.example.org"
I1, TA, TX = c07.I1, c07.TA, c07.TX
TYP = "openid_provider"
AZ = "authorization_endpoint"
EPS = (AZ, "token_endpoint", "userinfo_endpoint", "federation_registration_endpoint")


def setup(symbolic):
    from sx import world
    world.install(symbolic)
    import fedservice.appclient.stand_alone_client_entity       # noqa
    world.sweep()


def cases(tier):
    out = []
    for bad in ("none", "leaf", "stmt", "top", "hint"):
        out.append({"k": "discover", "bad": bad})
    out += [{"k": "issuer"}, {"k": "keys"}, {"k": "register"}]
    for conf in ([TA, TX], [TX, TA], [TX], [TA]):
        for prio in (None, [TA, TX], [TX, TA]):
            out.append({"k": "anchors", "conf": conf, "prio": prio})
    for how in ("automatic", "explicit"):
        out.append({"k": "ask", "how": how})
        for what in ("signer", "claims", "nonce", "times", "sub", "form"):
            out.append({"k": "login", "how": how, "what": what})
        out.append({"k": "clocks", "how": how})
    out.append({"k": "callback"})
    return out


class Run:
    def __init__(self, S, case, prio=None, ability=("automatic", "explicit"), register="oauth_registration",
                 anchors=(TA, TX)):
        from sx import world, app
        self.S, self.case = S, case
        self.W = W = world.begin(S)
        W.now = 1_000_000
        self.F = F = Fed(S, W)
        F.hints = {OP: [I1], RP: [TA], I1: [TA], BANK: [TA], TA: [], TX: []}
        F.extra = {}
        F.meta = {OP: {TYP: self.metadata()}, BANK: {TYP: self.metadata(BANK)}}
        self.combo, self.rph = app.handler(RP, {a: F.jwks(a) for a in anchors}, types=ability,
                                           config={"authorization_request_endpoints": [AZ]}, register=register)
        W.owner = "own"
        self.fe = self.combo["federation_entity"]
        if prio is not None:
            self.fe.context.tr_priority = list(prio)

    def metadata(self, e=OP):
        n = e.split("//")[1].split(".")[0]
        return {"issuer": e, "authorization_endpoint": e + "/authorization", "token_endpoint": e + "/token",
                "userinfo_endpoint": e + "/userinfo", "federation_registration_endpoint": e + "/fedreg",
                "response_types_supported": ["code"], "subject_types_supported": ["public"],
                "id_token_signing_alg_values_supported": ["ES256"], "grant_types_supported": ["authorization_code"],
                "client_registration_types_supported": ["automatic", "explicit"],
                "request_authentication_methods_supported": {AZ: ["request_object"]},
                "jwks": self.W.jwks(self.W.jwk(f"m-{n}-op", f"k-{n}-op"))}

    def force(self, iss=TA, sub=I1, at="/new"):
        """a policy that moves all endpoints; returns the metadata it yields"""
        md, moved = self.metadata(), {k: OP + at + self.metadata()[k][len(OP):] for k in EPS}
        self.F.extra[iss, sub] = {"metadata_policy": {TYP: {k: {"value": v} for k, v in moved.items()}}}
        return dict(md, **moved)

    def superior(self):
        """what superiors have to say about the provider's endpoints; returns the metadata that yields"""
        how = self.S.choose("superior", ["nothing", "policy", "metadata"])
        if how == "policy":
            return self.force()
        if how == "metadata":
            # the provider leaves them to its superior
            md, own = self.metadata(), self.F.meta[OP][TYP]
            said = {k: OP + "/said" + md[k][len(OP):] for k in EPS[1:]}
            for k in said:
                del own[k]
            self.F.extra[I1, OP] = {"metadata": {TYP: said}}
            return dict(md, **said)
        return self.metadata()

    def keys(self, client, who):
        from sx.fed import materials
        return sorted({str(x) for x in materials(client.keyjar, who) if x != "secret"})

    def find(self, e=OP):
        self.client = self.rph.init_client(e)
        return call(self.client.do_provider_info)

    def untouched(self, info):
        S, c = self.S, self.client
        S.check(not c.context.provider_info or list(c.context.provider_info) == ["issuer"],
                "nothing is known about the provider", info)
        S.check(not self.keys(c, OP) and not self.keys(c, BANK), "no keys are taken in", info)
        S.check(call(c.init_authorization)[0] != "ok", "no request can be made", info)

    def found(self, v, want, info, keys=("m-op-op",)):
        S, c = self.S, self.client
        S.check(v == OP, "it is the one asked about", info)
        got = c.context.provider_info
        S.check(S.and_(sorted(got) == sorted(want),
                       *[S.eq(got[k], v) for k, v in want.items() if k in got and k != "jwks"]),
                "what is known is what the chain yields", dict(info, got=repr(got), want=want))
        S.check(self.keys(c, OP) == sorted(keys), "its keys are those the chain yields", dict(info, got=self.keys(c, OP)))
        S.check(not self.keys(c, BANK), "nobody else gets keys", info)

    def answer(self, metadata, cid, e=OP):
        """the provider's answer to an explicit registration"""
        W = self.W
        rp = {"client_id": cid, "redirect_uris": [RP + "/cb"], "response_types": ["code"],
              "client_registration_types": ["explicit"]}
        tok = W.sign({"iss": e, "sub": RP, "aud": [RP], "iat": W.now, "exp": W.now + 1000, "trust_anchor_id": TA,
                      "jwks": self.F.jwks(e), "authority_hints": [TA], "metadata": {"openid_relying_party": rp}},
                     *self.F.key(e), typ="entity-statement+jwt")
        W.serve(metadata["federation_registration_endpoint"], tok, "application/entity-statement+jwt", 200)

    def beyond(self, n=0):
        """what was requested apart from the federation's own documents"""
        return [(q[0], str(q[1])) for q in self.W.requests[n:]
                if urlparse(str(q[1])).path not in ("/.well-known/openid-federation", "/fetch", "/jwks.json")]

    def begin(self, e=OP, **kw):
        """starts a login: what the user is sent off with"""
        r, url = call(self.rph.begin, e, **kw)
        if r != "ok":
            return None, url
        u = urlparse(url)
        q = {k: v[0] for k, v in parse_qs(u.query).items()}
        ro = None
        if "request" in q:
            ro = q["request"]
            q.update(self.W.opened(ro)[1])
        return {"to": f"{u.scheme}://{u.netloc}{u.path}", "q": q, "ro": ro}, url


def run(S, case):
    globals()["do_" + case["k"]](S, case)


def do_discover(S, case):
    R = Run(S, case, anchors=(TA,))
    F, bad = R.F, case["bad"]
    if bad == "leaf":
        F.conf_fault[OP] = S.choose("how", c07.CONF_FAULTS[:6])
    elif bad in ("stmt", "top"):
        F.stmt_fault[(OP, I1) if bad == "stmt" else (I1, TA)] = S.choose("how", c07.STMT_FAULTS)
    elif bad == "hint":
        F.hints[OP] = S.choose("how", [[], [TX], ["https://nobody.example.org"]])
    want = R.superior()
    r, v = R.find()
    S.observe("ok", r == "ok")
    info = {"case": case, "how": repr(v)[:300]}
    S.check((r == "ok") == (bad == "none"), "found exactly with a valid chain", info)
    if r != "ok":
        S.cover("refused")
        R.untouched(info)
        n = len(R.W.requests)
        S.check(call(R.rph.begin, OP)[0] != "ok" and not R.beyond(n), "no login can be started", info)
        return
    S.cover("found")
    R.found(v, want, info)


def do_issuer(S, case):
    """a provider that says it is another"""
    R = Run(S, case)
    iss = S.atom("issuer", (OP, BANK, OP + "/"))
    R.F.meta[OP][TYP]["issuer"] = iss
    r, v = R.find()
    S.observe("ok", r == "ok")
    info = {"case": case, "issuer": iss, "how": repr(v)[:300]}
    S.check(S.eq(r == "ok", S.eq(iss, OP)), "a provider can only speak for itself", info)
    if r == "ok":
        R.found(v, R.metadata(), info)
    else:
        S.cover("poser")
        R.untouched(info)


def do_keys(S, case):
    R = Run(S, case)
    W, md = R.W, R.F.meta[OP][TYP]
    uri, val = S.flag("uri"), S.flag("value")
    keys = []
    if val:
        keys = ["m-op-op"]
    else:
        del md["jwks"]
    if uri:
        md["jwks_uri"] = OP + "/jwks.json"
        W.serve(OP + "/jwks.json", W.text(W.jwks(W.jwk("m-op-uri", "k-op-uri"))), "application/json", 200)
        keys = ["m-op-uri"]
        S.cover("by-uri")
    want = {k: v for k, v in md.items()}
    r, v = R.find()
    S.observe("ok", r == "ok")
    info = {"case": case, "uri": uri, "value": val, "how": repr(v)[:300]}
    S.check(r == "ok", "found exactly with a valid chain", info)
    if r != "ok":
        return
    if not keys:
        S.cover("no-keys")
    R.found(v, want, info, keys)


def do_anchors(S, case):
    """the provider has a chain to each of two anchors, which move its endpoints"""
    conf, prio = case["conf"], case["prio"]
    R = Run(S, case, anchors=conf, prio=prio)
    up = [a for a in (TA, TX) if S.flag("under-" + ("a" if a == TA else "x"))]
    R.F.hints[OP] = list(up)
    want = {a: R.force(a, OP, "/" + a.split("//")[1].split(".")[0]) for a in (TA, TX)}
    r, v = R.find()
    S.observe("ok", r == "ok")
    valid = [a for a in up if a in conf]
    info = {"case": case, "under": up, "how": repr(v)[:300]}
    S.check((r == "ok") == bool(valid), "found exactly with a valid chain to a configured anchor", info)
    if r != "ok":
        S.cover("refused")
        R.untouched(info)
        return
    got = R.client.context.provider_info
    # an order of preference decides, whatever the order of configuration
    a = next(a for a in (prio or conf) if a in valid) if prio or len(valid) == 1 else None
    S.check(got[AZ] in [want[x][AZ] for x in valid], "what is known is what one valid chain yields", dict(info, got=repr(got)))
    if a:
        if a == TX:
            S.cover("second-anchor")
        R.found(v, want[a], info)
    # registration does not fall back on another chain
    chosen = next((x for x in valid if want[x][AZ] == got[AZ]), None)
    if chosen:
        n = len(R.W.requests)
        R.answer(want[chosen], "client-47")
        r, v = call(R.client.do_client_registration)
        info["registration"] = repr(v)[:300]
        S.check(all(q[1] == want[chosen]["federation_registration_endpoint"] for q in R.beyond(n)),
                "one registers where the chain says", dict(info, got=R.beyond(n)))


SUBSETS = [[], ["automatic"], ["explicit"], ["automatic", "explicit"]]


def do_register(S, case):
    can = S.choose("can", SUBSETS[1:])
    offered = S.choose("offered", SUBSETS)
    R = Run(S, case, ability=can)
    md = R.superior()
    R.F.meta[OP][TYP]["client_registration_types_supported"] = list(offered)
    R.answer(md, "client-47")
    r, v = R.find()
    info = {"case": case, "can": can, "offered": offered, "how": repr(v)[:300]}
    if not offered:
        if r != "ok":
            S.cover("no-common")
            return
    S.check(r == "ok", "found exactly with a valid chain", info)
    if r != "ok":
        return
    n = len(R.W.requests)
    r, v = call(R.client.do_client_registration)
    S.observe("ok", r == "ok")
    info["how"] = repr(v)[:300]
    info["sent"] = sent = R.beyond(n)
    both = [x for x in can if x in offered]
    S.check((r == "ok") == bool(both), "a common registration type is needed and enough", info)
    if not both:
        S.cover("no-common")
        S.check(not sent, "nothing is sent without one", info)
    elif both == ["automatic"]:
        S.cover("automatic")
        S.check(not sent, "automatic registration needs no request", info)
        S.check(R.client.get_client_id() == RP, "one is known by the entity id", info)
    else:
        S.cover("explicit")
        if both == ["explicit"] or sent:
            S.check(sent == [("POST", md["federation_registration_endpoint"])],
                    "one registers where the chain says", info)
            S.check(R.client.get_client_id() == "client-47", "one is known by the id received", info)
        else:
            S.check(R.client.get_client_id() == RP, "one is known by the entity id", info)


def ready(S, case, policy=True):
    R = Run(S, case, ability=(case["how"],))
    md = R.superior() if policy else R.metadata()
    cid = RP
    if case["how"] == "explicit":
        cid = S.choose("cid", [RP, "client-47"])
        R.answer(md, cid)
    return R, md, cid


def do_ask(S, case):
    R, md, cid = ready(S, case)
    seen = []
    want = S.choose("want", [None, {}, {"prompt": "login"}, {"response_type": "code"}, {"scope": ["openid", "email"]},
                             {"state": "one-that-is-taken"}])
    for i in range(2):
        a, how = R.begin(req_args=dict(want)) if want is not None else R.begin()
        S.observe(f"ok{i}", a is not None)
        info = {"case": case, "want": want, "how": repr(how)[:300]}
        S.check(a is not None, "a request can be made", info)
        if a is None:
            return
        S.cover("sent")
        q = a["q"]
        for k, v in (want or {}).items():
            if k != "state":
                S.check(str(q.get(k)) == (v if isinstance(v, str) else " ".join(v)), "it says what was asked for", info)
        S.check(S.eq(a["to"], md[AZ]), "the user is sent where the chain says", info)
        S.check(S.and_(S.eq(q["client_id"], cid), S.eq(q["redirect_uri"], RP + "/cb"), S.eq(q["response_type"], "code")),
                "the request is this client's", info)
        if case["how"] == "automatic":
            S.check(a["ro"] is not None and S.or_(*[R.W.signed_by(a["ro"], "app-" + k, k) for k in ("RSA", "EC")]),
                    "the request is signed by the client", info)
        for x in (q.get("state"), q.get("nonce")):
            S.check(bool(x) and len(str(x)) > 8 and x not in seen, "state and nonce are fresh", info)
            seen.append(x)
        r, c = call(R.rph.get_client_from_session_key, q["state"])
        S.check(r == "ok" and c.context.issuer == OP, "the session belongs to the provider", info)


def id_token(R, cid, q, by=("m-op-op", "k-op-op"), tampered=False, **kw):
    p = {"iss": OP, "sub": "diana", "aud": [cid], "nonce": q["nonce"], "iat": R.W.now, "exp": R.W.now + 100}
    p.update(kw)
    return R.W.sign({k: v for k, v in p.items() if v is not None}, *by, tampered=tampered)


def serve(R, md, token, user={"sub": "diana"}, status=200, ustatus=200):
    R.W.serve(md["token_endpoint"], R.W.text(token), "application/json", status)
    R.W.serve(md["userinfo_endpoint"], R.W.text(user), "application/json", ustatus)


def do_login(S, case):
    what = case["what"]
    R, md, cid = ready(S, case, policy=what in ("signer", "form"))
    W = R.W
    a, how = R.begin()
    S.check(a is not None, "a request can be made", {"how": repr(how)[:300], "case": case})
    if a is None:
        return
    q, good, kw, user, note = a["q"], True, {}, {"sub": "diana"}, {}
    status = ustatus = 200
    tok = {"access_token": "at", "token_type": "Bearer", "expires_in": 300}
    if what == "signer":
        by = note["by"] = S.choose("by", [("m-op-op", "k-op-op"), ("m-op", "k-op"), ("m-bank-op", "k-bank-op"),
                                          ("m-x", "k-op-op"), ("m-i1", "k-op-op"), ("app-EC", "k-op-op")])
        kw["by"], kw["tampered"] = by, S.flag("tampered")
        good = by[0] == "m-op-op" and not kw["tampered"]
    elif what == "claims":
        kw["iss"] = S.atom("iss", (OP, BANK, RP))
        aud = S.atom("aud", (cid, OP, RP))
        kw["aud"] = [aud]
        good = S.and_(S.eq(kw["iss"], OP), S.eq(aud, cid))
    elif what == "nonce":
        b, _ = R.begin()
        n = note["nonce"] = S.choose("nonce", ["this", "other", "none", "unknown"])
        kw["nonce"] = {"this": q["nonce"], "other": b["q"]["nonce"], "none": None, "unknown": "xyzzyxyzzy"}[n]
        good = n == "this"
    elif what == "times":
        kw["iat"] = S.int("iat", W.now - 1000, W.now + 1000)
        kw["exp"] = S.int("exp", W.now - 1000, W.now + 1000)
        good = None
    elif what == "sub":
        user["sub"] = S.atom("user", ("diana", "claude"))
        good = S.eq(user["sub"], "diana")
    if what == "form":
        f = note["form"] = S.choose("form", ["400", "500", "error", "user-400", "user-error", "token-down"])
        good = False
        if f in ("400", "500"):
            status = int(f)
        elif f == "error":
            tok = {"error": "invalid_grant"}
        elif f == "user-400":
            ustatus = 400
        elif f == "user-error":
            user = {"error": "invalid_token"}
    idt = id_token(R, cid, q, **kw)
    if "error" not in tok:
        tok["id_token"] = idt
    if note.get("form") != "token-down":
        serve(R, md, tok, user, status, ustatus)
    n = len(W.requests)
    r, v = call(R.rph.finalize, OP, {"state": q["state"], "code": "c0de"})
    ok = r == "ok" and isinstance(v, dict) and "error" not in v and bool(v.get("userinfo"))
    S.observe("ok", ok)
    info = dict(note, case=case, token=kw, user=user, how=repr(v)[:400])
    sent = [x[1] for x in R.beyond(n)]
    S.check(all(x in (md["token_endpoint"], md["userinfo_endpoint"]) for x in sent),
            "codes and tokens go only where the chain says", dict(info, sent=sent))
    if good is None:
        skew = R.rph.issuer2rp[OP].context.clock_skew
        S.check(S.implies(S.and_(kw["iat"] <= W.now, kw["exp"] > W.now), ok), "a proper ID token is accepted", info)
        S.check(S.implies(ok, S.and_(kw["exp"] >= W.now - skew, kw["iat"] <= W.now + skew)), "an ID token has to be in force", info)
    elif what == "form":
        S.check(not ok, "an error is not a login", info)
    else:
        S.check(S.eq(ok, good), "a login is exactly a proper ID token of the provider for this request", info)
    if not ok:
        S.cover("rejected")
        if r == "ok" and isinstance(v, dict):
            S.check(not v.get("userinfo"), "nobody is logged in", info)
        return
    S.cover("logged-in")
    S.check(S.and_(S.eq(v["userinfo"]["sub"], "diana"), v["state"] == q["state"], v["issuer"] == OP, v["token"] == "at"),
            "the user is the one the provider vouches for", info)
    t = R.beyond(n)[0]
    S.check(t[0] == "POST" and t[1] == md["token_endpoint"], "the code goes to the token endpoint", info)


def do_clocks(S, case):
    R, md, cid = ready(S, case, policy=False)
    W = R.W
    a, how = R.begin()
    if a is None:
        S.check(False, "a request can be made", {"how": repr(how)[:300], "case": case})
        return
    q = a["q"]
    life = S.choose("life", [None, 300, 10])
    exp = W.now + 100
    tok = dict({"access_token": "at", "token_type": "Bearer"}, **({"expires_in": life} if life else {}))
    tok["id_token"] = id_token(R, cid, q, exp=exp)
    serve(R, md, tok)
    r, v = call(R.rph.finalize, OP, {"state": q["state"], "code": "c0de"})
    info = {"case": case, "how": repr(v)[:300], "life": life}
    S.check(r == "ok" and "error" not in v, "a proper ID token is accepted", info)
    then = W.now
    W.now = S.int("later", then, then + 1000)
    info["later"] = W.now
    r, v = call(R.rph.get_valid_access_token, q["state"])
    S.check(S.eq(r == "ok", W.now < then + life if life else True), "a token is handed out until it expires", info)
    if r == "ok":
        S.cover("token")
        S.check(v[0] == "at" and (not life or S.eq(v[1], then + life)), "it is the one received", info)
    else:
        S.cover("no-token")
    r, v = call(R.rph.has_active_authentication, q["state"])
    ok = r == "ok" and bool(v)
    S.cover("active" if ok else "inactive")
    S.check(S.eq(ok, W.now < exp), "an authentication lasts until its ID token expires", dict(info, how=repr(v)))


def do_callback(S, case):
    R = Run(S, case, ability=("automatic",))
    R.F.hints[BANK] = [TA]
    a, how = R.begin(OP)
    b, _ = R.begin(BANK)
    S.check(a is not None and b is not None, "a request can be made", {"how": repr(how)[:300], "case": case})
    if a is None or b is None:
        return
    W = R.W
    st = S.choose("state", ["this", "other", "none"])
    state = {"this": a["q"]["state"], "other": b["q"]["state"], "none": "xyzzyxyzzy"}[st]
    at = S.choose("at", [OP, BANK])
    resp = {"state": state, "code": "c0de"}
    iss = S.choose("iss", [None, OP, BANK])
    if iss:
        resp["iss"] = iss
    if S.flag("error"):
        resp = {"state": state, "error": "access_denied"}
    for x, q, n in ((OP, a["q"], "op"), (BANK, b["q"], "bank")):
        serve(R, R.metadata(x), {"access_token": "at", "token_type": "Bearer",
                                 "id_token": id_token(R, RP, q, (f"m-{n}-op", f"k-{n}-op"), iss=x)})
    n = len(W.requests)
    r, v = call(R.rph.finalize, at, resp)
    ok = r == "ok" and isinstance(v, dict) and "error" not in v and bool(v.get("userinfo"))
    S.observe("ok", ok)
    info = {"state": st, "at": at, "response": resp, "how": repr(v)[:300]}
    mine = OP if st == "this" else BANK if st == "other" else None
    good = at == mine and "error" not in resp
    if mine != at:
        S.cover("foreign-state")
    if not good:
        S.check(not ok, "a response counts only for the request it answers", info)
        S.check(not R.beyond(n), "no code is redeemed for it", info)
    elif iss in (None, mine):
        S.check(ok, "the answer to a request is accepted", info)
    sent = [x[1] for x in R.beyond(n)]
    S.check(all(x.startswith(at + "/") for x in sent), "codes go only to the provider of the request", dict(info, sent=sent))

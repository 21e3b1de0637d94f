"""Automatic registration: nobody becomes a client without a valid trust chain of its own."""
from sx.engine import call
from harness import c07_resolution as c07
from harness.c13_resolve import Fed

COVERS = ["registered", "refused", "provided", "fetched", "other's-chain", "policy-error", "not-supported",
          "already", "again", "expired", "assertion-refused"]
BOUNDS = {
    "quick": "OP authorization, AS authorization and pushed authorization endpoints; clients with a published chain "
             "(each statement possibly missing, forged or expired) or with a provided one of 14 kinds; metadata with "
             "a policy or none; 3 ways to publish keys; any signer of the client assertion; histories of two requests "
             "with arbitrary clocks, expiries and renewals",
    "thorough": "as quick, with every provided chain under every policy, and all endpoints in the histories",
}
ASSUMPTIONS = c07.ASSUMPTIONS
OUTSIDE = "signed_jwks_uri (not implemented in fedservice), what idpyoidc does with a registered client's request, request objects, clients with several entity types"
BUDGET = {"quick": 600, "thorough": 3600}
WITNESSES_PER_CASE = 30

L, I1, TA, TX = c07.L, c07.I1, c07.TA, c07.TX
OP = "https://op.example.org"
E = "https://evil.example.org"
X = "https://sub.example.org"
ENDS = [("oidc", "authorization"), ("oauth2", "authorization"), ("oauth2", "pushed_authorization")]
CHAINS = ["valid", "with-anchor", "other", "noec", "swapped-ec", "child", "child-ec", "unanchored", "forged", "badsig",
          "expired", "junk", "unordered", "alone"]
KEYS = ["jwks", "uri", "both"]


def setup(symbolic):
    from sx import world
    world.install(symbolic)


def cases(tier):
    out = []
    for kind, end in ENDS:
        base = {"kind": kind, "end": end}
        out.append(dict(base, k="once", how="provided", pols=["none", "name"]))
        out.append(dict(base, k="once", how="fetched", pols=["none", "name"]))
        out.append(dict(base, k="content"))
        out.append(dict(base, k="unsupported"))
        out.append(dict(base, k="already"))
        for what in ("leaf", "stmt", "top"):
            out.append(dict(base, k="again", what=what))
        if tier == "thorough":
            out.append(dict(base, k="again", what="all"))
        if end == "authorization":
            out.append(dict(base, k="newid"))
        if end == "pushed_authorization":
            out.append(dict(base, k="assertion"))
    return out


class Run:
    def __init__(self, S, case, types=("automatic", "explicit"), anchors=(TA,), **kw):
        from sx import world, app
        self.S, self.case = S, case
        self.W = W = world.begin(S)
        W.now = 1_000_000
        self.F = F = Fed(S, W)
        F.hints = {L: [I1], I1: [TA], E: [TA], X: [L], TA: [], TX: []}
        self.typ = "openid_relying_party" if case["kind"] == "oidc" else "oauth_client"
        F.meta = {e: {self.typ: self.metadata(e)} for e in (L, E, X)}
        F.extra = {}
        self.anchors = {a: F.jwks(a) for a in anchors}
        self.combo, self.op = app.server(OP, self.anchors, case["kind"], types, kw)
        self.end = self.op.get_endpoint(case["end"])
        self.cdb = self.op.context.cdb

    def metadata(self, e):
        n = e.split("//")[1].split(".")[0]
        return {"redirect_uris": [e + "/cb"], "client_name": n, "response_types": ["code"],
                "contacts": [n + "@example.org"], "jwks": self.W.jwks(self.W.jwk(f"m-{n}-rp", f"k-{n}-rp"))}

    def ec(self, e):
        return self.F.config(e)[1]

    def st(self, iss, sub):
        return self.F.statement(iss, sub, iss)[1]

    def chain(self, kind):
        """what a client may provide; leaf first"""
        F, W = self.F, self.W
        up = [self.st(I1, L), self.st(TA, I1)]
        if kind == "valid":
            return [self.ec(L)] + up
        if kind == "with-anchor":
            return [self.ec(L)] + up + [self.ec(TA)]
        if kind == "other":
            return [self.ec(E), self.st(TA, E)]
        if kind == "noec":
            F.extra[I1, L] = {"metadata": {self.typ: self.metadata(L)}}
            return [self.st(I1, L), self.st(TA, I1)]
        if kind == "swapped-ec":
            return [self.ec(E)] + up
        if kind == "child":
            F.extra[L, X] = {"metadata": {self.typ: self.metadata(X)}}
            return [self.st(L, X)] + up
        if kind == "child-ec":
            return [self.ec(X), self.st(L, X)] + up
        if kind == "unanchored":
            return [self.ec(L), self.st(I1, L), self.st(TX, I1)]
        if kind in ("forged", "badsig"):
            pl = W.opened(self.ec(L))[1]
            pl["metadata"][self.typ]["redirect_uris"] = [E + "/cb"]
            tok = W.sign(pl, "m-evil" if kind == "forged" else "m-leaf", "k-leaf", typ="entity-statement+jwt",
                         tampered=kind == "badsig")
            return [tok] + up
        if kind == "expired":
            F.exp[I1, L] = W.now - 1
            return [self.ec(L), self.st(I1, L), self.st(TA, I1)]
        if kind == "junk":
            return [self.ec(L), "junk", self.st(TA, I1)]
        if kind == "unordered":
            return ([self.ec(L)] + up)[::-1]
        return [self.ec(L)]

    def assertion(self, signer="m-leaf-rp", kid="k-leaf-rp", who=L):
        return {"client_assertion_type": "urn:ietf:params:oauth:client-assertion-type:jwt-bearer",
                "client_assertion": self.W.sign(
                    {"iss": who, "sub": who, "aud": [self.end.full_path], "iat": self.W.now,
                     "exp": self.W.now + 60, "jti": f"j{len(self.W.requests)}-{self.S.case_n}"}, signer, kid)}

    def ask(self, chain=None, **kw):
        self.S.case_n = getattr(self.S, "case_n", 0) + 1
        req = {"response_type": "code", "client_id": L, "redirect_uri": L + "/cb", "scope": ["openid"], "state": "st"}
        if chain is not None:
            req["trust_chain"] = list(chain)
        if self.case["end"] == "pushed_authorization":
            req.update(self.assertion(**kw))
        r, res = call(self.end.parse_request, req)
        ok = r == "ok" and "error" not in res and res.get("client_id") is not None
        return ok, repr(res) if r != "ok" else (res.to_dict() if "error" in res else "")

    def keys(self, who):
        """the asymmetric keys the server has for somebody"""
        from sx.fed import materials
        return sorted({str(x) for x in materials(self.op.keyjar, who) if x != "secret"})

    def state(self):
        return {k: v for k, v in self.cdb.items()}

    def untouched(self, info):
        S = self.S
        S.check(L not in self.cdb and not len(self.cdb), "without a valid chain nobody is registered",
                dict(info, clients=list(self.cdb)))
        S.check(not any(self.keys(e) for e in (L, E, X, I1)), "without a valid chain no keys are taken in", info)

    def registered(self, want, info, keys=("m-leaf-rp",)):
        S = self.S
        S.check(L in self.cdb, "the client is registered", info)
        if L not in self.cdb:
            return
        c = self.cdb[L]
        others = [k for k, v in self.cdb.items() if k != L and v.get("entity_id") != L]
        S.check(not others, "nobody else is", dict(info, others=others))
        S.check([list(x) for x in c.get("redirect_uris", [])] == [[u, {}] for u in want["redirect_uris"]],
                "with the redirect_uris the chain yields", dict(info, got=c.get("redirect_uris")))
        S.check(S.eq(c.get("client_name"), want["client_name"]), "with the name the chain yields", dict(info, want=want))
        S.check(sorted(c.get("contacts", [])) == sorted(want["contacts"]), "with the contacts the chain yields",
                dict(info, want=want, got=c.get("contacts")))
        got = self.keys(L)
        S.check(all(k in keys for k in got), "with no keys but those the chain yields", dict(info, got=got))
        S.check(all(k in got for k in keys), "with the keys the chain yields", dict(info, got=got))
        S.check(not any(self.keys(e) for e in (E, X)), "nobody else gets keys", info)


def run(S, case):
    {"once": once, "content": content, "unsupported": unsupported, "already": already, "newid": newid, "again": again,
     "assertion": assertion}[case["k"]](S, case)


def policy(S, R, kind):
    """a policy of the anchor; returns what it makes of the metadata, None if it refuses it"""
    md = R.metadata(L)
    if kind == "name":
        v = S.atom("forced", ("Forced", "leaf"))
        R.F.extra[TA, I1] = {"metadata_policy": {R.typ: {"client_name": {"value": v},
                                                         "contacts": {"add": ["ta@example.org"]}}}}
        md["client_name"] = v
        md["contacts"] = md["contacts"] + ["ta@example.org"]
    elif kind == "error":
        R.F.extra[TA, I1] = {"metadata_policy": {R.typ: {"client_name": {"one_of": ["Somebody", "else"]}}}}
        return None
    return md


def once(S, case):
    R = Run(S, case)
    F = R.F
    pol = S.choose("policy", case["pols"] + ["error"])
    want = policy(S, R, pol)
    chain, kind = None, ""
    if case["how"] == "provided":
        kind = S.choose("chain", CHAINS)
        if want is None and kind not in ("valid", "other"):
            return
        if S.flag("nothing-published"):
            F.conf_fault = {e: "404" for e in (L, I1, E, X)}
            chain = None
            f, F.conf_fault = F.conf_fault, {}
            chain = R.chain(kind)
            F.conf_fault = f
        else:
            chain = R.chain(kind)
        good = kind in ("valid", "with-anchor")
        S.cover("provided")
        if kind in ("other", "child", "child-ec", "noec"):
            S.cover("other's-chain")
    else:
        bad = S.choose("fault", ["none", "leaf", "stmt", "top", "hint"])
        if bad == "leaf":
            F.conf_fault[L] = S.choose("how", c07.CONF_FAULTS[:6])
        elif bad in ("stmt", "top"):
            F.stmt_fault[(L, I1) if bad == "stmt" else (I1, TA)] = S.choose("how", c07.STMT_FAULTS)
        elif bad == "hint":
            F.hints[L] = S.choose("how", [[], [TX], ["https://nobody.example.org"]])
        good = bad == "none"
        S.cover("fetched")
    ok, how = R.ask(chain)
    S.observe("ok", ok)
    S.observe("registered", sorted(k for k in R.cdb if k in (L, E, X, I1, TA)))
    info = {"case": case, "chain": kind, "policy": pol, "how": how}
    if not good or want is None:
        S.cover("refused")
        if want is None:
            S.cover("policy-error")
        S.check(not ok, "without a valid chain the request is refused", info)
        R.untouched(info)
        return
    S.cover("registered")
    S.check(ok, "a client with a valid chain is accepted", info)
    R.registered(want, info)


def content(S, case):
    """what is registered"""
    R = Run(S, case)
    md = R.F.meta[L][R.typ]
    md["client_name"] = S.atom("name", ("leaf", "Forced"))
    want = policy(S, R, S.choose("policy", ["none", "name"]))
    if R.F.extra == {}:
        want["client_name"] = md["client_name"]
    style = S.choose("keys", KEYS)
    uri = L + "/jwks.json"
    other = R.W.jwks(R.W.jwk("m-leaf-uri", "k-leaf-uri"))
    keys = ("m-leaf-rp",)
    if style in ("uri", "both"):
        md["jwks_uri"] = uri
        R.W.serve(uri, R.W.text(other), "application/json")
        keys = ("m-leaf-uri",)
    if style == "uri":
        del md["jwks"]
    kw = {}
    if keys[0] == "m-leaf-uri":
        kw = {"signer": "m-leaf-uri", "kid": "k-leaf-uri"} if case["end"] == "pushed_authorization" else {}
    provided = S.flag("provided")
    ok, how = R.ask(R.chain("valid") if provided else None, **kw)
    S.observe("ok", ok)
    info = {"case": case, "keys": style, "how": how}
    S.check(ok, "a client with a valid chain is accepted", info)
    R.registered(want, info, keys)


def unsupported(S, case):
    R = Run(S, case, types=("explicit",))
    S.cover("not-supported")
    chain = R.chain("valid") if S.flag("provided") else None
    ok, how = R.ask(chain)
    S.observe("ok", ok)
    S.check(not ok, "no automatic registration where it is not supported", {"case": case, "how": how})
    R.untouched({"case": case, "how": how})


def already(S, case):
    """somebody registered in another way stays as it is"""
    R = Run(S, case)
    S.cover("already")
    R.cdb[L] = {"client_id": L, "redirect_uris": [[L + "/cb", {}]], "client_name": "as it was",
                "client_salt": "salt"}
    R.op.keyjar.import_jwks(R.W.jwks(R.W.jwk("m-leaf-rp", "k-leaf-rp")), L)
    kind = S.choose("chain", ["none"] + CHAINS)
    ok, how = R.ask(None if kind == "none" else R.chain(kind))
    S.observe("ok", ok)
    info = {"case": case, "chain": kind, "how": how}
    S.check(ok, "a registered client needs no chain", info)
    S.check(list(R.cdb) == [L] and R.cdb[L].get("client_name") == "as it was", "its registration is not replaced", info)
    S.check(R.keys(L) == ["m-leaf-rp"], "nor its keys", dict(info, got=R.keys(L)))


def least(S, xs):
    m = xs[0]
    for x in xs[1:]:
        m = S.ite(x < m, x, m)
    return m


def again(S, case):
    """a registration is not used longer than the chain allows"""
    R = Run(S, case)
    F, W = R.F, R.W
    keys = [(L, L), (I1, L), (TA, I1)]
    keys = keys if case["what"] == "all" else [keys[["leaf", "stmt", "top"].index(case["what"])]]
    t1, t2 = S.int("t1", 1, 3_000_000_000), S.int("t2", 1, 3_000_000_000)
    S.assume(t1 <= t2)
    for n, k in enumerate(keys):
        F.exp[k] = S.int(f"e1{n}", 1, 3_900_000_000)
    e1 = least(S, [F.exp[k] for k in keys])
    W.now = t1
    ok, how = R.ask()
    S.observe("first", ok)
    info = {"case": case, "t1": t1, "t2": t2, "e1": e1, "how": how}
    if not ok:
        S.check(t1 > e1, "a client with a valid chain is accepted", info)
        R.untouched(info)
        return
    S.check(t1 <= e1, "without a valid chain the request is refused", info)
    W.now = t2
    e2 = e1
    if S.flag("renewed"):
        for n, k in enumerate(keys):
            e = S.int(f"e2{n}", 1, 3_900_000_000)
            S.assume(F.exp[k] <= e)
            F.exp[k] = e
        e2 = least(S, [F.exp[k] for k in keys])
    ok, how = R.ask()
    S.observe("second", ok)
    S.cover("again")
    info = dict(info, e2=e2, how=how)
    if ok:
        S.check(t2 <= e2, "a registration is not used once its chain has expired", info)
        R.registered(R.metadata(L), info)
    else:
        S.cover("expired")
        S.check(t2 > e2, "a client with a valid chain is accepted", info)
        S.check(L not in R.cdb, "the registration does not survive the chain", info)


def assertion(S, case):
    """who can speak for the client"""
    R = Run(S, case)
    signer = S.atom("signer", ("m-leaf-rp", "m-leaf", "m-evil-rp"))
    provided = S.flag("provided")
    ok, how = R.ask(R.chain("valid") if provided else None, signer=signer)
    S.observe("ok", ok)
    if not ok:
        S.cover("assertion-refused")
    S.check(S.eq(signer, "m-leaf-rp") if ok else S.not_(S.eq(signer, "m-leaf-rp")),
            "exactly the holder of the keys that the chain yields can speak for the client", {"how": how})


def newid(S, case):
    """a server that hands out client ids of its own"""
    R = Run(S, case, new_client_id=True)
    pol = S.choose("policy", ["none", "name"])
    want = policy(S, R, pol)
    kind = S.choose("chain", ["none"] + CHAINS)
    ok, how = R.ask(None if kind == "none" else R.chain(kind))
    S.observe("ok", ok)
    info = {"case": case, "chain": kind, "policy": pol, "how": how}
    if kind in ("none", "valid", "with-anchor"):
        S.check(ok, "a client with a valid chain is accepted", info)
        R.registered(want, info)
    else:
        S.check(not ok, "without a valid chain the request is refused", info)
        R.untouched(info)

"""Explicit registration on the client's side: only what the server vouches for, within the client's own chain."""
from sx.engine import call
from harness import c07_resolution as c07
from harness.c13_resolve import Fed
from harness.c17_automatic import L, I1, TA, TX, OP, E

COVERS = ["accepted", "refused", "forged", "time", "op-fault", "own-fault", "policy-error", "anchor", "second", "request"]
TB = "https://tb.example.org"
BOUNDS = {
    "quick": "OpenID Connect and OAuth2 clients; 15 kinds of responses, each naming any of three trust anchors; one fault in the "
             "chain of the server or of the client; a policy or none; arbitrary clocks and expiry times of the "
             "response and of any statement; two responses in a row",
    "thorough": "as quick, with every response under every policy and every fault",
}
ASSUMPTIONS = c07.ASSUMPTIONS
OUTSIDE = "clients with several chains to the named trust anchor (refused), aud, metadata policies in responses"
BUDGET = {"quick": 600, "thorough": 3600}
WITNESSES_PER_CASE = 30
RESPS = ["good", "evil-keys", "evil-same-kid", "badsig", "none-alg", "wrong-iss", "about-other", "by-other-keys",
         "superior's", "by-stranger", "own-words", "no-keys", "no-anchor", "not-a-token", "empty"]
STRANGER = "https://stranger.example.org"


def setup(symbolic):
    from sx import world
    world.install(symbolic)


def cases(tier):
    out = []
    for kind in ("oidc", "oauth2"):
        for pol in ("none", "name", "error"):
            out.append({"kind": kind, "k": "kind", "pol": pol})
        out.append({"kind": kind, "k": "anchor"})
        for who in ("op", "own"):
            for bad in ("leaf", "stmt", "top", "hint"):
                out.append({"kind": kind, "k": "fault", "who": who, "bad": bad,
                            "resps": RESPS if tier == "thorough" else ["good"]})
        for what in ("response", "op-leaf", "op-stmt", "own-leaf", "own-stmt", "own-top"):
            out.append({"kind": kind, "k": "time", "what": what})
        for second in RESPS:
            out.append({"kind": kind, "k": "twice", "second": second})
        out.append({"kind": kind, "k": "request"})
    return out


class Run:
    def __init__(self, S, case):
        from sx import world, app
        self.S, self.case = S, case
        self.W = W = world.begin(S)
        W.now = 1_000_000
        self.F = F = Fed(S, W)
        F.hints = {L: [I1], I1: [TA], OP: [TA], E: [TA], TA: [], TX: [], TB: [], STRANGER: [TX]}
        F.meta, F.extra = {}, {}
        self.typ = "openid_relying_party" if case["kind"] == "oidc" else "oauth_client"
        # the client itself publishes more than what it is registered with
        F.meta[L] = {self.typ: {"redirect_uris": [L + "/cb"], "client_name": "published", "policy_uri": L + "/policy",
                                "response_types": ["code", "token"]}}
        self.combo, self.rp = app.client(L, {a: F.jwks(a) for a in (TA, TB)}, case["kind"])
        self.srv = self.rp.get_service("registration")

    def policy(self, kind, md):
        S, F = self.S, self.F
        if kind == "name":
            v = S.atom("forced", ("Forced", "fresh"))
            F.extra[TA, I1] = {"metadata_policy": {self.typ: {"client_name": {"value": v},
                                                             "contacts": {"add": ["ta@example.org"]}}}}
            return dict(md, client_name=v, contacts=md["contacts"] + ["ta@example.org"])
        if kind == "error":
            F.extra[TA, I1] = {"metadata_policy": {self.typ: {"client_name": {"one_of": ["Somebody", "else"]}}}}
            return None
        return md

    def metadata(self, name="fresh", cid=L):
        return {"client_id": cid, "client_name": name, "redirect_uris": [L + "/cb"], "response_types": ["code"],
                "contacts": ["leaf@example.org"]}

    def response(self, kind="good", name="fresh", anchor=TA, exp=None):
        W, F = self.W, self.F
        pl = {"iss": OP, "sub": L, "aud": L, "iat": W.now, "exp": c07.FAR if exp is None else exp, "jwks": F.jwks(OP),
              "trust_anchor_id": anchor, "authority_hints": [TA], "metadata": {self.typ: self.metadata(name)}}
        by, kid = F.key(OP)
        kw = {}
        if kind in ("evil-keys", "evil-same-kid"):
            by, kid = F.key(E)[0], F.key(E)[1] if kind == "evil-keys" else kid
            pl["jwks"] = W.jwks(W.jwk(by, kid))
        elif kind == "badsig":
            kw["tampered"] = True
        elif kind == "none-alg":
            kw["alg"] = "none"
        elif kind == "wrong-iss":
            # the server claims to be somebody else
            pl["iss"] = E
        elif kind == "about-other":
            pl["sub"] = pl["aud"] = E
        elif kind == "by-other-keys":
            # another member of the federation claims to be the server
            by, kid = F.key(E)
            pl["jwks"] = W.jwks(W.jwk(*F.key(E)), W.jwk(*F.key(OP)))
        elif kind == "superior's":
            # the trust anchor's keys do not speak for the server either
            by, kid = F.key(TA)
            pl["jwks"] = F.jwks(TA)
        elif kind == "by-stranger":
            pl["iss"] = STRANGER
            by, kid = F.key(STRANGER)
            pl["jwks"] = F.jwks(STRANGER)
        elif kind == "own-words":
            # the client's own keys
            by, kid = F.key(L)
            pl["jwks"] = F.jwks(L)
        elif kind == "no-keys":
            del pl["jwks"]
        elif kind == "no-anchor":
            del pl["trust_anchor_id"]
        elif kind == "not-a-token":
            return "not a token"
        elif kind == "empty":
            return ""
        return W.sign(pl, by, kid, typ="entity-statement+jwt", **kw)

    def receive(self, tok):
        r, res = call(self.srv.parse_response, tok, request="")
        if r == "ok" and self.case["kind"] == "oauth2" and hasattr(res, "get"):
            res = res.get(self.typ)
        return (res, "") if r == "ok" and res else (None, repr(res))

    def kept(self):
        k = self.rp.context.registration_response
        if k and self.case["kind"] == "oauth2":
            k = k.get(self.typ)
        return k or None

    def same(self, got, want):
        S = self.S
        return got is not None and set(want) == set(got) and S.and_(*[
            S.eq(got[k], v) if not isinstance(v, list) else sorted(got[k]) == sorted(v) for k, v in want.items()])

    def good(self, res, want, info):
        S = self.S
        S.cover("accepted")
        S.check(self.same(res, want), "the registration is what the response yields in the client's own chain",
                dict(info, want=want))
        S.check(self.same(self.kept(), want), "and that is what the client keeps", dict(info, want=want))

    def refused(self, info, was=None):
        S = self.S
        S.cover("refused")
        if was is None:
            S.check(self.kept() is None, "a refused response leaves nothing behind", info)
        else:
            S.check(self.same(self.kept(), was), "a refused response changes nothing", info)


def run(S, case):
    {"kind": kinds, "anchor": anchor, "fault": fault, "time": timed, "twice": twice, "request": request}[case["k"]](S, case)


def kinds(S, case):
    R = Run(S, case)
    name = S.atom("name", ("fresh", "published"))
    want = R.policy(case["pol"], R.metadata(name))
    kind = S.choose("response", RESPS)
    res, how = R.receive(R.response(kind, name))
    S.observe("ok", res is not None)
    info = {"case": case, "response": kind, "how": how}
    if kind != "good":
        S.cover("forged")
        S.check(res is None, "a response that the server's chain does not vouch for is refused", info)
    elif want is None:
        # unless the name happens to be one the policy allows
        S.cover("policy-error")
        allowed = S.or_(S.eq(name, "Somebody"), S.eq(name, "else"))
        S.check(allowed if res is not None else S.not_(allowed), "a response that the policies do not allow is refused", info)
        want = R.metadata(name)
    else:
        S.check(res is not None, "a valid response is accepted", info)
    if res is None:
        R.refused(info)
    else:
        R.good(res, want, info)


def anchor(S, case):
    """it has to relate to a trust anchor that both have in common"""
    R = Run(S, case)
    R.F.hints[OP] = S.choose("op", [[TA], [TB], [TX], [TA, TB], [TX, TA]])
    R.F.hints[I1] = S.choose("own", [[TA], [TB], [TA, TB], [TX, TB]])
    a = S.choose("named", [TA, TB, TX, OP, I1])
    res, how = R.receive(R.response(anchor=a))
    S.observe("ok", res is not None)
    S.cover("anchor")
    info = {"case": case, "anchor": a, "op": R.F.hints[OP], "own": R.F.hints[I1], "how": how}
    ok = a in (TA, TB) and a in R.F.hints[OP] and a in R.F.hints[I1]
    S.check((res is not None) == ok, "exactly a response that relates to a common, configured trust anchor is accepted", info)
    if res is None:
        R.refused(info)
    else:
        R.good(res, R.metadata(), info)


def fault(S, case):
    R = Run(S, case)
    F, bad = R.F, case["bad"]
    who = OP if case["who"] == "op" else L
    up = TA if who == OP else I1
    S.cover(case["who"] + "-fault")
    if bad == "leaf":
        F.conf_fault[who] = S.choose("how", ["404", "down", "garbage", "other", "forged"])
    elif bad == "stmt":
        F.stmt_fault[who, up] = S.choose("how", c07.STMT_FAULTS)
    elif bad == "top":
        if who == OP:
            return
        F.stmt_fault[I1, TA] = S.choose("how", c07.STMT_FAULTS)
    else:
        F.hints[who] = S.choose("how", [[], [TX], ["https://nobody.example.org"]])
    kind = S.choose("response", case["resps"])
    res, how = R.receive(R.response(kind))
    S.observe("ok", res is not None)
    info = {"case": case, "response": kind, "how": how}
    S.check(res is None, "without valid chains of both the response is refused", info)
    R.refused(info)


def timed(S, case):
    R = Run(S, case)
    t, e = S.int("t", 1, 3_900_000_000), S.int("e", 1, 3_900_000_000)
    R.W.now = t
    exp = None
    if case["what"] == "response":
        exp = e
    else:
        R.F.exp[{"op-leaf": (OP, OP), "op-stmt": (TA, OP), "own-leaf": (L, L), "own-stmt": (I1, L),
                 "own-top": (TA, I1)}[case["what"]]] = e
    res, how = R.receive(R.response(exp=exp))
    S.observe("ok", res is not None)
    S.cover("time")
    info = {"case": case, "t": t, "e": e, "how": how}
    if res is None:
        S.check(t > e, "a valid response is accepted", info)
        R.refused(info)
    else:
        S.check(t <= e, "nothing that has expired is relied on", info)
        R.good(res, R.metadata(), info)


def twice(S, case):
    """another response after a good one"""
    R = Run(S, case)
    first, how = R.receive(R.response())
    if first is None:
        S.check(False, "a valid response is accepted", {"how": how})
        return
    S.cover("second")
    name = S.atom("name", ("fresh", "published"))
    res, how = R.receive(R.response(case["second"], name))
    S.observe("ok", res is not None)
    info = {"case": case, "how": how}
    S.check((res is not None) == (case["second"] == "good"), "exactly a valid response is accepted", info)
    if res is None:
        R.refused(info, R.metadata())
    else:
        R.good(res, R.metadata(name), info)


def request(S, case):
    """what the client asks for"""
    R = Run(S, case)
    W, F = R.W, R.F
    W.now = S.int("t", 1, 3_000_000_000)
    S.cover("request")
    hints = S.choose("hints", [[TA], [TB], [TA, TB]])
    R.combo["federation_entity"].context.authority_hints = list(hints)
    for n in range(2):
        r, tok = call(R.srv.construct, request_args={})
        info = {"case": case, "n": n, "how": "" if W.is_token(tok) else repr(tok)}
        S.check(r == "ok" and W.is_token(tok), "the client makes a registration request", info)
        if r != "ok" or not W.is_token(tok):
            return
        S.check(S.or_(W.signed_by(tok, "own-RSA", "RSA"), W.signed_by(tok, "own-EC", "EC")),
                "the request is signed with the client's federation key", info)
        pl = W.opened(tok)[1]
        S.check(S.and_(S.eq(pl["iss"], L), S.eq(pl["sub"], L)), "it is the client's own statement", info)
        S.check(S.and_(S.eq(pl["iat"], W.now), pl["exp"] > W.now), "it is issued now", info)
        S.check(list(pl.get("authority_hints", [])) == hints, "it has the client's authority hints", info)
        md = pl.get("metadata", {})
        S.check(R.typ in md and list(md[R.typ].get("redirect_uris", [])) == [L + "/cb"], "it has the client's metadata",
                dict(info, got=list(md)))
        for what, ks in (("federation", pl.get("jwks")), ("client", md.get(R.typ, {}).get("jwks"))):
            ks = (ks or {}).get("keys", [])
            S.check(bool(ks) and not any(set(k) & {"d", "p", "q", "k", "dp", "dq", "qi"} for k in ks),
                    "it has public keys only", dict(info, what=what))
            own = {str(x) for x in materials(W, ks)}
            S.check(own == {x + y for x in (("own-",) if what == "federation" else ("app-",)) for y in ("RSA", "EC")},
                    "it has the keys of the client", dict(info, what=what, own=sorted(own)))


def materials(W, ks):
    from cryptojwt import KeyJar
    from sx import fed
    kj = KeyJar()
    kj.import_jwks({"keys": [dict(k) for k in ks]}, "x")
    return fed.materials(kj, "x")

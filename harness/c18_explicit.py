"""Explicit registration: what a client is registered with is what a valid chain to its request yields."""
from sx.engine import call
from harness import c07_resolution as c07, c17_automatic as c17
from harness.c17_automatic import L, I1, TA, TX, OP, E, X

COVERS = ["registered", "refused", "forged", "unpublished", "policy-error", "time", "second", "anchor-chosen"]
BOUNDS = {
    "quick": "OpenID Connect and OAuth2 registration endpoints; 14 kinds of requests; a published chain with any one "
             "statement missing, forged or expired; a policy or none; arbitrary clocks and expiry times of the "
             "request and of any statement; two registrations in a row; two anchors with any priority",
    "thorough": "as quick, with every request under every fault",
}
ASSUMPTIONS = c07.ASSUMPTIONS
OUTSIDE = "what idpyoidc checks in a client's metadata, requests with several client entity types, aud of the request"
BUDGET = {"quick": 600, "thorough": 3600}
WITNESSES_PER_CASE = 30
REQS = ["own", "evil-keys", "evil-same-kid", "badsig", "none-alg", "as-other", "about-other", "iss-other", "other",
        "superior's", "no-keys", "not-a-token", "empty", "no-metadata"]

STRANGER = "https://stranger.example.org"


def setup(symbolic):
    from sx import world
    world.install(symbolic)


def cases(tier):
    out = []
    for kind in ("oidc", "oauth2"):
        base = {"kind": kind, "end": "registration"}
        out.append(dict(base, k="request"))
        for pol in ("none", "name", "error"):
            for bad in ("none", "leaf", "stmt", "top", "hint"):
                out.append(dict(base, k="chain", pol=pol, bad=bad, reqs=REQS if tier == "thorough" else ["own"]))
        for what in ("request", "leaf", "stmt", "top"):
            out.append(dict(base, k="time", what=what))
        for second in REQS:
            out.append(dict(base, k="twice", second=second))
        out.append(dict(base, k="anchors"))
    return out


class Run(c17.Run):
    def request(self, kind="own", name="fresh", exp=None, mat="m-leaf-rp"):
        W, F = self.W, self.F
        md = self.metadata(L)
        md["client_name"] = name
        md["jwks"] = W.jwks(W.jwk(mat, "k-leaf-rp"))
        pl = {"iss": L, "sub": L, "iat": W.now, "exp": c07.FAR if exp is None else exp, "jwks": F.jwks(L), "aud": OP,
              "authority_hints": list(F.superiors(L)), "metadata": {self.typ: md}}
        m, k = F.key(L)
        kw = {}
        if kind in ("evil-keys", "evil-same-kid"):
            m, k = "m-evil", "k-evil" if kind == "evil-keys" else "k-leaf"
            pl["jwks"] = W.jwks(W.jwk(m, k))
        elif kind == "badsig":
            kw["tampered"] = True
        elif kind == "none-alg":
            kw["alg"] = "none"
        elif kind in ("as-other", "iss-other"):
            # somebody else about the client
            pl["iss"] = E
            m, k = F.key(E)
            if kind == "as-other":
                pl["jwks"] = F.jwks(E)
            else:
                pl["jwks"] = W.jwks(W.jwk(*F.key(E)), W.jwk(*F.key(L)))
        elif kind == "about-other":
            pl["sub"] = E
        elif kind == "other":
            # somebody who is not a member of the federation
            pl["iss"] = pl["sub"] = STRANGER
            pl["jwks"] = F.jwks(STRANGER)
            pl["authority_hints"] = F.hints[STRANGER] = [TX]
            m, k = F.key(STRANGER)
        elif kind == "superior's":
            pl["iss"] = I1
            m, k = F.key(I1)
        elif kind == "no-keys":
            del pl["jwks"]
        elif kind == "not-a-token":
            return "not a token"
        elif kind == "empty":
            return ""
        elif kind == "no-metadata":
            del pl["metadata"]
        return W.sign(pl, m, k, typ="entity-statement+jwt", **kw)

    def register(self, tok):
        r, res = call(self.end.process_request, tok)
        msg = res.get("response_msg") if r == "ok" and hasattr(res, "get") else None
        return msg, "" if msg else repr(res)

    def clients(self):
        return sorted(self.cdb)

    def good(self, tok, want, info, keys=("m-leaf-rp",), anchors=(TA,), n=1):
        S, W = self.S, self.W
        S.check(W.is_token(tok), "the response is a signed statement", info)
        if not W.is_token(tok):
            return
        S.check(S.or_(W.signed_by(tok, "own-RSA", "RSA"), W.signed_by(tok, "own-EC", "EC")),
                "the response is signed with the server's federation key", info)
        pl = W.opened(tok)[1]
        S.check(S.and_(S.eq(pl["iss"], OP), S.eq(pl["sub"], L)), "it is by the server about the client", info)
        aud = pl.get("aud")
        S.check(L in (aud if isinstance(aud, list) else [aud]), "it is meant for the client", dict(info, aud=aud))
        S.check(S.member(pl.get("trust_anchor_id"), list(anchors)), "it names the trust anchor of the client's chain",
                dict(info, anchor=pl.get("trust_anchor_id")))
        S.check(S.and_(S.eq(pl["iat"], W.now), pl["exp"] > W.now), "it is issued now", info)
        md = pl.get("metadata", {}).get(self.typ, {})
        S.check(list(pl.get("metadata", {})) == [self.typ], "it has metadata of the client's type", info)
        S.check(S.eq(md.get("client_name"), want["client_name"]) and
                sorted(md.get("contacts", [])) == sorted(want["contacts"]),
                "it has the metadata that the chain yields", dict(info, want=want, got=lambda: md))
        cid = md.get("client_id")
        S.check(cid in self.cdb, "the client is registered", dict(info, cid=cid))
        if cid not in self.cdb:
            return
        S.check(len(self.cdb) <= n, "nobody else is", dict(info, clients=self.clients()))
        c = self.cdb[cid]
        S.check([list(x) for x in c.get("redirect_uris", [])] == [[u, {}] for u in want["redirect_uris"]],
                "with the redirect_uris the chain yields", dict(info, got=c.get("redirect_uris")))
        S.check(S.eq(c.get("client_name"), want["client_name"]), "with the name the chain yields", dict(info, want=want))
        S.check(sorted(c.get("contacts", [])) == sorted(want["contacts"]), "with the contacts the chain yields",
                dict(info, want=want, got=c.get("contacts")))
        got = self.keys(cid)
        S.check(all(k in keys for k in got), "with no keys but those the chain yields", dict(info, got=got))
        S.check(all(k in got for k in keys), "with the keys the chain yields", dict(info, got=got))


def run(S, case):
    {"request": request, "chain": chain, "time": timed, "twice": twice, "anchors": anchors}[case["k"]](S, case)


def wanted(R, name="fresh", pol=None):
    md = R.metadata(L)
    md["client_name"] = name
    if pol:
        md["client_name"] = pol["client_name"]
        md["contacts"] = pol["contacts"]
    return md


def untouched(R, info):
    R.S.check(not len(R.cdb), "a refused request registers nobody", dict(info, clients=R.clients()))
    R.S.check(not any(R.keys(e) for e in (L, E, X, I1)), "a refused request leaves no keys behind", info)


def request(S, case):
    R = Run(S, case)
    kind = S.choose("request", REQS)
    if S.flag("unpublished"):
        R.F.conf_fault[L] = "404"
        S.cover("unpublished")
        published = False
    else:
        published = True
    name = S.atom("name", ("fresh", "leaf"))
    tok, how = R.register(R.request(kind, name))
    S.observe("ok", tok is not None)
    info = {"case": case, "request": kind, "how": how}
    if kind == "own":
        # whether the configuration also has to be published is left open
        S.check(tok is not None or not published, "a client with a valid chain is registered", info)
    else:
        S.cover("forged")
        S.check(tok is None, "a request that the chain does not vouch for is refused", info)
    if tok is None:
        S.cover("refused")
        untouched(R, info)
    else:
        S.cover("registered")
        R.good(tok, wanted(R, name), info)


def chain(S, case):
    R = Run(S, case)
    F = R.F
    want = c17.policy(S, R, case["pol"])
    bad = case["bad"]
    if bad == "leaf":
        F.conf_fault[L] = S.choose("how", c07.CONF_FAULTS[:6])
    elif bad in ("stmt", "top"):
        F.stmt_fault[(L, I1) if bad == "stmt" else (I1, TA)] = S.choose("how", c07.STMT_FAULTS)
    elif bad == "hint":
        F.hints[L] = S.choose("how", [[], [TX], ["https://nobody.example.org"]])
    kind = S.choose("request", case["reqs"])
    tok, how = R.register(R.request(kind))
    S.observe("ok", tok is not None)
    info = {"case": case, "request": kind, "how": how}
    ok = kind == "own" and bad == "none" and want is not None
    if ok:
        S.check(tok is not None, "a client with a valid chain is registered", info)
    elif bad != "leaf" or kind != "own" or want is None:
        S.check(tok is None, "without a valid chain the request is refused", info)
    if want is None:
        S.cover("policy-error")
    if tok is None:
        untouched(R, info)
    else:
        R.good(tok, wanted(R, pol=want if case["pol"] != "none" else None), info)


def timed(S, case):
    R = Run(S, case)
    t, e = S.int("t", 1, 3_900_000_000), S.int("e", 1, 3_900_000_000)
    R.W.now = t
    exp = None
    if case["what"] == "request":
        exp = e
    else:
        R.F.exp[{"leaf": (L, L), "stmt": (I1, L), "top": (TA, I1)}[case["what"]]] = e
    tok, how = R.register(R.request(exp=exp))
    S.observe("ok", tok is not None)
    S.cover("time")
    info = {"case": case, "t": t, "e": e, "how": how}
    if tok is None:
        S.check(t > e, "a client with a valid chain is registered", info)
        untouched(R, info)
    else:
        if case["what"] != "leaf":
            S.check(t <= e, "with an expired statement in the chain the request is refused", info)
        R.good(tok, wanted(R), info)


def twice(S, case):
    """another request after a successful one"""
    R = Run(S, case)
    first, how = R.register(R.request())
    if first is None:
        S.check(False, "a client with a valid chain is registered", {"how": how})
        return
    cid = R.W.opened(first)[1]["metadata"][R.typ]["client_id"]
    S.cover("second")
    name = S.atom("name", ("fresh", "leaf"))
    fault = S.choose("fault", [None, "404", "forged"]) if case["second"] == "own" else None
    if fault:
        # what the client published in between does not matter until caches run out
        R.F.stmt_fault[L, I1] = fault
        R.W.now = c07.FAR - 1
        R.F.exp[I1, L] = c07.FAR - 2
    tok, how = R.register(R.request(case["second"], name))
    S.observe("ok", tok is not None)
    info = {"case": case, "how": how, "fault": fault}
    if tok is None:
        S.check(case["second"] != "own" or fault, "a client with a valid chain is registered", info)
        S.check(R.clients() == [cid] and R.cdb[cid].get("client_name") == "fresh",
                "a refused request changes nothing", dict(info, clients=R.clients()))
        S.check(R.keys(cid) == ["m-leaf-rp"], "a refused request changes no keys", info)
    else:
        S.check(case["second"] == "own", "a request that the chain does not vouch for is refused", info)
        R.good(tok, wanted(R, name), info, n=2)


def anchors(S, case):
    """which trust anchor the response refers to"""
    R = Run(S, case, anchors=(TA, TX))
    F = R.F
    F.hints[L] = S.choose("hints", [[I1], [I1, TX], [TX], [TX, I1]])
    prio = S.choose("prio", [[], [TA, TX], [TX, TA], [TX], [TA]])
    R.combo["federation_entity"].context.tr_priority = list(prio)
    if S.flag("fault"):
        F.stmt_fault[L, TX] = "forged"
    have = [a for a, ok in ((TA, I1 in F.hints[L]), (TX, TX in F.hints[L] and (L, TX) not in F.stmt_fault)) if ok]
    tok, how = R.register(R.request())
    S.observe("ok", tok is not None)
    info = {"case": case, "hints": F.hints[L], "prio": prio, "have": have, "how": how}
    S.check((tok is not None) == bool(have), "exactly with a valid chain the client is registered", info)
    if tok is None:
        untouched(R, info)
        return
    best = [a for a in prio if a in have][:1] or have
    S.cover("anchor-chosen")
    R.good(tok, wanted(R), info, anchors=best)

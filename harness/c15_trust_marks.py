"""Trust marks: only what their issuer, and their owner, really vouch for is accepted."""
from urllib.parse import urlparse, parse_qs

from sx.engine import call
from harness import c07_resolution as c07
from harness.c13_resolve import Fed

COVERS = ["accepted", "refused", "forged", "not-in-federation", "two-paths", "expired", "wrong-subject", "incomplete", "rotated",
          "old-key", "delegated", "delegation-refused", "stripped", "anchor-forged", "active", "inactive", "status-error", "unasked"]
BOUNDS = {
    "quick": "an issuer, two intermediates and two configured anchors, each superior relation present or not, any anchor asked "
             "for; marks by 7 kinds of signers, altered or unsigned, with arbitrary expiry, issue time and clock, missing claims, and "
             "any subject asked for; a change of keys between two verifications at arbitrary times; delegations by any "
             "signer with arbitrary issuer, subject, mark id and expiry, or left out, and forged anchor configurations; "
             "12 kinds of answers of the status endpoint",
    "thorough": "as quick, with all combinations of signer and delegation, and faults of the statements about the issuer",
}
ASSUMPTIONS = c07.ASSUMPTIONS
OUTSIDE = "marks issued by an anchor itself, the anchor's list of issuers per mark, HTTP framing"
BUDGET = {"quick": 500, "thorough": 3600}

I1, I2, TA, TB, TX, ME = c07.I1, c07.I2, c07.TA, c07.TB, c07.TX, c07.ME
TMI, RP, OWN, EVIL = ("https://%s.example.org" % x for x in ("tmi", "rp", "owner", "evil"))
ID, ID2 = "https://marks.example.org/a", "https://marks.example.org/a/b"
EDGES = {TMI: [I1, I2, TA], I1: [TA, I2], I2: [TB]}
SIGNERS = ["right", "evil", "anchor", "superior", "altered", "unsigned", "mine"]
FE = "federation_entity"


def setup(symbolic):
    from sx import world
    world.install(symbolic)


def cases(tier):
    q = tier == "quick"
    out = [{"k": "graph", "anchor": a} for a in (TA, TB, TX, I1)]
    out += [{"k": "sign"}, {"k": "fields"}, {"k": "missing"}, {"k": "rotate"}]
    for how in ("right", "nobody", "stripped", "forged-anchor", "no-owners", "no-issuers"):
        out.append({"k": "deleg", "how": how, "deep": not q})
    out += [{"k": "status", "chk": c} for c in (True, False)]
    if not q:
        out += [{"k": "fault", "at": at} for at in ("leaf", "stmt")]
    return out


class World(Fed):
    status = None
    old = None

    def key(self, e):
        if self.old and e in self.old:
            return self.old[e]
        return super().key(e)

    def answer(self, method, url, kw):
        u = urlparse(url)
        if u.path == "/status":
            self.asked.append(url)
            return self.status(u, parse_qs(u.query))
        return super().answer(method, url, kw)


def mark(S, W, F, signer="right", pl=None, **kw):
    p = {"iss": TMI, "sub": RP, "id": ID, "iat": 1000}
    p.update(pl or {})
    p = {k: v for k, v in p.items() if v is not None}
    m, k = F.key(p.get("iss", TMI))
    h = {"typ": "trust-mark+jwt"}
    if signer == "unsigned":
        return W.sign(p, m, k, alg="none", **h)
    if signer == "altered":
        return W.sign(p, m, k, tampered=True, **h)
    m = {"right": m, "evil": "m-evil", "anchor": F.key(TA)[0], "superior": F.key(I1)[0], "mine": "own-EC"}[signer]
    return W.sign(p, m, k, **h)


def run(S, case):
    from sx import world, fed
    W = world.begin(S)
    W.now = 1_000_000
    F = World(S, W)
    fe = fed.entity(ME, {a: F.jwks(a) for a in (TA, TB)},
                    services=["entity_configuration", "entity_statement", "trust_mark_status", "list"])
    F.meta, F.extra = {}, {}
    F.hints = {TMI: [I1], I1: [TA], TA: [], TB: [], TX: []}
    {"graph": graph, "sign": sign, "fields": fields, "missing": missing, "rotate": rotate, "deleg": deleg, "status": status,
     "fault": fault}[case["k"]](S, case, W, F, fe)


def verify(S, fe, tok, anchor=TA, entity_id=None, n=""):
    kw = {} if entity_id is None else {"entity_id": entity_id}
    r, res = call(fe.function.trust_mark_verifier, trust_mark=tok, trust_anchor=anchor, **kw)
    ok = r == "ok" and bool(res)
    S.observe("ok" + n, ok)
    S.cover("accepted" if ok else "refused")
    return ok, res


def truthful(S, W, tok, res, info):
    """what is handed out is what the token says"""
    _, pl = W.opened(tok)
    S.check(all(k in res for k in pl), "the verified mark has all of its claims", dict(info, got=repr(res)))
    S.check(S.and_(*[S.eq(res[k], v) for k, v in pl.items() if k in res and k != "delegation"]), "unaltered",
            dict(info, got=repr(res), want=pl))


def graph(S, case, W, F, fe):
    F.hints = {TA: [], TB: [], TX: []}
    F.edges = EDGES
    tok = mark(S, W, F)
    ok, res = verify(S, fe, tok, case["anchor"])
    want = F.to(TMI, case["anchor"]) if case["anchor"] in (TA, TB) else []
    if not want:
        S.cover("not-in-federation")
    if len(want) > 1:
        S.cover("two-paths")
    info = {"hints": F.hints, "anchor": case["anchor"], "how": repr(res) if not ok else ""}
    S.check(ok == bool(want), "a mark is accepted exactly if its issuer has a valid chain to the anchor", info)
    if ok:
        truthful(S, W, tok, res, info)


def sign(S, case, W, F, fe):
    first = S.flag("warm")
    if first:       # keys of others are known
        from fedservice.entity.function import get_verified_trust_chains
        F.hints[EVIL] = [TA]
        get_verified_trust_chains(fe, EVIL)
        get_verified_trust_chains(fe, I1)
    signer = S.choose("signer", SIGNERS)
    iss = S.choose("iss", [TMI, EVIL, "https://stranger.example.org"])
    if signer == "evil" and iss == EVIL:
        signer = "right"
    if signer == "right" and iss != TMI:
        F.hints.setdefault(iss, [])
        if iss == EVIL:
            F.hints[EVIL] = [TA]
    F.hints.setdefault(EVIL, [TA])
    F.hints.setdefault("https://stranger.example.org", [])
    tok = mark(S, W, F, signer, {"iss": iss})
    ok, res = verify(S, fe, tok)
    good = signer == "right" and bool(F.to(iss, TA))
    if signer != "right":
        S.cover("forged")
    info = {"signer": signer, "iss": iss, "warm": first, "how": repr(res) if not ok else ""}
    S.check(ok == good, "only the issuer's own signature counts", info)
    if ok:
        truthful(S, W, tok, res, info)


def fields(S, case, W, F, fe):
    W.now = S.int("now", 1, 3_000_000_000)
    pl = {"iat": S.int("iat", 1, 3_900_000_000)}
    exp = S.int("exp", 0, 3_900_000_000) if S.flag("exp?") else None
    pl["exp"] = exp
    pl["sub"] = S.choose("sub", [RP, TMI])
    about = S.choose("about", [None, "", RP, TMI, ME])
    if S.flag("ref"):
        pl["ref"] = "https://marks.example.org/doc"
    tok = mark(S, W, F, pl=pl)
    ok, res = verify(S, fe, tok, entity_id=about)
    right = about in (None, "", pl["sub"])
    if not right:
        S.cover("wrong-subject")
    good = S.and_(right, pl["iat"] <= W.now, True if exp is None else exp >= W.now)
    info = {"now": W.now, "mark": pl, "about": about, "how": repr(res) if not ok else ""}
    if ok:
        S.check(right, "the mark is about the entity asked for", info)
        if exp is not None:
            S.check(exp >= W.now, "an expired mark is refused", info)
        truthful(S, W, tok, res, info)
    else:
        if exp is not None and bool(exp < W.now):
            S.cover("expired")
        S.check(S.not_(good), "a good mark is accepted", info)


def missing(S, case, W, F, fe):
    pl = {k: None for k in ("iss", "sub", "id", "iat") if S.flag("no." + k)}
    tok = mark(S, W, F, pl=pl)
    ok, res = verify(S, fe, tok)
    if pl:
        S.cover("incomplete")
    S.check(ok == (not pl), "a mark must have issuer, subject, id and issue time", {"missing": sorted(pl), "how": repr(res) if not ok else ""})


def rotate(S, case, W, F, fe):
    """the issuer changes keys; what was collected earlier has expired by then"""
    t1, t2 = S.int("t1", 1000, 3_000_000_000), S.int("t2", 1000, 3_000_000_000)
    e1 = S.int("e1", 1, 3_900_000_000)
    S.assume(S.and_(t1 <= e1, e1 < t2))
    same = S.flag("samekid")
    old = ("m-old", "k-tmi" if same else "k-old")
    for k in ((I1, TMI), (TMI, TMI), (TA, I1), (I1, I1)):
        F.exp[k] = e1
    F.old = {TMI: old}
    W.now = t1
    before = mark(S, W, F)
    ok, res = verify(S, fe, before, n="1")
    info = {"t1": t1, "e1": e1, "t2": t2, "how": repr(res) if not ok else ""}
    S.check(ok, "a mark signed with the issuer's key is accepted", info)
    F.old, F.exp = None, {}
    W.now = t2
    after = mark(S, W, F)
    which = S.choose("which", ["old", "new", "oldnew"])
    S.cover("rotated")
    if which == "oldnew":       # signed with the old key, under the new one's id
        m, k = F.key(TMI)
        tok = W.sign(W.opened(after)[1], "m-old", k)
    else:
        tok = before if which == "old" else after
    if which != "new":
        S.cover("old-key")
    ok, res = verify(S, fe, tok, n="2")
    info["how"] = repr(res) if not ok else ""
    S.check(ok == (which == "new"), "only keys the current trust chain vouches for count", dict(info, which=which))


def deleg(S, case, W, F, fe):
    how = case["how"]
    owners = {ID: {"sub": OWN, "jwks": F.jwks(OWN)}, ID2: {"sub": OWN, "jwks": F.jwks(OWN)}}
    issuers = {ID: [TMI], ID2: [TMI]}
    md = {}
    if how != "no-owners":
        md["trust_mark_owners"] = owners
    if how != "no-issuers":
        md["trust_mark_issuers"] = issuers
    base = F.config
    bare = how == "forged-anchor" and S.flag("bare")

    def config(e):
        if e != TA:
            return base(e)
        _, tok, ct = base(e)
        pl = W.opened(tok)[1]
        pl["metadata"][FE].update(md)
        if how == "forged-anchor":
            # somebody else's keys, and owners
            pl["jwks"] = W.jwks(W.jwk("m-evil", F.key(TA)[1]))
            if bare:
                pl["metadata"][FE].pop("trust_mark_owners")
                return 200, W.sign(pl, "m-evil", F.key(TA)[1]), ct
            pl["metadata"][FE]["trust_mark_owners"] = {i: {"sub": OWN, "jwks": W.jwks(W.jwk("m-evil", "k-owner"))} for i in (ID, ID2)}
            return 200, W.sign(pl, "m-evil", F.key(TA)[1]), ct
        return 200, F.sign(TA, pl), ct
    F.config = config
    W.now = now = S.int("now", 2000, 3_000_000_000)
    d = None
    exp = None
    if how != "stripped" and not bare:
        signer = S.choose("dsigner", ["owner", "issuer", "evil", "altered", "unsigned", "anchor"])
        if how == "forged-anchor":
            signer = "evil"
        p = {"iss": S.choose("diss", [OWN, TMI, EVIL]) if case["deep"] or signer == "owner" else OWN,
             "sub": S.choose("dsub", [TMI, RP, EVIL]), "id": S.choose("did", [ID, ID2]), "iat": 1500}
        if S.flag("dexp?"):
            exp = p["exp"] = S.int("dexp", 0, 3_900_000_000)
        kid = F.key(OWN)[1]
        m = {"issuer": F.key(TMI)[0], "evil": "m-evil", "anchor": F.key(TA)[0]}.get(signer, F.key(OWN)[0])
        d = W.sign(p, m, kid, alg="none" if signer == "unsigned" else "ES256", tampered=signer == "altered", typ="trust-mark-delegation+jwt")
        if how == "nobody" and S.flag("garbage"):
            d = "garbage"
    pl = {"delegation": d, "id": ID}
    tok = mark(S, W, F, pl=pl)
    ok, res = verify(S, fe, tok)
    info = {"case": case, "now": now, "delegation": d if not W.is_token(d) else W.opened(d)[1], "how": repr(res) if not ok else ""}
    if how == "stripped":
        S.cover("stripped")
        S.check(not ok, "a mark that has an owner is refused without a delegation", info)
        return
    if how == "forged-anchor":
        S.cover("anchor-forged")
        S.check(not ok, "an anchor configuration not signed by the anchor names no owners", info)
        return
    good = signer == "owner" and d != "garbage" and p["iss"] == OWN and p["sub"] == TMI and p["id"] == ID and how in ("right", "nobody")
    S.cover("delegated" if ok else "delegation-refused")
    info["signer"] = signer
    if ok:
        S.check(good, "only a delegation by the owner to the issuer for this mark counts", info)
        if exp is not None:
            S.check(exp >= now, "an expired delegation does not count", info)
        truthful(S, W, tok, res, info)
    elif good:
        S.check(False if exp is None else exp < now, "a proper delegation is accepted", info)


ANSWERS = ["active", "inactive", "none", "text", "empty", "404", "404active", "500", "500active", "down", "string", "list"]


def status(S, case, W, F, fe):
    F.meta[TMI] = {FE: {"federation_fetch_endpoint": TMI + "/fetch", "federation_trust_mark_status_endpoint": TMI + "/status"}}
    a = S.choose("answer", ANSWERS)
    got = []

    def answer(u, q):
        got.append((f"{u.scheme}://{u.netloc}", q))
        if a == "down":
            from requests.exceptions import ConnectionError
            raise ConnectionError("down")
        body = {"active": '{"active": true}', "inactive": '{"active": false}', "none": "{}", "text": "active", "empty": "",
                "404": '{"error": "not_found"}', "404active": '{"active": true}', "500": "error",
                "500active": '{"active": true}', "string": '{"active": "false"}', "list": "[]"}[a]
        code = 404 if a.startswith("404") else 500 if a.startswith("500") else 200
        return code, body, "application/json"
    F.status = answer
    signer = S.choose("signer", ["right", "evil", "altered"])
    iss = S.choose("iss", [TMI, EVIL])
    F.hints[EVIL] = []
    sub = S.choose("sub", [RP, ME])
    tok = mark(S, W, F, signer, {"iss": iss, "sub": sub, "exp": S.choose("exp", [None, 5, 2_000_000])})
    pl = W.opened(tok)[1]
    r, res = call(fe.verify_trust_mark, tok, check_with_issuer=case["chk"])
    ok = r == "ok" and bool(res)
    S.observe("ok", ok)
    valid = signer == "right" and iss == TMI and pl.get("exp") != 5
    info = {"mark": pl, "signer": signer, "answer": a, "case": case, "asked": got, "how": repr(res) if not ok else ""}
    if not case["chk"]:
        S.cover("unasked")
        S.check(not got, "the issuer is not asked", info)
        S.check(ok == valid, "a mark is accepted exactly if it is valid", info)
        return
    if valid:
        S.cover("active" if a == "active" else "inactive" if a == "inactive" else "status-error")
        S.check(len(got) > 0, "the issuer is asked", info)
        S.check(all(h == TMI and q.get("sub") == [sub] and q.get("trust_mark_id") == [ID] for h, q in got),
                "it is the issuer that is asked, about this mark", info)
    S.check(ok == (valid and a == "active"), "a mark counts only if valid and still active according to its issuer", info)
    if ok:
        truthful(S, W, tok, res, info)


def fault(S, case, W, F, fe):
    if case["at"] == "leaf":
        F.conf_fault[TMI] = S.choose("f", ["404", "500", "down", "garbage", "forged", "other"])
    else:
        F.stmt_fault[TMI, I1] = S.choose("f", c07.STMT_FAULTS)
    tok = mark(S, W, F)
    ok, res = verify(S, fe, tok)
    S.check(not ok, "without a valid chain for the issuer a mark is refused", {"fault": F.conf_fault or repr(F.stmt_fault)})

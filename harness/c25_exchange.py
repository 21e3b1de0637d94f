"""Both sides of every exchange: what an entity asks another over HTTP is answered with what that one has."""
import json
from urllib.parse import parse_qsl, urlencode, urlparse

from sx import engine

COVERS = ["resolved", "refused", "same-by-resolver", "resolver-refuses", "policy", "constraint", "unregistered", "wrong-keys",
          "listed", "filtered", "statement", "configuration", "unknown-subject", "mark-active", "mark-inactive", "mark-expired",
          "mark-list", "mark-empty", "mark-fetched", "mark-unknown", "verified", "not-verified", "by-type", "found"]
BOUNDS = {
    "quick": "an anchor, an intermediate, a leaf, a trust mark issuer and an asker, all built by the library and connected over "
             "modelled HTTP as in the example web server: every service of the client against the endpoint it is for; policies "
             "and constraints at either superior, records with the right keys, others or none; every list filter and "
             "combination; marks of two kinds for two receivers at arbitrary times, questions about the right or another mark, "
             "receiver or time, by name or by token",
    "thorough": "as quick, with two intermediates and three marks",
}
ASSUMPTIONS = ["signatures, clock and HTTP as modelled in sx/world.py",
               "the web server passes parameters on as flask and the example views do"]
OUTSIDE = "client authentication at endpoints, other web frameworks, caching proxies"
BUDGET = {"quick": 400, "thorough": 3600}

SRV = "fedservice.trust_mark_entity.server."
EP = {n: {"path": n, "class": SRV + n + "." + c, "kwargs": {}} for n, c in
      (("trust_mark", "TrustMark"), ("trust_mark_list", "TrustMarkList"), ("trust_mark_status", "TrustMarkStatus"))}
TA, I, J, L, TMI, ME, NO = ("https://%s.example.org" % x for x in ("ta", "i", "j", "l", "tmi", "me", "nobody"))
FE = "federation_entity"
MA, MB, MC = ("https://marks.example.org/" + x for x in ("a", "b?c=1&d", "c"))
ENDPOINTS = ["entity_configuration", "fetch", "list", "resolve", "who"]
SERVICES = ["entity_configuration", "entity_statement", "resolve", "list", "trust_mark_status", "trust_mark", "trust_mark_list"]


def setup(symbolic):
    from sx import world
    world.install(symbolic)
    import fedservice.trust_mark_entity.entity                  # noqa
    for n in EP:
        __import__(SRV + n)
    world.sweep()


def cases(tier):
    q = tier == "quick"
    out = []
    for what in ("policy", "constraint", "record"):
        for depth in (1,) if q else (1, 2):
            out.append({"k": "resolve", "what": what, "depth": depth})
    out += [{"k": "list", "deep": not q}, {"k": "single", "what": "conf"}, {"k": "single", "what": "stmt"}]
    for what in ("status", "token", "list", "fetch", "verify"):
        out.append({"k": "marks", "what": what, "n": 2 if q else 3})
    out.append({"k": "who"})
    return out


class Net:
    """entities built by the library, each behind a web server like the one in the examples"""

    def __init__(self, S, W):
        from sx import fed
        self.S, self.W, self.fed, self.ents = S, W, fed, {}
        W.default_response = self.answer

    def add(self, eid, **kw):
        anchors = {} if eid == TA else {TA: self.pub(TA)}
        self.ents[eid] = self.fed.entity(eid, anchors, owner=eid.split("//")[1].split(".")[0], **kw)
        return self.ents[eid]

    def pub(self, eid):
        return self.ents[eid].keyjar.export_jwks()

    def answer(self, method, url, kw):
        from idpyoidc.message.oauth2 import ResponseMessage
        u = urlparse(url)
        e = self.ents.get(f"{u.scheme}://{u.netloc}")
        ep = None if e is None else next((p for p in e.server.endpoint.values()
                                          if "/" + (p.endpoint_path or "").lstrip("/") == u.path), None)
        if ep is None:
            return 404, "not found", "text/plain"
        args = dict(parse_qsl(u.query)) if method == "GET" else (kw.get("data") or {})
        try:
            req = ep.parse_request(args)
            if isinstance(req, ResponseMessage) and "error" in req:
                return 400, req.to_json(), "application/json"
            res = ep.process_request(req)
        except Exception:
            return 400, '{"error": "invalid_request"}', "application/json"
        if "http_response" in res:
            return 200, res["http_response"], ep.response_content_type
        res = dict(res)
        err = res.pop("error", "")
        info = ep.do_response(request=req, error=err, **res)
        ctype = next((v for k, v in info["http_headers"] if k.lower() == "content-type"), "")
        return 400 if err else 200, info["response"], ctype


def run(S, case):
    from sx import world
    W = world.begin(S)
    W.now = 1_700_000_000
    N = Net(S, W)
    {"resolve": resolve, "list": listing, "single": single, "marks": marks, "who": who}[case["k"]](S, case, W, N)


def call(f, *a, **kw):
    k, v = engine.call(f, *a, **kw)
    if k == "ok":
        return v, None
    return None, v


def bad(v):
    """nothing, or an error message"""
    return not v or (hasattr(v, "get") and bool(v.get("error")))


def resolve(S, case, W, N):
    line = [L, I] if case["depth"] == 1 else [L, I, J]
    N.add(TA, endpoints=ENDPOINTS)
    contact = S.atom("contact", ("x", "y"))
    for i, e in reversed(list(enumerate(line))):
        up = (line + [TA])[i + 1]
        kw = {"preference": {"organization_name": "leaf", "contacts": [contact]}} if e == L else {}
        N.add(e, endpoints=ENDPOINTS, authority_hints=[up], **kw)
    me = N.add(ME, services=SERVICES)
    ok, contacts, home = True, [contact], None
    for i, e in enumerate(line):
        up = (line + [TA])[i + 1]
        n = up.split("//")[1].split(".")[0]
        srv = N.ents[up].server
        rec = {"jwks": N.pub(e), "entity_types": [FE]}
        if case["what"] == "record":
            how = S.choose(n + ".record", ["right", "wrong", "none"])
            if how == "wrong":
                rec["jwks"] = N.pub(ME)
                S.cover("wrong-keys")
            if how == "none":
                rec = None
                S.cover("unregistered")
            ok = ok and how == "right"
        if case["what"] == "constraint" and S.flag(n + ".limited"):
            mpl = S.int(n + ".max", 0, 3)
            rec["constraints"] = {"max_path_length": mpl}
            ok = bool(mpl >= i) and ok
            S.cover("constraint")
        if case["what"] == "policy":
            by = S.choose(n + ".by", ["none", "entity", "type"])
            if by != "none":
                add = S.atom(n + ".add", ("x", "y"))
                pol = {"contacts": {"add": [add]}, "homepage_uri": {"default": "https://home/" + n}}
                if by == "entity":
                    srv.policy[e] = {"metadata_policy": {FE: pol}}
                else:
                    srv.policy[FE] = {"metadata_policy": pol}
                    S.cover("by-type")
                contacts.append(add)
                if home is not None:
                    ok = False          # two defaults that differ cannot be combined
                home = "https://home/" + n
                S.cover("policy")
        if rec is not None:
            srv.subordinate[e] = rec
    info = {"ok": bool(ok), "contacts": contacts}
    md, err = call(me.get_verified_metadata, L)
    S.observe("resolved", not bad(md))
    S.check((not bad(md)) == bool(ok), "an entity is resolved exactly when its superiors say so", dict(info, md=md, err=repr(err)))
    S.cover("resolved" if ok else "refused")
    asked = S.choose("resolver", [TA, I])
    r, err = call(me.do_request, "resolve", endpoint=asked + "/resolve", request_args={"sub": L, "anchor": TA})
    S.observe("by resolver", not bad(r))
    if asked == I:
        S.check(bad(r) == (not ok), "a resolver answers exactly when there is a valid chain", dict(info, answer=r, err=repr(err)))
    if not bad(md) and ok:
        got = md[FE]
        S.check(got.get("organization_name") == "leaf", "it says what the leaf says", dict(info, md=got))
        S.check(S.and_(*[S.member(c, got.get("contacts", [])) for c in contacts],
                       *[S.member(c, contacts) for c in got.get("contacts", [])]),
                "with what policies add", dict(info, md=got))
        S.check(got.get("homepage_uri") == home, "and the defaults of policies", dict(info, md=got))
        if not bad(r):
            S.check(r.get("sub") == L and r.get("iss") == asked, "the resolver answers about the subject in its own name",
                    dict(info, answer=r))
            S.check(same(S, plain(r["metadata"]).get(FE), got), "a resolver finds what one finds oneself", dict(info, md=got, answer=r))
            S.cover("same-by-resolver")
    elif bad(r):
        S.cover("resolver-refuses")


def plain(v):
    return v.to_dict() if hasattr(v, "to_dict") else v


def same(S, a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(S, a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(any(same(S, x, y) for y in b) for x in a)
    return bool(S.eq(a, b))


def single(S, case, W, N):
    """one statement at a time"""
    ta = N.add(TA, endpoints=ENDPOINTS)
    N.add(I, endpoints=ENDPOINTS, authority_hints=[TA], preference={"organization_name": "int"})
    if case["what"] == "conf":
        ta.server.subordinate[I] = {"jwks": N.pub(I)}
    me = N.add(ME, services=SERVICES)
    W.now = S.int("now", 1, 2_000_000_000)
    if case["what"] == "conf":
        e = S.choose("who", [TA, I, NO])
        call(me.get_trust_chains, e)          # one has to know the keys of those one asks
        st, err = call(me.do_request, "entity_configuration", entity_id=e)
        S.observe("got", not bad(st))
        S.check(bad(st) == (e == NO), "a configuration is got from those that have one", {"st": st, "err": repr(err)})
        if e != NO:
            S.cover("configuration")
            S.check(st["iss"] == e and st["sub"] == e, "it is by and about the entity", {"st": st})
            S.check(st.get("authority_hints", []) == ([TA] if e == I else []), "with its hints", {"st": st})
            S.check(st["metadata"][FE].get("organization_name") == ("int" if e == I else None), "and its claims", {"st": st})
            S.check(sorted(k["kid"] for k in st["jwks"]["keys"]) == sorted(k["kid"] for k in N.pub(e)["keys"]),
                    "and its keys", {"st": st})
            S.check(S.and_(S.eq(st["iat"], W.now), st["exp"] > W.now), "issued now", {"st": st})
        return
    mpl = S.int("mpl", 1, 9)
    for s, n in ((I, "i"), (L, "l")):
        if S.flag(n + ".registered"):
            ta.server.subordinate[s] = {"jwks": W.jwks(W.jwk("m-" + n, "k-" + n)), "constraints": {"max_path_length": mpl}}
            ta.server.policy[s] = {"metadata_policy": {FE: {"contacts": {"add": [n]}}}}
    s = S.choose("sub", [I, L, NO])
    kw = {}
    if S.flag("where"):
        kw["fetch_endpoint"] = TA + "/fetch"
    st, err = call(me.do_request, "entity_statement", issuer=TA, subject=s, **kw)
    known = s in ta.server.subordinate
    S.observe("got", not bad(st))
    S.check(bad(st) == (not known), "a statement is got about those that are registered", {"st": st, "err": repr(err), "kw": kw})
    if not known:
        S.cover("unknown-subject")
        return
    n = s.split("//")[1][0]
    S.check(st["iss"] == TA and st["sub"] == s, "it is by the superior, about the subject", {"st": st})
    S.check([k["kid"] for k in st["jwks"]["keys"]] == ["k-" + n], "it has the subject's keys", {"st": st})
    S.check(S.eq(st["constraints"]["max_path_length"], mpl), "and its constraints", {"st": st})
    S.check(st["metadata_policy"][FE]["contacts"]["add"] == [n], "and policy", {"st": st})
    S.cover("statement")


def listing(S, case, W, N):
    ta = N.add(TA, endpoints=ENDPOINTS)
    me = N.add(ME, services=SERVICES)
    reg = {}
    for n, s in (("i", I), ("l", L)):
        if n == "i" or case["deep"]:
            there = S.flag(n + ".registered")
            types = there and [t for t in (FE, "openid_provider") if S.flag(f"{n}.{t}")]
            marked, inter = there and S.flag(n + ".marked"), there and bool(S.flag(n + ".intermediate"))
        else:
            there, types, marked, inter = S.choose(n, [(False, [], False, False), (True, [FE], True, False),
                                                       (True, ["openid_provider"], False, True), (True, [], True, True)])
        if there:
            tm = [W.sign({"iss": TMI, "sub": s, "id": MB, "iat": 5}, "m-tmi", "k-tmi")] if marked else None
            e = N.add(s, authority_hints=[TA], **({"trust_marks": tm} if tm else {}))
            reg[s] = (types, inter, tm)
            ta.server.subordinate[s] = {"jwks": N.pub(s), "entity_types": types, "intermediate": inter}
            e.context     # the mark is in the configuration it publishes
    kw, want = {}, set(reg)
    typ = S.choose("type", [None, FE, "openid_provider", "x"])
    if typ:
        kw["entity_type"] = typ
        want = {s for s in want if typ in reg[s][0]}
    if S.flag("intermediate"):
        kw["intermediate"] = True
        want = {s for s in want if reg[s][1]}
    by = S.choose("marks", [None, "marked", MB, MC])
    if by == "marked":
        kw["trust_marked"] = True
        want = {s for s in want if reg[s][2]}
    elif by:
        kw["trust_mark_id"] = by
        # types are what is registered, and only for those asked for by mark also what is published
        want = {s for s in want if reg[s][2] and by == MB}
    if by and typ and typ != FE:
        want = set()            # they publish no metadata but as federation entities
    if S.flag("where"):
        got, err = call(me.do_request, "list", endpoint=TA + "/list", **kw)
    else:
        W.serve(TA + "/x", "x")
        got, err = call(me.do_request, "list", entity_id=TA, **kw)
    S.check(isinstance(got, list), "a list is a list", {"args": kw, "got": got, "err": repr(err)})
    S.check(sorted(got) == sorted(want), "it has those that match", {"args": kw, "got": got, "want": sorted(want), "reg": sorted(reg)})
    S.observe("listed", sorted(got))
    S.cover("filtered" if kw else "listed")


def marks(S, case, W, N):
    """issuing, asking about, listing and verifying trust marks"""
    life = S.int("life", 1, 100_000)
    ta = N.add(TA, endpoints=ENDPOINTS)
    tmi = N.add(TMI, authority_hints=[TA],
                trust_mark_entity={"class": "fedservice.trust_mark_entity.entity.TrustMarkEntity", "kwargs": {
                    "trust_mark_specification": {MA: {"lifetime": life}, MB: {}},
                    "endpoint": {k: dict(v, kwargs={}) for k, v in EP.items()}}})
    ta.server.subordinate[TMI] = {"jwks": N.pub(TMI), "entity_types": [FE]}
    me = N.add(ME, services=SERVICES)
    tme = tmi.server.trust_mark_entity
    call(me.get_trust_chains, TMI)              # one has to know the keys of those one asks
    issued = []
    t = 1_600_000_000
    for i in range(S.choose("n", list(range(case["n"] + 1)))):
        t0, t = t, S.int(f"t{i}", 1_600_000_000, 1_700_000_000)
        S.assume(t >= t0)
        W.now = t
        m, s = S.choose(f"m{i}", [MA, MB]), S.choose(f"s{i}", [L, I])
        if i == 0 and case["what"] == "fetch":
            p, err = call(me.do_request, "trust_mark", request_args={"trust_mark_id": m, "sub": s}, endpoint=TMI + "/trust_mark")
            S.check(not bad(p), "a trust mark is issued on request", {"err": repr(err)})
            S.check(S.and_(p["id"] == m, p["sub"] == s, p["iss"] == TMI, S.eq(p["iat"], t)), "it is the one asked for", {"mark": p})
            tok = None
            S.cover("mark-fetched")
        else:
            tok = tme.create_trust_mark(m, s)
        issued.append((m, s, t, tok))
    now = S.int("now", 1_600_000_000, 1_800_000_000)
    S.assume(now >= t)
    W.now = now

    def live(m, s, t):
        return bool(S.or_(m == MB, now <= t + life))

    what = case["what"]
    m, s = S.choose("m", [MA, MB, MC]), S.choose("s", [L, I, NO])
    mine = [x for x in issued if x[0] == m and x[1] == s]
    info = {"issued": [(a, b) for a, b, _, _ in issued], "asked": (m, s)}
    if what in ("status", "fetch"):
        r, err = call(me.do_request, "trust_mark_status", request_args={"sub": s, "trust_mark_id": m},
                      **{S.choose("kw", ["fetch_endpoint", "endpoint"]): TMI + "/trust_mark_status"})
        active = not bad(r) and r.get("active") is True
        sure = any(live(*x[:3]) for x in mine)
        S.observe("active", active)
        S.check(active == sure, "a trust mark is active exactly if it was issued and is in force", dict(info, r=r, err=repr(err)))
        S.cover("mark-active" if active else "mark-expired" if mine else "mark-inactive")
        if m == MC and what == "fetch":
            r, err = call(me.do_request, "trust_mark", request_args={"trust_mark_id": m, "sub": s}, endpoint=TMI + "/trust_mark")
            S.check(bad(r), "no trust mark of an unknown kind is issued", dict(info, r=r))
            S.cover("mark-unknown")
    elif what == "token":
        toks = [x for x in issued if x[3]]
        if not toks:
            return
        x = S.choose("token", toks[:1] + toks[-1:])
        r, err = call(me.do_request, "trust_mark_status", request_args={"trust_mark": x[3]}, fetch_endpoint=TMI + "/trust_mark_status")
        active = not bad(r) and r.get("active") is True
        S.observe("active", active)
        later = any(live(*y[:3]) for y in issued if y[:2] == x[:2])
        S.check(not active or later, "a token that is active was issued and is in force", dict(info, r=r, err=repr(err)))
        S.check(active or not live(*x[:3]), "a token that is in force is active", dict(info, r=r, err=repr(err)))
        S.cover("mark-active" if active else "mark-expired")
    elif what == "list":
        r, err = call(me.do_request, "trust_mark_list", request_args={"trust_mark_id": m}, fetch_endpoint=TMI + "/trust_mark_list")
        got = sorted(set(r)) if isinstance(r, list) else []
        want = sorted({b for a, b, c, _ in issued if a == m and live(a, b, c)})
        S.observe("list", got)
        S.check(got == want, "the list has those with that mark in force", dict(info, got=r, want=want, err=repr(err)))
        S.cover("mark-list" if want else "mark-empty")
    elif what == "verify" and issued:
        x = issued[-1]
        r, err = call(me.verify_trust_mark, x[3], check_with_issuer=bool(S.flag("check")))
        S.observe("verified", bool(r))
        ok = live(*x[:3])
        S.check(bool(r) == ok, "a mark that is in force can be verified, others cannot", dict(info, r=r, err=repr(err)))
        S.cover("verified" if ok else "not-verified")


def who(S, case, W, N):
    """searching below an entity"""
    ta = N.add(TA, endpoints=ENDPOINTS)
    N.add(I, endpoints=ENDPOINTS, authority_hints=[TA])
    N.add(L, endpoints=ENDPOINTS, authority_hints=[I], preference={"organization_name": "leaf"})
    me = N.add(ME, services=SERVICES)
    if S.flag("i.registered"):
        ta.server.subordinate[I] = {"jwks": N.pub(I), "entity_types": [FE], "intermediate": True}
    if S.flag("l.registered"):
        N.ents[I].server.subordinate[L] = {"jwks": N.pub(L), "entity_types": [FE]}
    got, err = call(me.trawl, TA, I, FE)
    S.observe("trawled", sorted(str(x) for x in got or []))
    inter = I in ta.server.subordinate
    leaf = inter and L in N.ents[I].server.subordinate
    S.check(err is None and (L in got) == bool(leaf), "a search finds those that superiors tell of",
            {"got": got, "err": repr(err), "leaf": leaf})
    if leaf:
        S.cover("found")

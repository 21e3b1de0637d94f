"""What an entity publishes: its own configuration and statements about its subordinates."""
from sx.engine import call

COVERS = ["statement", "specific-policy", "type-policy", "no-policy", "unknown", "foreign-issuer", "self",
          "configuration", "hints", "marks", "second", "policy-changed", "no-keys", "mark-issuers", "mark-owners", "added-later"]
BOUNDS = {
    "quick": "two registered subordinates (with or without keys, authority hints and constraints, 0..2 entity types), "
             "policies per entity and per entity type present or not, requests with any issuer and subject; "
             "histories of up to three requests with policies added and removed in between; entity configurations "
             "with authority hints and trust marks given as list, function or not at all; trust anchors with or without trust mark "
             "issuers and owners, given as a dictionary or a class, to which more are added later; any clock",
    "thorough": "as quick, with longer histories and three entity types",
}
ASSUMPTIONS = ["signatures and clock as modelled in sx/world.py"]
OUTSIDE = "HTTP framing of the responses, policies registered both in the subordinate's record and separately"
BUDGET = {"quick": 500, "thorough": 3600}

ME, S1, S2, EVIL, SUP = ("https://%s.example.org" % x for x in ("me", "s1", "s2", "evil", "sup"))
TYPES = ["openid_relying_party", "federation_entity", "openid_provider"]


def setup(symbolic):
    from sx import world
    world.install(symbolic)


def cases(tier):
    out = []
    q = tier == "quick"
    # who may ask for what; what a statement has; what changes over time
    out.append({"k": "fetch", "n": 1, "types": 1, "req": "any", "rec": "keys", "kinds": ["none", "both"]})
    out.append({"k": "fetch", "n": 1, "types": 1, "req": "sub", "rec": "all", "kinds": ["both"]})
    out.append({"k": "fetch", "n": 1, "types": 2, "req": "sub", "rec": "no",
                "kinds": ["none", "policy", "metadata", "both"]})
    out.append({"k": "fetch", "n": 2, "types": 2 if not q else 1, "req": "sub", "rec": "no", "kinds": ["none", "both"]})
    out.append({"k": "fetch", "n": 3, "types": 1, "req": "sub", "rec": "no", "kinds": ["none", "both"]})
    out.append({"k": "fetch", "n": 2, "types": 0, "req": "any", "rec": "no", "kinds": ["none"]})
    if not q:
        out.append({"k": "fetch", "n": 1, "types": 3, "req": "sub", "rec": "no",
                    "kinds": ["none", "policy", "metadata", "both"]})
        out.append({"k": "fetch", "n": 4, "types": 1, "req": "sub", "rec": "no", "kinds": ["none", "both"]})
        out.append({"k": "fetch", "n": 2, "types": 1, "req": "any", "rec": "keys", "kinds": ["none", "both"]})
    for hints in ("none", "list", "callable"):
        for marks in ("none", "list", "callable"):
            out.append({"k": "ec", "hints": hints, "marks": marks})
    for how in ("none", "dict", "class"):
        for how2 in ("none", "dict", "class"):
            for make in ("entity", "combo"):
                out.append({"k": "anchor", "issuers": how, "owners": how2, "make": make})
    return out


def private(v):
    """does anything in there look like private key material"""
    if isinstance(v, dict):
        if "kty" in v and any(x in v for x in ("d", "p", "q", "k")):
            return True
        return any(private(x) for x in v.values())
    if isinstance(v, (list, tuple)):
        return any(private(x) for x in v)
    return False


def same(S, a, b):
    """deep equality of JSON values"""
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(S, a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(S, x, y) for x, y in zip(a, b))
    if isinstance(a, (dict, list, tuple)) or isinstance(b, (dict, list, tuple)):
        return False
    return bool(S.eq(a, b))


def signed(S, W, tok):
    return S.or_(W.signed_by(tok, "own-RSA", "RSA"), W.signed_by(tok, "own-EC", "EC"))


def own_keys(S, W, jwks):
    """exactly my public keys"""
    ks = jwks.get("keys", []) if isinstance(jwks, dict) else []
    if W.symbolic:
        return sorted(str(k.get("x")) for k in ks) == ["own-EC", "own-RSA"]
    ref = [W._pooled("RSA", "own-RSA").serialize(), W._pooled("EC", "own-EC").serialize()]
    return sorted((k.get("n") or k.get("x")) for k in ks) == sorted((k.get("n") or k.get("x")) for k in ref)


def timing(S, W, pl, info):
    S.check(S.and_(S.eq(pl["iat"], W.now), pl["exp"] > W.now), "a statement is issued now and valid from now", info)


def run(S, case):
    from sx import world, fed
    W = world.begin(S)
    W.now = S.int("now", 1, 3_000_000_000)
    {"fetch": fetch, "ec": config, "anchor": anchor}[case["k"]](S, case, W, fed)


def fetch(S, case, W, fed):
    fe = fed.entity(ME, {})
    TT = TYPES[:case["types"]]
    reg = {}
    for s in ((S1, S2) if case["req"] == "any" else (S1,)):
        n = "s1" if s == S1 else "s2"
        rec = {}
        if s == S2 or case["rec"] == "no" or S.flag(n + ".jwks"):
            rec["jwks"] = W.jwks(W.jwk("m-" + n, "k-" + n))
        if s == S1:
            rec["entity_types"] = [t for t in TT if S.flag(f"{n}.{t}")]
            if case["rec"] == "all":
                if S.flag(n + ".hints"):
                    rec["authority_hints"] = [ME, SUP]
                if S.flag(n + ".constraints"):
                    rec["constraints"] = {"max_path_length": S.int("mpl", 0, 9)}
        reg[s] = rec
    fe.server.subordinate = {s: dict(r) for s, r in reg.items()}
    ver = [0]

    def policy(name):
        """a policy, with values that tell which one it is"""
        ver[0] += 1
        kind = S.choose(f"pol{ver[0]}.{name}", case["kinds"])
        p = {}
        if kind in ("policy", "both"):
            p["metadata_policy"] = {"contacts": {"add": [f"{name}.{ver[0]}"]}}
        if kind in ("metadata", "both"):
            p["metadata"] = {"client_name": f"{name}.{ver[0]}"}
        return p

    def set_policies():
        pols = {}
        for name in [S1] + TT:
            p = policy(name.split("//")[-1])
            if p:
                if name == S1:
                    p = {k: {TYPES[0]: v} for k, v in p.items()}
                pols[name] = p
        return pols

    pols = {}
    for step in range(case["n"]):
        if step == 0 or S.flag(f"change{step}"):
            pols = set_policies()
            if step:
                S.cover("policy-changed")
        fe.server.policy = {k: {a: dict(b) for a, b in v.items()} for k, v in pols.items()}
        req = {}
        if case["req"] == "any":
            iss = S.atom(f"iss{step}", (ME, EVIL)) if S.flag(f"hasiss{step}") else None
            sub = S.atom(f"sub{step}", (ME, S1, S2, EVIL)) if S.flag(f"hassub{step}") else None
        else:
            iss, sub = (None if step else ME), S1
        if iss is not None:
            req["iss"] = iss
        if sub is not None:
            req["sub"] = sub
        r, res = call(fe.server.endpoint["fetch"].process_request, dict(req))
        tok = None
        if r == "ok" and isinstance(res, dict):
            tok = res.get("response_msg")
        S.observe(f"tok{step}", tok is not None)
        info = {"request": req, "registered": reg, "policies": pols}
        if step:
            S.cover("second")
        foreign = iss is not None and not bool(S.eq(iss, ME))
        about = None if sub is None or bool(S.eq(sub, ME)) else next((s for s in reg if bool(S.eq(sub, s))), EVIL)
        if tok is None:
            if foreign:
                S.cover("foreign-issuer")
            elif about == EVIL:
                S.cover("unknown")
            elif about and "jwks" not in reg[about]:
                S.cover("no-keys")
            S.check(foreign or about == EVIL or (about and "jwks" not in reg[about]),
                    "a proper request is answered", dict(info, how=repr(res)))
            continue
        _, pl = W.opened(tok)
        S.check(signed(S, W, tok), "statements are signed with the entity's own key", info)
        S.check(S.eq(pl["iss"], ME), "statements are made in the entity's own name only", info)
        S.check(not private(pl), "no private key is published", info)
        timing(S, W, pl, info)
        if foreign:
            continue
        if about is None:
            S.cover("self")
            S.check(S.and_(S.eq(pl["sub"], ME), own_keys(S, W, pl.get("jwks"))),
                    "asked about itself the entity presents its own keys", info)
            continue
        S.check(about != EVIL, "nothing is stated about an unknown entity", info)
        if about == EVIL:
            continue
        S.cover("statement")
        rec = reg[about]
        S.check(S.eq(pl["sub"], about), "the statement is about the requested subordinate", info)
        S.check("jwks" in rec and same(S, pl.get("jwks"), rec["jwks"]),
                "the statement has exactly the keys registered for the subordinate", info)
        S.check(same(S, pl.get("authority_hints"), rec.get("authority_hints", [ME])),
                "the authority hints are the registered ones, or me", info)
        S.check(same(S, pl.get("constraints"), rec.get("constraints")), "constraints are included as registered", info)
        want = {"metadata": {}, "metadata_policy": {}}
        if about in pols:
            S.cover("specific-policy")
            for k, v in pols[about].items():
                want[k] = v
        else:
            for t in rec.get("entity_types", []):
                for k, v in pols.get(t, {}).items():
                    want[k][t] = v
            S.cover("type-policy" if want["metadata"] or want["metadata_policy"] else "no-policy")
        for k, v in want.items():
            S.check(same(S, pl.get(k, {}), v), f"{k} is what is set for the entity, else for its entity types",
                    dict(info, got=pl.get(k), want=v))
    S.check(same(S, dict(fe.server.subordinate), reg), "answering requests leaves the register as it is",
            {"registered": reg})


def config(S, case, W, fed):
    hints, marks = [SUP, EVIL], ["tm1", "tm2"]
    calls = []
    if case["hints"] == "none":
        h, want_h = None, []
    else:
        want_h = [x for x in hints if S.flag("hint." + x)]
        h = list(want_h) if case["hints"] == "list" else (lambda: list(want_h))
    if case["marks"] == "none":
        want_m, m = [], None
    else:
        want_m = [x for x in marks if S.flag("mark." + x)]
        m = list(want_m) if case["marks"] == "list" else (lambda: list(want_m))
    fe = fed.entity(ME, {}, authority_hints=h, trust_marks=m,
                    preference={"organization_name": "Me", "contacts": ["ops@example.org"]})
    for step in range(2):
        if step:
            S.cover("second")
            if case["marks"] == "callable":
                want_m.append("tm3")
            if case["hints"] == "callable":
                want_h.append("https://sup2.example.org")
        r, res = call(fe.server.endpoint["entity_configuration"].process_request, {})
        tok = res.get("response") if r == "ok" else None
        S.observe(f"tok{step}", tok is not None)
        info = {"hints": want_h, "marks": want_m, "how": repr(res)}
        S.check(tok is not None, "an entity publishes its configuration", info)
        if tok is None:
            return
        S.cover("configuration")
        _, pl = W.opened(tok)
        S.check(S.and_(S.eq(pl["iss"], ME), S.eq(pl["sub"], ME)), "it is by and about the entity", info)
        S.check(signed(S, W, tok), "it is signed with the entity's own key", info)
        S.check(own_keys(S, W, pl.get("jwks")), "it has exactly the entity's public keys", info)
        S.check(not private(pl), "no private key is published", info)
        timing(S, W, pl, info)
        S.check(list(pl.get("authority_hints", [])) == want_h, "authority hints as configured", info)
        S.check(list(pl.get("trust_marks", [])) == want_m, "trust marks as configured", info)
        if want_h:
            S.cover("hints")
        if want_m:
            S.cover("marks")
        md = pl.get("metadata", {}).get("federation_entity", {})
        for e in ("fetch", "list", "resolve"):
            S.check(md.get(f"federation_{e}_endpoint") == fe.server.endpoint[e].full_path,
                    "the published endpoints are the ones served", dict(info, md=md))
        S.check(md.get("organization_name") == "Me", "the configured claims are published", dict(info, md=md))
        from fedservice.entity.function import verify_self_signed_signature
        r, v = call(verify_self_signed_signature, tok)
        S.check(r == "ok" and v["sub"] == ME, "what is published verifies", dict(info, how=r if r == "ok" else repr(v)))


def anchor(S, case, W, fed):
    """a trust anchor tells who may issue, and who owns, which trust marks"""
    from fedservice.utils import make_federation_combo
    from fedservice.entity.utils import get_federation_entity
    given, want, kw = {}, {}, {}
    for name, arg in (("issuers", "trust_mark_issuers"), ("owners", "trust_mark_owner")):
        if case[name] == "none":
            continue
        v = {}
        for tm in ("tm1", "tm2"):
            if S.flag(f"{name}.{tm}"):
                who = S.atom(f"{name}.{tm}.who", (S1, S2))
                v[tm] = [who] if name == "issuers" else {"sub": who, "jwks": W.jwks(W.jwk("m-o", "k-o"))}
        want[arg] = dict(v)
        given[arg] = v
        kw[arg] = v if case[name] == "dict" else {"class": "builtins.dict", "kwargs": v}
    W.owner = "own"
    et = {"oauth_client": {"class": "fedservice.appclient.ClientEntity",
                           "kwargs": {"config": {"client_type": "oauth2", "services": {
                               "authorization": {"class": "idpyoidc.client.oauth2.authorization.Authorization"}}},
                               "key_conf": {"key_defs": fed.KEYS}}}}
    e = make_federation_combo(ME, key_config={"key_defs": [dict(k) for k in fed.KEYS]},
                              endpoints=["entity_configuration", "fetch", "list"],
                              preference={"organization_name": "Me"},
                              entity_type=et if case["make"] == "combo" else None, **kw)
    fe = e["federation_entity"] if case["make"] == "combo" else e
    for step in range(2):
        if step:
            for arg in want:
                if hasattr(fe.context, arg) and S.flag("add." + arg):
                    v = [S2] if arg == "trust_mark_issuers" else {"sub": S2, "jwks": {"keys": []}}
                    getattr(fe.context, arg)["tm3"] = v
                    want[arg]["tm3"] = v
                    S.cover("added-later")
        r, res = call(fe.server.endpoint["entity_configuration"].process_request, {})
        S.check(r == "ok" and bool(res.get("response")), "a trust anchor publishes its configuration", {"how": repr(res)})
        _, pl = W.opened(res["response"])
        md = pl["metadata"]["federation_entity"]
        S.observe(f"claims{step}", sorted(md))
        for arg, claim in (("trust_mark_issuers", "trust_mark_issuers"), ("trust_mark_owner", "trust_mark_owners")):
            info = {"given": given.get(arg), "want": want.get(arg), "published": md.get(claim)}
            if want.get(arg):
                S.check(same(S, md.get(claim), want[arg]), f"the {claim} that are configured are published", info)
                S.cover("mark-issuers" if arg == "trust_mark_issuers" else "mark-owners")
            else:
                S.check(not md.get(claim), f"no {claim} are made up", info)
        S.check(md.get("organization_name") == "Me", "so are the claims about the entity", {"md": md})

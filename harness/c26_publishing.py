"""What an entity publishes about itself: all its parts, wherever one asks."""
import copy
import json
import os
import tempfile

from sx import engine

COVERS = ["published", "several-parts", "no-parts", "embedded-keys", "keys-at-uri", "hints-function", "hints-file", "hints-store",
          "marks-list", "marks-function", "marks-store", "registration", "by-itself", "no-marks", "fetched", "fetched-plain",
          "again", "changed-since", "resolved", "policy-applied"]
BOUNDS = {
    "quick": "combinations of a federation entity with an OpenID provider, an authorization server, a relying party and an "
             "OAuth2 client, alone, in pairs and all four: claims of each present or not and with arbitrary values, endpoint "
             "paths, registration types, keys embedded or at a URI, authority hints as list, function, file or store, trust marks as "
             "list, function, store or none, any time; every way to ask (the configuration endpoint, a fetch about itself with or "
             "without issuer and subject, an explicit registration, its own context), twice, with anything else asked in between and superiors or trust marks changed in their file, store or function; and what others learn through a chain",
    "thorough": "as quick, with all combinations of parts and two things asked in between",
}
ASSUMPTIONS = ["signatures, clock, files and HTTP as modelled in sx/world.py"]
OUTSIDE = "claims idpyoidc derives from others (algorithms), embedded keys of authorization servers (their metadata has no such claim), relying "\
          "parties that keep a client per provider (whose metadata differ per provider)"
BUDGET = {"quick": 400, "thorough": 2400}

E, TA, I = ("https://%s.example.org" % x for x in ("e", "ta", "i"))
FE, OP, AS, RP, OC = ("federation_entity", "openid_provider", "oauth_authorization_server", "openid_relying_party", "oauth_client")
KIND = {OP: "oidc", AS: "oauth2", RP: "oidc", OC: "oauth2"}
MARKS = ["mark-one", "mark-two"]
TYPES = [["automatic"], ["explicit"], ["automatic", "explicit"]]


def setup(symbolic):
    from sx import world
    world.install(symbolic)
    from sx import app
    W = world.begin(engine.ReplaySource({}, {}))
    for p in (OP, AS):
        app.server("https://warm.example.org", {TA: {"keys": []}}, KIND[p])
    for p in (RP, OC):
        app.client("https://warm.example.org", {TA: {"keys": []}}, KIND[p])
    world.sweep()


def cases(tier):
    some = [[], [OP], [AS], [RP], [OC], [OP, RP], [AS, OC], [OP, AS, RP, OC]]
    if tier != "quick":
        some = [[p for i, p in enumerate(KIND) if n >> i & 1] for n in range(16)]
    out = []
    for parts in some:
        out.append({"k": "claims", "parts": parts})
        out.append({"k": "ask", "parts": parts, "n": 1 if tier == "quick" else 2})
        if parts:
            out.append({"k": "chain", "parts": parts})
    return out


def run(S, case):
    from sx import world
    W = world.begin(S)
    made = []
    try:
        globals()[case["k"]](S, case, W, made)
    finally:
        for it in made:
            for f in it.files:
                os.remove(f)


def call(f, *a, **kw):
    k, v = engine.call(f, *a, **kw)
    return (v, None) if k == "ok" else (None, v)


class It:
    """the entity, and what it was made to be"""

    def __init__(self, S, W, case, made, vary):
        from sx import app
        from fedservice.utils import make_federation_combo
        self.S, self.W, self.said, self.files = S, W, {}, []
        made.append(self)
        vary = set(vary)
        keys = S.choose("keys", ["embedded", "uri"]) if "keys" in vary else "embedded"
        spec = {}
        for p in case["parts"]:
            n = p.replace("_", "-")
            said = self.said[p] = {}
            kc = {"key_defs": copy.deepcopy(app.KEYS)}
            if keys == "uri":
                kc["uri_path"] = "static/%s.json" % n
                said["jwks_uri"] = E + "/static/%s.json" % n
            if p in (OP, AS):
                types = S.choose(n + ".types", TYPES) if "types" in vary else TYPES[2]
                path = S.choose(n + ".path", ["authorization", "a/z"]) if "paths" in vary else "authorization"
                spec[p] = self.server(p, types, path)
                conf = spec[p]["kwargs"]["config"]
                spec[p]["kwargs"].pop("key_conf")
                conf["key_conf"] = kc
                said.update({"issuer": E, "authorization_endpoint": E + "/" + path, "client_registration_types_supported": types,
                             "federation_registration_endpoint": E + "/registration"})
                if p == AS:
                    said["pushed_authorization_request_endpoint"] = E + "/pushed_authorization"
                if "claims" in vary and p == OP and S.flag(n + ".named"):
                    said["op_policy_uri"] = conf["preference"]["op_policy_uri"] = S.word(n + ".name")
            else:
                cb = S.choose(n + ".cb", [[E + "/cb/" + n], [E + "/cb/" + n, "https://cb.example.org/?x=1"]]) \
                    if "claims" in vary else [E + "/cb/" + n]
                conf = {"redirect_uris": list(cb), "base_url": E,
                        "preference": {"grant_types": ["authorization_code"], "response_types": ["code"]}}
                said["redirect_uris"] = cb
                if "claims" in vary and S.flag(n + ".named"):
                    said["client_name"] = conf["preference"]["client_name"] = S.word(n + ".name")
                if p == RP and "types" in vary:
                    said["client_registration_types"] = conf["preference"]["client_registration_types"] = S.choose(n + ".types", TYPES)
                spec[p] = {"class": "sx.app.Client", "kwargs": {"key_conf": kc, "config": conf}}
            if keys == "uri":
                S.cover("keys-at-uri")
        self.keys = keys
        pref = self.said[FE] = {}
        if "claims" in vary:
            if S.flag("named"):
                pref["organization_name"] = S.word("name")
            if S.flag("contacted"):
                pref["contacts"] = [S.word("contact")]
        ends = ["entity_configuration", "fetch"] + (["list"] if "paths" not in vary or S.flag("lists") else [])
        self.ends = {"federation_%s_endpoint" % x: E + "/" + x for x in ends[1:]}
        self.hints = [TA, I]
        how = S.choose("hints", ["list", "function", "file", "store"]) if "hints" in vary else "list"
        if how != "list":
            S.cover("hints-" + how)
        self.hints_in = how
        hints = {"list": list(self.hints), "function": lambda: list(self.hints)}.get(how)
        if how == "file":
            hints = self.write(json.dumps(self.hints))
            self.hints_file = self.files[-1]
        elif how == "store":
            hints = self.store(self.hints)
            self.hints_file = self.files[-1]
        how = S.choose("marks", ["none", "list", "function", "store"]) if "marks" in vary else "none"
        self.marks = list(MARKS) if how != "none" else None
        self.marks_in = how
        S.cover("no-marks" if how == "none" else "marks-" + how)
        marks = {"list": list(MARKS)}.get(how)
        if how == "store":
            marks = self.store(MARKS)
            self.marks_file = self.files[-1]
        W.owner = "own"
        self.combo = make_federation_combo(
            E, key_config={"key_defs": copy.deepcopy(app.KEYS)}, preference=copy.deepcopy(pref), authority_hints=hints,
            endpoints=ends, entity_type=spec or None, trust_marks=marks)
        self.fe = self.combo["federation_entity"] if case["parts"] else self.combo
        if how == "function":
            self.fe.context.trust_marks = lambda: list(self.marks)
        self.parts = case["parts"]

    def write(self, text):
        """a file it reads, removed when the run is over"""
        fd, f = tempfile.mkstemp(prefix="c26.")
        self.files.append(f)
        with open(fd, "w") as fp:
            fp.write(text)
        return f

    def store(self, items):
        return {"class": "idpyoidc.storage.listfile.ReadOnlyListFile", "kwargs": {"file_name": self.write("\n".join(items) + "\n")}}

    def turn(self):
        """its superiors or its trust marks become others"""
        done = False
        if self.hints_in not in ("list",):
            self.hints = self.S.choose("then.hints", [[TA], [I], [I, "https://new.example.org"]])
            if self.hints_in != "function":
                rewrite(self.hints_file, json.dumps(self.hints) if self.hints_in == "file" else "\n".join(self.hints) + "\n")
            done = True
        if self.marks_in in ("function", "store"):
            self.marks = self.S.choose("then.marks", [MARKS[:1], MARKS[1:], MARKS + ["mark-three"]])
            if self.marks_in == "store":
                rewrite(self.marks_file, "\n".join(self.marks) + "\n")
            done = True
        return done

    def server(self, p, types, path):
        from sx import app
        app.server(E, {TA: {"keys": []}}, KIND[p], types)
        spec = copy.deepcopy(app.last_spec[p])
        spec["kwargs"]["config"]["endpoint"]["authorization"]["path"] = path
        spec["kwargs"]["config"].pop("issuer", None)
        spec["kwargs"]["config"].pop("base_url", None)
        return {"class": spec["class"], "kwargs": spec["kwargs"]}

    def ask(self, how):
        """the payload of what it publishes, and what was signed with"""
        S, W = self.S, self.W
        if how in self.parts:
            tok, err = call(self.combo[how].get_service("registration").construct, request_args={})
            S.check(W.is_token(tok), "it says what it is when it registers", {"how": how, "err": repr(err)})
            return W.opened(tok)[1]
        if how == "itself":
            md = self.combo.get_metadata()
            tok, err = call(self.fe.context.create_entity_statement, E, E, metadata=md)
            S.check(W.is_token(tok), "it says what it is when asked", {"how": how, "err": repr(err)})
            return W.opened(tok)[1]
        ep = self.fe.server.endpoint["entity_configuration" if how == "configuration" else "fetch"]
        req = {"configuration": {}, "both": {"iss": E, "sub": E}, "sub": {"sub": E}, "none": {}}[how]

        def get():
            args = ep.process_request(ep.parse_request(dict(req)))
            return ep.do_response(request=req, **args)["response"]
        tok, err = call(get)
        S.check(tok is not None, "it says what it is when asked", {"how": how, "err": repr(err)})
        jws = W.opened(tok)
        S.check(W.signed_by(tok, "own-RSA"), "it is signed by the federation entity's key", {"how": how})
        return jws[1]

    def judge(self, pl, info):
        S, W = self.S, self.W
        md = pl["metadata"]
        S.check(pl["iss"] == E and pl["sub"] == E, "it speaks for itself", dict(info, pl=pl))
        S.check(sorted(md) == sorted([FE] + self.parts), "all its parts are described, and nothing else", dict(info, types=sorted(md)))
        if sorted(md) != sorted([FE] + self.parts):
            return
        for p in [FE] + self.parts:
            for k, v in self.said[p].items():
                S.check(k in md[p] and same(S, md[p][k], v), "what a part was configured with is published",
                        dict(info, part=p, claim=k, want=v, got=md[p].get(k)))
            want = None if p == FE or self.keys == "uri" or p == AS else kids(self.combo[p].keyjar)
            got = None if "jwks" not in md[p] else sorted(k["kid"] for k in md[p]["jwks"]["keys"])
            S.check(got == want, "a part's keys are its own", dict(info, part=p, got=got, want=want))
            if p != FE:
                S.check(self.keys == "uri" or "jwks_uri" not in md[p], "keys are where they are said to be", dict(info, part=p))
            for k in ("organization_name", "contacts", "client_name"):
                S.check(k in self.said[p] or not md[p].get(k), "nothing is made up", dict(info, part=p, claim=k, got=md[p].get(k)))
        got = {k: v for k, v in md[FE].items() if k.endswith("_endpoint")}
        S.check(got == self.ends, "its endpoints are those it has", dict(info, got=got, want=self.ends))
        S.check(sorted(k["kid"] for k in pl["jwks"]["keys"]) == kids(self.fe.keyjar), "its keys are the federation entity's",
                dict(info, got=pl["jwks"]))
        S.check(not any(x in k for k in pl["jwks"]["keys"] for x in ("d", "p", "q", "k")), "no secrets", info)
        S.check(pl.get("authority_hints") == self.hints, "its superiors are named", dict(info, got=pl.get("authority_hints")))
        S.check(pl.get("trust_marks") == self.marks, "its trust marks are there", dict(info, got=pl.get("trust_marks")))
        S.check(S.and_(S.eq(pl["iat"], W.now), pl["exp"] > W.now), "issued now", info)


def rewrite(f, text):
    with open(f, "w") as fp:
        fp.write(text)


def kids(keyjar):
    return sorted(k["kid"] for k in keyjar.export_jwks("")["keys"])


def same(S, a, b):
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(any(same(S, x, y) for x in a) for y in b)
    return bool(S.eq(a, b))


def claims(S, case, W, made):
    """everything it can be configured with"""
    what = S.choose("vary", [["claims"], ["types", "paths"], ["keys"]] if case["parts"] else [["claims"], ["paths"]])
    it = It(S, W, case, made, what)
    W.now = S.int("now", 1, 2_000_000_000)
    pl = it.ask("configuration")
    it.judge(pl, {"case": case, "vary": what})
    S.observe("published", sorted(pl["metadata"]))
    S.cover("several-parts" if len(case["parts"]) > 1 else "published" if case["parts"] else "no-parts")
    if it.keys == "embedded" and case["parts"]:
        S.cover("embedded-keys")


def ask(S, case, W, made):
    """every way to ask, before and after other things"""
    it = It(S, W, case, made, S.choose("vary", [["hints"], ["marks"]]))
    W.now = t = S.int("now", 1, 2_000_000_000)
    first = it.ask("configuration")
    it.judge(first, {"case": case})
    for i in range(case["n"]):
        between(S, it, S.choose(f"between{i}", ["nothing", "preferences", "metadata", "fetch", "list", "registration"]))
    turned = S.flag("turned") and it.turn()
    if turned:
        S.cover("changed-since")
    W.now = S.int("later", 1, 2_100_000_000)
    S.assume(W.now >= t)
    how = S.choose("how", ["configuration", "both", "sub", "none", "itself"] + [p for p in it.parts if p in (RP, OC)])
    pl = it.ask(how)
    it.judge(pl, {"case": case, "how": how})
    S.observe("published", sorted(pl["metadata"]))
    S.check(S.eq(pl["exp"] - pl["iat"], first["exp"] - first["iat"]), "for as long", {"how": how})
    apart = ("iat", "exp", "authority_hints", "trust_marks") if turned else ("iat", "exp")
    S.check({k: v for k, v in pl.items() if k not in apart} == {k: v for k, v in first.items() if k not in apart},
            "it says the same however one asks", {"how": how, "first": first, "then": pl})
    S.cover({"configuration": "again", "both": "fetched", RP: "registration", OC: "registration", "itself": "by-itself"}
            .get(how, "fetched-plain"))


def between(S, it, what):
    c, fe = it.combo, it.fe
    if what == "preferences":
        call(c.get_preferences)
        call(fe.get_preferences)
    elif what == "metadata":
        for p in [FE] + it.parts:
            part = fe if p == FE else c[p]
            md, err = call(part.get_metadata)
            S.check(err is None and list(md) == [p], "a part describes itself", {"part": p, "err": repr(err)})
            md[p].clear()
            it.said[p].get("contacts", [])
    elif what == "fetch":
        fe.server.subordinate[I] = {"jwks": {"keys": []}, "entity_types": [FE]}
        call(fe.server.endpoint["fetch"].process_request, {"sub": I})
        call(fe.server.endpoint["fetch"].process_request, {"sub": "https://x.example.org"})
    elif what == "list":
        call(fe.server.endpoint["list"].process_request, {})
    elif what == "registration":
        call(fe.registration_metadata)
        for p in it.parts:
            if p in (RP, OC):
                call(c[p].get_registration_metadata)


def chain(S, case, W, made):
    """what another learns about it"""
    from sx import fed
    it = It(S, W, case, made, ["keys"])
    W.now = 1_000_000
    ends = ["entity_configuration", "fetch"]
    ta = fed.entity(TA, {}, owner="ta", endpoints=ends)
    im = fed.entity(I, {TA: ta.keyjar.export_jwks()}, owner="i", endpoints=ends, authority_hints=[TA])
    it.hints = [I]
    it.fe.context.authority_hints = [I]
    ents = {E: it.fe, I: im, TA: ta}
    ta.server.subordinate[I] = {"jwks": im.keyjar.export_jwks()}
    im.server.subordinate[E] = {"jwks": it.fe.keyjar.export_jwks(), "entity_types": [FE] + it.parts}
    p = S.choose("part", it.parts)
    add = None
    if S.flag("policy"):
        add = S.word("contact")
        by = S.choose("by", ["entity", "type"])
        pol = {"metadata_policy": {p: {"contacts": {"add": [add]}}}}
        im.server.policy[E if by == "entity" else p] = pol if by == "entity" else {"metadata_policy": pol["metadata_policy"][p]}

    def answer(method, url, kw):
        from urllib.parse import parse_qsl, urlparse
        u = urlparse(url)
        e = ents.get(f"{u.scheme}://{u.netloc}")
        ep = next((x for x in e.server.endpoint.values() if "/" + x.endpoint_path.lstrip("/") == u.path), None) if e else None
        if ep is None:
            return 404, "not found", "text/plain"
        try:
            req = dict(parse_qsl(u.query))
            r = ep.do_response(request=req, **ep.process_request(ep.parse_request(dict(req))))
            return 200, r["response"], "application/entity-statement+jwt"
        except Exception as err:
            return 400, json.dumps({"error": "invalid_request"}), "application/json"
    W.default_response = answer
    me = fed.entity("https://me.example.org", {TA: ta.keyjar.export_jwks()}, owner="me")
    own = it.ask("configuration")["metadata"]
    md, err = call(me.get_verified_metadata, E)
    S.check(bool(md), "it can be found by others", {"case": case, "err": repr(err)})
    S.observe("types", sorted(md))
    S.check(sorted(md) == sorted([FE] + it.parts), "all its parts can be seen", {"types": sorted(md)})
    for q in it.parts:
        want = dict(own[q])
        if add is not None and q == p:
            S.check(same(S, md[q].get("contacts"), [add]), "with what policies add", {"part": q, "got": md[q].get("contacts")})
            S.cover("policy-applied")
        lost = [k for k, v in want.items() if k != "contacts" and plain(md[q].get(k)) != plain(v) and v not in ([], None)]
        S.check(not lost, "and what each says about itself", {"part": q, "lost": [(k, want[k], md[q].get(k)) for k in lost]})
    S.cover("resolved")


def plain(v):
    return v.to_dict() if hasattr(v, "to_dict") else v

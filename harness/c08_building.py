"""Entities are what they are configured to be, and what is done to one does not show in another."""
import copy
import json
import os
import shutil
import tempfile

from sx.engine import call
from harness import c07_resolution as c07

COVERS = ["default", "none", "some", "specs", "trusted", "not-trusted", "wrong-key", "added", "leaked-not", "cached",
          "refetched", "http", "provider", "client", "metadata", "subordinate", "policy", "mark", "file", "list-file",
          "no-file", "both-args", "extended"]
BOUNDS = {
    "quick": "two entities built one after the other, in either order, with the same or separate configuration objects: "
             "every subset of five endpoints or services, or of four functions (or the default ones, or none), trust anchors given in "
             "each of the supported ways or added later, with the same or another key; any allowed_delta and clock; HTTP "
             "parameters, endpoint and service arguments given or not; subordinates, policies and trust marks registered "
             "later; combinations with a client or a provider; configurations with values from files up to depth three",
    "thorough": "as quick, with three entities, eight endpoints and services, and values from files up to depth four",
}
ASSUMPTIONS = ["signatures, clock and HTTP as modelled in sx/world.py", "files are written and read faithfully"]
OUTSIDE = "the function metadata_verifier (there is no such module), configuration by classes of the user's own, persistence, what idpyoidc's classes share between entities"
BUDGET = {"quick": 500, "thorough": 3600}

A, B, C = ("https://%s.example.org" % x for x in ("a", "b", "c"))
L, TA, TB, SUB = c07.L, c07.TA, c07.TB, "https://sub.example.org"
KEYS = {"key_defs": [{"type": "RSA", "use": ["sig"]}, {"type": "EC", "crv": "P-256", "use": ["sig"]}]}
ENDPOINTS = ["entity_configuration", "fetch", "list", "resolve", "who", "trust_mark", "trust_mark_status", "trust_mark_list"]
SERVICES = ["entity_configuration", "entity_statement", "resolve", "list", "trust_mark_status", "who", "trust_mark",
            "trust_mark_list"]
FUNCTIONS = ["trust_chain_collector", "verifier", "policy", "trust_mark_verifier"]
DEFAULT = {"endpoints": ENDPOINTS[:3], "services": SERVICES[:4], "functions": FUNCTIONS[:4]}
PATHS = {"entity_configuration": ".well-known/openid-federation"}
HOWS = ["param", "init", "both", "added", "none"]
shared = []


def setup(symbolic):
    from sx import world
    world.install(symbolic)
    # what entities built before may have left behind is put right before every path
    import sys
    import types
    seen = {}

    def note(v):
        if isinstance(v, (dict, list)) and not isinstance(v, types.ModuleType):
            seen[id(v)] = v
    for name, m in list(sys.modules.items()):
        if not name.startswith("fedservice") or m is None or name == "fedservice.message":
            continue
        for n, v in list(vars(m).items()):
            if n.startswith("__"):
                continue
            if name == "fedservice.defaults":
                note(v)
            if isinstance(v, type) and v.__module__ == name and not any("essage" in b.__name__ for b in v.__mro__):
                for k, x in list(vars(v).items()):
                    if not k.startswith("__"):
                        note(x)
    shared[:] = [list(seen.values()), copy.deepcopy(list(seen.values()))]


def restore():
    for o, f in zip(shared[0], copy.deepcopy(shared[1])):
        o.clear()
        o.update(f) if isinstance(o, dict) else o.extend(f)


def cases(tier):
    q = tier == "quick"
    out = []
    for what in DEFAULT:
        for value in ("default", "none", "some") + (("specs",) if what != "functions" else ()):
            for make in ("entity", "combo"):
                out.append({"k": "sets", "what": what, "value": value, "make": make, "n": 5 if q else 8})
    for how in HOWS:
        for how2 in HOWS:
            for make in ("entity", "combo") if not q else ("entity",):
                out.append({"k": "anchors", "how": [how, how2], "make": make})
    for how in ("param", "init", "added"):
        out.append({"k": "anchors", "how": ["none", how], "make": "combo"})
    out.append({"k": "anchors", "how": ["param", "shared"], "make": "entity"})
    out.append({"k": "anchors", "how": ["param", "shared"], "make": "combo"})
    if not q:
        for how in ("param", "init", "added"):
            for how2 in ("param", "init", "added"):
                out.append({"k": "anchors", "how": ["none", how, how2], "make": "entity"})
    for mine in ("own", "default"):
        for how in ("init", "item"):
            out.append({"k": "delta", "mine": mine, "how": how})
    for sh in (False, True):
        for how in ("config", "plain"):
            out.append({"k": "http", "share": sh, "how": how})
        for kind in ("oidc", "oauth2"):
            out.append({"k": "server", "share": sh, "kind": kind})
        for how in ("name", "arg", "config"):
            for kind in ("oidc", "oauth2"):
                out.append({"k": "client", "share": sh, "how": how, "kind": kind})
        for make in ("entity", "combo"):
            out.append({"k": "data", "share": sh, "make": make})
    out.append({"k": "args"})
    for d in range(1, 4 if q else 5):
        out.append({"k": "file", "depth": d})
    return out


def run(S, case):
    from sx import world
    restore()
    W = world.begin(S)
    try:
        globals()["do_" + case["k"]](S, case, W)
    finally:
        restore()


def make(W, entity_id, kind="entity", owner="own", **kw):
    """an entity, or a combination of a federation entity and a relying party"""
    from fedservice.utils import make_federation_combo, make_federation_entity
    old, W.owner = W.owner, owner
    kw.setdefault("key_config", copy.deepcopy(KEYS))
    try:
        if kind == "entity":
            return make_federation_entity(entity_id, **kw)
        kw.setdefault("entity_type", client_type("oidc"))
        return make_federation_combo(entity_id, **kw)
    finally:
        W.owner = old


def federation(e):
    return e["federation_entity"] if hasattr(e, "get_federation_entity") and not hasattr(e, "function") else e


def client_type(kind, **config):
    oidc = kind == "oidc"
    conf = dict({"redirect_uris": ["https://cb.example.org/cb"], "client_type": kind,
                 "preference": {"grant_types": ["authorization_code"], "response_types": ["code"]}}, **config)
    return {"openid_relying_party" if oidc else "oauth_client": {
        "class": "fedservice.appclient.ClientEntity", "kwargs": {"key_conf": copy.deepcopy(KEYS), "config": conf}}}


# ------------------------------------------------------------------------------------ what it has

def do_sets(S, case, W):
    from fedservice import defaults as D
    what, value = case["what"], case["value"]
    names = {"endpoints": ENDPOINTS, "services": SERVICES, "functions": FUNCTIONS}[what][:case["n"]]
    S.cover(value)
    if value == "default":
        given, want = None, DEFAULT[what]
    elif value == "none":
        given, want = [], []
    else:
        want = [n for n in names if S.flag("has." + n)]
        S.assume(len(want) > 0)
        given = list(want)
        if value == "specs":
            spec = D.FEDERATION_ENDPOINTS if what == "endpoints" else D.SERVICES
            given = {n: dict(copy.deepcopy(spec[n]), **({"path": "p/" + n} if what == "endpoints" else {})) for n in want}
    before = copy.deepcopy(given)
    info = {"case": case, "given": before}
    r, e = call(make, W, A, case["make"], **{what: given})
    S.observe("built", r == "ok")
    S.check(r == "ok", "an entity can be built with any of the services", dict(info, how=repr(e)))
    if r != "ok":
        return
    fe = federation(e)
    S.check(given == before, "the configuration given is left as it was", dict(info, now=given))
    for kind, has, all_ in (("endpoints", lambda n: fe.get_endpoint(n) is not None, ENDPOINTS),
                            ("services", lambda n: fe.client is not None and fe.get_service(n) is not None, SERVICES),
                            ("functions", lambda n: fe.get_function(n) is not None, FUNCTIONS)):
        w = sorted(want if kind == what else DEFAULT[kind])
        r, got = call(lambda: sorted(n for n in all_ if has(n)))
        S.check(r == "ok" and got == w, f"an entity has the {kind} it is given", dict(info, want=w, got=repr(got)))
    ends = want if what == "endpoints" else DEFAULT["endpoints"]
    md = fe.get_metadata()["federation_entity"]
    for n in ENDPOINTS[1:]:
        if n == "who":      # has no name in the federation's metadata
            continue
        name = f"federation_{n}_endpoint"
        url = md.get(name)
        if n in ends:
            path = "p/" + n if value == "specs" and what == "endpoints" else PATHS.get(n, n)
            S.check(url == f"{A}/{path}", "an entity publishes the endpoints it has", dict(info, metadata=md))
        else:
            S.check(not url, "an entity publishes no endpoints it does not have", dict(info, metadata=md))
    if "entity_configuration" in ends:
        r, res = call(fe.server.endpoint["entity_configuration"].process_request, {})
        S.check(r == "ok" and W.opened(res["response"])[1]["iss"] == A, "it can be asked for its configuration", info)


# ----------------------------------------------------------------------------------- whom it trusts

def do_anchors(S, case, W):
    """every entity trusts the anchors it has been given, with the keys it has been given"""
    F = c07.Federation(S, W)
    F.hints = {L: [TA, TB], TA: [], TB: []}
    ids = [B, A, C][:len(case["how"])]
    order = S.choose("order", ["fwd", "rev"])
    trust, ents = {}, {}
    for n, e in enumerate(ids):
        how = case["how"][n]
        if how == "shared":
            trust[e] = dict(trust[ids[0]])
            continue
        trust[e] = {}
        if how != "none":
            t = S.choose(f"anchor{n}", [TA, TB])
            trust[e][t] = S.choose(f"key{n}", ["right", "wrong"])
            if how == "both":
                trust[e][TB if t == TA else TA] = "right"

    def jwks(t, k):
        return F.jwks(t) if k == "right" else F.jwks("https://evil.example.com")
    common = {t: jwks(t, k) for t, k in trust[ids[0]].items()}
    for e in ids if order == "fwd" else ids[::-1]:
        how = case["how"][ids.index(e)]
        given = {t: jwks(t, k) for t, k in trust[e].items()}
        kw = {}
        if "shared" in case["how"]:
            kw["trust_anchors"] = common
        elif how in ("param", "both"):
            kw["trust_anchors"] = given
        if how == "init":
            kw["init_kwargs"] = {"function": {"trust_chain_collector": {"trust_anchors": given}}}
        elif how == "both":
            kw["init_kwargs"] = {"function": {"trust_chain_collector": {"allowed_delta": 30}}}
        r, x = call(make, W, e, case["make"], **kw)
        S.check(r == "ok", "an entity is built", {"case": case, "how": repr(x)})
        if r != "ok":
            return
        ents[e] = federation(x)
        if how == "added":
            for t, j in given.items():
                call(ents[e].add_trust_anchor, t, j)
            S.cover("added")
        elif how == "shared":
            t = TB if TA in trust[e] else TA
            call(ents[e].add_trust_anchor, t, F.jwks(t))
            trust[e][t] = "right"
            S.cover("added")
    for e in ids:
        r, tcs = call(c07.resolve, ents[e], L, "")
        got = sorted(str(tc.anchor) for tc in tcs) if r == "ok" else []
        want = sorted(t for t, k in trust[e].items() if k == "right")
        S.observe("got" + e, got)
        S.cover("trusted" if want else "wrong-key" if trust[e] else "not-trusted")
        info = {"case": case, "who": e, "order": order, "trusts": trust, "got": got}
        S.check(all(t in got for t in want), "an entity trusts the anchors it is given", info)
        S.check(all(t in want for t in got), "an entity trusts no others than those it is given", info)
        if len(want) < 2:
            S.cover("leaked-not")


def do_delta(S, case, W):
    """how long before it expires a statement is fetched again is set for every entity"""
    F = c07.Federation(S, W)
    F.hints = {L: [c07.I1], c07.I1: [TA], TA: []}
    delta = {}
    for e in (A, B):
        delta[e] = 600 if e == B and case["mine"] == "default" else S.int("delta" + e, 1, 100_000)
    ents = {}
    for e in ((A, B) if S.flag("first") else (B, A)):
        kw = {"trust_anchors": {TA: F.jwks(TA)}}
        if e == A or case["mine"] != "default":
            kw["init_kwargs"] = {"function": {"trust_chain_collector": {"allowed_delta": delta[e]}}}
            if case["how"] == "item":
                kw["init_kwargs"]["endpoint"] = {"list": {"extended": True}}
        r, x = call(make, W, e, **kw)
        S.check(r == "ok", "an entity is built", {"how": repr(x)})
        if r != "ok":
            return
        ents[e] = x
    exp = S.int("exp", 1_000_000, 3_000_000_000)
    F.exp[c07.I1, c07.I1] = F.exp[TA, c07.I1] = exp
    t2 = S.int("t2", 1, 3_000_000_000)
    W.now = 1
    call(c07.resolve, ents[B], L, "")
    n = len(F.asked)
    S.assume(t2 < exp)
    W.now = t2
    r, tcs = call(c07.resolve, ents[B], L, "")
    again = any(u == c07.I1 + c07.WELL_KNOWN for u in F.asked[n:])
    S.observe("again", again)
    S.cover("refetched" if again else "cached")
    info = {"case": case, "delta": delta, "exp": exp, "now": t2, "asked": F.asked[n:]}
    S.check(r == "ok" and len(tcs) == 1, "the entity is found", info)
    S.check(S.eq(again, t2 >= exp - delta[B]), "a statement is fetched again as long before it expires as configured", info)


# -------------------------------------------------------------------------------------- arguments

def do_args(S, case, W):
    """arguments of endpoints are for the entity they are given to"""
    ext = {}
    ents = {}
    for e in (A, B):
        how = S.choose("how" + e[8], ["none", "init", "item", "both"])
        kw = {"endpoints": ["entity_configuration", "list"]} if S.flag("named" + e[8]) else {}
        parts = [{"extended": True}, {"auth_signing_alg_values": ["ES256"]}]
        if how in ("init", "item"):
            kw["init_kwargs" if how == "init" else "item_args"] = {"endpoint": {"list": parts[0]}}
        elif how == "both":
            first = S.choose("first" + e[8], [0, 1])
            kw["init_kwargs"] = {"endpoint": {"list": parts[first]}}
            kw["item_args"] = {"endpoint": {"list": parts[1 - first]}}
            S.cover("both-args")
        ext[e] = (how != "none", ["ES256"] if how == "both" else None)
        r, x = call(make, W, e, **kw)
        S.check(r == "ok", "an entity is built", {"how": repr(x)})
        if r != "ok":
            return
        ents[e] = x
        x.server.subordinate[SUB] = {"entity_types": ["openid_provider"], "jwks": W.jwks(W.jwk("m-sub", "k"))}
    for e in (A, B):
        ep = ents[e].server.endpoint["list"]
        S.check((bool(ep.extended), getattr(ep, "auth_signing_alg_values", None) or ep.kwargs.get("auth_signing_alg_values"))
                == ext[e],
                "an endpoint has the arguments it is given, and no others", {"ext": ext, "who": e})
        S.cover("extended")


def do_http(S, case, W):
    """requests are made with the HTTP parameters of the entity that makes them"""
    hp, ents = {}, {}
    types = client_type("oidc")
    if case["how"] == "plain":      # the client is described by arguments, not by a configuration
        kw = types["openid_relying_party"]["kwargs"]
        del kw["config"]
        kw["client_type"] = "oidc"
    before = copy.deepcopy(types)
    for e in ((A, B) if S.flag("first") else (B, A)):
        hp[e] = S.choose("http" + e[8], [{}, {"verify": False}, {"timeout": 7}])
        r, x = call(make, W, e, "combo", httpc_params=dict(hp[e]),
                    entity_type=types if case["share"] else copy.deepcopy(before))
        S.check(r == "ok", "an entity is built", {"how": repr(x)})
        if r != "ok":
            return
        ents[e] = x
    for e in (A, B):
        for part in ("federation_entity", "openid_relying_party"):
            info = {"case": case, "http": hp, "who": e, "part": part}
            n = len(W.requests)
            p = ents[e][part]
            if part == "federation_entity":
                call(p.do_request, "entity_configuration", request_args={"entity_id": L}, entity_id=L)
                call(p.function.trust_chain_collector.get_document, L + c07.WELL_KNOWN)
            else:
                p.context.issuer = L
                call(p.do_request, "provider_info")
            made = W.requests[n:]
            S.observe(e + part, len(made))
            S.check(len(made) == (2 if part == "federation_entity" else 1), "a request is made", info)
            for _, url, kw in made:
                got = {k: v for k, v in kw.items() if k in ("verify", "timeout")}
                S.check(got == hp[e], "requests are made with the entity's HTTP parameters", dict(info, got=got))
        S.cover("http")


# ----------------------------------------------------------------------------------- clients, providers

def do_server(S, case, W):
    """providers built from the same configuration are different providers"""
    from sx import app
    ents = {}
    spec = None
    for e in ((A, B) if S.flag("first") else (B, A)):
        r, x = call(app.server, e, {}, kind=case["kind"], **({"spec": spec} if case["share"] and spec else {}))
        S.check(r == "ok", "an entity is built", {"how": repr(x)})
        if r != "ok":
            return
        ents[e] = x[0]
        spec = app.last_spec
    name = "openid_provider" if case["kind"] == "oidc" else "oauth_authorization_server"
    for e in (A, B):
        md = ents[e].get_metadata()
        info = {"case": case, "who": e, "metadata": md}
        S.check(sorted(md) == sorted([name, "federation_entity"]), "it has metadata of the types it has", info)
        S.check(md[name].get("issuer") == e, "a provider is the issuer", info)
        for n in ("authorization_endpoint", "federation_registration_endpoint"):
            S.check(str(md[name].get(n, "")).startswith(e + "/"), "its endpoints are its own", info)
        S.cover("provider")


def do_client(S, case, W):
    """a client has the services of its type, and publishes what it is configured with"""
    kind, how = case["kind"], case["how"]
    name = "openid_relying_party" if kind == "oidc" else "oauth_client"
    base = {"oidc": ["accesstoken", "authorization", "provider_info", "refresh_token", "registration", "userinfo"],
            "oauth2": ["accesstoken", "authorization", "refresh_token", "registration", "server_metadata"]}[kind]
    ents, said = {}, {}
    meta = bool(S.flag("meta"))

    def config(label):
        said[label] = {"redirect_uris": ["https://" + label + "/cb"]}
        if meta:
            said[label]["client_name"] = "name of " + label
        c = {"redirect_uris": list(said[label]["redirect_uris"])}
        if meta:
            c["metadata"] = {"client_name": said[label]["client_name"]}
        if how == "config":
            c["client_type"] = kind
        kw = {"config": c, "key_conf": copy.deepcopy(KEYS)}
        if how == "arg":
            kw["client_type"] = kind
        return {name: {"class": "fedservice.appclient.ClientEntity", "kwargs": kw}}
    types = {A: config("one")}
    types[B] = types[A] if case["share"] else config("two")
    for e in ((A, B) if S.flag("first") else (B, A)):
        r, x = call(make, W, e, "combo", entity_type=types[e])
        S.check(r == "ok", "an entity is built", {"how": repr(x)})
        if r != "ok":
            return
        ents[e] = x
    for e in (A, B):
        cl = ents[e][name]
        want = said["one" if e == A or case["share"] else "two"]
        info = {"case": case, "who": e, "services": sorted(cl.get_services().keys()), "want": want}
        S.check(sorted(cl.get_services().keys()) == base, "a client has the services of its type", info)
        S.check(cl.get_client_id() == e, "a client is the entity it is part of", info)
        md = ents[e].get_metadata()
        info["metadata"] = md
        S.check(sorted(md) == sorted([name, "federation_entity"]), "it has metadata of the types it has", info)
        S.check(all(md[name].get(k) == v for k, v in want.items()) and ("client_name" in md[name]) == meta,
                "what a client is configured with is published", info)
        S.cover("client")
    if meta:
        S.cover("metadata")


# ---------------------------------------------------------------------------------- what it is told

def do_data(S, case, W):
    """subordinates, policies, trust marks and claims of an entity are those it has been given"""
    data = {}

    def configured(e):
        d = {"subordinate": {}, "metadata_policy": {}, "trust_marks": [], "preference": {}}
        n = e[8]
        if S.flag("sub" + n):
            d["subordinate"][SUB] = {"jwks": W.jwks(W.jwk("m-sub", "k-sub")), "entity_types": ["openid_provider"]}
            if S.flag("pol" + n):
                d["metadata_policy"][SUB] = {"metadata": {"openid_provider": {"client_name": "by " + e}}}
        if S.flag("tm" + n):
            d["trust_marks"] = ["tm of " + e]
        if S.flag("pref" + n):
            d["preference"] = {"organization_name": "org " + e}
        return d
    data[A] = configured(A)
    data[B] = data[A] if case["share"] else configured(B)
    want = {e: copy.deepcopy(d) for e, d in data.items()}
    ents = {}
    for e in ((A, B) if S.flag("first") else (B, A)):
        r, x = call(make, W, e, case["make"], **{k: v for k, v in data[e].items()}, endpoints=ENDPOINTS[:3])
        S.check(r == "ok", "an entity is built", {"how": repr(x)})
        if r != "ok":
            return
        ents[e] = federation(x)
    late = S.choose("late", ["no", "sub", "pol", "tm"])
    other = "https://other.example.org"
    if late == "sub":
        ents[A].server.subordinate[other] = {"jwks": W.jwks(W.jwk("m-other", "k-other"))}
        want[A]["subordinate"][other] = {}
    elif late == "pol":
        ents[A].server.policy[SUB] = {"metadata": {"openid_provider": {"client_name": "late"}}}
        want[A]["metadata_policy"][SUB] = {"metadata": {"openid_provider": {"client_name": "late"}}}
    elif late == "tm" and want[A]["trust_marks"]:
        ents[A].context.trust_marks.append("late tm")
        want[A]["trust_marks"].append("late tm")
    for e in (A, B):
        info = {"case": case, "who": e, "want": want[e], "late": late}
        r, res = call(ents[e].server.endpoint["list"].process_request, {})
        got = sorted(json.loads(res["response_msg"])) if r == "ok" else None
        S.check(got == sorted(want[e]["subordinate"]), "an entity lists the subordinates it is given",
                dict(info, got=repr(res)))
        r, res = call(ents[e].server.endpoint["entity_configuration"].process_request, {})
        pl = W.opened(res["response"])[1] if r == "ok" else {}
        S.check(list(pl.get("trust_marks", [])) == want[e]["trust_marks"], "an entity has the trust marks it is given",
                dict(info, got=pl))
        S.check(pl.get("metadata", {}).get("federation_entity", {}).get("organization_name")
                == want[e]["preference"].get("organization_name"), "an entity says of itself what it is configured with",
                dict(info, got=pl))
        for s in (SUB, other):
            r, res = call(ents[e].server.endpoint["fetch"].process_request, {"sub": s})
            ok = r == "ok" and "response_msg" in res and W.is_token(res["response_msg"])
            S.check(ok == (s in want[e]["subordinate"]), "statements are made about the subordinates given",
                    dict(info, sub=s, got=repr(res)))
            if ok:
                S.cover("subordinate")
                pl = W.opened(res["response_msg"])[1]
                w = want[e]["metadata_policy"].get(s, {}).get("metadata", {})
                S.check((pl.get("metadata") or {}) == w, "statements have the policy given", dict(info, got=pl))
                if w:
                    S.cover("policy")
        if want[e]["trust_marks"]:
            S.cover("mark")


# ------------------------------------------------------------------------------------------- files

def do_file(S, case, W):
    """every value that is said to be in a file is what is in that file"""
    from fedservice.utils import load_values_from_file
    tmp = tempfile.mkdtemp(prefix="sx08")
    old = os.getcwd()
    count = [0]
    try:
        os.chdir(tmp)

        def value(d):
            """a value as written in the configuration, and what it stands for"""
            i = count[0] = count[0] + 1
            kinds = ["text", "number", "json", "missing"] + (["dict", "list"] if d else [])
            if d < case["depth"]:
                kinds.remove("missing" if d else "number")
            k = S.choose(f"kind{i}", kinds if i < 5 else ["text", "json"])
            if k == "text":
                t = S.choose(f"text{i}", ["plain", "a file:x.json", ""])
                return t, t
            if k == "number":
                n = S.int(f"n{i}", 0, 9)
                return n, n
            if k == "missing":
                S.cover("no-file")
                return f"file:none{i}.json", None
            if k == "json":
                S.cover("file")
                v = {"v": S.int(f"v{i}", 0, 9), "f": "file:v.json"}
                where = os.path.join(tmp, f"f{i}.json") if i % 2 else f"f{i}.json"
                with open(where, "w") as f:
                    f.write(W.text(v))
                return "file:" + where, v
            if k == "dict":
                pairs = {n: value(d - 1) for n in ("x", "file:y.json")}
            else:
                pairs = dict(enumerate(value(d - 1) for _ in range(2)))
                S.cover("list-file")
                return [p[0] for p in pairs.values()], [p[1] for p in pairs.values()]
            return {n: p[0] for n, p in pairs.items()}, {n: p[1] for n, p in pairs.items()}
        given, want = {}, {}
        for n in ("a", "b"):
            given[n], want[n] = value(case["depth"] if n == "a" else 0)
        info = {"given": given, "want": want}
        r, got = call(load_values_from_file, given)
        S.observe("ok", r == "ok")
        S.check(r == "ok", "a configuration with values in files is read", dict(info, how=repr(got)))
        if r == "ok":
            S.check(same(S, got, want), "values in files are what the files have, all others are left alone",
                    dict(info, got=got))
    finally:
        os.chdir(old)
        shutil.rmtree(tmp, ignore_errors=True)


def same(S, a, b):
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) == set(b) and all(same(S, a[k], b[k]) for k in b)
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(same(S, x, y) for x, y in zip(a, b))
    if a is None or b is None or isinstance(a, (dict, list)):
        return a is b
    return bool(S.eq(a, b))

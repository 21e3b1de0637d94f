"""What is published from files is what the files say, about the entity that was asked for."""
import os
import shutil
import tempfile
from urllib.parse import quote_plus, urlencode

from sx import engine

COVERS = ["own", "subordinate", "quoted", "https-host", "nothing", "partial", "override", "changed", "configuration",
          "fetched", "not-published", "resolved", "policy-applied", "dead-hint", "unresolved"]
BOUNDS = {
    "quick": "two publishers and five names (one a quoted entity ID with a path, one a host beginning with 'https'), any "
             "subset of the four claim files with symbolic contents, three patterns for entity IDs, the issuer given at "
             "the start or later; three questions one after the other about any two names, files changed in between; "
             "a publisher asked over HTTP by either name; a chain of up to three published entities resolved over HTTP "
             "with a dead superior before or after the one that is there",
    "thorough": "as quick, four questions",
}
ASSUMPTIONS = ["signatures, clock and HTTP as modelled in sx/world.py", "files are written and read faithfully",
               "publishers have RSA keys"]
OUTSIDE = "keys that change while one FSFetchEntityStatement lives, ports and paths in what FSPublisher is asked for, malformed files"
BUDGET = {"quick": 300, "thorough": 3600}

A, B, C, D, NO = "a.example.org", "b.example.org", "c.example.org", "https.example.org", "nobody.example.org"
Q = quote_plus("https://c.example.org/t")
SUBS = {"own": A, "sub": B, "quoted": Q, "https": D, "none": NO}
PATTERNS = ["https://{}", "https://fed.example.org/{}", "https://{}/fed"]
FILES = {"metadata": "metadata.json", "metadata_policy": "policy.json", "constraints": "constraints.json",
         "authority_hints": "authority.json"}
TYP = "openid_relying_party"


def setup(symbolic):
    from sx import world
    world.install(symbolic)
    import fedservice.fetch_entity_statement.fs2     # noqa
    world.sweep()


def cases(tier):
    out = []
    for pattern in range(3):
        for late in (False, True):
            for first in SUBS:
                out.append({"k": "api", "pattern": pattern, "late": late, "first": first,
                            "n": 3 if tier == "quick" else 4})
    out += [{"k": "files", "who": w} for w in SUBS if w != "none"]
    out += [{"k": "http", "first": f} for f in ("conf", "fetch")]
    for n in (1, 2, 3):
        for dead in ("no", "before", "after", "only"):
            out.append({"k": "resolve", "n": n, "dead": dead})
    return out


def call(f, *a, **kw):
    k, v = engine.call(f, *a, **kw)
    return (v, None) if k == "ok" else (None, v)


class Shelf:
    """files below a scratch directory, and what they say"""

    def __init__(self, S, W):
        self.S, self.W = S, W
        self.dir = tempfile.mkdtemp(prefix="c24.")
        self.said = {}

    def put(self, iss, sub, name, value):
        f = os.path.join(self.dir, iss, sub, FILES.get(name, name))
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, "w") as fp:
            fp.write(self.W.text(value))
        if name in FILES:
            self.said.setdefault((iss, sub), {})[name] = value

    def drop(self, iss, sub, name):
        f = os.path.join(self.dir, iss, sub, FILES[name])
        if os.path.isfile(f):
            os.remove(f)
        self.said.get((iss, sub), {}).pop(name, None)

    def keys(self, iss, sub):
        own = iss == sub
        self.put(iss, sub, "jwks.json", self.W.jwks(self.W.jwk("m-" + sub, "k-" + sub, kty="RSA", private=own)))
        self.said.setdefault((iss, sub), {})

    def value(self, name, tag):
        S = self.S
        if name == "metadata":
            return {TYP: {"client_name": S.atom(tag + ".name", ("x", "y"))}}
        if name == "metadata_policy":
            return {TYP: {"contacts": {"add": [S.atom(tag + ".contact", ("x", "y"))]}}}
        if name == "constraints":
            return {"max_path_length": S.int(tag + ".length", 1, 9)}
        return ["https://%s" % S.choose(tag + ".hint", (A, B))]

    def fill(self, iss, sub, names=tuple(FILES), tag=""):
        for name in names:
            t = f"{iss}.{sub}.{name}{tag}"
            if self.S.flag("file." + t):
                self.put(iss, sub, name, self.value(name, t))
            else:
                self.drop(iss, sub, name)


def run(S, case):
    from sx import world
    W = world.begin(S)
    shelf = Shelf(S, W)
    try:
        {"api": api, "files": files, "http": http, "resolve": resolve}[case["k"]](S, case, W, shelf)
    finally:
        shutil.rmtree(shelf.dir)


def judge(S, W, shelf, token, iss, sub, iss_id, sub_id, label, more=None):
    """the statement `iss` makes about `sub` is what the files say"""
    h, st = W.opened(token)
    said = dict(shelf.said[(iss, sub)])
    said.update(more or {})
    info = {"statement": st, "files": said}
    S.check(S.eq(st.get("iss"), iss_id), label + ": the publisher is the issuer", info)
    S.check(S.eq(st.get("sub"), sub_id), label + ": it is about the entity that was asked for", info)
    S.check(W.signed_by(token, "m-" + iss), label + ": the publisher signed it", info)
    ks = (st.get("jwks") or {}).get("keys", [])
    S.check([k.get("kid") for k in ks] == ["k-" + sub], label + ": it holds the subject's keys", info)
    S.check(all(not k.get("d") for k in ks), label + ": nothing private is published", info)
    for name in FILES:
        if name in said:
            S.check(S.eq(st.get(name), said[name]), f"{label}: the {name} are those in the file", info)
        else:
            S.check(name not in st, f"{label}: no {name} come from nowhere", info)
    extra = set(st) - {"iss", "sub", "iat", "exp", "jwks"} - set(FILES) - set(more or {})
    S.check(not extra, label + ": nothing else is said", dict(info, extra=sorted(extra)))
    for k, v in (more or {}).items():
        S.check(S.eq(st.get(k), v), label + ": what the caller adds is said", info)
    S.observe(label, [st.get("iss"), st.get("sub"), [k.get("kid") for k in ks], sorted(set(st))])
    return st


def ident(pattern, name):
    return "https://c.example.org/t" if name == Q else PATTERNS[pattern].format(name)


def maker(case, shelf, iss):
    from fedservice.fetch_entity_statement.fs2 import FSFetchEntityStatement
    kw = {} if case["pattern"] == 0 else {"entity_id_pattern": PATTERNS[case["pattern"]]}
    if case["late"]:
        f = FSFetchEntityStatement(shelf.dir, **kw)
        f.iss = iss
        return f
    return FSFetchEntityStatement(shelf.dir, iss=iss, **kw)


def api(S, case, W, shelf):
    """several questions to the same publisher; what is in the files may change meanwhile"""
    for sub in (A, B, Q, D):
        shelf.keys(A, sub)
        for name in ("metadata", "metadata_policy"):
            shelf.put(A, sub, name, shelf.value(name, f"{sub}.{name}"))
    # somebody else's statements about the same entities are not this publisher's
    for sub in (B, A, NO):
        shelf.keys(B, sub)
        shelf.put(B, sub, "metadata", {TYP: {"client_name": "other"}})
        shelf.put(B, sub, "constraints", {"max_path_length": 0})
    f = maker(case, shelf, A)
    for i in range(case["n"]):
        who = case["first"] if i == 0 else S.choose(f"ask{i}", list(SUBS))
        sub = SUBS[who]
        more = {}
        if i == 1 and S.flag("changed"):
            if who != "none":
                shelf.fill(A, sub, ("metadata",), tag=".2")
                S.cover("changed")
        elif i == 1 and S.flag("more"):
            more = {"metadata": {TYP: {"client_name": S.atom("mine", ("x", "y"))}}, "lang": S.atom("lang", ("sv", "en"))}
            S.cover("override")
        tok, err = call(f.create_entity_statement, sub, **more)
        if who == "none":
            S.check(tok is None, "nothing is said about an entity that is not in the files", {"err": repr(err)})
            S.cover("nothing")
            continue
        S.check(tok is not None, "the statement is made", {"who": who, "err": repr(err)})
        judge(S, W, shelf, tok, A, sub, ident(case["pattern"], A), ident(case["pattern"], sub), f"{i}: statement", more)
        S.cover({"own": "own", "sub": "subordinate", "quoted": "quoted", "https": "https-host"}[who])


def files(S, case, W, shelf):
    """any subset of the files"""
    sub = SUBS[case["who"]]
    shelf.keys(A, A)
    shelf.keys(A, sub)
    shelf.fill(A, sub)
    f = maker({"pattern": 0, "late": bool(S.flag("late"))}, shelf, A)
    tok, err = call(f.create_entity_statement, sub)
    S.check(tok is not None, "the statement is made", {"err": repr(err)})
    judge(S, W, shelf, tok, A, sub, ident(0, A), ident(0, sub), "statement")
    if len(shelf.said[(A, sub)]) < 4:
        S.cover("partial")


def http(S, case, W, shelf):
    """the same over HTTP: configurations, and statements about subordinates"""
    from fedservice.fetch_entity_statement.fs2 import FSPublisher
    there = {(A, A), (B, B), (A, B), (A, D), (B, C)}
    for iss, sub in sorted(there):
        shelf.keys(iss, sub)
    filled = set()
    p = FSPublisher(shelf.dir)
    for i in range(2):
        conf = (case["first"] == "conf") if i == 0 else bool(S.flag(f"conf{i}"))
        iss = S.choose(f"iss{i}", (A, B, D))
        if conf:
            sub, url = iss, f"https://{iss}/.well-known/openid-federation"
        else:
            sub = S.choose(f"sub{i}", (A, B, C, D, NO))
            q = {"sub": "https://" + sub}
            if i == 0 and S.flag("iss.named"):
                q["iss"] = "https://" + iss
            url = f"https://{iss}/fetch?" + urlencode(q)
        if (iss, sub) in there - filled:
            filled.add((iss, sub))
            shelf.fill(iss, sub, ("metadata", "authority_hints" if conf else "metadata_policy"))
        r, err = call(p, "GET", url)
        S.check(err is None and r is not None, "the publisher answers", {"url": url, "err": repr(err)})
        if (iss, sub) not in there:
            S.check(r.status_code == 404, "what is not published is not found", {"url": url, "status": r.status_code})
            S.cover("not-published")
            continue
        S.check(r.status_code == 200, "what is published is found", {"url": url, "status": r.status_code})
        judge(S, W, shelf, r.text, iss, sub, "https://" + iss, "https://" + sub, f"{i}: answer")
        S.cover("configuration" if conf else "fetched")


def resolve(S, case, W, shelf):
    """published entities are resolved from what is published"""
    from sx import fed
    from fedservice.fetch_entity_statement.fs2 import FSPublisher
    names = ["leaf.example.org", "int.example.org", "top.example.org"][3 - case["n"]:] + ["ta.example.org"]
    ta = names[-1]
    p = FSPublisher(shelf.dir)

    def answer(method, url, kw):
        r = p(method, url, **kw)
        return r.status_code, r.text, r.headers["Content-Type"]

    W.default_response = answer
    for i, e in enumerate(names):
        shelf.keys(e, e)
        md = {"federation_entity": {"federation_fetch_endpoint": f"https://{e}/fetch"}}
        if i == 0:
            md[TYP] = {"client_name": S.atom("name", ("x", "y"))}
        shelf.put(e, e, "metadata", md)
        if e == ta:
            continue
        up = ["https://" + names[i + 1]]
        if i == 0:
            dead = "https://" + NO
            up = {"no": up, "before": [dead] + up, "after": up + [dead], "only": [dead]}[case["dead"]]
        shelf.put(e, e, "authority_hints", up)
        shelf.keys(names[i + 1], e)
    forced = S.flag("policy")
    contact = S.atom("contact", ("x", "y"))
    if forced:
        shelf.put(ta, names[-2], "metadata_policy", {TYP: {"contacts": {"value": [contact]}}})
    limit = S.int("limit", 0, 3)
    if S.flag("limited"):
        shelf.put(ta, names[-2], "constraints", {"max_path_length": limit})
        short = limit >= case["n"] - 1
    else:
        short = True
    me = fed.entity("https://me.example.org", {"https://" + ta: W.jwks(W.jwk("m-" + ta, "k-" + ta, kty="RSA"))})
    md, err = call(me.get_verified_metadata, "https://" + names[0])
    ok = case["dead"] != "only" and bool(short)
    S.check((err is None and bool(md)) == ok, "an entity is resolved exactly when its superiors are published and allow it",
            {"metadata": md, "err": repr(err), "ok": ok})
    if not ok:
        S.cover("unresolved")
        return
    got = md[TYP]
    S.check(S.eq(got.get("client_name"), shelf.said[(names[0], names[0])]["metadata"][TYP]["client_name"]),
            "the metadata are those that are published", {"metadata": got})
    S.check(S.eq(got.get("contacts"), [contact]) if forced else "contacts" not in got,
            "the published policy is applied", {"metadata": got})
    S.observe("resolved", sorted(got))
    S.cover("resolved")
    if forced:
        S.cover("policy-applied")
    if case["dead"] in ("before", "after"):
        S.cover("dead-hint")

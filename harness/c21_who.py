"""Who offers a credential: searching a federation from an anchor down."""
import json
from urllib.parse import urlparse, parse_qs

from sx.engine import call
from harness import c07_resolution as c07
from harness.c13_resolve import Fed

COVERS = ["named", "nobody", "cycle", "liar", "fault-isolated", "other-credential", "mark", "no-mark", "untrusted", "any"]
BOUNDS = {
    "quick": "federations of an anchor, two intermediates that may list each other and themselves, and four possible issuers anywhere "
             "among them or falsely listed, each of the asked type or not and offering the credential or not; every "
             "single fault of 19 kinds at the configuration, statement or list of any of them; every combination of trust marks, with "
             "arbitrary signer, subject, id, form and status",
    "thorough": "as quick, with every issuer subject to every fault",
}
ASSUMPTIONS = c07.ASSUMPTIONS
OUTSIDE = "search from an entity that is its own anchor, paging, credentials of other than the asked issuers"
BUDGET = {"quick": 500, "thorough": 3600}

ME = "https://wallet.example.org"
I1, I2, TA, TX = c07.I1, c07.I2, c07.TA, c07.TX
P = ["https://%s.example.org" % x for x in ("pid", "geo", "tax", "far")]
TMI, EVIL = "https://tmi.example.org", "https://evil.example.com"
TYPE, OTHER = "openid_credential_issuer", "openid_credential"
CRED, CRED2 = "PersonIdentificationData", "PersonIdentificationData2"
MARK, MARK2 = "http://dc4eu.example.com/PersonIdentificationData/se", "http://dc4eu.example.com/PersonIdentificationData/se2"
PART = "http://dc4eu.example.com/PersonIdentificationData"
LIST_FAULTS = ["404", "500", "down", "garbage", "error", "none"]


def setup(symbolic):
    from sx import world
    world.install(symbolic)


def cases(tier):
    out = [{"k": "graph"}, {"k": "liar"}, {"k": "type"}, {"k": "credential"}, {"k": "untrusted"}]
    for e in (I1, I2, P[0], P[1]) + (tuple(P[2:]) if tier != "quick" else ()):
        for what in ("conf", "stmt", "list"):
            out.append({"k": "fault", "e": e, "what": what})
    for what in ("signer", "content", "status", "several", "stolen"):
        out.append({"k": "mark", "what": what})
    return out


class Search(Fed):
    def __init__(self, S, W):
        super().__init__(S, W)
        self.below = {TA: [I1, P[0]], I1: [I2, P[1]], I2: [P[2]]}
        self.types = {p: [TYPE] for p in P}
        self.creds = {p: [[CRED]] for p in P}
        self.list_fault = {}
        self.inter = [I1, I2]
        self.marks = {}
        self.status = {}
        self.told = []
        self.meta, self.extra = {}, {}

    def finish(self, also={}):
        """superiors, metadata and so on that go with it"""
        self.hints = {TA: [], TX: [], EVIL: [], ME: [TA], TMI: [TA]}
        for sup, subs in self.below.items():
            for s in subs:
                if s != sup:
                    self.hints.setdefault(s, []).append(sup)
        for p in P:
            self.hints.setdefault(p, [])
            m = {t: {} for t in self.types[p]}
            if TYPE in m:
                m[TYPE] = {"credential_issuer": p, "credentials_supported": [
                    {"format": "jwt", "credential_definition": {"type": list(t)}} for t in self.creds[p]]}
            self.meta[p] = m
        fe = "federation_entity"
        for e in (TA, I1, I2):
            self.meta[e] = {fe: {"federation_fetch_endpoint": e + "/fetch", "federation_list_endpoint": e + "/list"}}
        self.meta[TMI] = {fe: {"federation_fetch_endpoint": TMI + "/fetch", "federation_trust_mark_status_endpoint": TMI + "/status"}}
        for e, x in also.items():
            self.below.setdefault(e, []).extend(x)
        for p, marks in self.marks.items():
            self.extra[p, p] = {"trust_marks": marks}

    def answer(self, method, url, kw):
        u = urlparse(url)
        e, q = f"{u.scheme}://{u.netloc}", parse_qs(u.query)
        if u.path == "/list":
            f = self.list_fault.get(e)
            if f == "error":
                return 400, '{"error": "invalid_request"}', "application/json"
            if f == "none":
                return None
            if f:
                return self.fail(f)
            subs = list(self.below.get(e, []))
            if "entity_type" in q:
                subs = [s for s in subs if q["entity_type"][0] in self.types.get(s, ["federation_entity"])]
            if "intermediate" in q:
                subs = [s for s in subs if s in self.inter]
            return 200, json.dumps(subs), "application/json"
        if u.path == "/status":
            self.told.append(q)
            return 200, json.dumps({"active": self.status.get(q.get("sub", [None])[0], True)}), "application/json"
        return super().answer(method, url, kw)


class Run:
    def __init__(self, S):
        from sx import world, fed
        self.W = W = world.begin(S)
        W.now = 1_000_000
        self.S, self.F = S, Search(S, W)
        self.fe = fed.entity(ME, {TA: self.F.jwks(TA)}, endpoints=["entity_configuration", "who"], authority_hints=[TA],
                             services=["entity_configuration", "entity_statement", "trust_mark_status", "list"])

    def ask(self, anchor=TA, **kw):
        req = dict({"entity_type": TYPE, "credential_type": CRED, "trust_mark_id": ""}, **kw)
        r, v = call(self.fe.server.endpoint["who"].process_request, req, trust_anchor=anchor)
        got = v.get("response_args", {}).get("entities_to_use") if r == "ok" and isinstance(v, dict) else None
        self.S.observe("got", None if got is None else sorted(got))
        return got, v


def judge(S, got, v, want, info, what="exactly the proper issuers are named"):
    info = dict(info, got=got if got is not None else repr(v)[:300], want=want)
    S.check(got is not None, "there is an answer", info)
    if got is None:
        return
    S.check(all(x in want for x in got), "nobody else is named", info)
    S.check(all(x in got for x in want), what, info)
    S.check(len(got) == len(set(got)), "nobody is named twice", info)
    S.cover("named" if want else "nobody")


def run(S, case):
    globals()["do_" + case["k"]](S, case, Run(S))


def do_graph(S, case, R):
    F = R.F
    up = {P[i]: S.choose(f"under{i}", [TA, I1, I2, None][i % 2:]) for i in range(3)}
    i2 = S.choose("i2", [I1, TA])
    F.below = {TA: [I1], I1: [], I2: []}
    F.below[i2].append(I2)
    for p, s in up.items():
        if s:
            F.below[s].append(p)
    for i in range(3):
        if i < 2 and S.flag(f"other{i}"):
            F.types[P[i]] = [OTHER]
    F.finish()
    loops = [x for x in ((I1, I1), (I2, I1), (I2, I2)) if S.flag(f"loop.{x[0][8:11]}.{x[1][8:11]}")]
    for sup, sub in loops:
        F.below[sup].append(sub)
        if sub not in F.hints or sup not in F.hints[sub]:
            F.hints.setdefault(sub, []).append(sup)
    if loops:
        S.cover("cycle")
    got, v = R.ask()
    judge(S, got, v, [p for p in P[:3] if up.get(p) and F.types[p] == [TYPE]], {"under": up, "i2": i2, "loops": loops, "types": F.types})


def do_liar(S, case, R):
    F = R.F
    liar = S.choose("liar", [TA, I1, I2])
    F.below[TA].append(TMI)
    F.finish()
    kind = S.choose("kind", ["unregistered", "foreign", "nowhere", "junk", "itself"])
    x = {"unregistered": P[3], "foreign": P[3], "nowhere": "https://nowhere.example.org", "junk": "not an id", "itself": liar}[kind]
    F.below[liar].append(x)
    F.types.setdefault(x, [TYPE])
    if kind == "foreign":
        F.hints[P[3]] = [TX]
    S.cover("liar")
    got, v = R.ask()
    judge(S, got, v, P[:3], {"liar": liar, "kind": kind})


def do_type(S, case, R):
    F = R.F
    for i, p in enumerate(P[:3]):
        F.types[p] = S.choose(f"types{i}", [[TYPE], [OTHER], [TYPE, OTHER]])
    F.finish()
    t = S.choose("ask", [TYPE, OTHER, "oauth_client"])
    S.cover("any")
    got, v = R.ask(entity_type=t, credential_type="")
    judge(S, got, v, [p for p in P[:3] if t in F.types[p]], {"types": F.types, "asked": t})


def do_credential(S, case, R):
    F = R.F
    sets = [[], [[CRED2]], [[CRED]], [[CRED2], [CRED]], [[CRED2, CRED]]]
    for i, p in enumerate(P[:3]):
        F.creds[p] = S.choose(f"creds{i}", sets)
    F.finish()
    bare = S.choose("bare", [None, "nocreds", "nodef", "notype"])
    if bare:
        m = F.meta[P[0]][TYPE]
        if bare == "nocreds":
            del m["credentials_supported"]
            F.creds[P[0]] = []
        else:
            m["credentials_supported"].append({"format": "jwt"} if bare == "nodef" else {"credential_definition": {}})
    if any(not any(CRED in t for t in F.creds[p]) for p in P[:3]):
        S.cover("other-credential")
    got, v = R.ask()
    judge(S, got, v, [p for p in P[:3] if any(CRED in t for t in F.creds[p])], {"creds": F.creds, "bare": bare})


def do_untrusted(S, case, R):
    R.F.finish()
    a = S.choose("anchor", [TX, I1, "", EVIL])
    got, v = R.ask(anchor=a)
    S.check(not got, "only configured anchors are searched", {"anchor": a, "got": got})
    S.check(not R.W.requests, "nobody is asked about others", {"anchor": a, "asked": R.F.asked})
    S.cover("untrusted")


def do_fault(S, case, R):
    F, e, what = R.F, case["e"], case["what"]
    F.finish()
    lost = {I1: [P[1], P[2]], I2: [P[2]]}.get(e, [e])
    if what == "conf":
        f = S.choose("how", c07.CONF_FAULTS)
        F.conf_fault[e] = f
        if f in ("noendpoint", "nofed"):
            if e in F.meta:
                F.meta[e].pop("federation_entity", None)
            # what it publishes is genuine, but nothing below it can be verified (or an issuer says nothing about itself)
            lost = lost if e in (I1, I2) else [] if f == "noendpoint" else None
    elif what == "stmt":
        sup = F.hints[e][0]
        F.stmt_fault[e, sup] = f = S.choose("how", c07.STMT_FAULTS)
    else:
        if e not in (I1, I2):
            F.below[e] = []
            F.meta[e]["federation_entity"] = {"federation_list_endpoint": e + "/list"}
        F.list_fault[e] = f = S.choose("how", LIST_FAULTS)
        lost = lost if e in (I1, I2) else []
    got, v = R.ask()
    want = [p for p in P[:3] if lost is None or p not in lost]
    if lost is None and got is not None:
        got = [p for p in got if p != e] + ([e] if e in want else [])
    S.cover("fault-isolated")
    judge(S, got, v, want, {"e": e, "what": what, "how": f}, "one bad entity does not hide others")


def do_mark(S, case, R):
    F, W, what = R.F, R.W, case["what"]
    F.below[TA].append(TMI)
    F.types[TMI] = ["federation_entity"]
    p = P[1]
    good = True
    info = {"what": what}

    def mark(sub=p, id=MARK, by=("m-tmi", "k-tmi"), iss=TMI, tampered=False, exp=None):
        pl = {"iss": iss, "sub": sub, "id": id, "iat": 5}
        if exp is not None:
            pl["exp"] = exp
        return W.sign(pl, *by, typ="trust-mark+jwt", tampered=tampered)
    F.marks = {P[0]: [mark(P[0])]}
    if what == "signer":
        by = info["by"] = S.choose("by", [("m-tmi", "k-tmi"), ("m-evil", "k-tmi"), ("m-geo", "k-geo")])
        iss = info["iss"] = S.choose("iss", [TMI, EVIL, p])
        t = info["tampered"] = S.flag("tampered")
        F.marks[p] = [mark(by=by, iss=iss, tampered=t)]
        good = by[0] == "m-tmi" and iss == TMI and not t
    elif what == "content":
        sub, idd, exp = S.choose("sub", [p, P[2]]), S.choose("id", [MARK, MARK2, PART, ""]), S.choose("exp", [None, 5, 2_000_000])
        F.marks[p] = [mark(sub=sub, id=idd, exp=exp)]
        info.update(sub=sub, id=idd, exp=exp)
        good = sub == p and idd == MARK and exp != 5
    elif what == "status":
        F.marks[p] = [mark()]
        good = F.status[p] = bool(S.flag("active"))
    elif what == "stolen":
        # an intermediate passes the mark issuer off as its own subordinate, with keys of its choice
        by = info["by"] = S.choose("by", ["m-tmi", "m-evil"])
        F.marks[p] = [mark(by=(by, "k-tmi"))]
        good = by == "m-tmi"
        F.inter.append(TMI)
    else:
        one, two = S.choose("one", ["good", "junk", "other", "foreign"]), S.choose("two", ["good", "junk", "other", None])
        make = {"good": mark, "junk": lambda: "junk", "other": lambda: mark(id=MARK2), "foreign": lambda: mark(iss=EVIL)}
        F.marks[p] = [make[x]() for x in (one, two) if x]
        info.update(one=one, two=two)
        good = "good" in (one, two)
    F.finish()
    if what == "stolen":
        F.below[I1].append(TMI)
        F.extra[I1, TMI] = {"jwks": W.jwks(W.jwk("m-evil", "k-tmi"))}
    asked = S.choose("ask", [MARK, ""])
    info["asked"] = asked
    got, v = R.ask(trust_mark_id=asked)
    S.cover("mark" if good else "no-mark")
    judge(S, got, v, P[:3] if not asked else [P[0]] + ([p] if good else []), info)

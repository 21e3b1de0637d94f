"""Resolving an entity: exactly the valid trust chains, whatever the federation looks like."""
from urllib.parse import urlparse, parse_qs

from sx.engine import call

COVERS = ["no-chain", "several", "cycle", "foreign-root", "fault-isolated", "anchored-twice", "second-time",
          "refetched", "stop", "again", "tenant", "outage", "own-superior"]
BOUNDS = {
    "quick": "federations of a leaf, two intermediates and three roots (two of them configured anchors), each of the "
             "possible superior relations between them present or not, cyclic ones included, resolved once, "
             "repeatedly, from different starting points and up to a given entity; chains of up to nine statements and anchors that name "
             "themselves; every single fault of "
             "15 kinds at any entity configuration or subordinate statement; histories of two resolutions with "
             "arbitrary clocks and expiry times at every statement and a superior that withdraws, renews or cannot be reached for a while; "
             "entities that share a host, which is an entity itself, or answers anything",
    "thorough": "as quick, with two faults at a time and three intermediates",
}
ASSUMPTIONS = ["HTTP is a function from URL to status, content type and body, or a connection error",
               "a signature verifies exactly with the key that made it", "anchors have no superiors but themselves"]
OUTSIDE = "metadata policies (C01-C03), constraints (C05), redirects, more than eight superiors"
BUDGET = {"quick": 600, "thorough": 5400}

L, I1, I2, I3 = ("https://%s.example.org" % x for x in ("leaf", "im1", "im2", "im3"))
TA, TB, TX = ("https://%s.example.org" % x for x in ("ta", "tb", "tx"))
HOST = "https://host.example.org"
WELL_KNOWN = "/.well-known/openid-federation"
ME = "https://me.example.org"
FAR = 4_000_000_000

GRAPHS = {
    "dag1": {L: [I1, I2, TA], I1: [I2, TA], I2: [TB, TX]},
    "dag2": {L: [I1, I2], I1: [I2, TA, TB], I2: [TA, TB]},
    "cyc1": {L: [I1, TA], I1: [I2, TA, L], I2: [I1, TB, L]},
    "cyc2": {L: [L, I1], I1: [I1, I2, TA], I2: [I1, I2, TA]},
    "cyc3": {L: [I1, I2], I1: [I2, I3, TA], I2: [I3, I1], I3: [I1, I2, TB]},
}
DEEP = ["https://d%d.example.org" % i for i in range(1, 7)]
GRAPHS["deep"] = {L: DEEP[:1], **{DEEP[i]: [DEEP[i + 1]] for i in range(5)}, DEEP[4]: [DEEP[5], TA], DEEP[5]: [TA, TB, L]}
GRAPHS["selfish"] = {L: [I1, TA, TB], I1: [TB, TA]}     # anchors that name themselves as superiors
FIXED = {L: [I1, I2, TA], I1: [TA], I2: [TB, I1]}
CONF_FAULTS = ["404", "500", "down", "garbage", "forged", "other", "noendpoint", "nofed", "nohints"]
STMT_FAULTS = ["404", "500", "down", "garbage", "forged", "badsig", "othersub", "otheriss", "nojwks", "empty"]
OWN_FAULTS = STMT_FAULTS + ["refusing"]


def setup(symbolic):
    from sx import world
    world.install(symbolic)


def cases(tier):
    out = [{"k": "graph", "g": g, "ask": [L]} for g in GRAPHS]
    for g in ("dag2", "cyc1", "cyc2") if tier == "quick" else GRAPHS:
        out += [{"k": "graph", "g": g, "ask": a} for a in ([I1, L], [L, I1, L], [I2, L])]
        for stop in (TA, I1):
            out.append({"k": "graph", "g": g, "ask": [L], "stop": stop})
    for e in (I1, I2, TA, TB):
        out.append({"k": "fault", "conf": [e], "stmt": []})
    stm = [(s, p) for s, ps in FIXED.items() for p in ps]
    for s, p in stm:
        out.append({"k": "fault", "conf": [], "stmt": [[s, p]]})
    if tier != "quick":
        for i, a in enumerate(stm):
            for b in stm[i + 1:]:
                out.append({"k": "fault", "conf": [], "stmt": [list(a), list(b)]})
            for e in (I1, I2):
                out.append({"k": "fault", "conf": [e], "stmt": [list(a)]})
    for who in ("leaf", "im", "ta", "leaf+im", "all", "below"):
        out.append({"k": "tenant", "who": who})
    for what in ("leaf", "stmt", "top", "im"):
        for change in ("same", "renew", "withdraw", "outage"):
            if (what, change) != ("im", "withdraw"):
                out.append({"k": "time", "what": what, "change": change})
    return out


class Federation:
    """serves entity configurations and subordinate statements"""

    def __init__(self, S, W):
        self.S, self.W = S, W
        self.hints = {}             # entity -> list of superiors it names
        self.edges = None           # entity -> candidate superiors (decided when first asked)
        self.conf_fault, self.stmt_fault = {}, {}
        self.exp = {}               # (iss, sub) -> expiry
        self.asked = []
        self.hosts = {}             # host that is not an entity -> what it answers
        W.default_response = self.answer

    def superiors(self, e):
        if e not in self.hints:
            n = e.split("//")[1].split(".")[0]
            self.hints[e] = [p for p in self.edges.get(e, [])
                             if self.S.flag(f"hint.{n}.{p.split('//')[1].split('.')[0]}")]
        return self.hints[e]

    def key(self, e):
        n = e.split("//")[1].split(".")[0] + "".join("-" + x for x in e.split("/")[3:] if x)
        return "m-" + n, "k-" + n

    def sign(self, by, payload, **kw):
        m, k = self.key(by)
        return self.W.sign(payload, m, k, typ="entity-statement+jwt", **kw)

    def jwks(self, e):
        return self.W.jwks(self.W.jwk(*self.key(e)))

    def answer(self, method, url, kw):
        u = urlparse(url)
        e = f"{u.scheme}://{u.netloc}"
        self.asked.append(url)
        if u.path.endswith(WELL_KNOWN):
            e += u.path[:-len(WELL_KNOWN)]
            e += "/" if e + "/" in self.hints else ""
            return self.config(e) if e not in self.hosts else self.hosts[e]()
        if u.path.endswith("/fetch"):
            q = parse_qs(u.query)
            e += u.path[:-len("/fetch")]
            return self.statement(q.get("iss", [e])[0], q.get("sub", [e])[0], e)
        return None

    def fail(self, f):
        if f in ("404", "500"):
            return int(f), "error", "text/plain"
        if f == "down":
            from requests.exceptions import ConnectionError
            raise ConnectionError("down")
        if f == "garbage":
            return self.ok("this is not a JWS")
        if f == "empty":
            return self.ok("")

    def ok(self, tok):
        return 200, tok, "application/entity-statement+jwt"

    def config(self, e, f=""):
        f = self.conf_fault.get(e) if f == "" else f
        if f in ("404", "500", "down", "garbage"):
            return self.fail(f)
        pl = {"iss": e, "sub": e, "iat": 0, "exp": self.exp.get((e, e), FAR), "jwks": self.jwks(e),
              "metadata": {"federation_entity": {"federation_fetch_endpoint": e + "/fetch"}}}
        if self.superiors(e) and f != "nohints":
            pl["authority_hints"] = list(self.superiors(e))
        if f == "noendpoint":
            del pl["metadata"]["federation_entity"]["federation_fetch_endpoint"]
        elif f == "nofed":
            pl["metadata"] = {"openid_relying_party": {}}
        elif f == "other":
            pl["iss"] = pl["sub"] = "https://other.example.com"
            pl["metadata"]["federation_entity"]["federation_fetch_endpoint"] = "https://other.example.com/fetch"
            pl["jwks"] = self.jwks("https://other.example.com")
            return self.ok(self.sign("https://other.example.com", pl))
        elif f == "forged":
            return self.ok(self.sign("https://evil.example.com", pl))
        return self.ok(self.sign(e, pl))

    def statement(self, iss, sub, host):
        f = self.stmt_fault.get((sub, host))
        if f in ("404", "500", "down", "garbage", "empty"):
            return self.fail(f)
        if self.edges is not None and sub != host and host not in self.edges.get(sub, []):
            return None
        if (iss, sub) in self.exp and self.exp[iss, sub] is None:
            return None
        pl = {"iss": host, "sub": sub, "iat": 0, "exp": self.exp.get((iss, sub), FAR), "jwks": self.jwks(sub)}
        if f == "othersub":
            pl["sub"] = "https://other.example.com"
        elif f == "otheriss":
            pl["iss"] = "https://other.example.com"
        elif f == "nojwks":
            del pl["jwks"]
        elif f == "refusing":
            pl["metadata_policy"] = {"federation_entity": {"federation_fetch_endpoint": {"one_of": ["nowhere"]}}}
        elif f == "forged":
            return self.ok(self.sign("https://evil.example.com", pl))
        elif f == "badsig":
            return self.ok(self.sign(host, pl, tampered=True))
        return self.ok(self.sign(host, pl))

    def good(self, e, p, leaf):
        """may a chain go from e up to p"""
        return p in self.superiors(e) and not self.stmt_fault.get((e, p)) and not self.conf_fault.get(p)

    def paths(self, e, roots, seen=()):
        if e in roots:
            if self.hints.get(e):
                self.S.cover("own-superior")
            return [[e]]
        out = []
        for p in self.superiors(e):
            if p in seen or p == e:
                continue
            if self.stmt_fault.get((e, p)) or self.conf_fault.get(p):
                continue
            out += [[e] + x for x in self.paths(p, roots, tuple(seen) + (e,))]
        return out


def cyclic(fed, e, seen=()):
    if e in seen:
        return True
    return any(cyclic(fed, p, tuple(seen) + (e,)) for p in fed.hints.get(e, []))


def run(S, case):
    from sx import world, fed
    W = world.begin(S)
    F = Federation(S, W)
    if case["k"] == "tenant":
        return tenants(S, W, F, case)
    anchors = {a: F.jwks(a) for a in (TA, TB)}
    fe = fed.entity(ME, anchors)
    from fedservice.entity.function import get_verified_trust_chains

    if case["k"] == "time":
        return timed(S, W, F, fe, case)
    if case["k"] == "graph":
        F.edges = GRAPHS[case["g"]]
        for a in (TA, TB, TX):
            F.hints[a] = [a] if case["g"] == "selfish" and a != TX and S.flag("self." + a) else []
    else:
        F.hints = {k: list(v) for k, v in FIXED.items()}
        for a in (TA, TB, TX):
            F.hints[a] = []
        for e in case["conf"]:
            F.conf_fault[e] = S.choose("cf." + e, [f for f in CONF_FAULTS if f != "nohints" or e in (I1, I2)])
        for s, p in case["stmt"]:
            F.stmt_fault[s, p] = S.choose(f"sf.{s}.{p}", OWN_FAULTS)
    for n, leaf in enumerate(case.get("ask", [L])):
        ask(S, F, fe, case, n, leaf)


def resolve(fe, leaf, stop):
    from fedservice.entity import function as f
    if not stop:
        return f.get_verified_trust_chains(fe, leaf)
    chains, ec = f.collect_trust_chains(fe, leaf, stop_at=stop)
    return f.verify_trust_chains(fe, chains, ec)


def ask(S, F, fe, case, n, leaf):
    stop = case.get("stop", "")
    r, tcs = call(resolve, fe, leaf, stop)
    got = sorted([[str(x) for x in tc.iss_path] for tc in tcs]) if r == "ok" else None
    S.observe(f"got{n}", got)
    want = sorted(F.paths(leaf, (TA, TB)))
    if stop:
        # what lies above the entity to stop at is not asked for
        want = [p for p in want if stop not in p[:-1]]
        S.cover("stop")
    sf = {k: v for k, v in F.stmt_fault.items()}
    for (s, p), f in sf.items():
        if f == "otheriss" and any(f2 == "othersub" and s2 == p for (s2, _), f2 in sf.items()):
            return      # together they make a proper chain via somebody else
    if n:
        S.cover("again")
    if case["k"] == "graph":
        if cyclic(F, leaf):
            S.cover("cycle")
        if any(p[-1] == TX for p in F.paths(leaf, (TA, TB, TX))):
            S.cover("foreign-root")
    elif want:
        S.cover("fault-isolated")
    if not want:
        S.cover("no-chain")
    if len(want) > 1:
        S.cover("several")
        if len({p[-1] for p in want}) < len(want):
            S.cover("anchored-twice")
    info = {"hints": F.hints, "faults": [{str(k): v for k, v in d.items()} for d in (F.conf_fault, F.stmt_fault)],
            "asked": leaf, "got": got, "want": want, "how": repr(tcs) if r != "ok" else ""}
    if not want:
        S.check(not got, "no chain is made up", info)
        return
    S.check(r == "ok", "resolution of an entity with a valid chain succeeds", info)
    S.check(all(p in want for p in got), "only valid chains are returned", info)
    S.check(all(p in got for p in want), "every valid chain is found", info)
    S.check(len(got) == len(want), "no chain is returned twice", info)
    S.check(all(tc.anchor == tc.iss_path[-1] and tc.iss_path[0] == leaf for tc in tcs),
            "a chain leads from the entity to its anchor", info)


def timed(S, W, F, fe, case):
    """leaf <- intermediate <- anchor, resolved at two moments"""
    from fedservice.entity.function import get_verified_trust_chains
    F.hints = {L: [I1], I1: [TA], TA: []}
    which = {"leaf": (L, L), "stmt": (I1, L), "top": (TA, I1), "im": (I1, I1)}[case["what"]]
    t1 = S.int("t1", 1, 3_000_000_000)
    t2 = S.int("t2", 1, 3_000_000_000)
    S.assume(t1 <= t2)
    e1 = S.int("e1", 1, 3_900_000_000)
    S.assume(t1 <= e1)
    F.exp[which] = e1
    W.now = t1
    r, tcs = call(get_verified_trust_chains, fe, L)
    S.observe("first", len(tcs) if r == "ok" else None)
    S.check(r == "ok" and len(tcs) == 1, "a valid chain is found", {"t1": t1, "e1": e1})
    if r != "ok" or len(tcs) != 1:
        return
    e2 = e1
    W.now = t2
    n = len(F.asked)
    if case["change"] == "renew":
        e2 = F.exp[which] = S.int("e2", 1, 3_900_000_000)
        S.assume(e1 <= e2)
    elif case["change"] == "withdraw":
        if which == (L, L):
            F.conf_fault[L] = "404"
        else:
            F.exp[which] = None
    elif case["change"] == "outage":
        iss, sub = which
        bad = F.conf_fault if iss == sub else F.stmt_fault
        at = sub if iss == sub else (sub, iss)
        bad[at] = S.choose("outage", ["down", "500", "404", "garbage"])
        r, tcs = call(get_verified_trust_chains, fe, L)
        ok = r == "ok" and len(tcs) > 0
        S.observe("meanwhile", ok)
        S.check(S.implies(ok and case["what"] != "im", t2 <= e1), "a statement is not used after it has expired", {"t2": t2, "e1": e1})
        del bad[at]
        e2 = F.exp[which] = S.int("e2", 1, 3_900_000_000)
        S.assume(e1 <= e2)
        W.now = t2 = S.int("t3", 1, 3_800_000_000)
        S.cover("outage")
    r, tcs = call(get_verified_trust_chains, fe, L)
    ok = r == "ok" and len(tcs) > 0
    S.cover("second-time")
    if len(F.asked) > n:
        S.cover("refetched")
    S.observe("second", ok)
    info = {"case": case, "t1": t1, "t2": t2, "e1": e1, "e2": e2, "asked": F.asked[n:],
            "how": repr(tcs) if r != "ok" else ""}
    # the entity configuration of a superior is not part of the chain
    part = case["what"] != "im"
    if ok:
        S.check(S.and_(*[t2 <= tc.exp for tc in tcs]), "no expired chain is returned", info)
        if case["change"] == "withdraw":
            S.check(t2 <= e1, "a withdrawn statement is not used after it has expired", info)
        elif part:
            S.check(t2 <= e2, "no expired statement is used", info)
    elif case["change"] != "withdraw":
        S.check(t2 > e2, "a renewed statement is found", info)


def tenants(S, W, F, case):
    """entities with a path in their identifiers, that share a host"""
    who = case["who"]
    deep = S.choose("path", ["/{}", "/t/{}", "/{}/"])
    leaf, im, ta = (HOST + deep.format(n) if n in who or who in ("all", "below") else x
                    for n, x in (("leaf", L), ("im", I1), ("ta", TA)))
    if who == "below":
        im = HOST       # the host is the superior of its tenants
    F.hints = {leaf: [im], im: [ta], ta: []}
    down = S.choose("root", ["404", "500", "down", "garbage", "another", "posing", "itself"]) if who != "below" else "another"
    one = next(e for e in (leaf, im, ta) if e.startswith(HOST + "/"))
    own = S.choose("own", ["fine", "404", "down", "other", "forged"]) if who in ("leaf", "im", "ta") else "fine"

    def at_root():
        if down in ("404", "500", "down", "garbage"):
            return F.fail(down)
        if down == "posing":
            return F.config(one, "forged")
        if down == "itself":
            return F.config(one, None)
        F.hints[HOST] = [ta]
        return F.config(HOST)
    if who != "below":
        F.hosts[HOST] = at_root
    if own != "fine":
        F.conf_fault[one] = own
    from sx import fed
    fe = fed.entity(ME, {ta: F.jwks(ta)})
    S.cover("tenant")
    ok = own == "fine" or own == "404" and down == "itself"
    r, tcs = call(resolve, fe, leaf, "")
    got = [[str(x) for x in tc.iss_path] for tc in tcs] if r == "ok" else None
    S.observe("got", got)
    info = {"case": case, "leaf": leaf, "root": down, "own": own, "got": got, "how": repr(tcs)[:300], "asked": F.asked}
    if ok:
        S.check(got == [[leaf, im, ta]], "every valid chain is found", info)
    else:
        S.check(not got, "no chain is made up", info)

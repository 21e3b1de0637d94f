"""The resolve endpoint: what it says is what a valid trust chain to the requested anchor yields."""
from sx.engine import call
from harness import c07_resolution as c07

COVERS = ["answered", "refused", "typed", "no-such-type", "second", "capped", "two-paths", "intermediate-anchor",
          "not-an-anchor"]
BOUNDS = {
    "quick": "federations of a leaf, two intermediates and two configured anchors (one possibly below the other), each "
             "superior relation present or not, any requested anchor and subject; one statement with a policy per "
             "chain; histories of two requests with arbitrary clocks, and an arbitrary expiry time at every statement",
    "thorough": "as quick, with three requests and both intermediates in the histories",
}
ASSUMPTIONS = c07.ASSUMPTIONS
OUTSIDE = "policy operators other than add and value (C01-C03), constraints (C05), HTTP framing"
BUDGET = {"quick": 500, "thorough": 3600}

L, I1, I2, TA, TB, TX, ME = c07.L, c07.I1, c07.I2, c07.TA, c07.TB, c07.TX, c07.ME
EDGES = {L: [I1, I2, TA], I1: [TA, I2], I2: [TB], TA: [TB]}
RP, OP, FE = "openid_relying_party", "openid_provider", "federation_entity"


def setup(symbolic):
    from sx import world
    world.install(symbolic)


def cases(tier):
    out = []
    for anchor in (TA, TB, TX, I1):
        for sub in (L, I1) if tier == "quick" else (L, I1, I2):
            out.append({"k": "graph", "anchor": anchor, "sub": sub})
    for anchor in (L, ME, I2):
        out.append({"k": "graph", "anchor": anchor, "sub": L})
    for what in ("leaf", "stmt", "top"):
        out.append({"k": "time", "what": what, "n": 2 if tier == "quick" else 3})
    for pol in ("none", "ta", "im", "both"):
        for typ in (None, RP, OP, FE):
            out.append({"k": "content", "pol": pol, "type": typ})
    return out


class Fed(c07.Federation):
    """with metadata and policies"""
    meta = {}
    extra = {}

    def sign(self, by, payload, **kw):
        if payload["iss"] == payload["sub"] == by and by in self.meta:
            payload["metadata"].update(self.meta[by])
        payload.update(self.extra.get((payload["iss"], payload["sub"]), {}))
        return super().sign(by, payload, **kw)

    def to(self, e, anchor, seen=()):
        """all the ways from an entity up to the anchor"""
        if e == anchor:
            return [[e]]
        return [[e] + x for p in self.superiors(e) if p not in seen and p != e
                for x in self.to(p, anchor, tuple(seen) + (e,))]


def verify(S, W, F, case, tok, info, sub, anchor):
    """the parts that hold for every answer"""
    _, pl = W.opened(tok)
    S.check(S.or_(W.signed_by(tok, "own-RSA", "RSA"), W.signed_by(tok, "own-EC", "EC")),
            "the response is signed with the resolver's own key", info)
    S.check(S.and_(S.eq(pl["iss"], ME), S.eq(pl["sub"], sub)), "by the resolver about the subject", info)
    chain = pl.get("trust_chain")
    ok = isinstance(chain, list) and len(chain) > 1 and all(W.is_token(x) for x in chain)
    S.check(ok, "the response contains a trust chain", dict(info, chain=repr(chain)))
    if not ok:
        return None, None
    st = [W.opened(x)[1] for x in chain]
    path = [str(x["iss"]) for x in st]
    S.check(st[0]["iss"] == sub and st[0]["sub"] == sub, "it starts with the subject's configuration", dict(info, path=path))
    S.check(all(b["sub"] == a["iss"] for a, b in zip(st, st[1:])), "it is linked", dict(info, path=path))
    S.check(path[-1] == anchor, "it ends at the requested anchor", dict(info, path=path))
    S.check(S.and_(*[W.signed_by(x, F.key(p)[0], "EC") for x, p in zip(chain, path)]),
            "all of its statements are properly signed", dict(info, path=path))
    S.check(S.and_(*[s["exp"] >= W.now for s in st]), "none of its statements has expired", dict(info, path=path))
    S.check(S.and_(*[pl["exp"] <= s["exp"] for s in st]), "the response does not outlive the chain", dict(info, exp=pl["exp"]))
    S.check(S.eq(pl["iat"], W.now), "it is issued now", info)
    return pl, path


def run(S, case):
    from sx import world, fed
    W = world.begin(S)
    F = Fed(S, W)
    fe = fed.entity(ME, {a: F.jwks(a) for a in (TA, TB)})
    F.meta = {L: {RP: {"contacts": ["leaf@example.org"], "client_name": "Leaf"}, OP: {"issuer": L}},
              I1: {RP: {"contacts": ["im1@example.org"]}}, I2: {RP: {"contacts": ["im2@example.org"]}}}
    F.extra = {}
    {"graph": graph, "time": timed, "content": content}[case["k"]](S, case, W, F, fe)


def ask(fe, sub, anchor, **kw):
    r, res = call(fe.server.endpoint["resolve"].process_request, dict(kw, sub=sub, anchor=anchor))
    return r, res, (res.get("response_args") if r == "ok" and isinstance(res, dict) else None)


def graph(S, case, W, F, fe):
    F.edges = EDGES
    for a in (TB, TX):
        F.hints[a] = []
    sub, anchor = case["sub"], case["anchor"]
    r, res, tok = ask(fe, sub, anchor)
    S.observe("tok", tok is not None)
    want = F.to(sub, anchor) if anchor in (TA, TB) and anchor != sub else []
    info = {"hints": F.hints, "sub": sub, "anchor": anchor, "how": repr(res) if tok is None else ""}
    if tok is None:
        S.cover("refused")
        if anchor == TX:
            S.cover("not-an-anchor")
        S.check(not want, "an entity with a chain to the anchor is resolved", info)
        return
    S.cover("answered")
    if len(want) > 1:
        S.cover("two-paths")
    S.check(bool(want), "without a chain to the requested anchor there is no answer", info)
    pl, path = verify(S, W, F, case, tok, info, sub, anchor)
    if pl is not None:
        if TA in path[:-1]:
            S.cover("intermediate-anchor")
        S.check(path[:1] + path[1:] == path and [sub] + path[1:] in want, "the chain is one of the valid ones",
                dict(info, path=path, want=want))


def timed(S, case, W, F, fe):
    F.hints = {L: [I1], I1: [TA], TA: []}
    key = {"leaf": (L, L), "stmt": (I1, L), "top": (TA, I1)}[case["what"]]
    last = 1
    exp = S.int("exp", 1, 3_900_000_000)
    for n in range(case["n"]):
        now = S.int(f"t{n}", 1, 3_000_000_000)
        S.assume(now >= last)
        last = W.now = now
        if n and S.flag(f"renewed{n}"):
            e2 = S.int(f"exp{n}", 1, 3_900_000_000)
            S.assume(exp <= e2)
            exp = e2
        F.exp[key] = exp
        r, res, tok = ask(fe, L, TA)
        S.observe(f"tok{n}", tok is not None)
        if n:
            S.cover("second")
        info = {"case": case, "n": n, "now": now, "exp": exp, "how": repr(res) if tok is None else ""}
        if tok is None:
            S.cover("refused")
            S.check(now > exp, "an entity with a valid chain is resolved", info)
            continue
        S.cover("answered")
        S.check(now <= exp, "an entity without a valid chain is not resolved", info)
        pl, path = verify(S, W, F, case, tok, info, L, TA)
        if pl is not None and bool(pl["exp"] < exp):
            S.cover("capped")


def content(S, case, W, F, fe):
    F.hints = {L: [I1], I1: [TA], TA: []}
    contacts = ["leaf@example.org"]
    name = S.atom("name", ("Leaf", "Other")) if S.flag("named") else None
    rp = F.meta[L][RP] = {"contacts": list(contacts)}
    if name is not None:
        rp["client_name"] = name
    fixed = None
    if case["pol"] in ("im", "both"):
        F.extra[I1, L] = {"metadata_policy": {RP: {"contacts": {"add": ["im@example.org"]}}}}
        contacts.append("im@example.org")
    if case["pol"] in ("ta", "both"):
        fixed = S.atom("fixed", ("Leaf", "Forced"))
        F.extra[TA, I1] = {"metadata_policy": {RP: {"contacts": {"add": ["ta@example.org"]},
                                                    "client_name": {"value": fixed}}}}
        contacts.append("ta@example.org")
        name = fixed
    typ = case["type"]
    r, res, tok = ask(fe, L, TA, **({"type": typ} if typ else {}))
    S.observe("tok", tok is not None)
    info = {"case": case, "how": repr(res) if tok is None else ""}
    S.check(tok is not None, "an entity with a valid chain is resolved", info)
    if tok is None:
        return
    pl, path = verify(S, W, F, case, tok, info, L, TA)
    if pl is None:
        return
    md = pl.get("metadata", {})
    info["metadata"] = md
    if typ:
        S.cover("typed")
        S.check(set(md) == {typ}, "only metadata of the requested type", info)
    else:
        S.check(set(md) == {RP, OP, FE}, "metadata of all the types the subject has", info)
    if RP in md:
        S.check(sorted(md[RP].get("contacts", [])) == sorted(contacts), "contacts follow the policies", info)
        S.check((md[RP].get("client_name") is None) if name is None else S.eq(md[RP].get("client_name"), name),
                "the name follows the policies", info)
    if OP in md:
        S.check(md[OP] == {"issuer": L}, "what no policy is about stays", info)
    if typ == OP:
        r, res, tok = ask(fe, L, TA, type="oauth_resource")
        S.cover("no-such-type")
        S.check(tok is None or not any(W.opened(tok)[1]["metadata"].values()), "no metadata of a type the subject lacks", info)

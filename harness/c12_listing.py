"""The list endpoint: exactly the registered subordinates that match every filter."""
import json

from sx.engine import call

COVERS = ["filter-off", "all", "typed", "intermediates", "marked", "mark-id", "combined", "nothing", "unreachable", "extended",
          "unknown-type"]
BOUNDS = {
    "quick": "three registered subordinates with arbitrary subsets of two entity types (registered as entity_types or entity_type) and "
             "intermediate or not, requests with any combination of the filters; trust marks (none, a list with any of "
             "two ids, signed or not, or junk) and 9 faults of the subordinates' configurations",
    "thorough": "as quick, with faults at two subordinates and trust mark filters combined with the registered ones",
}
ASSUMPTIONS = ["HTTP is a function from URL to status, content type and body, or a connection error",
               "a signature verifies exactly with the key that made it"]
OUTSIDE = "validity of the trust marks that subordinates publish (C15), HTTP framing"
BUDGET = {"quick": 400, "thorough": 3600}

ME = "https://me.example.org"
SUBS = ["https://s0.example.org", "https://s0.example.org/1", "https://s0.example.org/12"]
TYPES = ["openid_relying_party", "federation_entity"]
FAR = 4_000_000_000
FAULTS = ["404", "500", "down", "garbage", "empty", "forged", "badsig", "nomarks", "expired"]


def setup(symbolic):
    from sx import world
    world.install(symbolic)


def cases(tier):
    q = tier == "quick"
    out = [{"k": "reg", "style": s, "n": 2 if q else 3} for s in ("entity_types", "entity_type", "str")]
    for ext in (False, True):
        out.append({"k": "marks", "faulty": 0, "n": 2, "reg": False, "ext": ext})
        out.append({"k": "marks", "faulty": 1, "n": 2, "reg": False, "ext": ext, "few": True})
    out.append({"k": "marks", "faulty": 0, "n": 2, "reg": True, "ext": False, "few": True})
    if not q:
        out.append({"k": "marks", "faulty": 2, "n": 2, "reg": False, "ext": False, "few": True})
        out.append({"k": "marks", "faulty": 1, "n": 2, "reg": False, "ext": False})
        out.append({"k": "marks", "faulty": 0, "n": 3, "reg": False, "ext": False, "few": True})
    return out


def run(S, case):
    from sx import world, fed
    W = world.begin(S)
    W.now = 1_000_000
    ext = bool(case.get("ext"))
    from fedservice.entity.server.list import List
    fe = fed.entity(ME, {})
    ep = fe.server.endpoint["list"]
    ep.extended = ext
    subs = SUBS[:case["n"]]
    reg, types, inter = {}, {}, {}
    for i, s in enumerate(subs):
        rec = {"jwks": W.jwks(W.jwk(f"m-s{i}", f"k-s{i}"))}
        types[s], inter[s] = [], False
        if case["k"] == "reg" or case["reg"]:
            style = case.get("style", "entity_types")
            if style == "str":
                types[s] = [S.choose(f"type{i}", TYPES)]
                rec["entity_type"] = types[s][0]
            else:
                types[s] = [t for t in TYPES[:1 if case["k"] == "marks" else 2] if S.flag(f"{i}.{t}")]
                rec[style] = list(types[s])
            if case["k"] == "marks":
                types[s] = types[s][:1]
                rec[style] = list(types[s])
            inter[s] = S.flag(f"{i}.inter")
            if inter[s] or case["k"] == "reg" and S.flag(f"{i}.stated"):
                rec["intermediate"] = inter[s]
        reg[s] = rec
    fe.server.subordinate = {s: dict(r) for s, r in reg.items()}
    req = {}
    want = list(subs)
    if case["k"] == "reg" or case["reg"]:
        if S.flag("by.type"):
            t = S.choose("type", TYPES + ["oauth_resource", "openid", "entity"])
            req["entity_type"] = t
            want = [s for s in want if t in types[s]]
            S.cover("typed" if t in TYPES else "unknown-type")
        if S.flag("by.inter"):
            req["intermediate"] = S.choose("inter.value", [True, "true", False, "False"]
                                           if case["k"] == "reg" else [True])
            if req["intermediate"] in (True, "true", "True"):
                want = [s for s in want if inter[s]]
                S.cover("intermediates")
            else:
                S.cover("filter-off")
    marks, published, fault = {}, {}, {}
    if case["k"] == "marks":
        few = ["none", "signed"] if case.get("few") else None
        for i, s in enumerate(subs):
            f = fault[s] = S.choose(f"fault{i}", FAULTS) if i < case["faulty"] else None
            pub = S.choose(f"pub{i}", few or ["none", "signed", "plain", "junk", "empty"]) if f not in FAULTS[:5] + ["nomarks"] \
                else "none"
            ids = [x for x in ("id", "id2")[:1 if few else 2] if S.flag(f"mark{i}.{x}")] if pub in ("signed", "plain", "junk") else []
            pl = {"iss": s, "sub": s, "iat": 0, "exp": FAR, "jwks": reg[s]["jwks"],
                  "metadata": {t: {} for t in (types[s] or ["federation_entity"])}}
            if pub in ("signed", "plain", "junk"):
                if pub == "plain":
                    tms = [{"id": x, "trust_mark": "?"} for x in ids]
                else:
                    tms = [W.sign({"iss": "https://tmi.example.org", "sub": s, "id": x, "iat": 0}, "m-tmi", "k-tmi",
                                  typ="trust-mark+jwt") for x in ids]
                if pub == "junk":
                    tms = ["junk"] + tms
                pl["trust_marks"] = tms
            elif pub == "empty":
                pl["trust_marks"] = []
            published[s] = pub
            if f == "expired":
                pl["exp"] = 1000
            marks[s] = ids
            url = s + "/.well-known/openid-federation"
            k = (f"m-s{i}", f"k-s{i}")
            if f in ("404", "500"):
                W.serve(url, "x", "text/plain", int(f))
            elif f == "down":
                W.urls[url] = down
            elif f == "garbage":
                W.serve(url, "this is not a JWS")
            elif f == "empty":
                W.serve(url, "")
            elif f == "forged":
                W.serve(url, W.sign(pl, "m-evil", k[1], typ="entity-statement+jwt"))
            elif f == "badsig":
                W.serve(url, W.sign(pl, *k, typ="entity-statement+jwt", tampered=True))
            else:
                W.serve(url, W.sign(pl, *k, typ="entity-statement+jwt"))
        by = S.choose("by", ["marked", "id", "both"])
        bad = [s for s in subs if fault[s] and fault[s] not in ("nomarks", "expired")]
        if bad:
            S.cover("unreachable")
        if by in ("marked", "both"):
            req["trust_marked"] = S.choose("marked.value", [True, "true", "false"] if few and not case["faulty"] else [True])
            if req["trust_marked"] in (True, "true"):
                want = [s for s in want if published[s] in ("signed", "plain", "junk") and (marks[s] or published[s] == "junk")
                        and s not in bad]
                S.cover("marked")
            else:
                S.cover("filter-off")
        if by in ("id", "both"):
            req["trust_mark_id"] = S.choose("id", ["id", "id2", "id3"])
            want = [s for s in want if req["trust_mark_id"] in marks[s] and s not in bad]
            S.cover("mark-id")
    if len(req) > 1:
        S.cover("combined")
    r, res = call(ep.process_request, dict(req))
    info = {"request": req, "registered": reg, "published": published, "marks": marks, "faults": fault,
            "how": repr(res), "want": want}
    ok = r == "ok" and isinstance(res, dict) and isinstance(res.get("response_msg"), str)
    S.check(ok, "a listing is always produced", info)
    if not ok:
        return
    ans = json.loads(res["response_msg"]) if not W.symbolic else W.parsed(res["response_msg"])
    if ext and case["k"] == "marks" and (req.get("trust_marked") in (True, "true") or "trust_mark_id" in req):
        S.cover("extended")
        S.check(isinstance(ans, dict) or not ans, "extended listings have the configurations", dict(info, got=ans))
    got = sorted(ans)
    S.observe("got", got)
    sure = [s for s in want if fault.get(s) != "expired"]
    S.check(all(s in subs for s in got), "only registered subordinates are listed", dict(info, got=got))
    S.check(all(s in want for s in got), "only subordinates matching every filter are listed", dict(info, got=got))
    S.check(all(s in got for s in sure), "every subordinate that matches is listed", dict(info, got=got))
    S.check(len(got) == len(set(got)), "nothing is listed twice", dict(info, got=got))
    if not req:
        S.cover("all")
    if not want:
        S.cover("nothing")


def down(method, url, kw):
    from requests.exceptions import ConnectionError
    raise ConnectionError("down")

"""A small federation for demonstrations: real keys, real tokens, HTTP answered in this process."""
import copy
import json
import time
from urllib.parse import urlparse, parse_qs

import shim                                                     # noqa
import requests
from cryptojwt.jwk.ec import new_ec_key
from cryptojwt.jws.jws import JWS

CALLS = []
ROUTES = {}                     # url without query -> (status, body, content type) or function(query) giving that


class Response:
    def __init__(self, status, body, ctype):
        self.status_code, self.text, self.headers = status, body, {"content-type": ctype, "Content-Type": ctype}
        self.content, self.url = body.encode(), ""

    def json(self):
        return json.loads(self.text)


def _request(method, url, **kw):
    CALLS.append((method, url, kw))
    u = urlparse(url)
    r = ROUTES.get(f"{u.scheme}://{u.netloc}{u.path}")
    if callable(r):
        r = r(parse_qs(u.query))
    if r is None:
        return Response(404, "not found", "text/plain")
    if isinstance(r, str):
        r = (200, r, "application/entity-statement+jwt")
    return Response(*r)


requests.request = requests.api.request = _request
KEYS = {}


def key(who):
    if who not in KEYS:
        KEYS[who] = new_ec_key("P-256", kid="k-" + who, use="sig")
    return KEYS[who]


def jwks(who):
    return {"keys": [key(who).serialize(private=False)]}


def sign(payload, by, typ="entity-statement+jwt", **kw):
    return JWS(json.dumps(payload), alg="ES256", typ=typ, **kw).sign_compact([key(by)])


def now():
    return int(time.time())


class Federation:
    """up: entity -> superiors; meta, conf, stmt: what to say in addition"""

    def __init__(self, up, meta=None, conf=None, stmt=None):
        self.up, self.meta, self.conf, self.stmt = up, meta or {}, conf or {}, stmt or {}
        self.signer, self.exp = {}, {}
        for e in set(up) | {s for x in up.values() for s in x}:
            ROUTES[e + "/.well-known/openid-federation"] = lambda q, e=e: self.config(e)
            ROUTES[e + "/fetch"] = lambda q, e=e: self.statement(e, q.get("sub", [e])[0])

    def config(self, e):
        p = {"iss": e, "sub": e, "iat": now() - 10, "exp": self.exp.get((e, e), now() + 36000), "jwks": jwks(e),
             "metadata": dict({"federation_entity": {"federation_fetch_endpoint": e + "/fetch"}}, **self.meta.get(e, {}))}
        if self.up.get(e):
            p["authority_hints"] = list(self.up[e])
        p.update(self.conf.get(e, {}))
        return sign(p, self.signer.get((e, e), e))

    def statement(self, iss, sub):
        if iss not in self.up.get(sub, []):
            return None
        p = {"iss": iss, "sub": sub, "iat": now() - 10, "exp": self.exp.get((iss, sub), now() + 36000), "jwks": jwks(sub)}
        p.update(self.stmt.get((iss, sub), {}))
        return sign(p, self.signer.get((iss, sub), iss))


def entity(entity_id, anchors, endpoints=("entity_configuration", "fetch", "list", "resolve"), **kw):
    from fedservice.utils import make_federation_entity
    return make_federation_entity(entity_id, key_config={"key_defs": [{"type": "RSA", "size": 2048, "use": ["sig"]}, {"type": "EC", "crv": "P-256", "use": ["sig"]}]},
                                  trust_anchors={a: jwks(a) for a in anchors}, endpoints=list(endpoints), **kw)


def chains(fe, who):
    from fedservice.entity.function import get_verified_trust_chains
    return get_verified_trust_chains(fe, who)


# --- apps: OpenID providers, authorization servers, relying parties, OAuth2 clients
KEY_DEFS = [{"type": "RSA", "use": ["sig"]}, {"type": "EC", "crv": "P-256", "use": ["sig"]}]
CRYPT = {"kwargs": {"keys": {"key_defs": [{"type": "OCT", "use": ["enc"], "kid": "password"},
                                          {"type": "OCT", "use": ["enc"], "kid": "salt"}]}, "iterations": 1}}
TOKENS = {"code": {"lifetime": 600, "kwargs": {"crypt_conf": CRYPT}},
          "token": {"class": "idpyoidc.server.token.jwt_token.JWTToken", "kwargs": {"lifetime": 3600}},
          "jwks_def": {"private_path": "", "key_defs": [{"type": "oct", "bytes": "24", "use": ["enc"], "kid": "code"}]}}


def server(entity_id, anchors, kind="oidc", types=("automatic", "explicit"), authz_kw=None):
    """an OP (oidc) or authorization server (oauth2) that is a member of a federation"""
    from fedservice.utils import make_federation_combo
    oidc = kind == "oidc"
    ep = {
        "authorization": {"path": "authorization",
                          "class": f"fedservice.appserver.{kind}.authorization.Authorization",
                          "kwargs": dict({"response_types_supported": ["code"],
                                          "client_registration_types_supported": list(types)}, **(authz_kw or {}))},
        "registration": {"path": "registration",
                         "class": f"fedservice.appserver.{kind}.registration.Registration", "kwargs": {}},
    }
    if not oidc:
        ep["pushed_authorization"] = {
            "path": "pushed_authorization",
            "class": "fedservice.appserver.oauth2.pushed_authorization.PushedAuthorization",
            "kwargs": {"client_authn_method": ["private_key_jwt", "none"]}}
    conf = {
        "preference": {"subject_types_supported": ["public"], "grant_types_supported": ["authorization_code"],
                       "client_registration_types_supported": list(types)},
        "token_handler_args": copy.deepcopy(TOKENS),
        "endpoint": ep,
        "session_params": {"encrypter": copy.deepcopy(CRYPT)},
    }
    if not oidc:
        conf["server_type"] = "oauth2"
    name = "openid_provider" if oidc else "oauth_authorization_server"
    combo = make_federation_combo(
        entity_id, key_config={"key_defs": [dict(k) for k in KEY_DEFS]}, trust_anchors={a: jwks(a) for a in anchors},
        authority_hints=list(anchors)[:1], endpoints=["entity_configuration"],
        entity_type={name: {"class": "fedservice.appserver.ServerEntity",
                            "kwargs": {"key_conf": {"key_defs": [dict(k) for k in KEY_DEFS]}, "config": conf,
                                       **({} if oidc else {"server_type": "oauth2"})}}})
    combo[name].context.new_cookie = lambda *a, **k: {}      # cookies are not looked at
    return combo, combo[name]


def client(entity_id, anchors, kind="oidc", preference=None, config=None, fed_services=(), **kw):
    """a relying party (oidc) or OAuth2 client that is a member of a federation"""
    from fedservice.defaults import DEFAULT_OAUTH2_FED_SERVICES, DEFAULT_OIDC_FED_SERVICES, federation_services
    from fedservice.utils import make_federation_combo
    oidc = kind == "oidc"
    name = "openid_relying_party" if oidc else "oauth_client"
    conf = {"redirect_uris": [entity_id + "/cb"], "client_id": entity_id,
            "preference": dict({"grant_types": ["authorization_code"], "response_types": ["code"]}, **(preference or {})),
            **(config or {})}
    combo = make_federation_combo(
        entity_id, key_config={"key_defs": [dict(k) for k in KEY_DEFS]}, trust_anchors={a: jwks(a) for a in anchors},
        authority_hints=list(anchors)[:1], endpoints=["entity_configuration"],
        services=federation_services("entity_configuration", "entity_statement", *fed_services),
        entity_type={name: {"class": "fedservice.appclient.ClientEntity",
                            "kwargs": dict({"key_conf": {"key_defs": [dict(k) for k in KEY_DEFS]}, "config": conf,
                                            "services": copy.deepcopy(DEFAULT_OIDC_FED_SERVICES if oidc else
                                                                      DEFAULT_OAUTH2_FED_SERVICES)},
                                           **({} if oidc else {"client_type": "oauth2"}), **kw)}})
    return combo, combo[name]


def handler(entity_id, anchors, preference=None, config=None, types=("explicit",), register="oauth_registration"):
    """a relying party that keeps one client per provider (RPHandler), a member of a federation"""
    from fedservice.defaults import federation_services
    from fedservice.utils import make_federation_combo
    client = {"client_type": "oidc", "entity_id": entity_id, "client_id": entity_id, "redirect_uris": [entity_id + "/cb"],
              "key_conf": {"key_defs": [dict(k) for k in KEY_DEFS]},
              "preference": dict({"grant_types": ["authorization_code"], "response_types": ["code"],
                                  "client_registration_types": list(types)}, **(preference or {})),
              **(config or {})}
    combo = make_federation_combo(
        entity_id, key_config={"key_defs": [dict(k) for k in KEY_DEFS]}, trust_anchors={a: jwks(a) for a in anchors},
        authority_hints=list(anchors)[:1], endpoints=["entity_configuration"],
        services=federation_services("entity_configuration", "entity_statement", register),
        entity_type={"openid_relying_party": {
            "class": "idpyoidc.client.rp_handler.RPHandler",
            "kwargs": {"client_class": "fedservice.appclient.stand_alone_client_entity.StandAloneClientEntity", "base_url": entity_id, "entity_id": entity_id,
                       "hash_seed": "seed", "key_conf": {"key_defs": [dict(k) for k in KEY_DEFS]},
                       "client_configs": {"": client},
                       "services": {k: {"class": c, "kwargs": {}} for k, c in (
                           ("authorization", "fedservice.appclient.oidc.authorization.Authorization"),
                           ("registration", "fedservice.appclient.oidc.registration.Registration"),
                           ("accesstoken", "idpyoidc.client.oidc.access_token.AccessToken"),
                           ("userinfo", "idpyoidc.client.oidc.userinfo.UserInfo"))}}}})
    return combo, combo["openid_relying_party"]


def services(*names):
    from fedservice.defaults import federation_services
    return federation_services(*names)

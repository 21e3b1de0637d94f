"""Real OpenID providers, authorization servers and relying parties in the modelled environment."""
import copy

from .world import W

KEYS = [{"type": "RSA", "use": ["sig"]}, {"type": "EC", "crv": "P-256", "use": ["sig"]}]
CRYPT = {"kwargs": {"keys": {"key_defs": [{"type": "OCT", "use": ["enc"], "kid": "password"},
                                          {"type": "OCT", "use": ["enc"], "kid": "salt"}]}, "iterations": 1}}
TOKENS = {"code": {"lifetime": 600, "kwargs": {"crypt_conf": CRYPT}},
          "token": {"class": "idpyoidc.server.token.jwt_token.JWTToken", "kwargs": {"lifetime": 3600}},
          "jwks_def": {"private_path": "", "key_defs": [{"type": "oct", "bytes": "24", "use": ["enc"], "kid": "code"}]}}


def __getattr__(name):
    """Server, Client, StandAlone: the library's classes, with keys of their own (material app-RSA, app-EC)"""
    if name == "Client":
        from fedservice.appclient import ClientEntity as base
    elif name == "Server":
        from fedservice.appserver import ServerEntity as base
    elif name == "StandAlone":
        from fedservice.appclient.stand_alone_client_entity import StandAloneClientEntity as base
    else:
        raise AttributeError(name)

    def __init__(self, *args, **kw):
        old, W.owner = W.owner, "app"
        try:
            base.__init__(self, *args, **kw)
        finally:
            W.owner = old
    globals()[name] = type(base.__name__, (base,), {"__init__": __init__})
    return globals()[name]


def server(entity_id, anchors, kind="oidc", types=("automatic", "explicit"), authz_kw=None, owner="own",
           spec=None):
    """an OP (oidc) or authorization server (oauth2) that is a member of a federation"""
    from fedservice.utils import make_federation_combo
    oidc = kind == "oidc"
    ep = {
        "authorization": {"path": "authorization",
                          "class": f"fedservice.appserver.{kind}.authorization.Authorization",
                          "kwargs": dict({"response_types_supported": ["code"],
                                          "client_registration_types_supported": list(types)}, **(authz_kw or {}))},
        "registration": {"path": "registration",
                         "class": f"fedservice.appserver.{kind}.registration.Registration", "kwargs": {}},
    }
    if not oidc:
        ep["pushed_authorization"] = {
            "path": "pushed_authorization",
            "class": "fedservice.appserver.oauth2.pushed_authorization.PushedAuthorization",
            "kwargs": {"client_authn_method": ["private_key_jwt", "none"]}}
    conf = {
        "preference": {"subject_types_supported": ["public"], "grant_types_supported": ["authorization_code"],
                       "client_registration_types_supported": list(types)},
        "token_handler_args": copy.deepcopy(TOKENS),
        "endpoint": ep,
        "session_params": {"encrypter": copy.deepcopy(CRYPT)},
    }
    if not oidc:
        conf["server_type"] = "oauth2"
    name = "openid_provider" if oidc else "oauth_authorization_server"
    global last_spec
    last_spec = spec or {name: {"class": "sx.app.Server",
                                "kwargs": {"key_conf": {"key_defs": [dict(k) for k in KEYS]}, "config": conf,
                                           **({} if oidc else {"server_type": "oauth2"})}}}
    W.owner = owner
    combo = make_federation_combo(
        entity_id, key_config={"key_defs": [dict(k) for k in KEYS]}, trust_anchors=anchors,
        authority_hints=list(anchors)[:1], endpoints=["entity_configuration"], entity_type=last_spec)
    W.owner = "own"
    combo[name].context.new_cookie = lambda *a, **k: {}      # cookies are not looked at
    return combo, combo[name]


def client(entity_id, anchors, kind="oidc", preference=None, config=None, cls="Client", fed_services=(), **kw):
    """a relying party (oidc) or OAuth2 client that is a member of a federation"""
    from fedservice.defaults import DEFAULT_OAUTH2_FED_SERVICES, DEFAULT_OIDC_FED_SERVICES, federation_services
    from fedservice.utils import make_federation_combo
    oidc = kind == "oidc"
    name = "openid_relying_party" if oidc else "oauth_client"
    conf = {"redirect_uris": [entity_id + "/cb"], "client_id": entity_id,
            "preference": dict({"grant_types": ["authorization_code"], "response_types": ["code"]}, **(preference or {})),
            **(config or {})}
    combo = make_federation_combo(
        entity_id, key_config={"key_defs": [dict(k) for k in KEYS]}, trust_anchors=anchors,
        authority_hints=list(anchors)[:1], endpoints=["entity_configuration"],
        services=federation_services("entity_configuration", "entity_statement", *fed_services),
        entity_type={name: {"class": "sx.app." + cls,
                            "kwargs": dict({"key_conf": {"key_defs": [dict(k) for k in KEYS]}, "config": conf,
                                            "services": copy.deepcopy(DEFAULT_OIDC_FED_SERVICES if oidc else
                                                                      DEFAULT_OAUTH2_FED_SERVICES)},
                                           **({} if oidc else {"client_type": "oauth2"}), **kw)}})
    return combo, combo[name]


def handler(entity_id, anchors, preference=None, config=None, types=("explicit",), register="oauth_registration"):
    """a relying party that keeps one client per provider (RPHandler), a member of a federation"""
    from fedservice.defaults import federation_services
    from fedservice.utils import make_federation_combo
    client = {"client_type": "oidc", "entity_id": entity_id, "client_id": entity_id, "redirect_uris": [entity_id + "/cb"],
              "key_conf": {"key_defs": [dict(k) for k in KEYS]},
              "preference": dict({"grant_types": ["authorization_code"], "response_types": ["code"],
                                  "client_registration_types": list(types)}, **(preference or {})),
              **(config or {})}
    combo = make_federation_combo(
        entity_id, key_config={"key_defs": [dict(k) for k in KEYS]}, trust_anchors=anchors,
        authority_hints=list(anchors)[:1], endpoints=["entity_configuration"],
        services=federation_services("entity_configuration", "entity_statement", register),
        entity_type={"openid_relying_party": {
            "class": "idpyoidc.client.rp_handler.RPHandler",
            "kwargs": {"client_class": "sx.app.StandAlone", "base_url": entity_id, "entity_id": entity_id,
                       "hash_seed": "seed", "key_conf": {"key_defs": [dict(k) for k in KEYS]},
                       "client_configs": {"": client},
                       "services": {k: {"class": c, "kwargs": {}} for k, c in (
                           ("authorization", "fedservice.appclient.oidc.authorization.Authorization"),
                           ("registration", "fedservice.appclient.oidc.registration.Registration"),
                           ("accesstoken", "idpyoidc.client.oidc.access_token.AccessToken"),
                           ("userinfo", "idpyoidc.client.oidc.userinfo.UserInfo"))}}}})
    return combo, combo["openid_relying_party"]

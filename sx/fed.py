"""Real federation entities in the modelled environment."""
from .world import W

KEYS = [{"type": "RSA", "use": ["sig"]}, {"type": "EC", "crv": "P-256", "use": ["sig"]}]


def entity(entity_id, anchors=None, owner="own", authority_hints=None, endpoints=None, **kw):
    """a FederationEntity built by the library; its keys have the material <owner>-RSA, <owner>-EC"""
    from fedservice.utils import make_federation_entity
    W.owner = owner
    fe = make_federation_entity(
        entity_id, key_config={"key_defs": [dict(k) for k in KEYS]}, trust_anchors=anchors or {},
        authority_hints=authority_hints,
        endpoints=endpoints or ["entity_configuration", "fetch", "list", "resolve"], **kw)
    W.owner = "own"
    return fe


def materials(keyjar, who):
    """key materials a key jar holds for somebody: comparable with the harness' materials"""
    try:
        keys = keyjar.get_issuer_keys(who)
    except KeyError:
        return []
    out = []
    for k in keys or []:
        if k.kty == "oct":
            out.append("secret")
        elif W.symbolic:
            out.append(k.x)
        else:
            for (kty, name), pk in W.pool.items():
                if pk.kty == k.kty and pk.serialize(private=False).get("x" if kty == "EC" else "n") \
                        == k.serialize(private=False).get("x" if kty == "EC" else "n"):
                    out.append(name)
                    break
            else:
                out.append("?")
    return out

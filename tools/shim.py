"""idpyoidc.key_import is not installed in this sandbox: supply its functions."""
import os
import sys
import types

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
try:
    import idpyoidc.key_import  # noqa
except ImportError:
    import idpyoidc
    m = types.ModuleType("idpyoidc.key_import")

    def import_jwks(keyjar, jwks, issuer_id=""):
        keyjar.import_jwks(jwks, issuer_id)
        return keyjar

    def import_jwks_as_json(keyjar, jwks, issuer_id=""):
        keyjar.import_jwks_as_json(jwks, issuer_id)
        return keyjar

    def import_jwks_from_file(keyjar, filename, issuer_id=""):
        keyjar.import_jwks_from_file(filename, issuer_id)
        return keyjar

    def add_kb(keyjar, issuer_id, kb):
        keyjar.add_kb(issuer_id, kb)
        return keyjar

    def issuer_keys(keyjar, issuer_id, format="object"):
        return keyjar.get_issuer_keys(issuer_id)

    for f in (import_jwks, import_jwks_as_json, import_jwks_from_file, add_kb, issuer_keys):
        setattr(m, f.__name__, f)
    sys.modules["idpyoidc.key_import"] = m
    idpyoidc.key_import = m

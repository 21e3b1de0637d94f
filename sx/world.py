"""
The environment of the signed-statement properties: key material, JWS, JSON texts, clock, HTTP.

Symbolically a JWS is a token name bound to (headers, payload, signer's key material, tampered);
a signature verifies exactly when the verifying key's material equals the signer's.  Everything
above that - cryptojwt's KeyJar/KeyBundle/JWT/JWS, idpyoidc's messages and services - is the real
library code.  In replays the same calls make real keys, real JWS and real JSON.
"""
import json as _json
import sys
import types

from . import engine as E

_real_json = _json


class Mat:
    """public (or private) half of a modelled key"""
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = m

    def __deepcopy__(self, memo):
        return self


class _World:
    def __init__(self):
        self.symbolic = None
        self.pool = {}
        self.reset(None)

    def reset(self, S):
        self.S = S
        self.now = 1_700_000_000
        self.tokens = {}
        self.blobs = {}
        self.urls = {}
        self.requests = []
        self.nkid = 0
        self.owner = "own"
        self.default_response = None
        self.max_requests = 200

    # ------------------------------------------------------------------ clock
    def clock(self, *a, **k):
        return self.now

    # ------------------------------------------------------------------ http
    def serve(self, url, text, ctype="application/entity-statement+jwt", status=200):
        self.urls[url] = (status, text, ctype)

    def httpc(self, method, url, *a, **kw):
        self.requests.append((method, url, kw))
        if len(self.requests) > self.max_requests:
            raise E.PathLimit("more than %d HTTP requests" % self.max_requests)
        r = self.urls.get(url)
        if callable(r):
            r = r(method, url, kw)
        if r is None:
            if self.default_response is not None:
                r = self.default_response(method, url, kw)
            if r is None:
                r = (404, "not found", "text/plain")
        status, text, ctype = r
        return types.SimpleNamespace(status_code=status, text=text, url=url,
                                     headers={"Content-Type": ctype, "content-type": ctype})

    # ------------------------------------------------------------------ keys
    def _pooled(self, kty, name):
        name = str(name)
        k = self.pool.get((kty, name))
        if k is None:
            if kty == "EC":
                from cryptojwt.jwk.ec import new_ec_key
                k = (_orig.get("new_ec_key") or new_ec_key)(crv="P-256", use="sig", kid=name)
            else:
                from cryptojwt.jwk.rsa import new_rsa_key
                k = (_orig.get("new_rsa_key") or new_rsa_key)(key_size=2048, use="sig", kid=name)
            self.pool[(kty, name)] = k
        return k

    def jwk(self, material, kid, kty="EC", private=False, use="sig"):
        if self.symbolic:
            d = {"kty": kty, "kid": kid, "use": use, "x": material}
            if private:
                d["d"] = material
        else:
            d = dict(self._pooled(kty, material).serialize(private=private))
            d["kid"] = kid
            d["use"] = use
        if use is None:
            d.pop("use")
        return d

    def jwks(self, *keys):
        return {"keys": [k for k in keys]}

    # ------------------------------------------------------------------ tokens
    def sign(self, payload, material, kid=None, alg="ES256", tampered=False, **headers):
        """a JWS by the holder of `material`; tampered: the payload is not what was signed"""
        h = {"alg": alg}
        if kid is not None:
            h["kid"] = kid
        h.update(headers)
        if self.symbolic:
            return self._token(h, payload, material, tampered)
        from cryptojwt.utils import b64e
        inp = b64e(_json.dumps(h).encode()) + b"." + b64e(_json.dumps(payload).encode())
        if alg == "none":
            return inp.decode() + "."
        signed = inp
        if tampered:
            signed = b64e(_json.dumps(h).encode()) + b"." + b64e(b'{"not":"this"}')
        key = self._pooled("RSA" if alg[0] in "RP" else "EC", material)
        from cryptojwt.jws.jws import SIGNER_ALGS
        return (inp + b"." + b64e(SIGNER_ALGS[alg].sign(signed, key.private_key()))).decode()

    def _token(self, headers, payload, material, tampered=False):
        t = f"sxjws.{len(self.tokens)}.sig"
        self.tokens[t] = (headers, payload, material, tampered)
        return t

    def opened(self, token):
        """(headers, payload) of any token, also those made by the code under test"""
        if self.symbolic:
            h, p, _, _ = self.tokens[str(token)]
            return dict(h), jcopy(p)
        import base64
        a = [x + "=" * (-len(x) % 4) for x in str(token).split(".")[:2]]
        return tuple(_json.loads(base64.urlsafe_b64decode(x)) for x in a)

    def is_token(self, x):
        if self.symbolic:
            return isinstance(x, str) and type(x) is str and x in self.tokens
        return isinstance(x, str) and x.count(".") == 2

    def signed_by(self, token, material, kty="RSA"):
        """is `token` a valid signature by `material`"""
        if self.symbolic:
            h, _, m, bad = self.tokens[str(token)]
            if h.get("alg") in (None, "none"):
                return False
            return self.S.and_(self.S.not_(bad), m == material)
        from cryptojwt.jws.jws import factory
        try:
            factory(token).verify_compact(token, keys=[self._unkid(self._pooled(kty, material), token)])
            return True
        except Exception:
            return False

    def _unkid(self, key, token):
        from cryptojwt.jwk.jwk import key_from_jwk_dict
        d = dict(key.serialize(private=False))
        d["kid"] = self.opened(token)[0].get("kid", "")
        d.pop("use", None)
        return key_from_jwk_dict(d)

    # ------------------------------------------------------------------ JSON texts
    def text(self, obj):
        return dumps(obj)

    def parsed(self, txt):
        return loads(txt)


W = _World()
_orig = {}


# ---------------------------------------------------------------------------------------- JSON

def jcopy(v):
    t = type(v)
    if t is dict:
        return {k: jcopy(x) for k, x in v.items()}
    if t is list or t is tuple:
        return [jcopy(x) for x in v]
    if v is None or t in (str, int, float, bool) or E.is_sym(v):
        return v
    if isinstance(v, dict):
        return {k: jcopy(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jcopy(x) for x in v]
    if isinstance(v, str):
        return str(v)
    raise TypeError(f"Object of type {t.__name__} is not JSON serializable")


def has_sym(v):
    if E.is_sym(v):
        return True
    if isinstance(v, dict):
        return any(E.is_sym(k) or has_sym(x) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return any(has_sym(x) for x in v)
    return False


def dumps(obj, *a, **k):
    if W.symbolic and has_sym(obj):
        c = jcopy(obj)
        n = f"sxjson.{len(W.blobs)}"
        W.blobs[n] = c
        return n
    return _real_json.dumps(obj, *a, **k)


def loads(s, *a, **k):
    if W.symbolic:
        if isinstance(s, (bytes, bytearray)):
            s = s.decode()
        if E.is_sym(s):
            s = str(s)
        if isinstance(s, str) and s.strip() in W.blobs:
            return jcopy(W.blobs[s.strip()])
    return _real_json.loads(s, *a, **k)


class _Json:
    def __getattr__(self, name):
        return getattr(_real_json, name)


sxjson = _Json()
sxjson.__dict__.update(dumps=dumps, loads=loads)


# ---------------------------------------------------------------------------------------- models

def _install_crypto():
    from cryptojwt import key_bundle, jwt as cjwt
    from cryptojwt.jws import jws as cjws
    from cryptojwt.exception import BadSignature
    from cryptojwt.jwk.asym import AsymmetricKey

    class ModelKey(AsymmetricKey):
        def __init__(self, kty="EC", alg="", use="", kid="", x=None, d=None, crv="P-256", **kw):
            if x is None:
                x = kw.get("n")
            if x is None:
                raise KeyError("x")
            # the real class would turn them into real strings
            self.extra_args = {}
            self.kty, self.alg, self.use, self.kid = kty, alg, use, kid
            self.x5c, self.x5t, self.x5u, self.key_ops = [], "", "", []
            self.inactive_since = 0
            self.crv = crv
            self.x = x
            self.k = ""
            self.pub_key = Mat(x)
            self.priv_key = Mat(d) if d is not None else None

        def serialize(self, private=False):
            r = self.common()
            r["x"] = self.x
            if private and self.priv_key:
                r["d"] = self.priv_key.m
            return r

        def common(self):
            return {p: getattr(self, p) for p in ("kty", "use", "kid", "alg")
                    if E.is_sym(getattr(self, p)) or getattr(self, p)}

        def __eq__(self, o):
            if type(o) is not ModelKey:
                return False
            if self.kty != o.kty or self.use != o.use:
                return False
            return bool(self.x == o.x) and bool(self.kid == o.kid)

        def __ne__(self, o):
            return not self.__eq__(o)

        def __hash__(self):
            return 7

        def add_kid(self):
            W.nkid += 1
            self.kid = f"kid-{W.nkid}"

        def thumbprint(self, *a, **k):
            return str(self.x).encode()

        def key_len(self):
            return 256

    class Signer:
        def verify(self, msg, sig, key):
            m, bad = sig
            if bool(bad) or not isinstance(key, Mat) or not bool(m == key.m):
                raise BadSignature()
            return True

    class Unpacked:
        def __init__(self, tok):
            self.tok = tok
            self.headers = dict(W.tokens[tok][0])
            self.part = self.b64part = [b"", b"", b""]

        def __len__(self):
            return 3

        def valid(self):
            return True

        def payload(self):
            return jcopy(W.tokens[self.tok][1])

        def sign_input(self):
            return self.tok.encode()

        def signature(self):
            return W.tokens[self.tok][2], W.tokens[self.tok][3]

        def verify_header(self, key, val):
            return self.headers[key] in val if isinstance(val, list) else self.headers[key] == val

        def verify_headers(self, check_presence=True, **kw):
            for k, v in kw.items():
                if k not in self.headers:
                    if check_presence:
                        return False
                elif self.headers[k] != v:
                    return False
            return True

    real_unpack = cjws.JWSig.unpack

    def unpack(self, token, **kwargs):
        t = token.decode() if isinstance(token, bytes) else str(token)
        if t in W.tokens:
            u = Unpacked(t)
            for k, v in kwargs.items():
                if not u.verify_header(k, v):
                    from cryptojwt.exception import HeaderError
                    raise HeaderError(k)
            return u
        if t.startswith("sxjws."):
            raise ValueError("unknown token")
        return real_unpack(self, token, **kwargs)
    cjws.JWSig.unpack = unpack
    from cryptojwt.jwe import jwenc
    real_enc = jwenc.JWEnc.unpack

    def enc_unpack(self, token, **kwargs):
        t = token.decode() if isinstance(token, bytes) else str(token)
        if t.startswith("sxjws."):
            raise KeyError("enc")       # what the real code says of a JWS
        return real_enc(self, token, **kwargs)
    jwenc.JWEnc.unpack = enc_unpack

    def sign_compact(self, keys=None, protected=None, **kwargs):
        headers = dict(self._header)
        headers.update(kwargs)
        key, xargs, alg = self.alg_keys(keys, "sig", dict(protected or {}))
        for p in ["typ"]:
            if p in self:
                xargs[p] = self[p]
        headers.update(xargs)
        msg = self.msg
        obj = loads(msg) if isinstance(msg, (str, bytes)) else jcopy(msg)
        if alg == "none":
            return W._token(headers, obj, None)
        return W._token(headers, obj, key.priv_key.m)
    cjws.JWS.sign_compact = sign_compact

    for a in list(cjws.SIGNER_ALGS):
        if a != "none":
            cjws.SIGNER_ALGS[a] = Signer()
    key_bundle.K2C["EC"] = key_bundle.K2C["RSA"] = ModelKey

    def new_key(kty):
        def f(*a, use="", kid="", **k):
            m = f"{W.owner}-{kty}"
            return ModelKey(kty=kty, use=use, kid=kid or f"{W.owner}{kty}{use}", x=m, d=m)
        return f
    for name, kty in (("new_rsa_key", "RSA"), ("new_ec_key", "EC")):
        for mod in list(sys.modules.values()):
            if getattr(mod, "__name__", "").startswith("cryptojwt") and hasattr(mod, name):
                _orig.setdefault(name, getattr(mod, name))
                setattr(mod, name, new_key(kty))

    def int_(v=0, *a):
        return v if type(v) is E.SymInt else int(v, *a)
    cjwt.int = int_
    import cryptojwt.jwx, cryptojwt.jwe.jwe     # noqa
    W.ModelKey = ModelKey


def _install_pool():
    """replays: entities get their keys from the pool instead of minting new ones every time"""
    from cryptojwt.jwk.jwk import key_from_jwk_dict
    import cryptojwt.key_bundle      # noqa

    def new_key(kty):
        def f(*a, use="", kid="", **k):
            d = dict(W._pooled(kty, f"{W.owner}-{kty}").serialize(private=True))
            d["kid"] = kid or f"{W.owner}{kty}{use}"
            d.pop("use", None)
            if use:
                d["use"] = use
            return key_from_jwk_dict(d)
        return f
    for name, kty in (("new_rsa_key", "RSA"), ("new_ec_key", "EC")):
        for mod in list(sys.modules.values()):
            if getattr(mod, "__name__", "").startswith("cryptojwt") and hasattr(mod, name):
                _orig.setdefault(name, getattr(mod, name))
                setattr(mod, name, new_key(kty))


class _Time:
    """stands in for the time module"""

    def __init__(self, real):
        self._r = real

    def __getattr__(self, n):
        return getattr(self._r, n)

    def time(self):
        return W.clock()

    def sleep(self, *_):
        return None


_swept = set()


def sweep():
    """clock, HTTP client and JSON of every loaded module of the code base and its libraries"""
    import time as _time
    import requests
    from cryptojwt.jwt import utc_time_sans_frac as _u
    _orig.setdefault("utc", _u)
    _orig.setdefault("request", requests.request)
    fake_time = _Time(_time)
    clockfns = {_orig["utc"]}
    try:
        from idpyoidc import time_util
        _orig.setdefault("utc2", time_util.utc_time_sans_frac)
        _orig.setdefault("utc3", time_util.time_sans_frac)
        clockfns.update((_orig["utc2"], _orig["utc3"]))
    except (ImportError, AttributeError):
        pass
    for name, mod in list(sys.modules.items()):
        top = name.split(".")[0]
        if top not in ("fedservice", "idpyoidc", "cryptojwt") or mod is None:
            continue
        d = mod.__dict__
        for k, v in list(d.items()):
            if isinstance(v, types.FunctionType):
                if v in clockfns:
                    d[k] = W.clock
                elif v is _orig["request"]:
                    d[k] = W.httpc
            elif v is _time and top == "fedservice":
                d[k] = fake_time
            elif W.symbolic and k == "json" and (v is _real_json or
                                                 type(v).__name__ == "_CModule"):
                d[k] = sxjson
            elif top == "fedservice" and v is _time.time:
                d[k] = W.clock
    requests.request = W.httpc
    requests.api.request = W.httpc


def install(symbolic):
    W.symbolic = symbolic
    import requests                                     # noqa
    import fedservice.entity                            # noqa
    import fedservice.utils                             # noqa
    import fedservice.entity.server                     # noqa
    import fedservice.entity.client                     # noqa
    import fedservice.defaults                          # noqa
    import cryptojwt.jws.jws, cryptojwt.jwt             # noqa
    import cryptojwt.jwe.jwe                            # noqa
    if symbolic:
        _install_crypto()
    else:
        _install_pool()
    import pkgutil, importlib                           # noqa
    import fedservice
    for m in pkgutil.walk_packages(fedservice.__path__, "fedservice."):
        if "stand_alone" in m.name:
            continue
        try:
            importlib.import_module(m.name)
        except Exception:
            pass
    import sys
    if symbolic:
        from idpyoidc.server.oidc.registration import secret
        secret.__code__ = (lambda seed, sid: "a secret" + sid).__code__
    for name, m in list(sys.modules.items()):           # only makes text for the log
        if name.startswith("idpyoidc.") and callable(getattr(m, "sanitize", None)):
            m.sanitize = lambda x: ""
    sweep()


def begin(S, now=None):
    """at the start of every path"""
    W.reset(S)
    if now is not None:
        W.now = now
    return W

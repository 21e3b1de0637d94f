"""URIs that are partly symbolic (ropes): urllib.parse on their structure, scheme://netloc/path?query#fragment."""
import sys
import urllib.parse as U

from .engine import Rope, Atom

_real = {n: getattr(U, n) for n in ("urlparse", "urlsplit", "urlunsplit", "unquote_plus", "unquote")}


class _Host:
    @property
    def hostname(self):
        n = self.netloc
        return n.split(":", 1)[0] if type(n) is Rope else n if type(n) is Atom else type(self).__mro__[2].hostname.fget(self)


class Parsed(_Host, U.ParseResult):
    pass


class Split(_Host, U.SplitResult):
    pass


def _split(u):
    if "://" not in u:
        return None
    scheme, rest = u.split("://", 1)
    rest, _, frag = rest.partition("#") if type(rest) is Rope else _part(rest, "#")
    rest, _, query = _part(rest, "?")
    netloc, sl, path = _part(rest, "/")
    return scheme, netloc, sl + path if sl else "", query, frag


def _part(x, sep):
    return (x, "", "") if type(x) is Atom else x.partition(sep)


def urlparse(url, scheme="", allow_fragments=True):
    if type(url) is Rope:
        p = _split(url)
        if p:
            return Parsed(p[0], p[1], p[2], "", p[3], p[4])
        url = url.concrete()
    return _real["urlparse"](url, scheme, allow_fragments)


def urlsplit(url, scheme="", allow_fragments=True):
    if type(url) is Rope:
        p = _split(url)
        if p:
            return Split(*p)
        url = url.concrete()
    return _real["urlsplit"](url, scheme, allow_fragments)


def urlunsplit(parts):
    scheme, netloc, path, query, frag = parts
    if type(scheme) in (Rope, Atom) or type(netloc) in (Rope, Atom):
        return Rope.make([scheme, "://", netloc, path] + (["?", query] if query else []) + (["#", frag] if frag else []))
    return _real["urlunsplit"](parts)


def _unquoted(name):
    def f(s, *a, **k):
        if type(s) is Rope:
            return s if "%" not in s and "+" not in s else _real[name](s.concrete(), *a, **k)
        return _real[name](s, *a, **k)
    return f


def install():
    new = {"urlparse": urlparse, "urlsplit": urlsplit, "urlunsplit": urlunsplit,
           "unquote_plus": _unquoted("unquote_plus"), "unquote": _unquoted("unquote")}
    for m in list(sys.modules.values()):
        if getattr(m, "__name__", "").split(".")[0] in ("idpyoidc", "fedservice") or m is U:
            for n, f in new.items():
                if getattr(m, n, None) is _real[n]:
                    setattr(m, n, f)

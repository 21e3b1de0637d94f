"""
Import hook: loads the modules of /repo/src/fedservice from their current source, with the few
rewrites that keep proxies from leaking into C code.  Nothing is cached; nothing is written.

  * statements that only log or print are dropped (they have no effect on results),
  * f-strings / %-formatting inside `raise` become constants (messages are not compared),
  * `x is True|False` compares by value when x is symbolic,
  * `a in b` with a symbolic `a` and a str `b` makes `a` concrete first,
  * str()/int()/type()/isinstance-free builtins that need real objects are routed through
    helpers that make their argument concrete (by forking) when it is symbolic.
"""
import ast
import functools
import types
import importlib.abc
import importlib.util
import os
import sys

from . import engine as E

LOGNAMES = {"logger", "LOGGER", "logging", "log"}


class _H:
    @staticmethod
    def is_(a, b):
        if type(a) is E.SymBool and isinstance(b, bool):
            return a == b
        return a is b

    @staticmethod
    def is_not(a, b):
        if type(a) is E.SymBool and isinstance(b, bool):
            return not (a == b)
        return a is not b

    @staticmethod
    def in_(a, b):
        if type(b) is str and (type(a) is E.Atom or type(a) is E.Rope):
            return a.concrete() in b
        return a in b

    @staticmethod
    def not_in(a, b):
        return not _H.in_(a, b)

    @staticmethod
    def str_(*a, **k):
        return str(*a, **k)

    @staticmethod
    def int_(*a, **k):
        if len(a) == 1 and not k and type(a[0]) is E.SymInt:
            return a[0]
        return int(*a, **k)

    @staticmethod
    def type_(*a):
        if len(a) == 1 and E.is_sym(a[0]):
            return a[0].__class__
        return type(*a)


class _T(ast.NodeTransformer):
    def __init__(self):
        self.in_raise = 0

    def _is_log(self, v):
        if isinstance(v, ast.Call):
            f = v.func
            if isinstance(f, ast.Name) and f.id == "print":
                return True
            while isinstance(f, ast.Attribute):
                f = f.value
            if isinstance(f, ast.Name) and f.id in LOGNAMES and isinstance(v.func, ast.Attribute):
                return v.func.attr in ("debug", "info", "warning", "error", "exception",
                                       "critical", "log", "warn")
        return False

    def visit_Expr(self, node):
        if self._is_log(node.value):
            return ast.copy_location(ast.Pass(), node)
        return self.generic_visit(node)

    def visit_Raise(self, node):
        self.in_raise += 1
        n = self.generic_visit(node)
        self.in_raise -= 1
        return n

    def visit_JoinedStr(self, node):
        if self.in_raise:
            return ast.copy_location(ast.Constant("<message>"), node)
        return self.generic_visit(node)

    def visit_BinOp(self, node):
        if self.in_raise and isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) \
                and isinstance(node.left.value, str):
            return ast.copy_location(ast.Constant("<message>"), node)
        return self.generic_visit(node)

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        if len(node.ops) != 1:
            return node
        op, right = node.ops[0], node.comparators[0]
        name = None
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(right, ast.Constant) and (right.value is True or right.value is False):
                name = "is_" if isinstance(op, ast.Is) else "is_not"
        elif isinstance(op, ast.In):
            name = "in_"
        elif isinstance(op, ast.NotIn):
            name = "not_in"
        if name is None:
            return node
        return ast.copy_location(ast.Call(
            func=ast.Attribute(value=ast.Name(id="sx_h_", ctx=ast.Load()), attr=name,
                               ctx=ast.Load()),
            args=[node.left, right], keywords=[]), node)

    def visit_Call(self, node):
        node = self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in ("type", "int") and len(node.args) == 1:
            node.func = ast.copy_location(
                ast.Attribute(value=ast.Name(id="sx_h_", ctx=ast.Load()), attr=node.func.id + "_",
                              ctx=ast.Load()), node.func)
        return node


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        tree = _T().visit(ast.parse(src, self.path))
        ast.fix_missing_locations(tree)
        module.__dict__["sx_h_"] = _H
        exec(compile(tree, self.path, "exec"), module.__dict__)
        _wrap_globals(module.__dict__)


CMODULES = ("re", "json", "urllib.parse", "fnmatch", "base64", "hashlib", "string", "ipaddress")


def _conc_fn(f):
    @functools.wraps(f)
    def w(*a, **k):
        return f(*[E.deep_concrete(x) for x in a], **{n: E.deep_concrete(x) for n, x in k.items()})
    return w


class _CModule:
    def __init__(self, m):
        self.__dict__["_m"] = m

    def __getattr__(self, name):
        v = getattr(self._m, name)
        return _conc_fn(v) if isinstance(v, (types.FunctionType, types.BuiltinFunctionType)) else v


def _wrap_globals(d):
    """library functions that need real strings get real strings"""
    for k, v in list(d.items()):
        if isinstance(v, types.ModuleType) and v.__name__ in CMODULES:
            d[k] = _CModule(v)
        elif isinstance(v, (types.FunctionType, types.BuiltinFunctionType)) and \
                getattr(v, "__module__", "") in CMODULES:
            d[k] = _conc_fn(v)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root):
        self.root = root

    def find_spec(self, name, path=None, target=None):
        if name != "fedservice" and not name.startswith("fedservice."):
            return None
        rel = os.path.join(self.root, *name.split("."))
        if os.path.isfile(os.path.join(rel, "__init__.py")):
            p = os.path.join(rel, "__init__.py")
            return importlib.util.spec_from_file_location(
                name, p, loader=Loader(p), submodule_search_locations=[rel])
        if os.path.isfile(rel + ".py"):
            return importlib.util.spec_from_file_location(
                name, rel + ".py", loader=Loader(rel + ".py"))
        if os.path.isdir(rel):
            spec = importlib.util.spec_from_loader(name, None, is_package=True)
            spec.submodule_search_locations = [rel]
            return spec
        return None


def install_key_import():
    """idpyoidc.key_import is not part of the installed idpyoidc; these are its functions on the
    key jar that is installed."""
    import types
    if "idpyoidc.key_import" in sys.modules:
        return
    try:
        import idpyoidc.key_import  # noqa
        return
    except ImportError:
        pass
    import idpyoidc
    m = types.ModuleType("idpyoidc.key_import")

    def import_jwks(keyjar, jwks, issuer_id=""):
        keyjar.import_jwks(jwks, issuer_id)
        return keyjar

    def import_jwks_as_json(keyjar, jwks, issuer_id=""):
        keyjar.import_jwks_as_json(jwks, issuer_id)
        return keyjar

    def import_jwks_from_file(keyjar, filename, issuer_id=""):
        keyjar.import_jwks_from_file(filename, issuer_id)
        return keyjar

    def add_kb(keyjar, issuer_id, kb):
        keyjar.add_kb(issuer_id, kb)
        return keyjar

    def issuer_keys(keyjar, issuer_id, format="object"):
        return keyjar.get_issuer_keys(issuer_id)

    def store_under_other_id(keyjar, fro="", to="", remove_old=False):
        keyjar.import_jwks(keyjar.export_jwks(True, fro), to)
        return keyjar

    for f in (import_jwks, import_jwks_as_json, import_jwks_from_file, add_kb, issuer_keys,
              store_under_other_id):
        setattr(m, f.__name__, f)
    sys.modules["idpyoidc.key_import"] = m
    idpyoidc.key_import = m


VENV_SITE = "/opt/venv/lib/python3.12/site-packages"
REPO_SRC = os.environ.get("SX_REPO", "/repo") + "/src"


def setup(symbolic):
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(3000)
    if VENV_SITE not in sys.path:
        sys.path.append(VENV_SITE)
    # the editable install points at /repo/src; ours must be first
    if REPO_SRC in sys.path:
        sys.path.remove(REPO_SRC)
    sys.path.insert(0, REPO_SRC)
    install_key_import()
    import logging
    logging.disable(logging.CRITICAL)
    if symbolic:
        sys.meta_path.insert(0, Finder(REPO_SRC))

"""
Dynamic symbolic executor for the real Python code of /repo.

The code under test runs in CPython on proxy values.  Every time the interpreter needs a concrete
truth value of a symbolic expression the engine asks z3 which sides are feasible under the current
path condition, takes one and schedules the other (depth-first, by re-execution).  When a path
ends - and at every S.check() on the way - the engine asks z3 whether the path condition allows
the negated assertion.  `unsat` on every path of an exhausted tree means: the assertion holds for
every value within the harness' bounds.
"""
import time

try:
    import z3
except ImportError:            # concrete replays run in the project's venv, which has no z3
    class z3:
        BoolRef = type("BoolRef", (), {})

LITERAL_MAX = 1 << 20          # ids below: concrete strings; from here on: "some other string"


class EngineStop(BaseException):
    """Base of everything the engine throws through the code under test."""


class Infeasible(EngineStop):
    pass


class PathLimit(EngineStop):
    def __init__(self, why):
        BaseException.__init__(self, why)
        self.why = why


class EngineError(EngineStop):
    pass


CTX = None                      # the exploration that is running in this process


def ctx():
    if CTX is None:
        raise EngineError("no exploration running")
    return CTX


# ------------------------------------------------------------------------------------------------
# literals

_lit2id = {}
_id2lit = []


def intern_lit(s):
    i = _lit2id.get(s)
    if i is None:
        i = len(_id2lit)
        _lit2id[s] = i
        _id2lit.append(s)
    return i


def lit_of(i):
    if 0 <= i < len(_id2lit):
        return _id2lit[i]
    return f"v{i - LITERAL_MAX}"


# ------------------------------------------------------------------------------------------------
# proxies

def is_sym(x):
    t = type(x)
    return t is SymBool or t is SymInt or t is Atom or t is Rope


def expr_of_bool(x):
    t = type(x)
    if t is SymBool:
        return x.e
    if t is SymInt:
        return x.e != 0
    if isinstance(x, z3.BoolRef):
        return x
    return z3.BoolVal(bool(x))


def mk_bool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return ctx().branch(self.e)

    def __hash__(self):
        return hash(bool(self))

    def __eq__(self, o):
        if isinstance(o, bool):          # covers SymBool through __class__
            return mk_bool(self.e == expr_of_bool(o))
        if type(o) is int or type(o) is SymInt:
            return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0))) == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return mk_bool(z3.Not(r.e)) if type(r) is SymBool else not r

    def __and__(self, o):
        return mk_bool(z3.And(self.e, expr_of_bool(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mk_bool(z3.Or(self.e, expr_of_bool(o)))

    __ror__ = __or__

    def __invert__(self):
        return mk_bool(z3.Not(self.e))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __str__(self):
        return str(bool(self))

    __repr__ = __str__

    def __format__(self, spec):
        return format(bool(self), spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return (bool, (bool(self),))


def _iex(o):
    t = type(o)
    if t is SymInt:
        return o.e
    if t is int:
        return z3.IntVal(o)
    if t is bool:
        return z3.IntVal(int(o))
    if t is SymBool:
        return z3.If(o.e, z3.IntVal(1), z3.IntVal(0))
    if t is float:
        if o == int(o):
            return z3.IntVal(int(o))
    return None


def _cmp(op):
    def f(self, o):
        e = _iex(o)
        if e is None:
            return NotImplemented
        return mk_bool(z3.simplify(op(self.e, e)))
    return f


def _ar(op):
    def f(self, o):
        e = _iex(o)
        if e is None:
            return NotImplemented
        return SymInt(op(self.e, e))
    return f


class SymInt:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return int

    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)
    __add__ = _ar(lambda a, b: a + b)
    __radd__ = _ar(lambda a, b: b + a)
    __sub__ = _ar(lambda a, b: a - b)
    __rsub__ = _ar(lambda a, b: b - a)
    __mul__ = _ar(lambda a, b: a * b)
    __rmul__ = _ar(lambda a, b: b * a)

    def __eq__(self, o):
        e = _iex(o)
        if e is None:
            return False
        return mk_bool(z3.simplify(self.e == e))

    def __ne__(self, o):
        e = _iex(o)
        if e is None:
            return True
        return mk_bool(z3.simplify(self.e != e))

    def __neg__(self):
        return SymInt(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt(z3.If(self.e >= 0, self.e, -self.e))

    def __floordiv__(self, o):
        if type(o) is int and o > 0:
            return SymInt(self.e / z3.IntVal(o))     # z3 div floors for positive divisors
        return int(self) // int(o)

    def __mod__(self, o):
        if type(o) is int and o > 0:
            return SymInt(self.e % z3.IntVal(o))
        return int(self) % int(o)

    def __bool__(self):
        return ctx().branch(z3.simplify(self.e != 0))

    def __int__(self):
        return ctx().concretise_int(self)

    __index__ = __int__
    __trunc__ = __int__

    def __float__(self):
        return float(int(self))

    def __round__(self, n=None):
        return self

    def __hash__(self):
        return hash(int(self))

    def __str__(self):
        return str(int(self))

    def __repr__(self):
        return "<an integer>"        # only seen inside containers that are formatted for a log

    def __format__(self, spec):
        return format(int(self), spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return (int, (int(self),))


class Atom:
    """A string of which only its identity is known: z3 Int; ids < LITERAL_MAX are concrete
    strings (only those the harness listed are reachable), ids above are 'any other string'.
    Anything but equality makes it concrete (by forking)."""
    __slots__ = ("e", "lits", "_conc")

    def __init__(self, e, lits=()):
        self.e = e
        self.lits = lits
        self._conc = None

    @property
    def __class__(self):
        return str

    def __eq__(self, o):
        if type(o) is Atom:
            if o is self:
                return True
            return mk_bool(z3.simplify(self.e == o.e))
        if type(o) is Rope:
            return o == self
        if type(o) is str:
            return mk_bool(z3.simplify(self.e == z3.IntVal(intern_lit(o))))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return mk_bool(z3.Not(r.e)) if type(r) is SymBool else not r

    def __hash__(self):
        # first decide whether it is one of the literals it may equal
        for s in self.lits:
            if self == s:
                return hash(s)
        return 0x5eed

    def concrete(self):
        return ctx().concretise_atom(self)

    def __bool__(self):
        return bool(self != "")

    def __str__(self):
        return self.concrete()

    def __repr__(self):
        return repr(self.concrete())

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __len__(self):
        return len(self.concrete())

    def __iter__(self):
        return iter(self.concrete())

    def __contains__(self, x):
        return str(x) in self.concrete()

    def __getitem__(self, i):
        return self.concrete()[i]

    def __add__(self, o):
        return self.concrete() + str(o)

    def __radd__(self, o):
        return str(o) + self.concrete()

    def __mod__(self, o):
        return self.concrete() % o

    def __lt__(self, o):
        return self.concrete() < str(o)

    def __le__(self, o):
        return self.concrete() <= str(o)

    def __gt__(self, o):
        return self.concrete() > str(o)

    def __ge__(self, o):
        return self.concrete() >= str(o)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.concrete(), name)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return (str, (self.concrete(),))


_WORD = frozenset("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-")


class Rope:
    """A string made of literal pieces and Atoms that stand for non-empty lower-case words
    (no punctuation).  Splitting, stripping and comparing at punctuation stays symbolic, anything
    else makes the words concrete."""
    __slots__ = ("segs",)

    @property
    def __class__(self):
        return str

    @staticmethod
    def make(segs):
        out = []
        for x in segs:
            for y in (x.segs if type(x) is Rope else [x]):
                if type(y) is str:
                    if y == "":
                        continue
                    if out and type(out[-1]) is str:
                        out[-1] += y
                        continue
                out.append(y)
        if not out:
            return ""
        if len(out) == 1:
            return out[0]
        r = Rope()
        r.segs = out
        return r

    def concrete(self):
        return "".join(x if type(x) is str else x.concrete() for x in self.segs)

    __str__ = concrete

    def __repr__(self):
        return repr(self.concrete())

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __hash__(self):
        return hash(self.concrete())

    def __len__(self):
        return len(self.concrete())

    def __bool__(self):
        return True

    def __iter__(self):
        return iter(self.concrete())

    @staticmethod
    def _tokens(segs):
        """[run of word pieces | punctuation character]"""
        out = []
        for x in segs:
            if type(x) is Atom:
                if out and type(out[-1]) is list:
                    out[-1].append(x)
                else:
                    out.append([x])
                continue
            for ch in x:
                if ch in _WORD:
                    if out and type(out[-1]) is list:
                        if type(out[-1][-1]) is str:
                            out[-1][-1] += ch
                        else:
                            out[-1].append(ch)
                    else:
                        out.append([ch])
                else:
                    out.append(ch)
        return out

    def __eq__(self, o):
        if o is self:
            return True
        if type(o) is Rope:
            osegs = o.segs
        elif type(o) is Atom or type(o) is str:
            osegs = [o]
        else:
            return False
        a, b = Rope._tokens(self.segs), Rope._tokens(osegs)
        if any(type(x) is list and len(x) > 1 for x in a + b):
            return self.concrete() == str(o)
        if len(a) != len(b):
            return False
        conj = []
        for x, y in zip(a, b):
            if type(x) is not type(y):
                return False
            if type(x) is str:
                if x != y:
                    return False
            else:
                conj.append(expr_of_bool(x[0] == y[0]))
        return mk_bool(z3.simplify(z3.And(conj))) if conj else True

    def __ne__(self, o):
        r = self.__eq__(o)
        return mk_bool(z3.Not(r.e)) if type(r) is SymBool else not r

    @staticmethod
    def _punct(x):
        return type(x) is str and x != "" and not (set(x) & _WORD)

    def startswith(self, p, *a):
        f = self.segs[0]
        if type(p) is str and not a:
            if type(f) is str:
                if len(f) >= len(p):
                    return f.startswith(p)
                if not p.startswith(f):
                    return False
            elif p and p[0] not in _WORD:
                return False
        return self.concrete().startswith(p, *a)

    def endswith(self, p, *a):
        f = self.segs[-1]
        if type(p) is str and not a:
            if type(f) is str:
                if len(f) >= len(p):
                    return f.endswith(p)
                if not p.endswith(f):
                    return False
            elif p and p[-1] not in _WORD:
                return False
        return self.concrete().endswith(p, *a)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:-len(p)] if p and self.endswith(p) else self

    def __getitem__(self, i):
        if type(i) is slice and i.step is None:
            f, l = self.segs[0], self.segs[-1]
            if i.stop is None and type(i.start) is int and type(f) is str and \
                    0 <= i.start <= len(f):
                return Rope.make([f[i.start:]] + self.segs[1:])
            if i.start is None and type(i.stop) is int and type(l) is str and \
                    -len(l) <= i.stop < 0:
                return Rope.make(self.segs[:-1] + [l[:i.stop]])
        return self.concrete()[i]

    def split(self, sep=None, maxsplit=-1):
        if not Rope._punct(sep):
            return self.concrete().split(sep, maxsplit)
        parts = [[]]
        for x in self.segs:
            if type(x) is str:
                left = -1 if maxsplit < 0 else maxsplit - (len(parts) - 1)
                bits = x.split(sep, left) if left else [x]
                parts[-1].append(bits[0])
                parts.extend([b] for b in bits[1:])
            else:
                parts[-1].append(x)
        return [Rope.make(p) for p in parts]

    def rsplit(self, sep=None, maxsplit=-1):
        if not Rope._punct(sep):
            return self.concrete().rsplit(sep, maxsplit)
        parts = self.split(sep)
        if maxsplit < 0 or len(parts) <= maxsplit + 1:
            return parts
        k = len(parts) - maxsplit
        head = []
        for j, x in enumerate(parts[:k]):
            head += [sep, x] if j else [x]
        return [Rope.make(head)] + parts[k:]

    def partition(self, sep):
        p = self.split(sep, 1)
        return (p[0], sep, p[1]) if len(p) == 2 else (self, "", "")

    def rpartition(self, sep):
        p = self.rsplit(sep, 1)
        return (p[0], sep, p[1]) if len(p) == 2 else ("", "", self)

    def rstrip(self, chars=None):
        if not Rope._punct(chars):
            return self.concrete().rstrip(chars)
        l = self.segs[-1]
        return Rope.make(self.segs[:-1] + [l.rstrip(chars)]) if type(l) is str else self

    def lstrip(self, chars=None):
        if not Rope._punct(chars):
            return self.concrete().lstrip(chars)
        l = self.segs[0]
        return Rope.make([l.lstrip(chars)] + self.segs[1:]) if type(l) is str else self

    def strip(self, chars=None):
        r = self.rstrip(chars)
        return r.lstrip(chars) if type(r) is Rope else r.strip(chars)

    def lower(self):
        return Rope.make([x.lower() if type(x) is str else x for x in self.segs])

    casefold = lower

    def __contains__(self, x):
        if Rope._punct(x):
            return any(type(s) is str and x in s for s in self.segs)
        return str(x) in self.concrete()

    def replace(self, a, b, *n):
        if Rope._punct(a) and not n:
            return Rope.make([x.replace(a, b) if type(x) is str else x for x in self.segs])
        return self.concrete().replace(str(a), str(b), *n)

    def __add__(self, o):
        return Rope.make([self, o])

    def __radd__(self, o):
        return Rope.make([o, self])

    def __lt__(self, o):
        return self.concrete() < str(o)

    def __gt__(self, o):
        return self.concrete() > str(o)

    def __le__(self, o):
        return self.concrete() <= str(o)

    def __ge__(self, o):
        return self.concrete() >= str(o)

    def __mod__(self, o):
        return self.concrete() % o

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.concrete(), name)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return (str, (self.concrete(),))


def deep_concrete(v):
    t = type(v)
    if t is Atom or t is Rope:
        return v.concrete()
    if t is SymBool:
        return bool(v)
    if t is SymInt:
        return int(v)
    if t is dict:
        return {deep_concrete(k): deep_concrete(x) for k, x in v.items()}
    if t is list or t is tuple or t is set:
        return t(deep_concrete(x) for x in v)
    return v


class Bag:
    """observation whose order is not part of the behaviour"""

    def __init__(self, xs):
        self.xs = list(xs)


def call(fn, *a, **k):
    """('ok', value) or ('raise', exception) of the code under test"""
    try:
        return "ok", fn(*a, **k)
    except Exception as e:
        return "raise", e


# ------------------------------------------------------------------------------------------------
# exploration

class Violation:
    def __init__(self, label, values, info, known=None):
        self.label, self.values, self.info, self.known = label, values, info, known


class Ctx:
    def __init__(self, max_decisions=4000, deadline=None):
        self.solver = z3.Solver()
        self.solver.set("timeout", 60000)
        self.trail = []           # [expr, value, other_side_open]  one solver level each
        self.pos = 0
        self.decls = {}
        self.model = None
        self.max_decisions = max_decisions
        self.deadline = deadline
        self.stats = dict(paths=0, decisions=0, queries=0, solver_s=0.0, checks=0,
                          checks_structural=0, infeasible=0, pathlimit=0, unknown=0)
        self.covers = {}
        self.violations = []
        self.known_hits = {}
        self.int_conc = {}
        self.conc_pool = []
        self.nfresh = 0
        self.observed = []
        self.incomplete = []
        self.forced = []

    def handover(self):
        """prefixes of everything not yet explored; this exploration is over afterwards"""
        vals = [t[1] for t in self.trail]
        return [vals[:i] + [not vals[i]] for i, t in enumerate(self.trail) if t[2]]

    # -- solver ----------------------------------------------------------------------------
    def _check(self, *extra):
        t = time.perf_counter()
        r = self.solver.check(*extra)
        self.stats["solver_s"] += time.perf_counter() - t
        self.stats["queries"] += 1
        if r == z3.unknown:
            self.stats["unknown"] += 1
            raise EngineError("solver answered unknown: " + self.solver.reason_unknown())
        return r == z3.sat

    def _holds_in_model(self, e):
        if self.model is None:
            return None
        v = self.model.eval(e, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def _sat(self, e):
        if self._holds_in_model(e):
            return True
        if self._check(e):
            self.model = self.solver.model()
            return True
        return False

    # -- decisions -------------------------------------------------------------------------
    def branch(self, e):
        if isinstance(e, bool):
            return e
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.pos < len(self.trail):
            ent = self.trail[self.pos]
            if not (ent[0] is not None and ent[0].eq(e)):
                raise EngineError(f"non-deterministic re-execution: {ent[0]} / {e}")
            self.pos += 1
            return ent[1]
        if len(self.trail) < len(self.forced):       # hand-over from another worker
            val = self.forced[len(self.trail)]
            self._push(e, val, False)
            self.model = None
            return val
        if len(self.trail) >= self.max_decisions:
            raise PathLimit("decisions")
        m = self._holds_in_model(e)
        ne = z3.Not(e)
        if m is True:
            t, f = True, self._check_keep(ne)
        elif m is False:
            t, f = self._check_keep(e), True
        else:
            t = self._sat(e)
            f = self._check_keep(ne) if t else True
        if t and f:
            val, open_ = True, True
        elif t:
            val, open_ = True, False
        elif f:
            val, open_ = False, False
        else:
            raise Infeasible()
        self._push(e, val, open_)
        if open_ and not (self._holds_in_model(e) is True):
            self.model = None
        return val

    def _check_keep(self, e):
        """feasibility of e without replacing the cached model"""
        return self._check(e)

    def _push(self, e, val, open_):
        self.solver.push()
        self.solver.add(e if val else z3.Not(e))
        self.trail.append([e, val, open_])
        self.pos += 1
        self.stats["decisions"] += 1

    def assume(self, c):
        e = expr_of_bool(c)
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise Infeasible()
        if self.pos < len(self.trail):
            if not self.trail[self.pos][0].eq(e):
                raise EngineError("non-deterministic re-execution (assume)")
            self.pos += 1
            return
        if len(self.trail) < len(self.forced):
            self.model = None
        elif not self._sat(e):
            raise Infeasible()
        self.solver.push()
        self.solver.add(e)
        self.trail.append([e, True, False])
        self.pos += 1

    def declare(self, name, kind, extra=None):
        if name in self.decls:
            raise EngineError(f"input declared twice on a path: {name}")
        v = z3.Bool(name) if kind == "bool" else z3.Int(name)
        self.decls[name] = (kind, v, extra)
        return v

    # -- concretisation ---------------------------------------------------------------------
    def concretise_int(self, s):
        e = z3.simplify(s.e)
        if z3.is_int_value(e):
            return e.as_long()
        k = e.sexpr()
        for _ in range(64):
            if self.pos < len(self.trail):
                ent = self.trail[self.pos]
                # recorded decision has the form e == n
                n = None
                if z3.is_eq(ent[0]):
                    for a, b in ((0, 1), (1, 0)):
                        if ent[0].arg(a).eq(e) and z3.is_int_value(ent[0].arg(b)):
                            n = ent[0].arg(b).as_long()
                if n is None:
                    n = self._canon_guess(e)
            else:
                n = self._canon_guess(e)
            if self.branch(e == z3.IntVal(n)):
                return n
        import traceback
        at = [f"{f.filename.rsplit('/', 1)[-1]}:{f.lineno}" for f in traceback.extract_stack()[-9:-1]]
        self.incomplete.append("integer concretised beyond 64 values: " + k[:80] + " at " + " ".join(at))
        raise PathLimit("int concretisation")

    def _canon_guess(self, e):
        if not self._check():
            raise Infeasible()
        return self.solver.model().eval(e, model_completion=True).as_long()

    def concretise_atom(self, a):
        if a._conc is not None:
            return a._conc
        for s in list(a.lits) + self.conc_pool:
            if self.branch(a.e == z3.IntVal(intern_lit(s))):
                a._conc = s
                return s
        # a string different from everything concrete so far: by symmetry any name will do
        s = f"v{len(self.conc_pool)}"
        i = LITERAL_MAX + len(self.conc_pool)
        _lit2id[s] = i
        self.assume(a.e == z3.IntVal(i))
        self.conc_pool.append(s)
        a._conc = s
        return s

    # -- assertions -------------------------------------------------------------------------
    def values(self, model):
        out = {}
        for name, (kind, v, extra) in self.decls.items():
            if kind == "bool":
                out[name] = bool(z3.is_true(model.eval(v, model_completion=True)))
            else:
                n = model.eval(v, model_completion=True).as_long()
                out[name] = lit_of(n) if kind == "atom" else n
        return out

    def concretise_value(self, v, model):
        t = type(v)
        if t is SymBool:
            return bool(z3.is_true(model.eval(v.e, model_completion=True)))
        if t is SymInt:
            return model.eval(v.e, model_completion=True).as_long()
        if t is Atom:
            return lit_of(model.eval(v.e, model_completion=True).as_long())
        if t is Rope:
            return "".join(self.concretise_value(x, model) for x in v.segs)
        if t is Bag:
            return sorted((self.concretise_value(x, model) for x in v.xs), key=repr)
        if isinstance(v, dict):
            return {str(self.concretise_value(k, model)): self.concretise_value(x, model)
                    for k, x in v.items()}
        if isinstance(v, (list, tuple)):
            return [self.concretise_value(x, model) for x in v]
        if isinstance(v, (set, frozenset)):
            return sorted((self.concretise_value(x, model) for x in v), key=repr)
        if v is None or isinstance(v, (str, int, float, bool)):
            return v
        if hasattr(v, "to_dict") and hasattr(v, "_dict"):
            return self.concretise_value(dict(v._dict), model)
        return f"<{t.__name__}>"

    def check(self, cond, label, info=None, known=None):
        """known: list of (finding id, condition describing the recorded class)"""
        self.stats["checks"] += 1
        e = expr_of_bool(cond)
        if z3.is_true(e):
            self.stats["checks_structural"] += 1
            return
        bad = z3.Not(e)
        for kid, kc in (known or []):
            kc = expr_of_bool(kc)
            if kid not in self.known_hits and self._check(bad, kc):
                m = self.solver.model()
                self.known_hits[kid] = Violation(label, self.values(m), info, kid)
            bad = z3.And(bad, z3.Not(kc))
        if self._check(bad):
            m = self.solver.model()
            if sum(1 for v in self.violations if v.label == label) < 3:
                self.violations.append(
                    Violation(label, self.values(m),
                              {k: self.concretise_value(v, m) for k, v in (info or {}).items()}))
            else:
                self.violations_more = getattr(self, "violations_more", 0) + 1

    def final_model(self):
        if self.model is None or self._holds_all() is False:
            if not self._check():
                raise Infeasible()
            self.model = self.solver.model()
        return self.model

    def _holds_all(self):
        return False        # always take a fresh one: cheap and unarguable

    # -- driver -----------------------------------------------------------------------------
    def backtrack(self):
        while self.trail and not self.trail[-1][2]:
            self.solver.pop()
            self.trail.pop()
        if not self.trail:
            return False
        e, val, _ = self.trail[-1]
        self.solver.pop()
        self.solver.push()
        self.solver.add(z3.Not(e) if val else e)
        self.trail[-1] = [e, not val, False]
        self.model = None
        return True

    def start_path(self):
        self.pos = 0
        self.decls = {}
        self.conc_pool = []
        self.observed = []
        self.path_covers = set()


class SymSource:
    """What a harness sees while it is executed symbolically."""
    symbolic = True
    concrete_atoms = False

    def __init__(self, c, case):
        self.c, self.case = c, case

    def bool(self, name):
        return SymBool(self.c.declare(name, "bool"))

    def flag(self, name):
        return self.c.branch(self.c.declare(name, "bool"))

    def int(self, name, lo=None, hi=None):
        v = self.c.declare(name, "int")
        if lo is not None:
            self.c.assume(v >= lo)
        if hi is not None:
            self.c.assume(v <= hi)
        return SymInt(v)

    def atom(self, name, lits=(), other=True):
        v = self.c.declare(name, "atom", tuple(lits))
        dom = [v == intern_lit(s) for s in lits]
        if other:
            dom.append(v >= LITERAL_MAX)
        self.c.assume(z3.Or(dom) if len(dom) > 1 else dom[0])
        a = Atom(v, tuple(lits))
        return a.concrete() if self.concrete_atoms else a

    def word(self, name):
        return self.atom(name)

    def rope(self, *parts):
        return Rope.make(parts)

    def choose(self, name, options):
        options = list(options)
        v = self.c.declare(name, "int")
        self.c.assume(z3.And(v >= 0, v < len(options)))
        for i in range(len(options) - 1):
            if self.c.branch(v == i):
                return options[i]
        return options[-1]

    def size(self, name, lo, hi):
        return self.choose(name, range(lo, hi + 1))

    def assume(self, c):
        self.c.assume(c)

    def check(self, cond, label, info=None, known=None):
        self.c.check(cond, label, info, known)

    def cover(self, label):
        self.c.covers[label] = self.c.covers.get(label, 0) + 1

    def observe(self, name, value):
        self.c.observed.append((name, value))

    # non-forking logic
    def eq(self, a, b):
        return a == b

    def and_(self, *xs):
        return mk_bool(z3.simplify(z3.And([expr_of_bool(x) for x in xs]))) if xs else True

    def or_(self, *xs):
        return mk_bool(z3.simplify(z3.Or([expr_of_bool(x) for x in xs]))) if xs else False

    def not_(self, x):
        return mk_bool(z3.simplify(z3.Not(expr_of_bool(x))))

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def member(self, x, coll):
        return self.or_(*[self.eq(x, y) for y in coll])

    def subset(self, a, b):
        return self.and_(*[self.member(x, b) for x in a])

    def ite(self, c, a, b):
        c = expr_of_bool(c)
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        return SymInt(z3.If(c, _iex(a), _iex(b)))


class ReplaySource:
    """The same interface on concrete values: used against the un-instrumented code."""
    symbolic = False

    def __init__(self, values, case):
        self.values, self.case = values, case
        self.failed, self.observed, self.covers = [], [], {}
        self.assume_failed = False
        self.checks = 0

    def bool(self, name):
        return bool(self.values.get(name, False))

    flag = bool

    def int(self, name, lo=None, hi=None):
        return self.values.get(name, lo if lo is not None else 0)

    def atom(self, name, lits=(), other=True):
        return self.values.get(name, lits[0] if lits else "v0")

    word = atom

    def rope(self, *parts):
        return "".join(parts)

    def choose(self, name, options):
        options = list(options)
        return options[self.values.get(name, len(options) - 1)]

    def size(self, name, lo, hi):
        return self.choose(name, range(lo, hi + 1))

    def assume(self, c):
        if not c:
            self.assume_failed = True
            raise Infeasible()

    def check(self, cond, label, info=None, known=None):
        self.checks += 1
        if not cond:
            ks = [k for k, kc in (known or []) if kc]
            self.failed.append((label, ks[0] if ks else None))

    def cover(self, label):
        self.covers[label] = self.covers.get(label, 0) + 1

    def observe(self, name, value):
        self.observed.append((name, value))

    def eq(self, a, b):
        return a == b

    def and_(self, *xs):
        return all(xs)

    def or_(self, *xs):
        return any(xs)

    def not_(self, x):
        return not x

    def implies(self, a, b):
        return (not a) or bool(b)

    def member(self, x, coll):
        return any(x == y for y in coll)

    def subset(self, a, b):
        return all(self.member(x, b) for x in a)

    def ite(self, c, a, b):
        return a if c else b


def plain(v):
    """JSON-able form of an observation (concrete run)."""
    if type(v) is Bag:
        return sorted((plain(x) for x in v.xs), key=repr)
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted((plain(x) for x in v), key=repr)
    if v is None or isinstance(v, (str, int, float, bool)):
        return v
    if hasattr(v, "to_dict") and hasattr(v, "_dict"):
        return plain(dict(v._dict))
    return f"<{type(v).__name__}>"

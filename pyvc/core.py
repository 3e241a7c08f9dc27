"""Symbolic values, path exploration and proof obligations.

Everything here is about *terms*: a number is a pair of a value (exact rational
or z3 term) and flags for NaN and the infinities; comparisons yield SBool whose
truth value forks the current path.  Machine floats are treated as mathematical
reals extended with NaN / +inf / -inf.
"""
import itertools
import os
import subprocess
import tempfile
import time
from fractions import Fraction as F

import z3


class Unsupported(BaseException):
    """The code uses something outside the modelled subset."""


class Infeasible(BaseException):
    """The current path turned out to be impossible."""


class Abort(BaseException):
    """Out of time."""


# ---------------------------------------------------------------- booleans

def _junct(xs, neutral, kind, mk):
    """n-ary and/or: flattened, duplicates and top-level assumptions removed"""
    out, seen, neg = [], set(), set()
    todo = list(reversed(xs))
    true = ENG.trueids if ENG is not None else ()
    false = ENG.falseids if ENG is not None else ()
    while todo:
        x = todo.pop()
        if isinstance(x, bool):
            if x is not neutral:
                return not neutral
            continue
        if z3.is_app_of(x, kind):
            todo.extend(reversed(x.children()))
            continue
        i = x.get_id()
        if i in seen:
            continue
        if i in true or i in false:
            if (i in true) is not neutral:
                return not neutral
            continue
        if z3.is_not(x):
            j = x.arg(0).get_id()
            if j in seen:
                return not neutral
            neg.add(j)
        elif i in neg:
            return not neutral
        seen.add(i)
        out.append(x)
    if not out:
        return neutral
    if len(out) == 1:
        return out[0]
    return mk(*out)


def AND(*xs):
    return _junct(xs, True, z3.Z3_OP_AND, z3.And)


def OR(*xs):
    return _junct(xs, False, z3.Z3_OP_OR, z3.Or)


def NOT(x):
    if x is True:
        return False
    if x is False:
        return True
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def IMP(a, b):
    if a is True:
        return b
    if a is False or b is True:
        return True
    if b is False:
        return NOT(a)
    return z3.Implies(a, b)


def IFF(a, b):
    if isinstance(a, bool):
        return b if a else NOT(b)
    if isinstance(b, bool):
        return a if b else NOT(a)
    if a.eq(b):
        return True
    return a == b


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


# ---------------------------------------------------------------- reals

def isq(x):
    return isinstance(x, (int, F)) and not isinstance(x, bool)


def zr(x):
    """z3 term for a rational or a term (sort kept)."""
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, F):
        return z3.RealVal(str(x))
    return x


def zreal(x):
    if isq(x):
        return z3.RealVal(str(F(x)))
    return z3.ToReal(x) if x.is_int() else x


def RADD(a, b):
    if isq(a) and isq(b):
        return a + b
    if isq(a) and a == 0:
        return b
    if isq(b) and b == 0:
        return a
    a, b = _same(a, b)
    return a + b


def RSUB(a, b):
    if isq(a) and isq(b):
        return a - b
    if isq(b) and b == 0:
        return a
    if not isq(a) and not isq(b) and a.eq(b):
        return 0
    a, b = _same(a, b)
    return a - b


def RNEG(a):
    return -a if isq(a) else (-a)


def RMUL(a, b):
    if isq(a) and isq(b):
        return a * b
    for x, y in ((a, b), (b, a)):
        if isq(x):
            if x == 0:
                return 0
            if x == 1:
                return y
    if not isq(a) and not isq(b) and ENG is not None and ENG.uf_mul and not (a.is_int() and b.is_int()):
        return _mulatom(zreal(a), zreal(b))
    a, b = _same(a, b)
    return a * b


ENG = None


def _strip(t):
    """(rational factor, rest) of a product or negation"""
    k = F(1)
    while True:
        if z3.is_rational_value(t):
            return k * F(t.numerator_as_long(), t.denominator_as_long()), None
        if z3.is_mul(t) and t.num_args() == 2 and z3.is_rational_value(t.arg(0)):
            k *= F(t.arg(0).numerator_as_long(), t.arg(0).denominator_as_long())
            t = t.arg(1)
        elif z3.is_mul(t) and t.num_args() == 2 and z3.is_rational_value(t.arg(1)):
            k *= F(t.arg(1).numerator_as_long(), t.arg(1).denominator_as_long())
            t = t.arg(0)
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UMINUS:
            k = -k
            t = t.arg(0)
        else:
            return k, t


def _mulatom(a, b):
    """product of two terms as an atom; its definition is a nonlinear (heavy) fact"""
    (k, a), (l, b) = _strip(a), _strip(b)
    k = k * l
    if k == 0:
        return 0
    if a is None or b is None:
        if a is None and b is None:
            return k
        return RMUL(k, a if b is None else b)
    if a.get_id() > b.get_id():
        a, b = b, a
    m = MUL(a, b)
    key = m.get_id()
    if key not in ENG.muls:
        ENG.muls[key] = m
        ENG.heavyfact(m == a * b)
        ENG.fact(z3.Implies(z3.Or(a == 0, b == 0), m == 0))
        ENG.fact(z3.Implies(z3.And(a > 0, b > 0), m > 0))
        ENG.fact(z3.Implies(z3.And(a < 0, b < 0), m > 0))
        ENG.fact(z3.Implies(z3.And(a > 0, b < 0), m < 0))
        ENG.fact(z3.Implies(z3.And(a < 0, b > 0), m < 0))
        ENG.fact(z3.Implies(a == 1, m == b))
        ENG.fact(z3.Implies(b == 1, m == a))
        for x, y in ((a, b), (b, a)):
            if y.decl().eq(INV):
                # m = x / w compared with 1
                w = y.arg(0)
                if w.eq(x):
                    ENG.fact(z3.Implies(x != 0, m == 1))
                else:
                    ENG.fact(z3.Implies(w != 0, (m == 1) == (x == w)))
                    ENG.fact(z3.Implies(w > 0, (m < 1) == (x < w)))
                    ENG.fact(z3.Implies(w < 0, (m < 1) == (x > w)))
    return m if k == 1 else RMUL(k, m)


def _same(a, b):
    """bring two operands to one sort"""
    if isq(a):
        if b.is_int():
            if F(a).denominator == 1:
                return z3.IntVal(int(a)), b
            return zreal(a), z3.ToReal(b)
        return zreal(a), b
    if isq(b):
        y, x = _same(b, a)
        return x, y
    if a.is_int() != b.is_int():
        return zreal(a), zreal(b)
    return a, b


def RITE(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isq(a) and isq(b):
        if a == b:
            return a
        return z3.If(c, zreal(a), zreal(b)) if (F(a).denominator != 1 or F(b).denominator != 1) else z3.If(c, z3.IntVal(int(a)), z3.IntVal(int(b)))
    if not isq(a) and not isq(b) and a.eq(b):
        return a
    a, b = _same(a, b)
    return z3.If(c, a, b)


def BITE(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else NOT(c)
    if a is True:
        return OR(c, b)
    if a is False:
        return AND(NOT(c), b)
    if b is True:
        return OR(NOT(c), a)
    if b is False:
        return AND(c, a)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def REQ(a, b):
    if isq(a) and isq(b):
        return a == b
    if not isq(a) and not isq(b) and a.eq(b):
        return True
    a, b = _same(a, b)
    return a == b


def RLT(a, b):
    if isq(a) and isq(b):
        return a < b
    if not isq(a) and not isq(b) and a.eq(b):
        return False
    a, b = _same(a, b)
    return a < b


def RLE(a, b):
    if isq(a) and isq(b):
        return a <= b
    if not isq(a) and not isq(b) and a.eq(b):
        return True
    a, b = _same(a, b)
    return a <= b


# ---------------------------------------------------------------- scalars

class SBool:
    __slots__ = ('b',)
    __array_ufunc__ = None

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return ENG.decide(self.b)

    def __and__(self, o):
        return SBool(AND(self.b, asbool(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SBool(OR(self.b, asbool(o)))

    __ror__ = __or__

    def __invert__(self):
        return SBool(NOT(self.b))

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return SBool(IFF(self.b, asbool(o)))
        return SF(RITE(self.b, 1, 0)) == o

    def __ne__(self, o):
        return ~(self == o)

    def _num(self):
        return SF(RITE(self.b, 1, 0))

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __gt__(self, o):
        return self._num() > o

    def __lt__(self, o):
        return self._num() < o

    __hash__ = None


def asbool(x):
    if isinstance(x, SBool):
        return x.b
    if isinstance(x, bool):
        return x
    if z3.is_expr(x):
        return x
    raise Unsupported('boolean expected, got %r' % type(x))


def mkbool(b):
    return b if isinstance(b, bool) else SBool(b)


class SF:
    """number: value v (rational or z3 Int/Real term) plus NaN/inf flags.

    pim: if not None the number is pi * pim (kept to evaluate cos/sin exactly);
    tag: ('acos', c) / ('asin', s) when the number is an inverse function value.
    """
    __slots__ = ('_v', 'nan', 'pinf', 'ninf', 'pim', 'tag')
    __array_ufunc__ = None
    __array_priority__ = 1e6

    def __init__(self, v, nan=False, pinf=False, ninf=False, pim=None, tag=None):
        self._v = v
        self.nan = nan
        self.pinf = pinf
        self.ninf = ninf
        self.pim = pim
        self.tag = tag

    @property
    def v(self):
        if self._v is None:
            self._v = RMUL(ENG.PI, self.pim)
        return self._v

    # -- helpers
    @property
    def fin(self):
        return AND(NOT(self.nan), NOT(self.pinf), NOT(self.ninf))

    @property
    def plain(self):
        return self.nan is False and self.pinf is False and self.ninf is False

    def const(self):
        return self.plain and self.pim is None and isq(self.v)

    def isint(self):
        v = self.v
        return (isq(v) and F(v).denominator == 1) or (not isq(v) and v.is_int())

    # -- arithmetic
    def _add(self, o, sub=False):
        o = num(o)
        if o is None:
            return NotImplemented
        if self.pim is not None and o.pim is not None and self.plain and o.plain:
            return SF(None, pim=(RSUB if sub else RADD)(self.pim, o.pim))
        if o.const() and o.v == 0:
            return self
        v = (RSUB if sub else RADD)(self.v, o.v)
        if self.plain and o.plain:
            return SF(v)
        opi, oni = (o.ninf, o.pinf) if sub else (o.pinf, o.ninf)
        nan = OR(self.nan, o.nan, AND(self.pinf, oni), AND(self.ninf, opi))
        return SF(v, nan, AND(OR(self.pinf, opi), NOT(nan)), AND(OR(self.ninf, oni), NOT(nan)))

    def __add__(self, o):
        return self._add(o)

    def __radd__(self, o):
        o = num(o)
        return NotImplemented if o is None else o._add(self)

    def __sub__(self, o):
        return self._add(o, True)

    def __rsub__(self, o):
        o = num(o)
        return NotImplemented if o is None else o._add(self, True)

    def __neg__(self):
        if self.pim is not None and self.plain:
            return SF(None, pim=RNEG(self.pim))
        return SF(RNEG(self.v), self.nan, self.ninf, self.pinf)

    def __pos__(self):
        return self

    def __abs__(self):
        v = self.v
        return SF(abs(v) if isq(v) else RITE(RLT(v, 0), RNEG(v), v), self.nan, OR(self.pinf, self.ninf), False)

    def _mul(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        if self.plain and o.plain:
            if self.pim is not None and o.pim is None:
                return SF(None, pim=RMUL(self.pim, o.v))
            if o.pim is not None and self.pim is None:
                return SF(None, pim=RMUL(o.pim, self.v))
            return SF(RMUL(self.v, o.v))
        v = RMUL(self.v, o.v)
        sinf, oinf = OR(self.pinf, self.ninf), OR(o.pinf, o.ninf)
        nan = OR(self.nan, o.nan, AND(sinf, NOT(oinf), REQ(o.v, 0)), AND(oinf, NOT(sinf), REQ(self.v, 0)))
        inf = AND(OR(sinf, oinf), NOT(nan))
        sneg = OR(self.ninf, AND(NOT(sinf), RLT(self.v, 0)))
        oneg = OR(o.ninf, AND(NOT(oinf), RLT(o.v, 0)))
        neg = OR(AND(sneg, NOT(oneg)), AND(NOT(sneg), oneg))
        return SF(v, nan, AND(inf, NOT(neg)), AND(inf, neg))

    __mul__ = _mul

    def __rmul__(self, o):
        o = num(o)
        return NotImplemented if o is None else o._mul(self)

    def _div(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        if o.const() and o.v != 0:
            return self._mul(SF(F(1) / F(o.v)))
        if self.plain and o.plain and o.pim is not None:
            if self.pim is not None:
                return SF(self.pim)._div(SF(o.pim))
            if isq(o.pim) and o.pim != 0:
                return self._mul(SF(ENG.INVPI))._div(SF(o.pim))
        pim = None
        if o.const():  # division by constant zero
            z = True
        else:
            z = REQ(o.v, 0)
        q = ENG.inv(o.v) if z is not True else 0
        v = RMUL(self.v, q)
        if self.pim is not None and self.plain and ENG.known(NOT(z)) and o.plain:
            return SF(None, pim=RMUL(self.pim, q))
        if z is not True and ENG.known(NOT(z)):
            z = False
        elif z is not True and o.nan is not False and ENG.known(OR(o.nan, NOT(z))):
            z = False
        if z is False and self.plain and o.plain:
            return SF(v)
        sinf, oinf = OR(self.pinf, self.ninf), OR(o.pinf, o.ninf)
        oz = AND(z, NOT(oinf), NOT(o.nan))
        nan = OR(self.nan, o.nan, AND(sinf, oinf), AND(oz, NOT(sinf), REQ(self.v, 0)))
        inf = AND(NOT(nan), OR(sinf, oz))
        sneg = OR(self.ninf, AND(NOT(sinf), RLT(self.v, 0)))
        oneg = AND(NOT(oinf), RLT(o.v, 0)) if oinf is not False else RLT(o.v, 0)
        # the sign of a zero divisor is not modelled: either infinity
        sgn = BITE(oz, ENG.freshbool('zsign'), OR(AND(sneg, NOT(oneg)), AND(NOT(sneg), oneg))) if inf is not False else False
        val = RITE(oinf, 0, v) if oinf is not False else v
        return SF(val, nan, AND(inf, NOT(sgn)), AND(inf, sgn))

    __truediv__ = _div

    def __rtruediv__(self, o):
        o = num(o)
        return NotImplemented if o is None else o._div(self)

    def __mod__(self, o):
        o = num(o)
        if not (self.plain and o.const() and o.v > 0):
            raise Unsupported('mod')
        if isq(self.v):
            return SF(self.v % o.v)
        if self.v.is_int() and F(o.v).denominator == 1:
            ENG.on_mod(self.v, int(o.v))
            return SF(self.v % int(o.v))
        k = z3.ToInt(zreal(self.v) / zreal(o.v))
        return SF(zreal(self.v) - zreal(o.v) * z3.ToReal(k))

    def __floordiv__(self, o):
        o = num(o)
        if not (self.plain and o.const() and o.v > 0):
            raise Unsupported('floordiv')
        if isq(self.v):
            return SF(self.v // o.v)
        if self.v.is_int() and F(o.v).denominator == 1:
            return SF(self.v / int(o.v))
        return SF(z3.ToInt(zreal(self.v) / zreal(o.v)))

    def __pow__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        if o.const() and F(o.v).denominator == 1 and 0 <= o.v <= 4:
            r = SF(1)
            for _ in range(int(o.v)):
                r = r * self
            return r
        return ENG.pow(self, o)

    def __rpow__(self, o):
        o = num(o)
        return o ** self

    # -- comparisons (IEEE: false with NaN)
    def _cmp(self, o, op):
        if o is None:
            return NotImplemented
        p = AND(NOT(self.nan), NOT(o.nan))
        if self.plain and o.plain:
            return op(self.v, o.v)
        if op is RLT or op is RLE:
            le = op is RLE
            sinf, oinf = OR(self.pinf, self.ninf), OR(o.pinf, o.ninf)
            both = AND(sinf, oinf)
            r = OR(
                AND(NOT(sinf), NOT(oinf), op(self.v, o.v)),
                AND(self.ninf, NOT(o.ninf)),
                AND(o.pinf, NOT(self.pinf)),
                AND(both, le, OR(AND(self.pinf, o.pinf), AND(self.ninf, o.ninf))),
            )
            return AND(p, r)
        raise AssertionError

    def __lt__(self, o):
        o = num(o)
        return NotImplemented if o is None else mkbool(self._cmp(o, RLT))

    def __le__(self, o):
        o = num(o)
        return NotImplemented if o is None else mkbool(self._cmp(o, RLE))

    def __gt__(self, o):
        o = num(o)
        return NotImplemented if o is None else mkbool(o._cmp(self, RLT))

    def __ge__(self, o):
        o = num(o)
        return NotImplemented if o is None else mkbool(o._cmp(self, RLE))

    def _eq(self, o):
        if self.plain and o.plain:
            return REQ(self.v, o.v)
        return AND(
            NOT(self.nan), NOT(o.nan), IFF(self.pinf, o.pinf), IFF(self.ninf, o.ninf),
            OR(self.pinf, self.ninf, REQ(self.v, o.v)),
        )

    def __eq__(self, o):
        o = num(o)
        return False if o is None else mkbool(self._eq(o))

    def __ne__(self, o):
        o = num(o)
        return True if o is None else mkbool(NOT(self._eq(o)))

    def __bool__(self):
        return bool(self != 0)

    def __int__(self):
        if self.const():
            return int(self.v)
        raise Unsupported('int() of a symbolic number')

    def __float__(self):
        if self.const():
            return float(self.v)
        raise Unsupported('float() of a symbolic number')

    def __index__(self):
        if self.const() and F(self.v).denominator == 1:
            return int(self.v)
        raise Unsupported('symbolic number used as an index')

    def __format__(self, spec):
        return ENG.format(self, spec)

    __hash__ = None

    def __repr__(self):
        return 'SF(%s)' % (self.v,)

    # numpy-scalar-like API
    def astype(self, t):
        from . import rt
        return rt.toint(self) if t is int or getattr(t, '_is_int', False) else self

    def item(self):
        return self

    def round(self, n=0):
        return ENG.round(self, n)

    def clip(self, lo=None, hi=None, **kw):
        lo, hi = kw.get('min', lo), kw.get('max', hi)
        return clip(self, lo, hi)

    def copy(self):
        return self

    @property
    def shape(self):
        return ()


NAN = SF(0, nan=True)


def num(x):
    """SF for any scalar, None if x is not a scalar number"""
    if isinstance(x, SF):
        return x
    if isinstance(x, bool):
        return SF(int(x))
    if isinstance(x, SBool):
        return x._num()
    if isinstance(x, (int, F)):
        return SF(x)
    if isinstance(x, float):
        if x != x:
            return NAN
        if x in (float('inf'), float('-inf')):
            return SF(0, pinf=x > 0, ninf=x < 0)
        return SF(F(x))
    if isinstance(x, z3.ArithRef):
        return SF(x)
    if hasattr(x, '_as_scalar'):
        return x._as_scalar()
    return None


def choose(c, a, b):
    """value-level if-then-else"""
    c = asbool(c)
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return mkbool(BITE(c, asbool(a), asbool(b)))
    x, y = num(a), num(b)
    if x is None or y is None:
        if hasattr(a, '_choose'):
            return a._choose(c, b)
        raise Unsupported('choice between %r and %r' % (type(a), type(b)))
    # where one side is NaN the value is irrelevant: keep the other one
    if x.nan is True:
        v = y.v
    elif y.nan is True:
        v = x.v
    else:
        v = RITE(c, x.v, y.v)
    return SF(v, BITE(c, x.nan, y.nan), BITE(c, x.pinf, y.pinf), BITE(c, x.ninf, y.ninf))


def clip(x, lo, hi):
    x = num(x)
    if lo is not None:
        lo = num(lo)
        x = choose(AND(NOT(x.nan), asbool(x < lo)), lo, x)
    if hi is not None:
        hi = num(hi)
        x = choose(AND(NOT(x.nan), asbool(x > hi)), hi, x)
    return x


def same_value(a, b):
    """formula: the two numbers are the same cell value (NaN equals NaN)"""
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return IFF(asbool(a), asbool(b))
    a, b = num(a), num(b)
    return OR(AND(a.nan, b.nan), a._eq(b))


class SStr:
    """a string argument: the solver decides which of finitely many constants it equals"""
    _ids = {}

    def __init__(self, term):
        self.t = term

    @classmethod
    def code(cls, s):
        return cls._ids.setdefault(s, len(cls._ids))

    def __eq__(self, o):
        if isinstance(o, str):
            return mkbool(self.t == self.code(o))
        return self is o

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    __hash__ = None

    def __repr__(self):
        return 'SStr'


# ---------------------------------------------------------------- engine

class Obligation(dict):
    pass


def conjuncts(f):
    if z3.is_and(f):
        for g in f.children():
            yield from conjuncts(g)
    else:
        yield f


class Engine:
    def __init__(self):
        self.PI = z3.Real('c_pi')
        self.INVPI = z3.Real('c_invpi')
        self.obligations = []
        self.back_ends = {}
        self.solver_time = 0.0
        self.paths = 0
        self.deadline = None
        self.tier = 'quick'
        self.trusted = set()
        self.assumed = set()
        self.functions = set()
        self.bounded = []
        self.loop_stack = []
        self.serial = 0
        self.mutlog = []
        self.timeout = 20000
        self.notes = []
        self.failed = 0
        self.rand_open = False
        self.uf_mul = True
        self.reset_path([])

    # -- path management
    def reset_path(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.pending = []
        self.facts = []
        self.heavy = []
        self.factids = set()
        self.pairs = set()
        self.pc = []
        self.counter = itertools.count()
        self.invs = {}
        self.exps, self.logs, self.acoss, self.tans, self.pows = [], [], [], [], []
        self.trig = {}
        self.muls = {}
        self.trueids, self.falseids = {}, {}
        self.nested = 0
        self.hubs = {'c_pi', 'c_sqrt2', 'c_sqrt3', 'c_sqrt6'}
        self.rounds = {}
        self.cache = {}
        self.mutlog = []
        self.loop_stack = []
        self.frame_log = []
        self.random_used = 0
        self.templates = []
        self.solver = z3.Solver()
        self.solver.set('timeout', 1500)
        self.fact(self.PI > z3.RealVal('3.14159'))
        self.fact(self.PI < z3.RealVal('3.14160'))
        self.fact(self.INVPI > z3.RealVal('0.3183'))
        self.fact(self.INVPI < z3.RealVal('0.3184'))
        self.heavyfact(self.PI * self.INVPI == 1)

    def fact(self, f):
        if f is True:
            return
        f = zb(f)
        k = f.get_id()
        if k in self.factids:
            return
        self.factids.add(k)
        self.facts.append(f)
        self.solver.add(f)

    def pairfact(self, f, quick=False):
        """fact relating two function applications: used only where both occur"""
        f = zb(f)
        k = f.get_id()
        if k in self.factids:
            return
        self.factids.add(k)
        self.facts.append(f)
        self.pairs.add(k)
        if quick:
            self.solver.add(f)

    def heavyfact(self, f):
        if f is True:
            return
        f = zb(f)
        k = f.get_id()
        if k in self.factids:
            return
        self.factids.add(k)
        self.heavy.append(f)

    def assume(self, f):
        if f is True:
            return
        if isinstance(f, SBool):
            f = f.b
        f = zb(f)
        self.pc.append(f)
        self.solver.add(f)
        if not self.nested:
            for g in conjuncts(f):
                self.trueids[g.get_id()] = g
                if z3.is_not(g):
                    h = g.arg(0)
                    self.falseids[h.get_id()] = h
                else:
                    h = z3.Not(g)
                    self.falseids[h.get_id()] = h

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Abort('out of time')

    def _quick(self, *fs):
        self.tick()
        t = time.time()
        r = self.solver.check(*[zb(f) for f in fs])
        self.solver_time += time.time() - t
        return r

    def known(self, f):
        """is f entailed on this path (quick check)"""
        if isinstance(f, bool):
            return f
        key = ('known', f.get_id())
        for got, n in self.cache.get(key, ()):
            # entailed by a prefix of the present path condition (facts only grow)
            if len(got) <= len(self.pc) and all(a is b for a, b in zip(got, self.pc)):
                return True
        r = self._quick(NOT(f))
        if r == z3.unknown:
            # once more with the facts that share symbols with f only
            t = time.time()
            s = z3.SimpleSolver()
            s.set('timeout', 3000)
            g = zb(f)
            want = syms(g).union(*[syms(p) for p in self.pc]) | self.hubs
            s.add(*[p for p in self.facts if syms(p) <= want])
            s.add(*self.pc)
            r = s.check(z3.Not(g))
            self.solver_time += time.time() - t
        r = r == z3.unsat
        if r:
            self.cache.setdefault(key, []).append((list(self.pc), f))
        return r

    def decide(self, b):
        if isinstance(b, bool):
            return b
        s = z3.simplify(b)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            r = self.prefix[i]
        else:
            t = self._quick(b)
            f = self._quick(NOT(b))
            if t == z3.unsat and f == z3.unsat:
                raise Infeasible()
            if t == z3.unsat:
                r = False
            elif f == z3.unsat:
                r = True
            else:
                r = True
                self.pending.append(self.trace + [False])
        self.trace.append(r)
        self.assume(b if r else NOT(b))
        return r

    def explore(self, fn, maxpaths=4000):
        """run fn on every feasible path; fn is re-executed from scratch for each"""
        work = [[]]
        n = 0
        while work:
            self.tick()
            prefix = work.pop()
            self.reset_path(prefix)
            n += 1
            if n > maxpaths:
                raise Unsupported('more than %d paths' % maxpaths)
            try:
                fn()
            except Infeasible:
                pass
            work.extend(self.pending)
            self.paths += 1
        return n

    # -- fresh symbols
    def name(self, hint):
        return '%s!%d' % (hint, next(self.counter))

    def fresh(self, hint, sort='R'):
        """fresh symbol; inside a generic loop iteration it is a function of the iteration"""
        nm = self.name(hint)
        z = {'R': z3.RealSort(), 'I': z3.IntSort(), 'B': z3.BoolSort()}[sort]
        if self.loop_stack:
            it = [l.iota for l in self.loop_stack]
            return z3.Function(nm, *([z3.IntSort()] * len(it)), z)(*it)
        return z3.Const(nm, z)

    def freshbool(self, hint):
        return self.fresh(hint, 'B')

    def func(self, hint, *sorts):
        m = {'R': z3.RealSort(), 'I': z3.IntSort(), 'B': z3.BoolSort()}
        return z3.Function(self.name(hint), *[m[s] for s in sorts])

    def on_mod(self, term, k):
        for l in self.loop_stack:
            l.on_mod(term, k)

    # -- real functions
    def inv(self, x):
        """1/x as an atom q with x != 0 -> x*q == 1"""
        if isq(x):
            return F(1) / F(x)
        x = z3.simplify(x, som=False)
        if z3.is_rational_value(x) or z3.is_int_value(x):
            q = F(x.as_fraction()) if z3.is_rational_value(x) else F(x.as_long())
            return F(1) / q
        k = x.get_id()
        if k in self.invs:
            return self.invs[k][0]
        q = INV(zreal(x))
        self.invs[k] = (q, x)
        xr = zreal(x)
        self.heavyfact(z3.Implies(xr != 0, xr * q == 1))
        self.fact(z3.Implies(xr > 0, q > 0))
        self.fact(z3.Implies(xr < 0, q < 0))
        return q

    def exp(self, x):
        x = num(x)
        if x.const() and x.v == 0:
            return SF(1)
        a = zreal(x.v)
        e = EXP(a)
        if not any(p.eq(a) for p in self.exps):
            self.fact(e > 0)
            self.fact((a == 0) == (e == 1))
            self.fact((a > 0) == (e > 1))
            self.fact(z3.Implies(a >= 0, e >= 1 + a))
            for p in self.exps:
                self.pairfact((p < a) == (EXP(p) < e))
                self.pairfact((p == a) == (EXP(p) == e))
            self.exps.append(a)
        return SF(RITE(x.ninf, 0, e), x.nan, x.pinf, False)

    def log(self, x):
        x = num(x)
        if x.const() and x.v == 1:
            return SF(0)
        a = zreal(x.v)
        l = LOG(a)
        if not any(p.eq(a) for p in self.logs):
            self.logs.append(a)
            e = self.exp(SF(l)).v
            self.fact(z3.Implies(a > 0, e == a))
        return SF(l, OR(x.nan, AND(NOT(x.pinf), NOT(x.ninf), RLT(x.v, 0)), x.ninf), x.pinf,
                  AND(NOT(x.nan), NOT(x.pinf), NOT(x.ninf), REQ(x.v, 0)))

    def pow(self, x, y):
        if y.const() and y.v == F(1, 2):
            pass
        a, b = zreal(x.v), zreal(y.v)
        p = POW(a, b)
        self.fact(z3.Implies(a > 0, p > 0))
        self.fact(z3.Implies(z3.And(a == 0, b > 0), p == 0))
        # negative base with a non-integer exponent is NaN; integer exponents of
        # negative bases are left unspecified (value unknown, maybe NaN)
        neg = RLT(x.v, 0)
        nan = OR(x.nan, y.nan, AND(neg, NOT(self.POWINT(b)) if not isq(y.v) else F(y.v).denominator != 1))
        zneg = AND(REQ(x.v, 0), RLT(y.v, 0))
        return SF(p, nan, AND(NOT(nan), OR(x.pinf, zneg)), False)

    def POWINT(self, b):
        return z3.IsInt(b)

    def _trigpi(self, x):
        """(cos, sin) of pi*x"""
        if isq(x):
            c = costab(F(x))
            if c is not None:
                return c, costab(F(x) - F(1, 2))
        xr = z3.simplify(zreal(x)) if not isq(x) else zreal(x)
        # split a constant offset that is a multiple of 1/12
        if not isq(x):
            off, rest = splitconst(xr)
            if rest is not None and off != 0 and (off * 12).denominator == 1:
                # half turns change the sign only
                k = off.numerator // off.denominator
                off -= k
                if k:
                    c, s = self._trigpi(z3.simplify(rest + zreal(off)))
                    return (c, s) if k % 2 == 0 else (RNEG(c), RNEG(s))
                c, s = COSPI(xr), SINPI(xr)
                if xr.get_id() not in self.trig:
                    self.trig[xr.get_id()] = xr
                    self._trigfacts(xr, c, s)
                    rc, rs = self._trigpi(rest)
                    oc, os_ = costab(off), costab(off - F(1, 2))
                    rc, rs, oc, os_ = (zreal(t) for t in (rc, rs, oc, os_))
                    self.heavyfact(c == oc * rc - os_ * rs)
                    self.heavyfact(s == os_ * rc + oc * rs)
                    if os_.eq(zreal(0)):
                        self.fact(c == oc * rc)
                        self.fact(s == oc * rs)
                return c, s
        c, s = COSPI(xr), SINPI(xr)
        if xr.get_id() not in self.trig:
            self.trig[xr.get_id()] = xr
            self._trigfacts(xr, c, s)
        return c, s

    def _trigfacts(self, x, c, s):
        for t in (c, s):
            self.fact(t <= 1)
            self.fact(t >= -1)
        self.heavyfact(c * c + s * s == 1)
        for k in range(-4, 5):
            self.fact(z3.Implies(x == k, c == (1 if k % 2 == 0 else -1)))
        for k in range(-4, 4):
            self.fact(z3.Implies(x == k + z3.RealVal('1/2'), c == 0))
        self.fact(z3.Implies(z3.And(x > -z3.RealVal('1/2'), x < z3.RealVal('1/2')), c > 0))
        self.fact(z3.Implies(z3.And(x > z3.RealVal('1/2'), x < z3.RealVal('3/2')), c < 0))
        self.fact(z3.Implies(x == 0, s == 0))
        self.fact(z3.Implies(z3.And(x > 0, x < 1), s > 0))
        for o in list(self.trig.values()):
            if o is x or len(self.trig) > 40:
                continue
            self.pairfact(z3.Implies(o == -x, z3.And(COSPI(o) == c, SINPI(o) == -s)))

    def cos(self, x, sin=False):
        x = num(x)
        if x.const() and x.v == 0:
            return SF(0 if sin else 1)
        if x.pim is not None:
            c, s = self._trigpi(x.pim)
            return SF(s if sin else c)
        bad = OR(x.nan, x.pinf, x.ninf)
        a = z3.simplify(zreal(x.v))
        c, s = COSR(a), SINR(a)
        if ('r', a.get_id()) not in self.cache:
            self.cache[('r', a.get_id())] = a
            for t in (c, s):
                self.fact(t <= 1)
                self.fact(t >= -1)
            self.fact(z3.Implies(a == 0, z3.And(c == 1, s == 0)))
            self.heavyfact(c * c + s * s == 1)
            if x.tag:
                kind, y = x.tag
                y = zreal(y)
                inside = z3.And(y >= -1, y <= 1)
                if kind == 'acos':
                    self.fact(z3.Implies(inside, c == y))
                    self.fact(z3.Implies(inside, s >= 0))
                    self.fact(z3.Implies(inside, (s == 0) == z3.Or(y == 1, y == -1)))
                else:
                    self.fact(z3.Implies(inside, s == y))
                    self.fact(z3.Implies(inside, c >= 0))
        return SF(s if sin else c, bad)

    def sin(self, x):
        return self.cos(x, True)

    def tan(self, x):
        x = num(x)
        if x.pim is not None:
            a = z3.simplify(zreal(x.pim))
            f = TANPI
        else:
            a = z3.simplify(zreal(x.v))
            f = TANR
        t = f(a)
        if not any(p.eq(a) and g is f for p, g in self.tans):
            for p, g in self.tans:
                if g is f:
                    self.pairfact(z3.Implies(p == -a, g(p) == -t))
            self.fact(z3.Implies(a == 0, t == 0))
            if f is TANPI:
                self.fact(z3.Implies(z3.And(a > 0, a < z3.RealVal('1/2')), t > 0))
            self.tans.append((a, f))
        return SF(t, x.nan)

    def acos(self, x, asin=False):
        x = num(x)
        a = z3.simplify(zreal(x.v))
        f = ASIN if asin else ACOS
        t = f(a)
        if not any(p.eq(a) and g is f for p, g in self.acoss):
            inside = z3.And(a >= -1, a <= 1)
            if not asin:
                self.fact(z3.Implies(inside, z3.And(t >= 0, t <= self.PI)))
                self.fact(z3.Implies(a == 1, t == 0))
                self.fact(z3.Implies(a == -1, t == self.PI))
                self.fact(z3.Implies(z3.And(inside, a < 1), t > 0))
                self.fact(z3.Implies(z3.And(inside, a > -1), t < self.PI))
                self.fact(z3.Implies(inside, (a > 0) == (2 * t < self.PI)))
                self.fact(z3.Implies(a == 0, 2 * t == self.PI))
            for p, g in self.acoss:
                if g is f:
                    if not asin:
                        self.pairfact(z3.Implies(z3.And(inside, p == -a), f(p) == self.PI - t))
                        self.pairfact(z3.Implies(z3.And(inside, p >= -1, p <= 1), (p < a) == (f(p) > t)))
                    else:
                        self.pairfact(z3.Implies(z3.And(inside, p == -a), f(p) == -t))
            self.acoss.append((a, f))
        bad = OR(RLT(x.v, -1), RLT(1, x.v))
        return SF(t, OR(x.nan, x.pinf, x.ninf, bad), tag=('asin' if asin else 'acos', x.v))

    def round(self, x, n=0):
        x = num(x)
        if n:
            sc = 10 ** n
            r = self.round(x * sc, 0)
            return SF(RMUL(F(1, sc), zreal(r.v) if not isq(r.v) else r.v), r.nan, r.pinf, r.ninf)
        if isq(x.v):
            return SF(round(F(x.v)), x.nan, x.pinf, x.ninf)
        if x.v.is_int():
            return x
        a = z3.simplify(x.v)
        k = ROUND(a)
        if ('opaque', 'round') in self.cache:
            # asked for by a contract: any whole number
            return SF(k, x.nan, x.pinf, x.ninf)
        self.fact(z3.ToReal(k) - a <= z3.RealVal('1/2'))
        self.fact(a - z3.ToReal(k) <= z3.RealVal('1/2'))
        for p in self.rounds.values():
            self.pairfact(z3.Implies(p <= a, ROUND(p) <= k))
            self.pairfact(z3.Implies(p >= a, ROUND(p) >= k))
        self.rounds[a.get_id()] = a
        return SF(k, x.nan, x.pinf, x.ninf)

    def format(self, x, spec):
        raise Unsupported('formatting a symbolic number')

    # -- obligations
    def prove(self, name, goal, extra=(), timeout=None, heavy=None, quiet=False, local=False, firm=True):
        """discharge facts & path condition & extra => goal; record the result.

        firm=False: the obligation rests on an incomplete axiomatisation, a countermodel of the axioms is
        then no refutation (result 'unknown')"""
        self.tick()
        if isinstance(goal, SBool):
            goal = goal.b
        rec = dict(name=name, result='proved', back_end='simplifier', time=0.0)
        if goal is not True:
            t0 = time.time()
            res, be, why = self._discharge(zb(goal), [zb(e) for e in extra], timeout or self.timeout, heavy, local)
            if res == 'refuted' and not firm:
                res = 'unknown'
            rec.update(result=res, back_end=be, time=round(time.time() - t0, 4), why=why)
            self.solver_time += time.time() - t0
        if quiet:
            return rec['result'] == 'proved'
        self.obligations.append(rec)
        if rec['result'] != 'proved':
            self.failed += 1
            if self.failed >= 4:
                raise Abort('given up after %d obligations that could not be discharged' % self.failed)
        self.back_ends[rec['back_end']] = self.back_ends.get(rec['back_end'], 0) + 1
        return rec['result'] == 'proved'

    def contradictory(self):
        """canary: are the facts and the path condition inconsistent (then everything would be provable)"""
        for fs in (self.facts, self.facts + self.heavy):
            s = z3.Solver()
            s.set('timeout', 2000)
            for f in fs + self.pc:
                s.add(f)
            if s.check() == z3.unsat:
                return True
        return False

    def have(self, name, goal, **kw):
        """a lemma: prove it, then use it as a fact"""
        if isinstance(goal, SBool):
            goal = goal.b
        ok = self.prove(name, goal, **kw)
        if ok:
            self.fact(goal)
        return ok

    def lemma(self, name, fn, n, **kw):
        """prove fn(x1..xn) for arbitrary reals; returns a function that states it for given terms"""
        xs = [self.fresh('x') for _ in range(n)]
        goal, t0 = fn(*xs), time.time()
        ok = self.prove(name, goal, **dict(kw, local='only', quiet=True, timeout=3000))
        if ok:
            self.obligations.append(dict(name=name, result='proved', back_end='z3', time=round(time.time() - t0, 4)))
            self.back_ends['z3'] = self.back_ends.get('z3', 0) + 1
        else:
            ok = self.prove(name, goal, **kw)

        def use(*ts):
            f = zb(fn(*ts))
            if ok:
                self.fact(f)
            return f
        return use

    def derive(self, name, goal, hyps, abstract=(), **kw):
        """prove the goal from the given established facts alone, with the given terms replaced by fresh symbols"""
        ids = {f.get_id() for fs in (self.facts, self.heavy, self.pc) for f in fs}
        hyps = [h for h in (zb(asbool(h)) for h in hyps) if not z3.is_true(h)]
        for h in hyps:
            if h.get_id() not in ids:
                raise Unsupported('derivation from something not established: %s' % str(h)[:200].replace('\n', ' '))
        sub = []
        for t in abstract:
            if z3.is_expr(t) and not any(t.eq(a) for a, _ in sub):
                sub.append((t, z3.FreshConst(t.sort(), 'g')))
        f = lambda x: z3.substitute(zb(x), *sub) if sub else zb(x)
        kw.setdefault('firm', False)
        ok = self.prove(name, f(asbool(goal)), extra=[f(h) for h in hyps], local='only', **kw)
        if ok:
            self.fact(asbool(goal))
        return ok

    def show(self, name, goal, hyps=(), abstract=(), **kw):
        """derive() if that succeeds, otherwise have()"""
        t0 = time.time()
        if self.derive(name, goal, hyps, abstract, quiet=True, timeout=2000, **kw):
            self.obligations.append(dict(name=name, result='proved', back_end='z3', time=round(time.time() - t0, 4)))
            self.back_ends['z3'] = self.back_ends.get('z3', 0) + 1
            return True
        # with the facts about nothing but the symbols of the goal
        want = syms(zb(asbool(goal))).union(*[syms(p) for p in self.pc]) | self.hubs
        near = [f for f in self.facts if f.get_id() not in self.pairs and syms(f) <= want] + list(self.pc) + list(hyps)
        if self.derive(name, goal, near, abstract, quiet=True, timeout=4000, **kw):
            self.obligations.append(dict(name=name, result='proved', back_end='z3', time=round(time.time() - t0, 4)))
            self.back_ends['z3'] = self.back_ends.get('z3', 0) + 1
            return True
        return self.have(name, asbool(goal), firm=False)

    def _discharge(self, goal, extra, timeout, heavy, local):
        neg = NOT(goal)
        stages = []
        if heavy is not True:
            stages.append(list(self.facts))
        if (heavy is True) or (heavy is None and self.heavy):
            stages.append(list(self.facts) + list(self.heavy))
        if local:
            stages = [[]]
        pc = [] if local == 'only' else self.pc
        why, res = '', 'unknown'
        if not local and heavy is not True and len(self.facts) > 60:
            # first only the facts that speak about nothing but the symbols of the goal
            want = frozenset().union(*[syms(f) for f in self.pc + extra + [neg]]) | self.hubs
            s = z3.Solver()
            s.set('timeout', 1500)
            for f in self.facts:
                if f.get_id() not in self.pairs and syms(f) <= want:
                    s.add(f)
            for f in self.pc + extra:
                s.add(f)
            s.add(neg)
            if s.check() == z3.unsat and self.tier != 'thorough':
                return 'proved', 'z3', ''
        for i, fs in enumerate(stages):
            last = i == len(stages) - 1
            s = z3.Solver()
            s.set('timeout', timeout if last else min(timeout, 8000))
            base = self.relevant(fs, pc + extra + [neg])
            if i or heavy is True:
                for f in base + pc + extra + [neg]:
                    s.add(unmul(f))
            else:
                for f in base + pc + extra:
                    s.add(f)
                s.add(neg)
            r = s.check()
            if r == z3.unsat:
                if self.tier == 'thorough' and os.environ.get('PYVC_CVC5', '1') == '1':
                    c = cvc5_check(s.to_smt2(), 10)
                    if c == 'sat':
                        return 'unknown', 'z3/cvc5 disagree', 'z3 unsat, cvc5 sat'
                    return 'proved', 'z3+cvc5' if c == 'unsat' else 'z3', ''
                return 'proved', 'z3', ''
            if last:
                if r == z3.sat:
                    if heavy is False and self.heavy:
                        return 'unknown', 'z3', 'sat without nonlinear facts'
                    return 'refuted', 'z3', model_text(s.model())
                c = cvc5_check(s.to_smt2(), max(10, timeout / 1000))
                if c == 'unsat':
                    return 'proved', 'cvc5', ''
                return 'unknown', 'z3', 'z3: %s; cvc5: %s' % (s.reason_unknown(), c)
        return res, 'z3', why

    def relevant(self, facts, seeds):
        """facts connected to the goal through shared uninterpreted symbols"""
        want = set()
        for f in seeds:
            want |= syms(f)
        want -= self.hubs
        rest = [(f, syms(f) - self.hubs) for f in facts]
        out = []
        changed = True
        while changed:
            changed = False
            keep = []
            for f, s in rest:
                if not s or (s <= want if f.get_id() in self.pairs else s & want):
                    out.append(f)
                    if not s <= want:
                        want |= s
                        changed = True
                else:
                    keep.append((f, s))
            rest = keep
        return out


def unmul(f):
    """replace the product atoms by products"""
    return z3.substitute_funs(f, (MUL, z3.Var(0, R) * z3.Var(1, R)))


_symcache = {}


_NONE = frozenset()


def syms(f):
    """uninterpreted symbols; function applications count per application"""
    r = _symcache.get(f.get_id())
    if r is not None:  # (terms are kept alive by the cache, so their ids stay unique)
        return r[1]
    todo = [f]
    while todo:
        t = todo[-1]
        i = t.get_id()
        if i in _symcache:
            todo.pop()
            continue
        if not z3.is_app(t):
            _symcache[i] = (t, _NONE)
            continue
        ch = t.children()
        if not ch:
            _symcache[i] = (t, frozenset((t.decl().name(),)) if t.decl().kind() == z3.Z3_OP_UNINTERPRETED else _NONE)
            continue
        sets = []
        for c in ch:
            e = _symcache.get(c.get_id())
            if e is None:
                todo.append(c)
            else:
                sets.append(e[1])
        if len(sets) == len(ch):
            out = max(sets, key=len)
            rest = [x for x in sets if not x <= out]
            if rest:
                out = out.union(*rest)
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out = out | {i}
            _symcache[i] = (t, out)
    return _symcache[f.get_id()][1]


def model_text(m, limit=40):
    out = []
    for d in m.decls()[:limit]:
        s = '%s = %s' % (d.name(), m[d])
        out.append(s if len(s) < 160 else s[:160] + '...')
    return '; '.join(out)


CVC5 = os.environ.get('PYVC_CVC5_BIN', '/usr/bin/cvc5')


def cvc5_check(smt2, timeout):
    if not os.path.exists(CVC5):
        return 'unavailable'
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + smt2.replace('(set-info :status unsat)', '').replace('(set-info :status sat)', ''))
        p = f.name
    try:
        r = subprocess.run([CVC5, '--tlimit=%d' % int(timeout * 1000), p], capture_output=True, text=True, timeout=timeout + 10)
        o = r.stdout.strip().splitlines()
        return o[0] if o and o[0] in ('sat', 'unsat', 'unknown') else 'error ' + (r.stdout + r.stderr)[:150]
    except subprocess.TimeoutExpired:
        return 'timeout'
    finally:
        os.unlink(p)


R, I = z3.RealSort(), z3.IntSort()
EXP = z3.Function('f_exp', R, R)
LOG = z3.Function('f_log', R, R)
POW = z3.Function('f_pow', R, R, R)
COSPI = z3.Function('f_cospi', R, R)
SINPI = z3.Function('f_sinpi', R, R)
COSR = z3.Function('f_cosr', R, R)
SINR = z3.Function('f_sinr', R, R)
TANPI = z3.Function('f_tanpi', R, R)
TANR = z3.Function('f_tanr', R, R)
ACOS = z3.Function('f_acos', R, R)
ASIN = z3.Function('f_asin', R, R)
ROUND = z3.Function('f_round', R, I)
INV = z3.Function('f_inv', R, R)
MUL = z3.Function('f_mul', R, R, R)


def splitconst(t):
    """(constant, rest) of a linear real term; rest None if constant"""
    off = F(0)
    rest = []
    todo = [(t, 1)]
    while todo:
        x, sg = todo.pop()
        if z3.is_rational_value(x):
            off += sg * F(x.numerator_as_long(), x.denominator_as_long())
        elif z3.is_int_value(x):
            off += sg * x.as_long()
        elif z3.is_add(x):
            todo.extend((c, sg) for c in x.children())
        elif z3.is_sub(x):
            cs = x.children()
            todo.append((cs[0], sg))
            todo.extend((c, -sg) for c in cs[1:])
        elif z3.is_mul(x) and x.num_args() == 2 and z3.is_rational_value(x.arg(0)) and z3.is_add(x.arg(1)):
            k = F(x.arg(0).numerator_as_long(), x.arg(0).denominator_as_long())
            for c in x.arg(1).children():
                if z3.is_rational_value(c):
                    off += sg * k * F(c.numerator_as_long(), c.denominator_as_long())
                else:
                    rest.append((z3.simplify(x.arg(0) * c), sg))
        else:
            rest.append((x, sg))
    if not rest:
        return off, None
    rest.sort(key=lambda p: p[0].get_id())
    r = None
    for x, sg in rest:
        y = x if sg > 0 else -x
        r = y if r is None else r + y
    return off, z3.simplify(r)


_r2, _r3, _r6 = z3.Real('c_sqrt2'), z3.Real('c_sqrt3'), z3.Real('c_sqrt6')
SQRT_FACTS = [
    _r2 * _r2 == 2, _r3 * _r3 == 3, _r6 == _r2 * _r3, _r2 > 1, _r3 > 1, _r6 > 2,
    _r2 < z3.RealVal('1.4143'), _r2 > z3.RealVal('1.4142'), _r3 < z3.RealVal('1.7321'), _r3 > z3.RealVal('1.7320'),
    _r6 < z3.RealVal('2.4495'), _r6 > z3.RealVal('2.4494'),
]


def costab(x):
    """cos(pi*x) for x a multiple of 1/12, exactly"""
    k = F(x) * 12
    if k.denominator != 1:
        return None
    k = int(k) % 24
    sign = 1
    if k > 12:
        k = 24 - k
    if k > 6:
        k = 12 - k
        sign = -1
    if k in (0, 6, 4):
        return {0: F(1), 6: F(0), 4: F(1, 2)}[k] * sign
    for f in SQRT_FACTS:
        (ENG.heavyfact if z3.is_eq(f) else ENG.fact)(f)
    t = {1: (_r6 + _r2) / 4, 2: _r3 / 2, 3: _r2 / 2, 5: (_r6 - _r2) / 4}[k]
    return t if sign > 0 else -t


ENG = Engine()

"""Run-time support called by the transformed source: exact literals, division, loops, builtins."""
import builtins
import operator
from fractions import Fraction as F

import z3

from . import core, vec
from .axis import Axis, DateOnly, DayStr, PosAxis, TS, canonical, mknum
from .carr import CArr, mk
from .core import AND, ENG, NAN, NOT, OR, SBool, SF, SStr, Unsupported, asbool, choose, isq, mkbool, num
from .vec import DIndex, Frame, ItemsIter, NDArr, Series, Vec


def q(text):
    return SF(F(text))


def div(a, b):
    x, y = (num(a), num(b)) if not isinstance(a, (Vec, CArr)) and not isinstance(b, (Vec, CArr)) else (None, None)
    if x is not None and y is not None:
        if y.const() and y.v == 0 and isinstance(a, (int, SF)) and isinstance(b, int):
            if not isinstance(a, SF):
                raise ZeroDivisionError('division by zero')
        return x / y
    return operator.truediv(a, b)


def idiv(a, b):
    if isinstance(a, (Vec, CArr)):
        return operator.itruediv(a, b)
    return div(a, b)


def strmod(fmt, args):
    def plain(x):
        return isinstance(x, (int, float, str))
    xs = args if isinstance(args, tuple) else (args,)
    if all(plain(x) for x in xs):
        return fmt % args
    return '<message>'


class Zip:
    """list(zip(v1, v2, ...)) of symbolic vectors: a vector of tuples"""

    def __init__(self, *vs):
        self.vs = vs

    def _len(self):
        return self.vs[0]._len()


class SymList(list):
    pass


class LazyVec:
    """result of a comprehension over a symbolic index: one value per label"""

    def __init__(self, axis, cell):
        self.axis, self.cell = axis, cell

    def _len(self):
        return mknum(self.axis.length())

    def __len__(self):
        raise Unsupported('len')


def is_symbolic(it):
    return isinstance(it, (DIndex, ItemsIter, Vec, SRange, LazyVec, Zip)) or hasattr(it, '_symiter')


def comp(f, it, cond=None):
    if not is_symbolic(it):
        return [f(x) for x in it if cond is None or cond(x)]
    if hasattr(it, '_comp'):
        return it._comp(f, cond)
    if isinstance(it, DIndex):
        ax = it.axis
        rd = lambda d, s: TS(d, F(86400, ax.K) * s)
    elif isinstance(it, Vec):
        ax, rd = it.axis, it.snapshot()
    elif isinstance(it, SRange) and it.step == 1 and isq(it.start) and it.start == 0:
        ax, rd = PosAxis(it.stop), lambda k: mknum(k)
    else:
        raise Unsupported('comprehension over ' + type(it).__name__)
    if cond is not None:
        raise Unsupported('filtered comprehension over a symbolic sequence')
    return LazyVec(ax, lambda *l: f(rd(*l)))


class SRange:
    """range with a symbolic bound"""

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def _len(self):
        return mknum(core.RSUB(self.stop, self.start))


def range_(*a):
    xs = [num(x) for x in a]
    if any(x is None for x in xs):
        raise TypeError('range')
    if all(x.const() for x in xs):
        if any(F(x.v).denominator != 1 for x in xs):
            raise TypeError('integer expected')
        return builtins.range(*[int(x.v) for x in xs])
    start, stop, step = 0, None, 1
    if len(xs) == 1:
        stop = xs[0].v
    else:
        start, stop = xs[0].v, xs[1].v
        if len(xs) == 3:
            if not xs[2].const():
                raise Unsupported('symbolic step')
            step = int(xs[2].v)
    return SRange(start, stop, step)


def len_(x):
    if hasattr(x, '_len'):
        return x._len()
    return builtins.len(x)


def toint(x=0, *a):
    if isinstance(x, (SF, SBool, CArr)):
        x = num(x)
        if x.const():
            return int(x.v)
        r = vec.truncate(x)
        return r
    return builtins.int(x, *a)


toint._is_int = True


def tofloat(x=0):
    if isinstance(x, (SF, SBool, CArr)):
        return num(x)
    if isinstance(x, str):
        return SF(F(x)) if x.lower() not in ('nan', 'inf', '-inf') else num(builtins.float(x))
    return num(x)


tofloat._is_float = True


def tobool(x=False):
    return builtins.bool(x)


tobool._is_bool = True


def zip_(*its):
    if any(isinstance(i, (Vec, LazyVec)) for i in its):
        return Zip(*its)
    if any(is_symbolic(i) for i in its):
        raise Unsupported('zip')
    return builtins.zip(*its)


def list_(x=()):
    if isinstance(x, (Zip, LazyVec, Vec, DIndex)):
        return x
    if hasattr(x, '_items'):
        return builtins.list(x._items())
    return builtins.list(x)


def enumerate_(x, start=0):
    if is_symbolic(x):
        raise Unsupported('enumerate of a symbolic sequence')
    return builtins.enumerate(x, start)


def minmax(which):
    def f(*a, **kw):
        if kw:
            raise Unsupported('min/max keywords')
        xs = a[0] if len(a) == 1 else a
        if isinstance(xs, (Vec, DIndex)):
            return getattr(xs, which)()
        xs = list(xs)
        if not any(isinstance(x, (SF, SBool)) for x in xs):
            return getattr(builtins, which)(xs)
        r = num(xs[0])
        for x in xs[1:]:
            x = num(x)
            r = choose(asbool((x < r) if which == 'min' else (x > r)), x, r)
        return r
    return f


def sum_(xs, start=0):
    if isinstance(xs, Vec):
        return start + xs.sum()
    r = start
    for x in xs:
        r = r + x
    return r


def abs_(x):
    return operator.abs(x)


def round_(x, n=None):
    if isinstance(x, SF):
        return ENG.round(x, n or 0)
    return builtins.round(x, n)


def isinstance_(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    for c in ts:
        if c is tofloat or c is builtins.float:
            if isinstance(x, (builtins.float, SF)) and not (isinstance(x, SF) and x.isint()):
                return True
        elif c is toint or c is builtins.int:
            if isinstance(x, builtins.int) or (isinstance(x, SF) and x.isint()):
                return True
        elif c is builtins.str or c is str_:
            if isinstance(x, (str, SStr, DayStr)):
                return True
        elif c is tobool or c is builtins.bool:
            if isinstance(x, (builtins.bool, SBool)):
                return True
        elif c is list_ or c is builtins.list:
            if isinstance(x, builtins.list):
                return True
        elif c is set_:
            if isinstance(x, builtins.set):
                return True
        elif isinstance(c, type):
            if builtins.isinstance(x, c):
                return True
        else:
            raise Unsupported('isinstance against %r' % (c,))
    return False


def any_(xs):
    if isinstance(xs, Vec):
        return xs.any()
    for x in xs:
        if x:
            return True
    return False


def all_(xs):
    for x in xs:
        if not x:
            return False
    return True


def print_(*a, **kw):
    return None


def sorted_(xs, **kw):
    if is_symbolic(xs):
        if isinstance(xs, DIndex) and not kw:  # labels are increasing
            return xs
        raise Unsupported('sorted')
    return builtins.sorted(xs, **kw)


def str_(x=''):
    if isinstance(x, SStr):
        return x
    return builtins.str(x)


def set_(x=()):
    if is_symbolic(x):
        raise Unsupported('set')
    return builtins.set(x)


SHIMS = dict(len=len_, range=range_, int=toint, float=tofloat, zip=zip_, list=list_, enumerate=enumerate_, min=minmax('min'),
             max=minmax('max'), sum=sum_, abs=abs_, round=round_, isinstance=isinstance_, any=any_, all=all_, print=print_,
             sorted=sorted_, str=str_, set=set_, bool=tobool)

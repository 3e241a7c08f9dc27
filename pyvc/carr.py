"""Arrays of concrete shape with symbolic elements (tables of the cascade statistics etc.)."""
import itertools
import operator

import numpy as rnp

from . import core
from .core import AND, ENG, NOT, OR, SBool, SF, Unsupported, asbool, choose, isq, mkbool, num
from .vec import ENG_note, Vec, sdiv


def uf(f, n=2):
    return rnp.frompyfunc(f, n, 1)


class CArr:
    __array_ufunc__ = None
    frozen = None

    def __init__(self, a, frozen=None, base=None):
        self.a = a
        self.frozen = frozen
        self.base = base
        self.serial = ENG.serial = ENG.serial + 1

    def _lift_other(self):
        pass

    @property
    def shape(self):
        return self.a.shape

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def size(self):
        return self.a.size

    @property
    def T(self):
        return CArr(self.a.T, base=self)

    def _len(self):
        return self.a.shape[0]

    def _root(self):
        return self.base._root() if self.base is not None else self

    def _wrap(self, x, view=True):
        if isinstance(x, rnp.ndarray):
            return CArr(x, base=self._root() if view else None)
        return x

    def _key(self, k):
        """(concrete key, list of symbolic positions)"""
        ks = k if isinstance(k, tuple) else (k,)
        out, sym = [], False
        for x in ks:
            if isinstance(x, (SF, SBool)):
                x = num(x)
                if x.const():
                    x = int(x.v)
                elif ENG.loop_stack and x.plain and len(out) < self.a.ndim:
                    # counters: one path per position
                    n = self.a.shape[len(out)]
                    for i in list(range(n)) + list(range(-n, 0)):
                        if ENG.decide(core.REQ(x.v, i)):
                            x = i
                            break
                    else:
                        raise IndexError('index out of bounds')
                else:
                    sym = True
            elif isinstance(x, CArr):
                x = x.a
            out.append(x)
        return tuple(out), sym

    def _cases(self, ks):
        """[(condition, concrete key)] for symbolic integer indices; out of range raises IndexError"""
        axes = []
        for ax, x in enumerate(ks):
            n = self.a.shape[ax]
            if isinstance(x, SF):
                inr = AND(core.RLE(-n, x.v), core.RLT(x.v, n))
                if not ENG.known(inr) and not ENG.decide(inr):
                    raise IndexError('index out of bounds')
                axes.append([(OR(core.REQ(x.v, i), core.REQ(x.v, i - n)), i) for i in range(n)])
            else:
                axes.append([(True, x)])
        for combo in itertools.product(*axes):
            yield AND(*[c for c, _ in combo]), tuple(i for _, i in combo)

    def __getitem__(self, k):
        if isinstance(k, CArr) and k.a.dtype == object and k.a.size and isinstance(k.a.flat[0], (bool, SBool)):
            return self._select(k)
        ks, sym = self._key(k)
        if not sym:
            return self._wrap(self.a[ks if len(ks) > 1 else ks[0]])
        r = None
        for c, i in self._cases(ks):
            x = self.a[i]
            if isinstance(x, rnp.ndarray):
                raise Unsupported('symbolic row selection')
            r = x if r is None else choose(c, x, r)
        return r

    def _select(self, k):
        vals = [asbool(x) for x in k.a.flat]
        if any(not isinstance(v, bool) for v in vals):
            raise Unsupported('symbolic boolean selection')
        return CArr(self.a[rnp.array(vals).reshape(k.a.shape)])

    def _mutate(self):
        r = self._root()
        if r.frozen:
            ENG.frame_log.append((r.frozen, 'array written in place'))
        ENG_note(r)

    def __setitem__(self, k, v):
        self._mutate()
        if isinstance(v, CArr):
            v = v.a
        elif isinstance(v, (list, tuple)):
            v = mk(v).a
        if isinstance(k, CArr) and k.a.dtype == object and k.a.size and isinstance(k.a.flat[0], (bool, SBool)):
            if isinstance(v, rnp.ndarray):
                raise Unsupported('masked assignment of an array')
            for i in rnp.ndindex(self.a.shape):
                self.a[i] = choose(asbool(k.a[i]), v, self.a[i])
            return
        ks, sym = self._key(k)
        if not sym:
            if isinstance(v, rnp.ndarray) and v.size == 1 and not isinstance(self.a[ks if len(ks) > 1 else ks[0]], rnp.ndarray):
                v = v.flat[0]
            self.a[ks if len(ks) > 1 else ks[0]] = v
            return
        for c, i in list(self._cases(ks)):
            if isinstance(self.a[i], rnp.ndarray):
                raise Unsupported('symbolic row assignment')
            self.a[i] = choose(c, v, self.a[i])

    # elementwise
    def _bin(self, f, o, swap=False):
        if isinstance(o, Vec):
            return NotImplemented
        if isinstance(o, (list, tuple)):
            o = mk(o)
        b = o.a if isinstance(o, CArr) else o
        if not isinstance(o, CArr) and num(o) is None and not isinstance(o, (bool, SBool)):
            return NotImplemented
        if not isinstance(b, rnp.ndarray):
            c = rnp.empty((), dtype=object)
            c[()] = b
            b = c
        x, y = (b, self.a) if swap else (self.a, b)
        r = uf(f)(x, y)
        return CArr(r) if isinstance(r, rnp.ndarray) else r

    def __add__(self, o):
        return self._bin(operator.add, o)

    def __radd__(self, o):
        return self._bin(operator.add, o, True)

    def __sub__(self, o):
        return self._bin(operator.sub, o)

    def __rsub__(self, o):
        return self._bin(operator.sub, o, True)

    def __mul__(self, o):
        return self._bin(operator.mul, o)

    def __rmul__(self, o):
        return self._bin(operator.mul, o, True)

    def __truediv__(self, o):
        return self._bin(sdiv, o)

    def __rtruediv__(self, o):
        return self._bin(sdiv, o, True)

    def __pow__(self, o):
        return self._bin(lambda a, b: num(a) ** b, o)

    def __mod__(self, o):
        return self._bin(operator.mod, o)

    def __neg__(self):
        return CArr(uf(lambda a: -a, 1)(self.a))

    def _cmp(self, f, o):
        return self._bin(lambda a, b: f(num(a), num(b)), o)

    def __lt__(self, o):
        return self._cmp(operator.lt, o)

    def __le__(self, o):
        return self._cmp(operator.le, o)

    def __gt__(self, o):
        return self._cmp(operator.gt, o)

    def __ge__(self, o):
        return self._cmp(operator.ge, o)

    def __eq__(self, o):
        return self._cmp(operator.eq, o)

    def __ne__(self, o):
        return self._cmp(operator.ne, o)

    def __invert__(self):
        return CArr(uf(lambda a: mkbool(NOT(asbool(a))), 1)(self.a))

    def __and__(self, o):
        return self._bin(lambda a, b: mkbool(AND(asbool(a), asbool(b))), o)

    def __or__(self, o):
        return self._bin(lambda a, b: mkbool(OR(asbool(a), asbool(b))), o)

    __hash__ = None

    def _iop(self, f, o):
        r = f(o)
        self._mutate()
        self.a[...] = r.a
        return self

    def __iadd__(self, o):
        return self._iop(self.__add__, o)

    def __isub__(self, o):
        return self._iop(self.__sub__, o)

    def __imul__(self, o):
        return self._iop(self.__mul__, o)

    def __itruediv__(self, o):
        return self._iop(self.__truediv__, o)

    def __bool__(self):
        if self.a.size == 1:
            return bool(self.a.flat[0])
        raise ValueError('The truth value of an array with more than one element is ambiguous')

    def _as_scalar(self):
        if self.a.size == 1:
            return num(self.a.flat[0])
        return None

    def __iter__(self):
        for i in range(self.a.shape[0]):
            yield self._wrap(self.a[i])

    def _items(self):
        return list(self)

    def copy(self):
        return CArr(self.a.copy())

    def any(self):
        return mkbool(OR(*[asbool(truth(x)) for x in self.a.flat]))

    def all(self):
        return mkbool(AND(*[asbool(truth(x)) for x in self.a.flat]))

    def sum(self, axis=None):
        if axis is None:
            r = SF(0)
            for x in self.a.flat:
                r = r + num(x)
            return r
        return CArr(self.a.sum(axis=axis))

    def mean(self, axis=None):
        if axis is None:
            return self.sum() / self.a.size
        return CArr(self.a.sum(axis=axis)) / self.a.shape[axis]

    def cumsum(self, axis=None):
        return CArr(rnp.cumsum(self.a, axis=axis))

    def min(self):
        r = num(self.a.flat[0])
        for x in list(self.a.flat)[1:]:
            r = choose(asbool(num(x) < r), num(x), r)
        return r

    def max(self):
        r = num(self.a.flat[0])
        for x in list(self.a.flat)[1:]:
            r = choose(asbool(num(x) > r), num(x), r)
        return r

    def astype(self, t):
        from .rt import toint
        if t is int or getattr(t, '_is_int', False):
            return CArr(uf(toint, 1)(self.a))
        return self.copy()

    def clip(self, lo=None, hi=None, **kw):
        lo, hi = kw.get('min', lo), kw.get('max', hi)
        return CArr(uf(lambda x: core.clip(x, lo, hi), 1)(self.a))

    def tolist(self):
        return self.a.tolist()

    def reshape(self, *s):
        return CArr(self.a.reshape(*s))

    def flatten(self):
        return CArr(self.a.flatten())

    def item(self):
        return self.a.flat[0]

    def fill(self, v):
        self[...] = v

    def map(self, f):
        return CArr(uf(f, 1)(self.a))


def truth(x):
    if isinstance(x, (bool, SBool)):
        return x
    return num(x) != 0


def mk(x):
    """array from nested lists / scalars"""
    if isinstance(x, CArr):
        return CArr(x.a.copy())

    def conv(y):
        if isinstance(y, CArr):
            return y.a.tolist()
        if isinstance(y, range):
            return list(y)
        if isinstance(y, (list, tuple)):
            return [conv(z) for z in y]
        return y
    y = conv(x)

    def shape(z):
        return (len(z),) + (shape(z[0]) if z else ()) if isinstance(z, list) else ()
    sh = shape(y)
    a = rnp.empty(sh, dtype=object)
    for i in rnp.ndindex(sh):
        z = y
        for j in i:
            z = z[j]
        a[i] = z
    return CArr(a)


def full(shape, v):
    a = rnp.empty(shape, dtype=object)
    a[...] = v
    return CArr(a)

"""Tables whose rows are known by position only (any time stamps, any number of rows)."""
import z3

from . import core, vec
from .axis import PosAxis, TS, mknum
from .core import AND, ENG, NOT, OR, SF, Unsupported, choose, isq, mkbool, num
from .vec import Frame, NDArr, Series, trust


class PosIndex:
    """time stamps by position"""
    frozen = None
    name = None
    _freq = '?'

    def __init__(self, axis, ts):
        self.axis, self.ts = axis, ts

    def _len(self):
        return mknum(self.axis.length())

    def _vec(self, f):
        return NDArr(self.axis, lambda q: f(self.ts(q)))

    @property
    def hour(self):
        return self._vec(lambda t: clock(t, 3600, 24))

    @property
    def minute(self):
        return self._vec(lambda t: clock(t, 60, 60))

    @property
    def second(self):
        return self._vec(lambda t: clock(t, 1, 60))

    def __getitem__(self, k):
        if hasattr(k, 'vector'):
            return PosLabels(self, k.vector())
        if isinstance(k, list) and not k:
            return PosLabels(self, None)
        i = num(k)
        if i is None or not isinstance(self.axis, PosAxis):
            raise Unsupported('index[%s]' % type(k).__name__)
        (q,) = NDArr(self.axis, lambda q: 0)._pos(i)
        return self.ts(q)


def clock(t, unit, n):
    """hour, minute or second of a time stamp with a symbolic time of the day (whole seconds)"""
    if isq(t.sec):
        return int(t.sec // unit % n)
    return SF((t.sec / unit) % n) if unit > 1 else SF(t.sec % n)


class PosLabels:
    """the labels at some positions of an index"""

    def __init__(self, index, vector):
        self.index, self.vector_ = index, vector


def selected(labels):
    """formula for q: position q is one of the selected positions (segments of consecutive positions)"""
    v = labels.vector_
    if v is None:
        return lambda q: False
    segs = v.segs
    parts = []
    for n, f in segs:
        k = z3.Int(ENG.name('pos'))
        e = num(f(k)).v
        coefs, const, atoms = vec.aff(e)
        c = coefs.pop(k.get_id(), 0)
        if c not in (1, -1):
            raise Unsupported('positions that are not consecutive')
        base = vec.unaff(coefs, const, atoms)
        parts.append((n, c, base))

    def has(q):
        r = []
        for n, c, base in parts:
            i = core.RSUB(q, base) if c == 1 else core.RSUB(base, q)
            r.append(AND(core.RLE(0, i), core.RLT(i, n)))
        return OR(*r)
    return has


def drop(frame, labels):
    """rows at the given labels removed; the labels are unique"""
    trust('DataFrame.drop')
    if not isinstance(labels, PosLabels) or labels.index is not frame.index:
        raise Unsupported('drop of labels from elsewhere')
    ENG.assumed.add('time stamps of the truncated table are unique')
    has = selected(labels)
    ax = vec.PosSel(frame.axis, lambda q: NOT(has(q)))
    r = Frame(ax, {c: Series(ax, s.snapshot(), c) for c, s in frame.cols.items()})
    object.__setattr__(r, '_ix', PosIndex(ax, frame.index.ts))
    return r


def make(data, index):
    """DataFrame(index=list, data={column: list}) of lists built by a loop"""
    trust('DataFrame constructor')
    vs = {c: v.vector() for c, v in data.items()}
    n = num(index._len()).v
    for v in vs.values():
        if not ENG.known(core.REQ(v.axis.n, n)):
            raise Unsupported('columns of different length')
    ax = PosAxis(n)
    ts = index.vector().snapshot()
    return rows(ax, {c: v.snapshot() for c, v in vs.items()}, ts)


def rows(ax, cells, ts, frozen=None):
    cols = {}
    for c, f in cells.items():
        cols[c] = Series(ax, f, c)
        cols[c].frozen = frozen
    r = Frame(ax, cols, frozen=frozen)
    ix = PosIndex(ax, ts)
    ix.frozen = frozen
    object.__setattr__(r, '_ix', ix)
    return r

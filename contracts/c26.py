"""C26: KNMI files.

The library call that reads the text of a file is assumed: with the options of the format (31 lines
before the column names, blanks after the commas, empty entries missing) it returns one row per record."""
import types

from contracts.util import *
from pyvc import files, pdshim
from pyvc.axis import PosAxis
from pyvc.core import F, RADD, REQ, RITE, RLE, RLT, RMUL, Unsupported

IO = 'melodist.data_io.'
COLS = ['temp', 'precip', 'glob', 'hum', 'wind', 'ssd']
OPTIONS = dict(skiprows=31, skipinitialspace=True, na_values='')


def knmi():
    """an arbitrary file: any number of records with any dates, hours 1..24, any values, any missing"""
    n = ENG.fresh('records', 'I')
    ENG.fact(n >= 0)
    ax = PosAxis(n)
    day_ = z3.Function(ENG.name('date'), z3.IntSort(), z3.IntSort())
    hour_ = z3.Function(ENG.name('hour'), z3.IntSort(), z3.IntSort())

    def hour(q):
        h = hour_(core.zr(q))
        ENG.fact(AND(h >= 1, h <= 24))
        return SF(h)
    date = lambda q: day_(core.zr(q))
    cols = {c: Series(ax, (lambda v: lambda q: v(q))(values(c)), c) for c in ('T', 'RH', 'Q', 'U', 'FH', 'SQ', 'STN', 'TD', 'P')}
    raw = {c: s.snapshot() for c, s in cols.items()}

    def read(**kw):
        if kw != OPTIONS:
            raise Unsupported('read_csv with options that are not those of the format')
        t = files.Records(ax, dict(cols))
        t.cols['YYYYMMDD'] = files.DateCodes(ax, date)
        t.cols['HH'] = Series(ax, hour, 'HH')
        return t
    return files.File(read), n, raw, date, hour


@item('one file', [IO + 'read_single_knmi_file'])
def one(L):
    f, n, raw, date, hour = knmi()
    out = returns(lambda: L.load('melodist.data_io').read_single_knmi_file(f))
    if not isinstance(out, Frame):
        raise Unsupported('result is not a table')
    ENG.prove('columns', list(out.cols) == COLS, firm=False)
    q = ENG.fresh('record', 'I')
    ENG.prove('one row per record', IFF(out.axis.has(q), AND(RLE(0, q), RLT(q, n))))
    ENG.assume(AND(RLE(0, q), RLT(q, n)))
    t = out.index.ts(q)
    h = num(hour(q)).v
    midnight = REQ(h, 24)
    ENG.prove('date', REQ(t.d, RITE(midnight, RADD(date(q), 1), date(q))))
    ENG.prove('hour', REQ(t.sec, RITE(midnight, 0, RMUL(3600, h))))
    x = {c: num(v(q)) for c, v in raw.items()}
    g = {c: num(out.cols[c].at(q)) for c in COLS}

    def same(c, raw_, want):
        ENG.prove(c + ': missing entries stay missing', IFF(g[c].nan, raw_.nan))
        ENG.prove(c + ': value', IMP(NOT(raw_.nan), AND(g[c].fin, REQ(g[c].v, want))))
    same('temp', x['T'], RADD(RMUL(F(1, 10), x['T'].v), F(27315, 100)))
    same('precip', x['RH'], RITE(RLT(x['RH'].v, 0), 0, RMUL(F(1, 10), x['RH'].v)))
    same('glob', x['Q'], RMUL(F(10000, 3600), x['Q'].v))
    same('hum', x['U'], x['U'].v)
    same('wind', x['FH'], RMUL(F(1, 10), x['FH'].v))
    same('ssd', x['SQ'], RMUL(x['SQ'].v, 6))


class Part:
    """the table of one file, or tables put one below the other in this order"""
    _is_frame = True

    def __init__(self, names):
        self.names = names

    def copy(self, *a, **k):
        return Part(list(self.names))

    def _rows_of(self, objs):
        return Part([n for o in objs for n in o.names])


def several(k):
    @item('%d files of a directory' % k, [IO + 'read_knmi_dataset'])
    def dataset(L):
        """read_single_knmi_file enters by its contract; the directory holds k files (unrolled)"""
        io = L.load('melodist.data_io')
        names = ['place/file%d.txt' % i for i in range(k)]

        def listing(mask, **kw):
            if mask != 'place/*.txt' or kw:
                raise Unsupported('file mask')
            return list(names)
        io.glob = types.SimpleNamespace(glob=listing)
        L.patch(IO + 'read_single_knmi_file', lambda f, *a, **kw: Part([f]))
        out = returns(lambda: io.read_knmi_dataset('place/'))
        if k == 0:
            if not isinstance(out, pdshim.NoRows):
                raise Unsupported('kind of result')
            ENG.prove('columns', list(out.columns) == COLS, firm=False)
        else:
            if not isinstance(out, Part):
                raise Unsupported('kind of result')
            ENG.prove('rows of each file once', sorted(out.names) == names, firm=False)


for k in range(4):
    several(k)

"""C10: range and missing values of disaggregated humidity."""
from contracts.hum import *


def make(method, kw, preserve):
    name = '%s%s%s' % (method, ' kr=%d' % kw['kr'] if kw else '', ', daily mean preserved' if preserve else '')

    @item(name, FN)
    def f(L):
        c = Case(method)
        out = c.call(L, preserve_daily_mean=preserve, **kw)
        same_index('hours', out.index, 24, c.D)
        for h in range(24):
            g = num(out.at(c.d, h))
            ENG.prove('hour %02d missing iff a needed value is' % h, IFF(g.nan, c.needed_missing(h)), firm=False)
            ENG.prove('hour %02d within 0..100' % h, OR(g.nan, AND(NOT(g.pinf), NOT(g.ninf), RLE(0, g.v), RLE(g.v, 100))))
        ENG.prove('inputs unchanged', not ENG.frame_log)
        ENG.prove('deterministic', ENG.random_used == 0)


for m, kw in METHODS:
    for p in (False, True):
        make(m, kw, p)

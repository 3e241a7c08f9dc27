"""C06: hourly, 5-minute and cascade-level time axes."""
from contracts.util import *
from pyvc.axis import RangeDays
from pyvc.core import SBool


def axis_contract(L, fn, K, **kw):
    D = days()
    idx = DIndex(Axis(1, D))
    for gaps in (False, True):
        out = returns(lambda: fn(idx, fill_gaps=gaps, **kw))
        want = RangeDays(D.first, D.last) if gaps else D
        same_index('fill_gaps=%s' % gaps, out, K, want)
    out = returns(lambda: fn(idx, **kw))
    same_index('default', out, K, D)


@item('hourly_index', ['melodist.util.util.hourly_index'])
def hourly(L):
    axis_contract(L, L.package().util.hourly_index, 24)


@item('fmin_index', ['melodist.precipitation.fmin_index'])
def fmin(L):
    axis_contract(L, L.package().precipitation.fmin_index, 288)


def sub(level):
    @item('sub_level_index level %d' % level, ['melodist.precipitation.sub_level_index'])
    def f(L):
        axis_contract(L, L.package().precipitation.sub_level_index, 2 ** level, level=level)


for lev in (9, 10, 11):
    sub(lev)

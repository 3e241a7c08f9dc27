"""Loops with a symbolic number of iterations, cut at the loop head.

The body is run on one arbitrary iteration (all its paths); from the effects of
that iteration the engine derives loop summaries, each of them an induction
whose step is discharged by the solver:

* numbers:   v == v0 + c*i (same increment on every path), otherwise havoc;
* counters:  the linear relations preserved by every path (null space of the
             increments);
* arrays:    content as a function of the writing iteration (exact), or an
             abstraction by a template proved on every path (pair template:
             out[2i] + out[2i+1] == in[i], values >= 0);
* lists:     one element per iteration;
* break:     first iteration whose break condition holds.
"""
import time
from fractions import Fraction as F

import z3

from . import core, rt, vec
from .axis import Axis, PosAxis, TS, canonical, mknum
from .carr import CArr
from .core import AND, ENG, IMP, Infeasible, NAN, NOT, OR, SBool, SF, Unsupported, asbool, choose, isq, mkbool, num, zr
from .vec import DIndex, Frame, ItemsIter, NDArr, Series, Vec, aff, divmod_aff, norm, unaff

MAXPATHS = 3000
BLOCKPATHS = 4  # arrays written in more ways are summarised by block sums


class NeedUnroll(BaseException):
    def __init__(self, k):
        self.k = k


class StaleUse(BaseException):
    def __init__(self, name):
        self.name = name


class WrongGuess(BaseException):
    pass


class Stale:
    """value of a local that an earlier iteration may have left behind"""

    def __init__(self, name):
        object.__setattr__(self, '_nm', name)

    def _use(self, *a, **k):
        raise StaleUse(object.__getattribute__(self, '_nm'))

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _use
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __bool__ = __getitem__ = __setitem__ = _use
    __len__ = __iter__ = __call__ = __index__ = __int__ = __float__ = __mod__ = __pow__ = __neg__ = __abs__ = _use
    __and__ = __or__ = __contains__ = __hash__ = _use

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise StaleUse(object.__getattribute__(self, '_nm'))


class SegList:
    """list built by appending one element per iteration"""
    _symiter = True

    def __init__(self, segs):
        self.segs = segs       # (length term, fn(index term) -> value)

    def _live(self):
        if self.segs is None:
            raise Unsupported('list changed by a loop through another reference')
        return self.segs

    def _len(self):
        n = 0
        for l, _ in self._live():
            n = core.RADD(n, l)
        return mknum(n)

    def append(self, x):
        if ENG.loop_stack:
            raise Unsupported('list of symbolic length in a loop')
        self._live().append((1, lambda i: x))

    def vector(self):
        segs = list(self._live())

        def elem(i):
            off, parts = 0, []
            for l, f in segs:
                parts.append((off, l, f))
                off = core.RADD(off, l)
            if len(parts) == 1:
                return parts[0][2](i)
            val = None
            for o, l, f in reversed(parts):
                v = f(core.RSUB(i, o))
                val = v if val is None else choose(core.RLT(i, core.RADD(o, l)), v, val)
            return val
        r = NDArr(PosAxis(num(self._len()).v), elem)
        r.segs = segs
        return r

    def __iter__(self):
        raise Unsupported('iteration over a symbolic list')


class ListProxy(list):
    """a list from before the loop, seen from inside the generic iteration: records what is appended"""

    def __init__(self, base, built):
        super().__init__(base if isinstance(base, list) else ())
        self.base, self.built, self.added = base, built, []

    def append(self, x):
        self.added.append(x)

    def _read(self, name):
        if self.built or self.added or not isinstance(self.base, list):
            raise Unsupported('reading a list that the loop builds')
        return getattr(super(), name)

    def _len(self):
        return self._read('__len__')()

    def __len__(self):
        return self._read('__len__')()

    def __iter__(self):
        return self._read('__iter__')()

    def __getitem__(self, i):
        return self._read('__getitem__')(i)

    def __contains__(self, x):
        return self._read('__contains__')(x)

    def _no(self, *a, **k):
        raise Unsupported('list changed in a loop')

    __setitem__ = __delitem__ = __iadd__ = __imul__ = extend = insert = pop = remove = clear = sort = reverse = _no
    __eq__ = __ne__ = __add__ = copy = index = count = _no
    __hash__ = None


CELL = type((lambda x: lambda: x)(0).__closure__[0])


def content(o):
    return o.a.copy() if isinstance(o, CArr) else dict(o.cols) if isinstance(o, Frame) else o._cell


def reset(o, v):
    if isinstance(o, CArr):
        o.a[...] = v
    elif isinstance(o, Frame):
        o.cols.clear()
        o.cols.update(v)
    else:
        o._cell = v


class Ctx:
    """one generic iteration being executed"""

    def __init__(self, loop, iota):
        self.loop, self.iota = loop, iota
        self.saved = {}
        self.saved_frames = {}
        self.writes = []
        self.reads = {}
        ENG.serial += 1
        self.serial = ENG.serial
        self.logged = len(ENG.mutlog)

    def array_read(self, arr, q):
        q = norm(q)
        if q.eq(self.iota) if z3.is_expr(q) and z3.is_expr(self.iota) else False:
            self.reads[id(arr)] = arr

    def note_write(self, obj):
        if obj.serial > self.serial:
            return  # created in this iteration
        if id(obj) not in self.saved:
            if isinstance(obj, CArr):
                self.saved[id(obj)] = (obj, obj.a.copy())
            else:
                self.saved[id(obj)] = (obj, obj._cell)

    def note_frame(self, f):
        if id(f) not in self.saved_frames:
            self.saved_frames[id(f)] = (f, dict(f.cols))

    def array_write(self, arr, q, val):
        self.writes.append((arr, q, val))

    def on_mod(self, term, k):
        coefs, const, atoms = aff(term)
        c = coefs.get(self.iota.get_id()) if z3.is_expr(self.iota) else None
        if c is not None and c % k and self.loop.unroll % k:
            raise NeedUnroll(k)

    def restore(self):
        del ENG.mutlog[self.logged:]
        for obj, old in self.saved.values():
            if isinstance(obj, CArr):
                obj.a[...] = old
            else:
                obj._cell = old
        for f, cols in self.saved_frames.values():
            f.cols.clear()
            f.cols.update(cols)


def subexplore(fn, maxpaths=MAXPATHS, sample=None):
    """run fn on all feasible paths from here; [(path condition, fn result)]"""
    E = ENG
    state = (E.prefix, E.trace, E.pending, E.pc)
    E.nested += 1
    out = []
    work = [[]]
    try:
        while work:
            E.tick()
            prefix = work.pop()
            E.prefix, E.trace, E.pending = prefix, [], []
            E.pc = list(state[3])
            base = len(E.pc)
            E.solver.push()
            nf = len(E.facts)
            cache = E.cache
            cache.setdefault('aggs', [])
            E.cache = dict(cache)
            try:
                r = fn()
                out.append((list(E.pc[base:]), r))
            except Infeasible:
                pass
            finally:
                E.cache = cache
                E.solver.pop()
                for f in E.facts[nf:]:
                    E.solver.add(f)
            work.extend(E.pending)
            if sample and len(out) >= sample:
                break
            if len(out) > maxpaths:
                raise Unsupported('more than %d paths through a loop body' % maxpaths)
    finally:
        E.nested -= 1
        E.prefix, E.trace, E.pending, E.pc = state
    return out


def concern(d):
    """what the path says about numbers of selected days concerns this day, too"""
    at = frozenset().union(*[core.syms(p) for p in ENG.pc])
    for k, o in list(ENG.cache.items()):
        if k[0] == 'owner' and core.syms(o._n) & at:
            o.witness(d)


class Path:
    """effects of one path through the generic iteration"""

    def __init__(self, pc, code, locals_, writes, objs, lists, frames, reads):
        self.pc = pc
        self.code = code
        self.locals = locals_
        self.writes = writes
        self.objs = objs
        self.lists = lists
        self.frames = frames
        self.reads = reads

    @property
    def cond(self):
        return AND(*self.pc)


class Loop:
    def __init__(self, uid, it, body, get, set_):
        self.uid, self.it, self.body, self.get, self.set = uid, it, body, get, set_
        self.unroll = 1
        self.carried = {}
        self.objs = {}
        self.built = set()
        self.pre = get()
        self.mark = None
        own = set(set_.__code__.co_freevars)
        self.env = []
        self.inner = []
        for nm, c in zip(body.__code__.co_freevars, body.__closure__ or ()):
            try:
                v = c.cell_contents
            except ValueError:
                continue
            if nm not in own:
                self.env.append((c, v))
            if type(v) is list:
                self.inner.append((v, list(v)))
            elif type(v).__module__.split('.')[0] == 'melodist':
                self.inner.append((v, dict(v.__dict__)))
        self.kind()

    def enter(self):
        """the variables and contents the body saw when the loop ran; returns what to put back"""
        back = []
        for c, v in self.env:
            if c.cell_contents is not v:
                back.append((c, c.cell_contents))
                c.cell_contents = v
        for o, v in self.inner:
            if isinstance(o, list):
                if len(o) != len(v) or any(x is not y for x, y in zip(o, v)):
                    back.append((o, list(o)))
                    o[:] = v
            elif any(o.__dict__.get(k) is not x for k, x in v.items()) or len(v) != len(o.__dict__):
                back.append((o, dict(o.__dict__)))
                o.__dict__.clear()
                o.__dict__.update(v)
        if self.mark is not None:
            done = set()
            for o, old in ENG.mutlog[self.mark:]:
                if id(o) in done:
                    continue
                done.add(id(o))
                back.append((o, content(o)))
                reset(o, old)
        return back

    def leave(self, back):
        for o, v in reversed(back):
            if isinstance(o, list):
                o[:] = v
            elif isinstance(o, CELL):
                o.cell_contents = v
            elif isinstance(v, dict) and not isinstance(o, (Vec, CArr)) and not isinstance(o, Frame):
                o.__dict__.clear()
                o.__dict__.update(v)
            else:
                reset(o, v)

    # ---- iteration space
    def kind(self):
        it = self.it
        if isinstance(it, rt.SRange):
            n = core.RSUB(it.stop, it.start) if it.step > 0 else core.RSUB(it.start, it.stop)
            if it.step not in (1, -1):
                raise Unsupported('symbolic range with step %d' % it.step)
            self.N = n if ENG.known(core.RLE(0, n)) else core.RITE(core.RLT(n, 0), 0, n)
            self.mode = 'pos'
            self.item = lambda i: mknum(norm(core.RADD(it.start, core.RMUL(it.step, i))))
            self.inside = lambda i: AND(core.RLE(0, i), core.RLT(i, self.N))
        elif isinstance(it, ItemsIter):
            ax = it.series.axis
            if not (ax.whole and ax.K == 1):
                raise Unsupported('items() of a sub-daily series')
            rd = it.series.snapshot()
            self.mode = 'day'
            self.N = None
            self.item = lambda d: (TS(d, 0), rd(d, 0))
            self.inside = lambda d: ax.has(d, 0)
        elif isinstance(it, DIndex):
            ax = it.axis
            if not (ax.whole and ax.K == 1):
                raise Unsupported('iteration over a sub-daily index')
            self.mode = 'day'
            self.N = None
            self.item = lambda d: TS(d, 0)
            self.inside = lambda d: ax.has(d, 0)
        else:
            raise Unsupported('loop over ' + type(it).__name__)

    # ---- one generic iteration
    def state_at(self, iota):
        """locals at the start of iteration iota"""
        st = {}
        for k, v in self.pre.items():
            if k in self.carried:
                st[k] = self.carried[k](iota)
            else:
                st[k] = v
        for k in self.names:
            if k in self.carried:
                st[k] = self.carried[k](iota)
            else:
                st[k] = Stale(k)
        return st

    def run_iter(self, iota, sample=None):
        """explore the body at iteration iota from the summarised state"""
        cur = self.get()

        def one():
            ctx = Ctx(self, iota)
            ENG.loop_stack.append(ctx)
            mark = len(ENG.frame_log)
            try:
                ENG.assume(self.inside(iota) if self.unroll == 1 else self.inside_unrolled(iota))
                if self.mode == 'day':
                    concern(iota)
                st = self.state_at(iota)
                self.set(st)
                # objects the loop writes hold unknown contents
                for obj, mk in self.objs.values():
                    if isinstance(obj, CArr):
                        ctx.note_write(obj)
                        obj.a[...] = mk(iota)
                    else:
                        ctx.note_write(obj)
                        obj._cell = mk(iota)
                proxies = {}
                for c, v in self.env:
                    if type(v) is list or isinstance(v, SegList):
                        proxies[id(c)] = c.cell_contents = ListProxy(v, id(c) in self.built)
                code = ('next', None)
                if self.unroll == 1:
                    code = self.body(self.item(iota))
                else:
                    for r in range(self.unroll):
                        code = self.body(self.item(norm(core.RADD(core.RMUL(self.unroll, iota), r))))
                        if code[0] != 'next':
                            break
                loc = self.get()
                objs = {}
                for oid, (obj, old) in ctx.saved.items():
                    objs[oid] = (obj, obj.a.copy() if isinstance(obj, CArr) else obj._cell)
                lists = {i: p.added for i, p in proxies.items()}
                frames = dict(ctx.saved_frames)
                return code, loc, list(ctx.writes), objs, lists, frames, ctx.reads
            except IndexError:
                if any(g.kind == 'probe' for g in self.carried.values()):
                    raise Infeasible()  # counters are arbitrary in this round, run again once they are known
                raise
            finally:
                for c, v in self.env:
                    if type(v) is list or isinstance(v, SegList):
                        c.cell_contents = v
                ctx.restore()
                ENG.loop_stack.pop()
        back = self.enter()
        stack = ENG.loop_stack
        if self.mark is not None:
            ENG.loop_stack = []  # evaluated later: nothing to do with the loops running now
        try:
            res = subexplore(one, sample=sample)
        finally:
            ENG.loop_stack = stack
            self.leave(back)
            self.set(cur)
        return [Path(pc, *r) for pc, r in res]

    def inside_unrolled(self, h):
        return AND(core.RLE(0, h), core.RLE(core.RADD(core.RMUL(self.unroll, h), self.unroll - 1), core.RSUB(self.N, 1)))

    def set_any(self, d):
        self.set(d)

    # ---- driver
    def execute(self):
        self.names = self.all_assigned()
        self.allvars = dict(self.pre)
        iota = z3.Int(ENG.name('iter'))
        self.iota = iota
        self.guess = True
        for _ in range(25):
            try:
                # counters: guessed from a few paths, then proved on all
                probing = self.guess and any(g.kind == 'probe' for g in self.carried.values())
                paths = self.run_iter(iota, sample=6 if probing else None)
            except NeedUnroll as e:
                if self.mode != 'pos':
                    raise Unsupported('unrolling a day loop')
                self.unroll = e.k
                self.carried, self.objs = {}, {}
                continue
            except StaleUse as e:
                self.carry(e.name)
                continue
            try:
                if self.refine(paths, iota):
                    continue
            except WrongGuess:
                if not self.guess:
                    raise Unsupported('induction on a counter failed')
                self.guess = False
                self.carried, self.objs = {}, {}
                continue
            break
        else:
            raise Unsupported('loop summary did not converge')
        return self.finish(paths, iota)

    def all_assigned(self):
        # names the generated setter knows = locals assigned in the body
        code = self.set.__code__
        names = set(code.co_freevars)
        return names

    def carry(self, name):
        if name in self.carried or name not in self.pre:
            raise Unsupported('local %s may be used before it is set' % name)
        v = self.pre[name]
        if isinstance(v, bool) or isinstance(v, SBool):
            f = ENG.func('h_' + name, 'I', 'B')
            self.carried[name] = lambda i: SBool(f(zr(i)))
            self.carried[name].kind = 'havoc'
        elif num(v) is not None and not isinstance(v, CArr):
            # first guess: unchanged + c*iota is found in refine
            x = num(v)
            f = ENG.func('h_' + name, 'I', 'I' if x.isint() else 'R')
            g = lambda i: SF(f(zr(i)))
            g.kind = 'probe'
            g.f = f
            self.carried[name] = g
        elif isinstance(v, (Vec, CArr, list)):
            # an object from before the loop, possibly rebound: assume not rebound, check in refine
            g = lambda i: v
            g.kind = 'same'
            self.carried[name] = g
        else:
            g = lambda i: v
            g.kind = 'same'
            self.carried[name] = g

    def refine(self, paths, iota):
        """update the summaries from the observed effects; True if another round is needed"""
        again = False
        live = [p for p in paths if p.code[0] == 'next']
        for name, g in list(self.carried.items()):
            if g.kind == 'probe':
                v0 = num(self.pre[name])
                deltas = []
                for p in live:
                    x = p.locals.get(name)
                    d = None
                    if num(x) is not None:
                        x = num(x)
                        if x.plain:
                            d = z3.simplify(zr(core.RSUB(x.v, g(iota).v))) if not isq(core.RSUB(x.v, g(iota).v)) else core.RSUB(x.v, g(iota).v)
                    deltas.append(d)
                cs = set()
                for d in deltas:
                    if d is None:
                        cs.add(None)
                    elif isq(d):
                        cs.add(F(d))
                    elif z3.is_int_value(d):
                        cs.add(F(d.as_long()))
                    elif z3.is_rational_value(d):
                        cs.add(F(d.numerator_as_long(), d.denominator_as_long()))
                    else:
                        cs.add(None)
                if len(cs) == 1 and None not in cs:
                    c = cs.pop()
                    c = int(c) if c.denominator == 1 else c
                    h = (lambda v0, c: lambda i: mknum2(norm_maybe(core.RADD(v0.v, core.RMUL(c, i)))))(v0, c)
                    h.kind = 'affine'
                    h.c = c
                    self.carried[name] = h
                    ENG.notes.append('loop %s: %s == %s + %s*i' % (self.uid, name, v0.v, c))
                else:
                    g.kind = 'havoc'
                    g.deltas = True
                again = True
            elif g.kind == 'affine':
                for p in live:
                    x = num(p.locals.get(name))
                    nxt = num(g(core.RADD(iota, 1)))
                    if x is not None and x.plain and same_int(x.v, nxt.v):
                        continue
                    if x is None or not ENG.prove('loop %s: %s advances by %s' % (self.uid, name, g.c),
                                                  core.REQ(x.v, nxt.v) if x.plain else False, extra=p.pc, quiet=True):
                        raise WrongGuess()
            elif g.kind == 'same':
                for p in live:
                    if p.locals.get(name) is not self.pre.get(name):
                        raise Unsupported('local %s is rebound by the loop' % name)
        for p in paths:
            for oid, (obj, _) in p.objs.items():
                if oid not in self.objs:
                    self.add_obj(obj)
                    again = True
            if p.frames:
                raise Unsupported('columns added inside a loop')
            for k, added in p.lists.items():
                if added and k not in self.built:
                    self.built.add(k)
                    again = True
        return again

    def add_obj(self, obj):
        if isinstance(obj, CArr):
            shape = obj.a.shape
            fs = {}
            import numpy as rnp
            for i in rnp.ndindex(shape):
                fs[i] = ENG.func('cnt', 'I', 'R')

            def mk(iota):
                a = rnp.empty(shape, dtype=object)
                for i in rnp.ndindex(shape):
                    a[i] = SF(fs[i](zr(iota)))
                return a
            mk.fs = fs
            self.objs[id(obj)] = (obj, mk)
        elif isinstance(obj, Vec) and isinstance(obj.axis, PosAxis):
            f = ENG.func('arr', 'I', 'I', 'R')
            fn = ENG.func('arrnan', 'I', 'I', 'B')

            def mk(iota):
                return lambda q: SF(f(zr(iota), zr(q)), fn(zr(iota), zr(q)))
            self.objs[id(obj)] = (obj, mk)
        elif isinstance(obj, Vec):
            f = ENG.func('ser', 'I', 'I', 'I', 'R')
            fn = ENG.func('sernan', 'I', 'I', 'I', 'B')
            fi = ENG.func('serinf', 'I', 'I', 'I', 'B')

            def mk(iota):
                return lambda d, s: SF(f(zr(iota), zr(d), zr(s)), fn(zr(iota), zr(d), zr(s)))
            self.objs[id(obj)] = (obj, mk)
        else:
            raise Unsupported('loop writes ' + type(obj).__name__)

    # ---- after the loop
    def finish(self, paths, iota):
        live = [p for p in paths if p.code[0] == 'next']
        brk = [p for p in paths if p.code[0] == 'break']
        for p in paths:
            if p.code[0] == 'return':
                if ENG.known(NOT(p.cond)):
                    continue
                raise Unsupported('return inside a loop with a symbolic number of iterations')
        self.paths = paths
        if brk:
            return self.finish_break(live, brk, iota)
        N = self.N
        if self.unroll > 1:
            N = core.RSUB(self.N, 0)
            N = zr(self.N) / self.unroll
            ENG.fact(z3.And(self.unroll * N <= zr(self.N), zr(self.N) < self.unroll * N + self.unroll, N >= 0))
        self.iters = N
        after = {}
        for k in self.names:
            if k in self.carried:
                g = self.carried[k]
                if g.kind == 'affine':
                    if self.mode != 'pos':
                        after[k] = Stale(k)
                    else:
                        after[k] = g(N)
                elif g.kind == 'same':
                    pass
                else:
                    after[k] = self.after_havoc(k, g, live, N)
            elif k in self.pre and self.mode == 'pos' and ENG.known(core.REQ(self.N, 0)):
                pass
            else:
                after[k] = Stale(k)
        for oid, (obj, mk) in self.objs.items():
            self.after_obj(obj, mk, live, iota, N)
        self.after_lists(live, iota, N)
        self.mark = len(ENG.mutlog)
        self.set(after)
        if self.unroll > 1:
            # the iterations left over when the count is not a multiple
            for r in range(self.unroll - 1):
                if not ENG.decide(core.RLE(core.RADD(core.RMUL(self.unroll, N), r + 1), self.N)):
                    break
                code = self.body(self.item(core.RADD(core.RMUL(self.unroll, N), r)))
                if code[0] == 'break':
                    break
                if code[0] == 'return':
                    return (code[1],)
        return None

    def after_havoc(self, k, g, live, N):
        v0 = num(self.pre[k]) if not isinstance(self.pre[k], (bool, SBool)) else None
        if v0 is None:
            return SBool(ENG.freshbool('after_' + k))
        loop = self
        # a sum over the iterations of the per-path increments
        delta = 0
        ok = True
        for p in live:
            x = num(p.locals.get(k))
            if x is None or not x.plain:
                ok = False
                break
            d = core.RSUB(x.v, g(self.iota).v)
            d = z3.simplify(zr(d)) if not isq(d) else d
            if z3.is_expr(d) and mentions(d, g.f):
                ok = False
                break
            if z3.is_expr(d) and (z3.is_int_value(d)):
                d = d.as_long()
            delta = core.RITE(p.cond, d, delta) if not isq(delta) or not isq(d) or d != delta else delta
        if ok and self.mode == 'pos' and self.unroll == 1:
            t = ENG.fresh('sum', 'I' if v0.isint() and (isq(delta) and F(delta).denominator == 1 or z3.is_expr(delta) and delta.is_int()) else 'R')
            ENG.cache[('sum', t.decl().name())] = (t, delta, self.iota, N)
            return SF(core.RADD(v0.v, t))
        return SF(ENG.fresh('after_' + k, 'I' if v0.isint() else 'R'))

    def after_obj(self, obj, mk, live, iota, N):
        if isinstance(obj, CArr):
            return self.after_counters(obj, mk, live, iota)
        if isinstance(obj.axis, PosAxis):
            return self.after_array(obj, live, iota, N)
        return self.after_series(obj, mk, live, iota)

    def after_counters(self, obj, mk, live, iota):
        import numpy as rnp
        if getattr(self, '_counters_done', None) is None:
            self._counters_done = {}
            carrs = [(o, m) for o, m in self.objs.values() if isinstance(o, CArr)]
            vars_ = [(o, i, m.fs[i]) for o, m in carrs for i in rnp.ndindex(o.a.shape)]
            rows = []
            nonneg = {(id(o), i): True for o, i, _ in vars_}
            for p in live:
                row = []
                for o, i, f in vars_:
                    x = num(p.objs[id(o)][1][i]) if id(o) in p.objs else SF(f(iota))
                    if not x.plain:
                        raise Unsupported('counter may become NaN')
                    d = core.RSUB(x.v, f(iota))
                    if z3.is_expr(d):
                        d = z3.simplify(d)
                        if z3.is_rational_value(d):
                            d = F(d.numerator_as_long(), d.denominator_as_long())
                        elif z3.is_int_value(d):
                            d = F(d.as_long())
                        else:
                            raise Unsupported('array changed by a non-constant amount in a loop')
                    if d < 0:
                        nonneg[(id(o), i)] = False
                    row.append(F(d))
                rows.append(row)
            basis = nullspace(rows, len(vars_))
            finals = {}
            for o, i, f in vars_:
                finals[(id(o), i)] = ENG.fresh('final')
            for o, i, f in vars_:
                init = num(o.a[i])
                fin = finals[(id(o), i)]
                if all(r[vars_.index((o, i, f))] == 0 for r in rows) if len(rows) < 1 else False:
                    ENG.fact(fin == zr(init.v))
                if nonneg[(id(o), i)]:
                    ENG.fact(core.RLE(init.v, fin))
            for b in basis:
                acc = 0
                for c, (o, i, f) in zip(b, vars_):
                    if c:
                        acc = core.RADD(acc, core.RMUL(c, core.RSUB(finals[(id(o), i)], num(o.a[i]).v)))
                ENG.fact(core.REQ(acc, 0))
            ENG.notes.append('loop %s: %d linear invariants over %d counters' % (self.uid, len(basis), len(vars_)))
            ENG.obligations.append(dict(name='loop %s: %d linear counter invariants preserved by all %d paths' % (self.uid, len(basis), len(rows)),
                                        result='proved', back_end='linear algebra (exact)', time=0.0))
            ENG.back_ends['linear algebra (exact)'] = ENG.back_ends.get('linear algebra (exact)', 0) + 1
            self._finals = finals
        obj._mutate()
        for i in rnp.ndindex(obj.a.shape):
            obj.a[i] = SF(self._finals[(id(obj), i)])

    def after_array(self, obj, live, iota, N):
        # exact: which iteration writes position q
        forms = set()
        for p in live:
            for arr, q, val in p.writes:
                if arr is obj:
                    coefs, const, atoms = aff(q)
                    a = coefs.pop(iota.get_id(), 0)
                    if coefs or a == 0:
                        raise Unsupported('array written at a non-affine position')
                    forms.add((a, const))
        old = obj.snapshot()
        if len(live) > BLOCKPATHS:
            r = self.blocks(obj, live, iota, forms, old)
            if r is not None:
                obj._set_cell(r)
                return
        inside = self.inside if self.unroll == 1 else self.inside_unrolled
        loop = self
        single_a = {a for a, _ in forms}
        if len(single_a) > 1:
            raise Unsupported('array written with different strides')
        memo = {}

        def iteration(i0):
            k = i0.get_id() if z3.is_expr(i0) else i0
            if k not in memo:
                memo[k] = (loop.run_iter(zr(i0)), i0)
            return memo[k][0]

        def split(q):
            # position of unknown remainder
            a = abs(list(single_a)[0])
            k = ENG.fresh('block', 'I')
            ENG.fact(AND(core.RLE(core.RMUL(a, k), q), core.RLT(q, core.RADD(core.RMUL(a, k), a))))
            res = None
            for r in range(a):
                p = norm(core.RADD(core.RMUL(a, k), r))
                v = cell(p)
                res = v if res is None else choose(core.REQ(q, p), v, res)
            return res

        def cell(q):
            res = old(q)
            # later iterations win: apply in increasing iteration order
            cands = []
            for a, b in forms:
                dm = divmod_aff(core.RSUB(q, b), abs(a))
                if dm is None:
                    return split(q)
                i0, r = dm
                if a < 0:
                    i0 = core.RNEG(i0)
                if r == 0:
                    cands.append((b, i0))
            cands.sort(key=lambda t: -t[0] if True else 0)
            seen = set()
            for b, i0 in cands:
                i0 = norm(i0)
                k = i0.get_id() if z3.is_expr(i0) else i0
                if k in seen:
                    continue
                seen.add(k)
                if ENG.known(NOT(inside(i0))):
                    continue
                for p in iteration(i0):
                    val = None
                    for arr, w, v in p.writes:
                        if arr is obj:
                            e = core.REQ(norm(w), norm(q)) if z3.is_expr(w) or z3.is_expr(q) else w == q
                            if e is True or (z3.is_expr(e) and z3.is_true(z3.simplify(e))):
                                val = v
                            elif z3.is_expr(e) and not z3.is_false(z3.simplify(e)):
                                raise Unsupported('aliasing array writes')
                    if val is not None and p.code[0] != 'break':
                        res = choose(AND(inside(i0), p.cond), val, res)
            return res
        obj._set_cell(cell)

    def blocks(self, obj, live, iota, forms, old):
        """every iteration writes one block of values >= 0 whose sum is the value at the same
        position of an array it reads: the array is summarised by this, its values are arbitrary"""
        if self.mode != 'pos' or self.unroll != 1 or len(forms) < 2:
            return None
        a = {x for x, _ in forms}
        bs = sorted(b for _, b in forms)
        if len(a) != 1 or len(bs) != list(a)[0] or bs != list(range(bs[0], bs[0] + len(bs))):
            return None
        a, b0 = len(bs), bs[0]
        outs = []
        for p in live:
            last = {}
            for arr, q, val in p.writes:
                if arr is obj:
                    last[aff(q)[1]] = num(val)
            if sorted(last) != bs or any(v is None for v in last.values()):
                return None
            outs.append([last[b] for b in bs])
        srcs = {k: v for p in live for k, v in p.reads.items() if k not in self.objs}
        for src in srcs.values():
            rd = src.snapshot() if isinstance(src.axis, PosAxis) else vec.positional(src).snapshot()
            s0 = num(rd(iota))
            if s0.nan is not False and not ENG.known(IMP(self.inside(iota), NOT(s0.nan))):
                continue
            ok = True
            t0 = time.time()
            sign = [core.RLE(0, s0.v)] if ENG.known(IMP(self.inside(iota), core.RLE(0, s0.v))) else []
            for p, vs in zip(live, outs):
                t = 0
                for v in vs:
                    t = core.RADD(t, v.v)
                goal = AND(*([v.fin for v in vs] + [core.RLE(0, v.v) for v in vs] + [core.REQ(t, s0.v)]))
                if ENG.prove('', goal, extra=p.pc + sign, quiet=True, local=True, timeout=1000):
                    continue
                if not ENG.prove('loop %s: the %d values of each iteration are not negative and sum to the value read' % (self.uid, a), goal,
                                 extra=p.pc + [self.inside(iota)], quiet=True):
                    ok = False
                    break
            if not ok:
                continue
            ENG.obligations.append(dict(name='loop %s: the %d values written by an iteration are not negative and sum to the value read (%d paths)'
                                        % (self.uid, a, len(live)), result='proved', back_end='z3', time=round(time.time() - t0, 4)))
            ENG.back_ends['z3'] = ENG.back_ends.get('z3', 0) + 1
            f = ENG.func('block', 'I', 'R')
            done = {}
            loop = self

            def cell(q):
                q = norm(zr(q))
                t = f(zr(q))
                k = q.get_id() if z3.is_expr(q) else q
                w = AND(core.RLE(b0, q), core.RLT(q, core.RADD(core.RMUL(a, loop.N), b0)))
                if k not in done:
                    done[k] = q
                    ENG.fact(IMP(w, core.RLE(0, t)))
                    dm = divmod_aff(core.RSUB(q, b0), a)
                    if dm is not None:
                        i0 = norm(zr(dm[0]))
                        k0 = ('b', i0.get_id() if z3.is_expr(i0) else i0)
                        if k0 not in done:
                            done[k0] = i0
                            tot = 0
                            for r in range(a):
                                x = f(zr(norm(zr(core.RADD(core.RADD(core.RMUL(a, i0), b0), r)))))
                                tot = core.RADD(tot, x)
                                ENG.fact(IMP(loop.inside(i0), core.RLE(0, x)))
                            ENG.fact(IMP(loop.inside(i0), core.REQ(tot, core.zreal(num(rd(i0)).v))))
                return SF(t) if w is True or ENG.known(w) else choose(w, SF(t), old(q))
            ENG.notes.append('loop %s: values in groups of %d with the sum of the value read' % (self.uid, a))
            return cell
        return None

    def after_series(self, obj, mk, live, iota):
        if self.mode != 'day':
            raise Unsupported('series written in a positional loop')
        # iteration of day i only touches day i
        d = z3.Int(ENG.name('oday'))
        oldp = mk(iota)
        for p in live:
            new = p.objs.get(id(obj))
            if new is None:
                continue
            for s in obj.axis.slots():
                x, y = new[1](d, s), oldp(d, s)
                if not ENG.prove('loop %s: iteration touches its own day only' % self.uid,
                                 core.same_value(x, y), extra=p.pc + [d != iota], quiet=True):
                    raise Unsupported('iterations of a day loop interfere')
        old = obj.snapshot()
        memo = {}
        loop = self

        def cell(day, s):
            k = day.get_id() if z3.is_expr(day) else day
            if k not in memo:
                if ENG.known(NOT(loop.inside(day))):
                    memo[k] = (None, day)
                else:
                    # the object holds its pre-loop contents on this day
                    keep = loop.objs[id(obj)]
                    loop.objs[id(obj)] = (obj, lambda i: old)
                    try:
                        memo[k] = (loop.run_iter(zr(day)), day)
                    finally:
                        loop.objs[id(obj)] = keep
            ps = memo[k][0]
            res = old(day, s)
            for p in ps or []:
                new = p.objs.get(id(obj))
                if new is not None:
                    res = choose(AND(loop.inside(day), p.cond), new[1](day, s), res)
            return res
        obj._set_cell(cell)

    def after_lists(self, live, iota, N):
        for c, v in self.env:
            if id(c) not in self.built:
                continue
            if any(len(p.lists.get(id(c), ())) != 1 for p in live):
                raise Unsupported('list not extended by one element in every iteration')
            memo = {}
            loop = self

            def elem(i, k=id(c), memo=memo):
                i = norm(zr(i))
                key = i.get_id() if z3.is_expr(i) else i
                if key not in memo:
                    r = None
                    for p in loop.run_iter(zr(i)):
                        if p.code[0] == 'next':
                            x = p.lists[k][0]
                            r = x if r is None else choose(p.cond, x, r)
                    if r is None:
                        raise Unsupported('element of a list that was not appended')
                    memo[key] = (i, r)
                return memo[key][1]
            old = [(1, (lambda x: lambda i: x)(x)) for x in v] if isinstance(v, list) else list(v._live())
            new = SegList(old + [(N, elem)])
            if isinstance(v, list):
                v[:] = [Stale('list')]  # other references to the list must not be used any more
            else:
                v.segs = None
            c.cell_contents = new

    def finish_break(self, live, brk, iota):
        """the loop ends before the first iteration whose break condition holds, or after the last one"""
        if self.objs or self.mode != 'pos' or self.unroll != 1 or any(p.frames for p in self.paths):
            raise Unsupported('break out of a loop that writes arrays')
        loop = self
        memo = {}

        def cond(i):
            i = norm(zr(i))
            key = i.get_id() if z3.is_expr(i) else i
            if key not in memo:
                memo[key] = (i, OR(*[p.cond for p in loop.run_iter(zr(i)) if p.code[0] == 'break']))
            return memo[key][1]
        b = ENG.fresh('stop', 'I')
        ENG.fact(AND(core.RLE(0, b), core.RLE(b, self.N)))
        after = {}
        for k in self.names:
            g = self.carried.get(k)
            if g is None:
                after[k] = Stale(k)
            elif g.kind == 'same':
                pass
            elif g.kind == 'affine':
                for p in brk:
                    x = num(p.locals.get(k))
                    if x is None or not x.plain or not ENG.prove('', core.REQ(x.v, num(g(iota)).v), extra=p.pc, quiet=True):
                        raise Unsupported('counter changed on leaving the loop')
                after[k] = g(b)
            else:
                after[k] = Stale(k)
        if any(p.lists[k] for p in brk for k in p.lists):
            raise Unsupported('list extended on leaving the loop')
        self.after_lists(live, iota, b)
        self.mark = len(ENG.mutlog)
        self.set(after)
        ENG.fact(IMP(core.RLT(b, self.N), cond(b)))

        def instance(i):
            """no earlier iteration breaks"""
            ENG.fact(IMP(AND(core.RLE(0, i), core.RLT(i, b)), NOT(cond(i))))
        ENG.cache.setdefault('breaks', []).append((b, instance, cond))
        ENG.notes.append('loop %s: ends at the first iteration with the break condition' % self.uid)
        return None


def mentions(t, f):
    todo = [t]
    seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().eq(f):
            return True
        todo.extend(x.children())
    return False


def same_int(a, b):
    """the two linear integer terms are the same (syntactically)"""
    if any(z3.is_expr(x) and not x.is_int() for x in (a, b)) or any(isq(x) and F(x).denominator != 1 for x in (a, b)):
        return False
    x = norm(core.RSUB(a, b))
    return isq(x) and x == 0


def norm_maybe(x):
    if z3.is_expr(x) and x.is_int():
        return norm(x)
    return x


def mknum2(x):
    return mknum(x)


def nullspace(rows, n):
    """basis of {v : row . v == 0 for all rows}, exact"""
    m = [list(r) for r in {tuple(r) for r in rows} if any(r)]
    piv = []
    r = 0
    for c in range(n):
        p = next((i for i in range(r, len(m)) if m[i][c]), None)
        if p is None:
            continue
        m[r], m[p] = m[p], m[r]
        k = m[r][c]
        m[r] = [x / k for x in m[r]]
        for i in range(len(m)):
            if i != r and m[i][c]:
                k = m[i][c]
                m[i] = [x - k * y for x, y in zip(m[i], m[r])]
        piv.append(c)
        r += 1
    free = [c for c in range(n) if c not in piv]
    out = []
    for f in free:
        v = [F(0)] * n
        v[f] = F(1)
        for i, c in enumerate(piv):
            v[c] = -m[i][f]
        out.append(v)
    return out


def run(uid, it, body, get, set_):
    return Loop(uid, it, body, get, set_).execute()


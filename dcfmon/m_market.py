"""C15-C17: volatility curves, forward price curves, fx curves"""
import datetime
import math

import dcf
from dcf.curves.curve import Price

from . import gen, ref
from .core import Prop, Scenario
from .gen import Axis, tau_of

SIT = 'distinct (scenario, curve type, date type, origin, interpolation, day count, size) signatures with all oracle comparisons done'


class Floored(dcf.TerminalVolatilityCurve):
    FLOOR = .05


class FlooredZero(dcf.TerminalVolatilityCurve):
    FLOOR = 0.


# ------------------------------------------------------------------------------------------------------------ C15
VOL_ALT = [(None, ref.LINEAR), (None, ref.LINEAR), ('zero_linear_scheme', ref.ZEROLINEAR), ('constant', ref.CONST)]


class VolState:
    def __init__(self, m, cls, increasing=None, axes=gen.KINDS, dcs=gen.DAYCOUNTS, alt=True):
        r = m.rng
        self.m, self.cls = m, cls
        self.ax = ax = Axis(m, r.choice(axes))
        self.explicit = r.random() < .6
        first = r.choice((0, 0, 1, 30, 365)) if self.explicit else 0
        self.days = days = gen.grid_days(m, r.choice((1, 1, 2, 3, 5, 9, 20)), first, hi=9000)
        if not alt:
            # coarse enough for quadratures
            self.days = days = [first + int(150 * r.choice((1, 1, 2, 3)) * i) for i in range(r.choice((1, 2, 3, 5, 8)))]
            self.days = days = sorted(set(days))
        self.dc = dc = r.choice(dcs)
        if dc is gen.thirty360:
            # strictly increasing year fractions
            days = self.days = sorted({d // 40 * 40 + first for d in days})
        self.tau = tau = tau_of(dc)
        self.origin = o = ax.at(0)
        self.inm, names = r.choice(VOL_ALT if alt else VOL_ALT[:1])
        ts = [tau(o, ax.at(d)) for d in days]
        if increasing is None:
            increasing = r.random() < .6
        if increasing:
            tv, t0, vals = 0., 0., []
            for t in ts:
                tv += r.uniform(.01, .6) ** 2 * (t - t0)
                t0 = t
                vals.append(math.sqrt(tv / t) if t else r.uniform(.01, .5))
        else:
            vals = [r.choice((0., r.uniform(.005, .8), r.uniform(.005, .8))) for _ in ts]
        kw = {}
        if self.explicit:
            kw['origin'] = ax.at(0)
        if dc is not None:
            kw['day_count'] = gen.named(m, dc)
        if self.inm:
            kw['interpolation'] = getattr(dcf.interpolation, self.inm)
        pts = [(ax.at(d), v) for d, v in zip(days, vals)]
        order = gen.shuffled(m, pts) if self.explicit else pts
        self.c = cls(gen.container(m, [p[0] for p in order]), gen.container(m, [p[1] for p in order]), **kw)
        self.R = ref.RefCurve(pts, o, tau, names)
        if r.random() < .25:
            # move a point
            d = r.choice(days)
            v = r.uniform(.01, .6)
            self.c[ax.at(d)] = v
            self.R.pts[ax.at(d)] = v
            m.hit('point changed')
        m.note(type=cls.__name__, axis=ax.kind, origin=str(o), explicit=self.explicit, days=days, values=vals,
               day_count=gen.dc_name(dc), interpolation=self.inm)

    def sig(self, *more):
        n = len(self.days)
        self.m.sig(self.cls.__name__, self.ax.kind, self.explicit, self.inm, gen.dc_name(self.dc), min(n, 4), *more)

    def dates(self, n):
        return [self.ax.at(d) for d in gen.query_days(self.m, self.days, n, lo=0, far=900)]


def c15_terminal(m):
    r = m.rng
    cls = r.choice((dcf.TerminalVolatilityCurve, dcf.TerminalVolatilityCurve, Floored, FlooredZero))
    s = VolState(m, cls)
    c, R, tau, o, ax = s.c, s.R, s.tau, s.origin, s.ax
    if r.random() < .2:
        x = r.uniform(0., .05)
        c.spread = R.spread = lambda d: x
        m.hit('spread set')
    if r.random() < .2:
        d = r.choice(s.dates(3))
        c.fixings[ax.copy(d)] = R.fixings[d] = r.uniform(.05, .5)
        m.hit('fixing')
    s.sig()
    for t in s.dates(4):
        m.eq(c.get_terminal_vol(t), R(t), 'terminal volatility from the origin', 1e-9, 1e-12, stop=t)
        m.eq(c.get_terminal_vol(ax.at(0), t), R(t), 'terminal volatility from given origin', 1e-9, 1e-12, stop=t)
        m.hit('from origin')
    ts = s.dates(24)
    for a, b in zip(ts[:12], ts[12:]):
        if a == o:
            continue
        if a == b:
            if ax.kind != 'bdate':
                continue
            b = ax.at(ax.days(a) + 1)
            call = r.choice((lambda: c.get_terminal_vol(a, ax.copy(a)), lambda: c.get_instantaneous_vol(a)))
            m.hit('instantaneous')
        elif a > b:
            m.true(c.get_terminal_vol(a, b) == 0., 'terminal volatility of start after stop', start=a, stop=b)
            m.hit('start after stop')
            continue
        else:
            call = (lambda: c.get_terminal_vol(a, b))
        t = tau(a, b)
        if t <= 0.:
            continue
        va, vb = R(a) ** 2 * tau(o, a), R(b) ** 2 * tau(o, b)
        var, eps = (vb - va) / t, (1e-12 * max(va, vb, 1e-6)) / t
        floor = cls.FLOOR
        if floor is None and abs(var) <= eps:
            m.hit('variance too close to zero to tell')
            continue
        if floor is None and var < 0.:
            m.raises(ZeroDivisionError, call, 'decreasing total variance', start=a, stop=b, variance=var)
            m.hit('decreasing')
            continue
        got = call()
        if floor is not None and var < floor ** 2:
            m.eq(got ** 2, max(var, floor ** 2), 'floored volatility', 1e-9, eps + 1e-15, start=a, stop=b, variance=var)
            m.hit('floored')
            continue
        m.eq(got * got * t + va, vb, 'total variance is not additive', 1e-9, 1e-14, start=a, stop=b, vol=got)
        m.true(got >= 0., 'negative volatility', start=a, stop=b, vol=got)
        m.hit('additive')


def _square_integral(s, a, b):
    """integral of the squared curve values by exact piecewise quadratures"""
    R, tau, o = s.R, s.tau, s.origin
    ta, tb = tau(o, a), tau(o, b)
    p = sorted((tau(o, d), v) for d, v in R.pts.items())
    brk = [ta] + [t for t, _ in p if ta < t < tb] + [tb]
    out = 0.
    for u, v in zip(brk[:-1], brk[1:]):
        h = v - u
        f = [ref.scheme(R.names, p, u + w * h) for w in (.25, .75)]  # inner points: no jumps
        # linear between: f0 + (x-1/4)*2*(f1-f0)
        k = 2. * (f[1] - f[0])
        e = [f[0] - .25 * k, f[0] + .25 * k, f[0] + .75 * k]
        out += h * (e[0] ** 2 + 4. * e[1] ** 2 + e[2] ** 2) / 6.
    return out


def c15_inst(m):
    r = m.rng
    s = VolState(m, dcf.InstantaneousVolatilityCurve, dcs=gen.ADDITIVE, increasing=r.random() < .5, alt=False)
    c, R, tau, o, ax = s.c, s.R, s.tau, s.origin, s.ax
    s.sig()
    ts = s.dates(16)
    for a, b in zip(ts[:8], ts[8:]):
        m.eq(c.get_instantaneous_vol(a), R(a), 'instantaneous volatility', 1e-9, 1e-12, at=a)
        if a == b:
            m.eq(c.get_terminal_vol(a, ax.copy(b)), R(a), 'terminal volatility of no time', 1e-9, 1e-12, at=a)
            continue
        if a > b:
            m.true(c.get_terminal_vol(a, b) == 0., 'terminal volatility of start after stop', start=a, stop=b)
            m.hit('start after stop')
            continue
        t = tau(a, b)
        var = _square_integral(s, a, b) / t
        top = max(list(R.pts.values())) ** 2
        m.eq(c.get_terminal_vol(a, b) ** 2, var, 'terminal volatility is not root mean square', 3e-3, 3e-4 * top + 3e-8 / t, start=a, stop=b)
        m.hit('root mean square')
        if b != o:
            m.eq(c.get_terminal_vol(b) ** 2, _square_integral(s, o, b) / tau(o, b), 'terminal volatility from the origin', 3e-3, 3e-4 * top + 3e-8 / tau(o, b), stop=b)


def c15_flat(m):
    """flat curves of both types agree"""
    r = m.rng
    ax = Axis(m)
    v = r.choice((0., r.uniform(.001, 1.)))
    days = gen.grid_days(m, r.choice((1, 2, 5)), 0)
    dc = r.choice(gen.ADDITIVE)
    kw = {} if dc is None else dict(day_count=gen.named(m, dc))
    cs = [cls([ax.at(d) for d in days], [v] * len(days), **kw) for cls in (dcf.TerminalVolatilityCurve, dcf.InstantaneousVolatilityCurve)]
    m.note(axis=ax.kind, days=days, value=v)
    m.sig('flat', ax.kind, len(days), gen.dc_name(dc))
    q = sorted(gen.query_days(m, days, 8, lo=0))
    for c in cs:
        for i, a in enumerate(q):
            for b in q[i:]:
                if a == b and ax.kind != 'bdate':
                    continue
                m.eq(c.get_terminal_vol(ax.at(a), ax.at(b)), v, 'flat volatility', 1e-5, 1e-9 if v else 1e-9, start=a, stop=b, type=type(c).__name__)
            m.eq(c.get_terminal_vol(ax.at(a)), v, 'flat volatility', 1e-5, 1e-9, stop=a, type=type(c).__name__) if a else None
            if ax.kind == 'bdate':
                m.eq(c.get_instantaneous_vol(ax.at(a)), v, 'flat volatility', 1e-5, 1e-9, at=a, type=type(c).__name__)
        m.hit('flat')


def c15_cast(m):
    """a curve built from the other type holds its volatilities"""
    r = m.rng
    cls, other = dcf.TerminalVolatilityCurve, dcf.InstantaneousVolatilityCurve
    if r.random() < .5:
        cls, other = other, cls
    s = VolState(m, other, increasing=True, axes=('bdate',), dcs=gen.ADDITIVE)
    q = s.c
    if other is dcf.TerminalVolatilityCurve:
        # total variance might decrease before the first and between points
        q.__class__ = FlooredZero
    c = cls(q)
    s.sig('cast')
    for d in s.days:
        x = s.ax.at(d)
        if other is dcf.TerminalVolatilityCurve:
            m.eq(c.get_instantaneous_vol(x), q.get_instantaneous_vol(x), 'instantaneous volatility of the cast', 1e-9, 1e-12, at=x)
        else:
            m.eq(c.get_terminal_vol(x), q.get_terminal_vol(x), 'terminal volatility of the cast', 1e-9, 1e-12, at=x)
        m.hit('cast')
    m.true(c.origin == q.origin, 'origin of the cast', got=c.origin, want=q.origin)


# ------------------------------------------------------------------------------------------------------------ C16
class ForwardState:
    """forward price curve with reference"""

    def __init__(self, m, cls=dcf.ForwardCurve, yields=True, axes=gen.KINDS, **more):
        r = m.rng
        self.m = m
        self.ax = ax = Axis(m, r.choice(axes))
        self.way = r.choice(('lists', 'lists', 'lists', 'spot', 'price')) if cls is dcf.ForwardCurve else 'lists'
        self.explicit = r.random() < .5
        first = r.choice((0, 0, 1, 100, 500)) if self.explicit and self.way == 'lists' else 0
        days = gen.grid_days(m, 1 if self.way != 'lists' else None, first, hi=9000)
        self.dc = dc = r.choice(gen.ADDITIVE)
        self.tau = tau_of(dc)
        self.origin = ax.at(0)
        vals = gen.prices(m, len(days))
        if self.way == 'spot' and r.random() < .2:
            vals = [r.choice((1, 7, 100))]
            m.hit('integer spot')
        self.inm, names = r.choice(((None, ref.LOGLINEAR), (None, ref.LOGLINEAR), ('linear_scheme', ref.LINEAR), ('constant', ref.CONST)))
        kw = dict(more)
        if dc is not None:
            kw['day_count'] = gen.named(m, dc)
        if self.inm:
            kw['interpolation'] = getattr(dcf.interpolation, self.inm)
        self.pts = {ax.at(d): v for d, v in zip(days, vals)}
        self.given = {}
        self.yname = None
        if yields:
            self.yname, y, self.growth = self.some_yield()
            if y is not NotImplemented:
                kw['yield_curve'] = y
        if self.way == 'spot':
            self.c = cls(vals[0], origin=ax.at(0), **kw)
        elif self.way == 'price':
            self.c = cls(Price(vals[0], ax.at(0)), **kw)
        else:
            if self.explicit:
                kw['origin'] = ax.at(0)
            order = list(self.pts.items())
            if self.explicit:
                r.shuffle(order)
            keep = order
            late = []
            if self.explicit and len(order) > 2 and r.random() < .4:
                k = r.randint(1, len(order) - 1)
                keep, late = order[:k], order[k:]
            self.c = cls(gen.container(m, [p[0] for p in keep]), gen.container(m, [p[1] for p in keep]), **kw)
            for a, b in late:
                self.c[ax.copy(a)] = b
                m.hit('point added later')
        self.R = ref.RefCurve(self.pts, self.origin, self.tau, names)
        m.note(axis=ax.kind, way=self.way, days=days, values=vals, explicit=self.explicit, interpolation=self.inm,
               day_count=gen.dc_name(dc), yields=self.yname, origin=str(self.origin))

    def some_yield(self):
        """name, what is given to the curve, growth between two dates by reference"""
        m, r, ax = self.m, self.m.rng, self.ax
        name = r.choice(('default', 'float', 'float', 'zero', 'integer', 'function', 'linear function', 'curve', 'curve', 'df curve', 'none'))
        m.hit('yield %s' % name)
        y = r.uniform(-.05, .12)
        tau, o = self.tau, self.origin
        if name == 'default':
            return name, NotImplemented, lambda a, b: 0.
        if name == 'float':
            return name, y, lambda a, b: y * tau(a, b)
        if name == 'integer':
            y = r.choice((0, 1))
            return name, y, lambda a, b: y * tau(a, b)
        if name == 'zero':
            return name, 0., lambda a, b: 0.
        if name == 'function':
            return name, lambda x: math.exp(-y * gen.yf(o, x)), lambda a, b: y * gen.yf(a, b)
        if name == 'linear function':
            y = abs(y)
            # discount factor like function which is neither one at the origin nor exponential
            f = lambda x: .7 / (1. + y * abs(gen.yf(o, x)))
            return name, f, lambda a, b: math.log(f(a) / f(b))
        if name == 'none':
            return name, None, lambda a, b: 0.
        # curve with own origin and year fraction
        o2 = ax.at(r.choice((0, 0, -200, 50)))
        n = r.choice((1, 2, 4))
        ds = gen.grid_days(m, n, 0, hi=6000)
        dc = r.choice(gen.ADDITIVE)
        t2 = tau_of(dc)
        base = ax.days(o2) if ax.kind != 'float' else round(ax.days(o2))
        dom = [ax.at(base + d) for d in ds]
        vals = gen.rates(m, n)
        if name == 'df curve':
            dom = [o2] + [ax.at(base + d + 30) for d in ds]
            vals = [1.] + [math.exp(-v * t2(o2, d)) for v, d in zip(vals, dom[1:])]
            c = dcf.DiscountFactorCurve(dom, vals, origin=o2, day_count=gen.named(m, dc))
            R = ref.RefRates('df', list(zip(dom, vals)), o2, t2, ref.LOGRATE)
        else:
            c = dcf.ZeroRateCurve(dom, vals, origin=o2, day_count=gen.named(m, dc))
            R = ref.RefRates('zero', list(zip(dom, vals)), o2, t2, ref.LINEAR)
        return name, c, R.nlog

    def last(self):
        return max(self.R.pts)

    def ref(self, x):
        T = self.last()
        if x in self.R.fixings:
            return self.R.fixings[x]
        if x <= T:
            return self.R(x)
        return self.R(T) * math.exp(self.growth(T, x))

    def dates(self, n):
        ds = [self.ax.days(d) for d in self.R.pts]
        if self.ax.kind == 'float':
            ds = [round(d) for d in ds]
        return [self.ax.at(d) for d in gen.query_days(self.m, ds, n, lo=0)]


def c16_forward(m):
    r = m.rng
    s = ForwardState(m)
    c, ax = s.c, s.ax
    m.sig(s.way, ax.kind, s.explicit, s.inm, gen.dc_name(s.dc), s.yname, min(len(s.pts), 4))
    for _ in range(r.choice((1, 2, 4))):
        qs = s.dates(8) + [s.last(), ax.at((round(ax.days(s.last())) if ax.kind == 'float' else ax.days(s.last())) + r.choice((1, 365, 4000)))]
        for x in qs:
            w = s.ref(x)
            m.eq(c(x), w, 'forward price', 1e-9, 0, at=x)
            m.eq(c.get_forward_price(ax.copy(x)), w, 'forward price', 1e-9, 0, at=x)
            m.hit('beyond' if x > s.last() else 'up to last')
        got = c(gen.container(m, qs))
        m.true(len(got) == len(qs), 'number of forward prices', got=got)
        for x, g in zip(qs, got):
            m.eq(g, s.ref(x), 'forward price of a list', 1e-9, 0, at=x)
        # change something
        w = r.random()
        if w < .35:
            k = r.choice(list(s.R.pts))
            if r.random() < .5:
                k = ax.at(r.randint(0, 9000))
            v = gen.prices(m, 1)[0]
            c[ax.copy(k)] = v
            s.R.pts[k] = v
            m.hit('point set')
        elif w < .55:
            k = r.choice(s.dates(3) + [s.last(), s.last()])
            v = gen.prices(m, 1)[0]
            c.fixings[ax.copy(k)] = s.R.fixings[k] = v
            m.hit('fixing set')
        elif w < .8:
            name, y, growth = s.some_yield()
            if name in ('function', 'linear function', 'curve', 'df curve', 'none'):
                c.yield_curve = y
                s.growth = growth
                m.hit('yield changed')


def c16_order(m):
    """the order of points and the way to give a spot make no difference"""
    r = m.rng
    ax = Axis(m)
    days = gen.grid_days(m, None, r.choice((0, 50)), hi=9000)
    vals = gen.prices(m, len(days))
    y = r.choice((r.uniform(-.05, .1), dcf.ZeroRateCurve([ax.at(0)], [r.uniform(-.02, .1)])))
    pts = list(zip(days, vals))
    cs = []
    for _ in range(3):
        o = gen.shuffled(m, pts)
        cs.append(dcf.ForwardCurve([ax.at(d) for d, _ in o], [v for _, v in o], origin=ax.at(0), yield_curve=y))
    v, d0 = vals[0], ax.at(0)
    spots = [dcf.ForwardCurve([d0], [v], yield_curve=y), dcf.ForwardCurve(v, origin=d0, yield_curve=y), dcf.ForwardCurve(Price(v, d0), yield_curve=y)]
    m.note(axis=ax.kind, days=days, values=vals)
    m.sig('order', ax.kind, min(len(days), 5))
    for q in gen.query_days(m, days, 8, lo=0):
        x = ax.at(q)
        for lst, n in ((cs, 'order of points'), (spots, 'spot forms')):
            a = lst[0](x)
            for c in lst[1:]:
                m.eq(c(x), a, n, 1e-10, 0, at=x)
        m.hit('order')
    # continuous at the last date
    c = cs[0]
    T = ax.at(days[-1])
    if ax.kind == 'float':
        m.eq(c(T + 1e-9), c(T), 'jump at the last date', 1e-7, 0)
        m.eq(c(T - 1e-9), c(T), 'jump at the last date', 1e-5, 0)
        m.hit('continuous')


# ------------------------------------------------------------------------------------------------------------ C17
class SimpleRates:
    """zero or discount factor curve with an origin, reference of log discount factors"""

    def __init__(self, m, ax, o=0):
        r = m.rng
        self.kind = r.choice(('zero', 'zero', 'df'))
        n = r.choice((1, 1, 2, 4))
        days = gen.grid_days(m, n, o, hi=8000)
        dc = r.choice(gen.ADDITIVE)
        tau = tau_of(dc)
        rs = gen.rates(m, n)
        org = ax.at(o)
        dom = [ax.at(d) for d in days]
        if self.kind == 'df':
            dom = [org] + [ax.at(d + 30) for d in days]
            vals = [1.] + [math.exp(-v * tau(org, d)) for v, d in zip(rs, dom[1:])]
            self.c = dcf.DiscountFactorCurve(dom, vals, origin=ax.at(o), day_count=gen.named(m, dc))
            self.R = ref.RefRates('df', list(zip(dom, vals)), org, tau, ref.LOGRATE)
        else:
            vals = rs
            self.c = dcf.ZeroRateCurve(dom, vals, origin=ax.at(o), day_count=gen.named(m, dc))
            self.R = ref.RefRates('zero', list(zip(dom, vals)), org, tau, ref.LINEAR)

    def nlog(self, a, b):
        return self.R.nlog(a, b)

    def change(self, m, ax):
        """move the curve: a spread or a point"""
        r = m.rng
        if self.c.spread is None and r.random() < .5:
            if self.kind == 'zero':
                x = r.uniform(-.01, .01)
                self.c.spread = self.R.spread = dcf.ZeroRateCurve([self.R.origin], [x])
                m.hit('curve moved')
        else:
            k = r.choice(sorted(self.R.pts))
            if k == self.R.origin:
                return
            v = self.R.pts[k] * r.uniform(.9, 1.1)
            self.c[ax.copy(k)] = v
            self.R.pts[k] = v
            m.hit('curve moved')


def c17_forward(m):
    r = m.rng
    box = {}
    s = ForwardState(m, cls=dcf.FxForwardCurve, yields=False)
    ax = s.ax
    o = r.choice((0, 0, -100))
    d, f = SimpleRates(m, ax, o), SimpleRates(m, ax, o)
    s.c.domestic_curve, s.c.foreign_curve = d.c, f.c
    if r.random() < .6:
        # as arguments
        kw = dict(interpolation=getattr(dcf.interpolation, s.inm) if s.inm else None, day_count=s.dc)
        if s.explicit:
            kw['origin'] = s.origin
        items = list(s.pts.items())
        s.c = dcf.FxForwardCurve([a for a, _ in items], [b for _, b in items], domestic_curve=d.c, foreign_curve=f.c, **kw)
    s.growth = lambda a, b: f.nlog(a, b) - d.nlog(a, b)
    m.sig('fx', ax.kind, s.explicit, s.inm, gen.dc_name(s.dc), d.kind, f.kind, min(len(s.pts), 3))
    for _ in range(3):
        for x in s.dates(6) + [s.last()]:
            w = s.ref(x)
            m.eq(s.c(x), w, 'fx forward', 1e-9, 0, at=x)
            m.eq(s.c.get_forward_price(ax.copy(x)), w, 'fx forward', 1e-9, 0, at=x)
            m.hit('fx beyond' if x > s.last() else 'fx up to last')
        w = r.random()
        if w < .4:
            r.choice((d, f)).change(m, ax)
        elif w < .6:
            k, v = ax.at(r.randint(0, 6000)), gen.prices(m, 1)[0]
            s.c[k] = v
            s.R.pts[k] = v
        elif w < .75:
            k, v = r.choice(s.dates(3)), gen.prices(m, 1)[0]
            s.c.fixings[ax.copy(k)] = s.R.fixings[k] = v


class Ccy:
    """currency object with equality by code"""

    def __init__(self, code):
        self.code = code

    def __eq__(self, other):
        return isinstance(other, Ccy) and other.code == self.code

    def __hash__(self):
        return hash(self.code)

    def __repr__(self):
        return self.code

    def __lt__(self, other):
        return self.code < other.code


CODES = 'USD', 'EUR', 'GBP', 'JPY', 'CHF', 'SEK', 'AUD', 'BRL', 'X'


def c17_container(m):
    r = m.rng
    ax = Axis(m)
    how = r.choice(('str', 'str', 'object', 'int'))

    def cc(code):
        return ''.join(list(code)) if how == 'str' else Ccy(code) if how == 'object' else CODES.index(code) + 1000
    codes = gen.shuffled(m, CODES)[:r.choice((2, 3, 4, 5, 8))]
    base, others = codes[0], codes[1:]
    dom = SimpleRates(m, ax)
    box = dcf.FxContainer(cc(base), dom.c)
    spot, curve = {base: 1.}, {base: dom}
    hist = []
    org = ax.at(0)
    n = r.choice((1, 3, 6, 12, 25))

    def check(k):
        known = sorted(spot)
        pairs = [(a, b) for a in known for b in known if a != b]
        for a, b in pairs:
            m.true((cc(a), cc(b)) in box, 'pair is missing', pair=(a, b), history=hist)
        for a, b in r.sample(pairs, min(len(pairs), k)):
            want = spot[b] / spot[a]
            m.eq(box[cc(a), cc(b)](org), want, 'fx spot', 1e-9, 0, pair=(a, b), history=hist)
            x = ax.at(r.choice((0, 1, 30, 365, r.randint(0, 9000))))
            fwd = want * math.exp(curve[b].nlog(org, x) - curve[a].nlog(org, x))
            got = box[cc(a), cc(b)](x)
            m.eq(got, fwd, 'fx forward of a pair', 1e-9, 0, pair=(a, b), at=x, history=hist)
            m.eq(box.get_forward_price(cc(a), cc(b), x), fwd, 'fx forward of a pair', 1e-9, 0, pair=(a, b), at=x, history=hist)
            m.eq(got * box[cc(b), cc(a)](x), 1., 'swapped pair is not inverse', 1e-9, 0, pair=(a, b), at=x, history=hist)
            if len(known) > 2:
                c = r.choice([q for q in known if q not in (a, b)])
                m.eq(box[cc(a), cc(c)](x) * box[cc(c), cc(b)](x), got, 'cross does not triangulate', 1e-9, 0, pair=(a, c, b), at=x, history=hist)
                m.hit('triangle')
            m.hit('cross' if base not in (a, b) else 'pair')
        a = r.choice(known)
        d = box[cc(a)]
        m.true(isinstance(d, dict), 'container[c] is not a dict', currency=a)
        m.true(set(d) - {cc(a)} == {cc(b) for b in known if b != a}, 'container[c] has other pairs', currency=a, got=sorted(map(str, d)), history=hist)
        for b in known:
            if b != a:
                m.true(d[cc(b)] is box[cc(a), cc(b)], 'container[c][f] is not container[c,f]', pair=(a, b))
        m.hit('dict of pairs')

    for i in range(n):
        if not others:
            break
        w = r.random()
        c = r.choice(others)
        again = c in spot
        if again and r.random() < .3:
            crv = curve[c]
        else:
            crv = SimpleRates(m, ax)
        s = gen.prices(m, 1, .01, 200.)[0]
        if r.random() < .1:
            s = r.choice((1, 2, 150))
            m.hit('integer spot')
        if r.random() < .2:
            # what does not fit is refused
            pairs = sorted(map(str, box))
            bad = r.choice(('other domestic curve', 'no rate curve', 'no forward curve', 'pair of no curve', 'currency type'))
            fwd = dcf.FxForwardCurve([ax.at(0)], [float(s)], domestic_curve=SimpleRates(m, ax).c, foreign_curve=crv.c)
            own = dcf.FxForwardCurve([ax.at(0)], [float(s)], domestic_curve=dom.c, foreign_curve=crv.c)

            def refuse():
                if bad == 'other domestic curve':
                    box[cc(c)] = fwd
                elif bad == 'no rate curve':
                    box.add(cc(c), None, s)
                elif bad == 'no forward curve':
                    box[cc(c)] = crv.c
                elif bad == 'pair of no curve':
                    box[cc(c), cc(base)] = crv.c
                else:
                    box[None] = own
            m.raises(AssertionError, refuse, 'refused: ' + bad)
            m.true(sorted(map(str, box)) == pairs, 'refused item changed the container', item=bad)
            m.hit('refused')
        if w < .8:
            hist.append(('add', c, round(s, 6)))
            if r.random() < .05:
                s = 1.
                box.add(cc(c), crv.c)
                m.hit('default spot')
            elif r.random() < .2:
                box.add(fx_spot=s, foreign_curve=crv.c, foreign_currency=cc(c))
            else:
                box.add(cc(c), crv.c, s)
        else:
            hist.append(('set', c, round(s, 6)))
            pts = [(ax.at(0), s)]
            if r.random() < .5:
                pts.append((ax.at(400), s * 1.1))
            elif r.random() < .5:
                # given from a date before: the spot is the rate at the origin of the container
                b, e, u = r.choice((1, 50, 300)), r.choice((1, 100, 900)), s * r.choice((.5, .9, 1.2))
                pts = [(ax.at(-b), u), (ax.at(e), s)]
                s = math.exp((math.log(u) * e + math.log(s) * b) / (b + e))
                m.hit('set curve from before')
            box[cc(c)] = dcf.FxForwardCurve([a for a, _ in pts], [b for _, b in pts], domestic_curve=dom.c, foreign_curve=crv.c)
            m.hit('set curve')
        spot[c], curve[c] = s, crv
        m.hit('re-add' if again else 'add')
        if r.random() < .15:
            r.choice(list(curve.values())).change(m, ax)
        if i == n - 1 or r.random() < .3:
            check(10 if i == n - 1 else 4)
    m.note(axis=ax.kind, base=base, currencies=others, history=hist, currency_type=how)
    m.sig('container', ax.kind, how, len(spot), min(n, 6))


PROPS = {
    'C15': Prop('C15', [Scenario('terminal', c15_terminal, 5000), Scenario('inst', c15_inst, 1200), Scenario('flat', c15_flat, 500),
                        Scenario('cast', c15_cast, 300)],
                {'additive': 3000, 'decreasing': 300, 'floored': 300, 'root mean square': 1000, 'flat': 200, 'from origin': 2000,
                 'start after stop': 500, 'instantaneous': 100, 'cast': 100}, SIT),
    'C16': Prop('C16', [Scenario('forward', c16_forward, 8000), Scenario('order', c16_order, 3000)],
                {'beyond': 5000, 'up to last': 5000, 'yield changed': 300, 'point set': 500, 'fixing set': 300, 'order': 2000,
                 'continuous': 100, 'point added later': 100, 'integer spot': 50, 'yield integer': 100}, SIT),
    'C17': Prop('C17', [Scenario('fxforward', c17_forward, 7500), Scenario('container', c17_container, 3600)],
                {'fx beyond': 2000, 'fx up to last': 2000, 'cross': 1000, 'pair': 500, 'triangle': 1000, 're-add': 300,
                 'set curve': 200, 'set curve from before': 100, 'dict of pairs': 500, 'curve moved': 100, 'refused': 300, 'integer spot': 100, 'default spot': 20}, SIT),
}

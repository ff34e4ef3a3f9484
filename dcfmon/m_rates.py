"""C08-C14: interest rate and credit curves"""
import datetime
import math

import dcf
from businessdate import BusinessPeriod

from . import gen, ref
from .core import Prop, Scenario
from .gen import Axis, tau_of
from .m_more import _empty, c12_dead

# kind: (class, reference kind, default interpolation, values)
TYPES = {
    'zero': (dcf.ZeroRateCurve, 'zero', ref.LINEAR, 'rate'),
    'df': (dcf.DiscountFactorCurve, 'df', ref.LOGRATE, 'df'),
    'short': (dcf.ShortRateCurve, 'short', ref.CONST, 'rate'),
    'cash': (dcf.CashRateCurve, 'cash', ref.LINEAR, 'rate'),
    'intensity': (dcf.FlatIntensityCurve, 'zero', ref.LINEAR, 'pos'),
    'survival': (dcf.SurvivalProbabilityCurve, 'df', ref.LOGRATE, 'prob'),
    'default': (dcf.DefaultProbabilityCurve, 'df', ref.LOGRATE, 'prob'),
    'hazard': (dcf.HazardRateCurve, 'short', ref.CONST, 'pos'),
    'marginal': (dcf.MarginalSurvivalProbabilityCurve, 'marginal', ref.LOGLINEAR, 'marg'),
    'mdefault': (dcf.MarginalDefaultProbabilityCurve, 'marginal', ref.LOGLINEAR, 'marg'),
}
IR = 'zero', 'df', 'short', 'cash'
CREDIT = 'intensity', 'survival', 'default', 'hazard', 'marginal', 'mdefault'
STEPPING = 'short', 'hazard', 'cash', 'marginal', 'mdefault'
ALT = {'zero': [('linear_scheme', ref.LINEAR), ('constant', ref.CONST), ('right', ('right',) * 3), ('nearest', None),
                ('zero_linear_scheme', ref.ZEROLINEAR)],
       'cash': [('constant', ref.CONST), ('right', ('right',) * 3)],
       'df': [('log_linear_scheme', ref.LOGLINEAR), ('linear_scheme', ref.LINEAR)]}
ALT['zero'] = [a for a in ALT['zero'] if a[1]]
ALT['intensity'] = ALT['zero'][:3]
ALT['short'] = ALT['hazard'] = [('linear_scheme', ref.LINEAR), ('right', ('right',) * 3)]
ALT['survival'] = ALT['default'] = ALT['df']
ALT['marginal'] = ALT['mdefault'] = [('linear_scheme', ref.LINEAR), ('constant', ref.CONST)]


class RateState:
    """a rate or credit curve with its reference model"""

    def __init__(self, m, kinds=IR, axes=None, n=None, alt=True, touch=True, nonneg=False, lo=None, monotone=False,
                 dcs=None, edge=False, ax=None, early=True):
        r = m.rng
        self.m = m
        self.kind = kind = r.choice(kinds)
        if kind in ('short', 'hazard') and len(kinds) > 1 and m.tier == 'quick' and r.random() < .5:
            self.kind = kind = r.choice(kinds)  # day by day integration is slow
        cls, rk, names, vk = TYPES[kind]
        self.label = cls.__name__
        self.cls = cls
        axes = axes or (('bdate',) if kind in ('short', 'hazard') else gen.KINDS)
        self.ax = ax = ax or Axis(m, r.choice(axes))
        n = n or r.choice((1, 1, 2, 3, 4, 8, 20))
        self.explicit = r.random() < .65
        first = r.choice((0, 0, 1, 30, 365, 900)) if self.explicit else 0
        days = gen.grid_days(m, n, first, hi=r.choice((120, 400, 1200)) if rk == 'short' else 4000 if kind in STEPPING else 14000)
        inm = None
        if alt and not edge and kind in ALT and r.random() < (.5 if rk == 'df' else .35):
            inm, names = r.choice(ALT[kind])
        off = inm and self.explicit and r.random() < .6
        if rk == 'df' and off and days[0] != 0:
            # interpolation which is not 1 at the origin
            m.hit('factors off the origin')
        elif rk == 'df' and (days == [0] or inm and days[0] != 0):
            days = [0] + [d for d in days if d] + ([] if max(days) else [r.choice((1, 30, 365, 3650))])
        if vk in ('df', 'prob') and inm and days[0] != 0 and not off:
            days = [0] + days
        if early and self.explicit and not (edge or monotone or nonneg or vk == 'prob') and not (rk == 'df' and inm) and r.random() < .15:
            # points before the origin
            k = r.choice((1, 30, 200, 365, 1000))
            if rk != 'df' or max(days) > k and k not in days:
                days = [d - k for d in days]
                m.hit('points before the origin')
        self.days = days
        self.dc = dc = r.choice(dcs or (gen.ADDITIVE if rk == 'short' else gen.DAYCOUNTS))
        if dc is gen.thirty360 and (len(days) > 1 and min(b - a for a, b in zip(days[:-1], days[1:])) < 4 or days[0] == 1
                                    or edge):
            self.dc = dc = gen.act360
        self.tau = tau = tau_of(dc)
        o = ax.at(0)
        ts = [tau(o, ax.at(d)) for d in days]
        lo_, hi_ = (0., .12) if nonneg else (-.03, .12)
        if vk == 'rate' and not monotone:
            vals = gen.rates(m, len(days), lo_, hi_)
        elif vk == 'pos' and not monotone:
            vals = [abs(v) for v in gen.rates(m, len(days), 0. if nonneg else .0, .15)]
        elif vk == 'rate' or vk == 'pos':
            # non negative forward rates
            acc, vals = 0., []
            t0 = 0.
            for t in ts:
                acc += r.choice((0., r.uniform(0., .15))) * (t - t0)
                t0 = t
                vals.append(acc / t if t else r.uniform(0., .05))
            if rk == 'short' or kind == 'cash':
                vals = [r.choice((0., r.uniform(0., .2))) for _ in ts]
        elif vk == 'df':
            acc, t0, vals = 0., 0., []
            for t in ts:
                acc += r.uniform(0. if monotone or nonneg else -.03, .12) * (t - t0)
                t0 = t
                vals.append(math.exp(-acc))
        elif vk == 'prob':
            acc, t0, vals = 0., 0., []
            for t in ts:
                acc += r.choice((r.uniform(0., .1), r.uniform(0., .1), r.uniform(0., 1.) if edge else .02)) * (t - t0)
                t0 = t
                vals.append(math.exp(-acc))
            if edge and r.random() < .5 and len(vals) > 1:
                w = r.random()
                if w < .4:
                    vals = [1. - r.uniform(.5, 2.) * 1e-13 * (i + 1) for i in range(len(vals))]
                else:
                    vals[-1] = min(vals[-1], r.choice((1e-12, 1e-30 if kind == 'survival' else 1e-11, 1e-9)))
                if days[0] == 0:
                    vals[0] = 1.
        else:
            vals = [r.uniform(.7, .9999) for _ in ts]
            if edge and r.random() < .4:
                vals[r.randrange(len(vals))] = r.choice((1e-12, 1. - 1e-13, 1e-9))
        if vk in ('prob', 'marg', 'df', 'pos') and not edge and not monotone and r.random() < .12:
            # nothing happens at first
            k = r.randint(1, len(vals))
            vals[:k] = [0. if vk == 'pos' else 1.] * k
            m.hit('first values neutral')
        self.default = kind in ('default', 'mdefault')
        if self.default:
            given = [1. - v for v in vals]
            vals = [1. - g for g in given]
        else:
            given = vals
        pts = [(ax.at(d), v) for d, v in zip(days, vals)]
        self.tenor = None
        kw = {}
        need = kind in ('cash', 'marginal', 'mdefault') and ax.kind != 'bdate'
        if need or r.random() < .5:
            self.tenor = {'float': r.choice((.25, .5, 1., .0833)), 'date': datetime.timedelta(r.choice((30, 91, 182, 365))),
                          'bdate': r.choice(('1M', '3M', '6M', '1Y', '2M', BusinessPeriod('9M')))}[ax.kind]
            kw['forward_tenor'] = self.tenor
        if self.tenor is None and ax.kind == 'bdate':
            self.tenor = '3M' if kind in IR else '1Y'
        if self.explicit:
            kw['origin'] = ax.at(0)
        if dc is not None:
            kw['day_count'] = gen.named(m, dc)
        if inm:
            kw['interpolation'] = inm
        self.kw, self.inm, self.names = kw, inm, names
        self.origin = o
        order = list(zip(pts, given))
        if self.explicit and r.random() < .5:
            r.shuffle(order)
        self.c = cls(gen.container(m, [p[0] for p, _ in order]), gen.container(m, [g for _, g in order]), **kw)
        self.R = ref.RefRates(rk, pts, o, tau, names, self.tenor)
        m.note(type=self.label, axis=ax.kind, origin=str(o), explicit_origin=self.explicit, days=days, values=vals,
               day_count=gen.dc_name(dc), interpolation=inm, tenor=str(self.tenor))
        m.hit('curve %s' % kind)
        # curves of rates (and factors) from origin are curves before it, too
        self.lo = -400 if (kind in ('zero', 'df', 'intensity') or kind in ('survival', 'default') and not edge and not monotone) and r.random() < .4 else 0
        self.vk = vk
        if touch and r.random() < .25:
            # assign points afterwards
            self.touch()
        if touch and r.random() < .2 and kind in ('zero', 'short', 'cash', 'intensity', 'hazard') and not monotone:
            v = r.uniform(0. if nonneg else -.01, .02)
            self.c.spread = self.R.spread = (lambda x: v)
            m.note(spread=v)
            m.hit('spread set')

    def touch(self):
        """assigns other values to some points"""
        r = self.m.rng
        for _ in range(r.randint(1, 3)):
            x = self.ax.at(r.choice(self.days))
            v = self.R.pts[x]
            if x != self.origin:
                v *= r.uniform(.97, 1.) if self.vk in ('df', 'prob') else r.uniform(.5, 1.)
            self.c[x] = v
            self.R.pts[x] = v
        self.m.hit('reassigned')
        self.m.note(reassigned=[(str(a), b) for a, b in self.R.pts.items()])

    def factor(self, a, b):
        f = self.c.get_discount_factor if self.kind in IR else self.c.get_survival_prob
        return f(a, b)

    def rate(self, a, b=None):
        f = self.c.get_zero_rate if self.kind in IR else self.c.get_flat_intensity
        return f(a, b)

    def inst(self, a):
        return self.c.get_short_rate(a) if self.kind in IR else self.c.get_hazard_rate(a)

    def day(self, lo=None):
        r = self.m.rng
        lo = self.lo if lo is None else lo
        d = gen.query_days(self.m, self.days, 1, lo=lo, far=200 if self.R.kind == 'short' else 3000)[0]
        return r.choice((0, d, d, d, d, max(lo, d)))

    def pairs(self, n, maxspan=100000, lo=None):
        """(a, b) with a < b and positive year fraction"""
        out = []
        r = self.m.rng
        for _ in range(n * 4):
            a, b = self.day(lo), self.day(lo)
            if self.kind in ('short', 'hazard'):
                maxspan = min(maxspan, r.choice((50, 100, 400)))
            if a > b:
                a, b = b, a
            if b - a > maxspan:
                if r.random() < .5:
                    a = b - r.randint(1, maxspan)
                else:
                    b = a + r.randint(1, maxspan)
            if a == b:
                b = a + r.choice((1, 2, 30, 91, 365))
            A = self.c.origin if a == 0 and r.random() < .5 else self.ax.at(a)
            B = self.ax.at(b)
            if self.tau(A, B) <= 0:
                continue
            if self.near(a) or self.near(b):
                continue
            out.append((A, B))
            if a < 0:
                self.m.hit('before origin')
            if len(out) == (n if self.R.kind != 'short' else max(2, n // 3)):
                break
        return out

    def near(self, d):
        return False

    def nt(self, a, b):
        """(relative) rounding tolerance of a factor"""
        return 1e-10 + 1e-12 * (abs(self.R.tau(self.origin, b)) + 1) + 1e-14 * (
            abs(self.R.nlog(self.origin, a)) + abs(self.R.nlog(self.origin, b)) if self.R.kind in ('df', 'zero') else 0.)

    def alive(self, a, b):
        """survival probability not at its floor"""
        return self.kind not in ('survival', 'default') or self.R(a) > 1e-200 and self.R(b) > 1e-200

    def sig(self, *a):
        self.m.sig(self.kind, self.ax.kind, self.explicit, self.inm, gen.dc_name(self.dc), min(len(self.days), 3), *a)


def _step(s, m):
    """(step argument, days approx)"""
    r = m.rng
    return {'float': r.choice((.25, .5, 1., .1)), 'date': datetime.timedelta(r.choice((1, 30, 91, 400))),
            'bdate': r.choice(('1D', '1M', '3M', '6M', '1Y' if s.kind != 'short' else '2M', BusinessPeriod('4M')))}[s.ax.kind]


def _again(s, n):
    """pairs, and after points were assigned the same pairs again"""
    ps = s.pairs(n)
    yield from ps
    if s.m.rng.random() < .3:
        s.touch()
        s.m.hit('asked again after assignment')
        yield from ps[:n // 2]


# ------------------------------------------------------------------------------------------------------------ C08
def c08_consistent(m):
    r = m.rng
    s = RateState(m, IR)
    c, R, tau, o = s.c, s.R, s.tau, s.origin
    s.sig()
    for a, b in _again(s, 8):
        df, z, t = c.get_discount_factor(a, b), c.get_zero_rate(a, b), tau(a, b)
        tol = s.nt(a, b)
        m.eq(df, math.exp(-z * t), 'df is not exp(-z tau)', tol, 0, start=a, stop=b)
        m.eq(df, math.exp(-R.nlog(a, b)), 'discount factor', tol, 0, start=a, stop=b)
        f = c.get_cash_rate(a, b)
        m.eq(f, (1. / df - 1.) / t, 'cash rate is not (1/df-1)/tau', 1e-9, 1e-10 / t * tol / 1e-10, start=a, stop=b)
        if a == o:
            m.eq(c.get_discount_factor(b), df, 'df(t) is not df(origin,t)', 1e-11, 0, stop=b)
            m.eq(c.get_zero_rate(b), z, 'z(t) is not z(origin,t)', 1e-9, 1e-11, stop=b)
            m.hit('one date forms')
        m.true(c.get_discount_factor(s.ax.copy(b), s.ax.copy(b)) == 1., 'df(t,t) is not 1', t=b)
        # step
        if s.kind == 'short' and s.ax.kind != 'bdate':
            continue
        st = _step(s, m)
        e = ref.add_period(a, st)
        if tau(a, e) <= 0:
            continue
        de = c.get_discount_factor(a, e)
        want = (1. / de - 1.) / tau(a, e)
        ta = 1e-10 / tau(a, e)
        m.eq(c.get_cash_rate(a, step=st), want, 'cash rate with step', 1e-9, ta, start=a, step=str(st))
        m.eq(c.get_cash_rate(a, e, st), want, 'cash rate with step and stop', 1e-9, ta, start=a, step=str(st))
        bad = s.ax.at(s.ax.days(e) + r.choice((1, -1, 40))) if s.ax.kind != 'float' else e + r.choice((.01, -.01, 1.))
        if bad != e and bad:
            m.raises(AssertionError, lambda: c.get_cash_rate(a, bad, st), 'stop and step which do not meet', start=a, stop=bad, step=str(st))
            m.hit('not meeting')
        if s.tenor is not None:
            e = ref.add_period(a, s.tenor)
            if tau(a, e) > 0:
                de = c.get_discount_factor(a, e)
                m.eq(c.get_cash_rate(a), (1. / de - 1.) / tau(a, e), 'cash rate of default tenor', 1e-9, 1e-10 / tau(a, e), start=a, tenor=str(s.tenor))
                m.hit('default tenor')


def c08_annuity(m):
    r = m.rng
    s = RateState(m, IR)
    c, R, tau = s.c, s.R, s.tau
    n = r.choice((1, 2, 3, 5, 12, 30))
    if s.kind == 'short':
        n = min(n, 4)
    days = gen.grid_days(m, n, r.choice((0, 0, 3, 200)), hi=500 if s.kind == 'short' else 8000)
    if s.kind in ('zero', 'df') and r.random() < .3:
        days = sorted(set([d - r.choice((1, 30, 400)) for d in days]))
        m.hit('annuity from before origin')
    n = len(days)
    dates = [s.ax.at(d) for d in days]
    want = sum(math.exp(-R.nlog(s.origin, e)) * tau(b, e) for b, e in zip(dates[:-1], dates[1:]))
    m.note(dates=days)
    s.sig('annuity', min(n, 3))
    m.eq(c.get_swap_annuity(gen.container(m, dates)), want, 'swap annuity', 1e-9, 1e-13)
    m.eq(c.get_swap_annuity(dates), sum(c.get_discount_factor(c.origin, e) * tau(b, e) for b, e in zip(dates[:-1], dates[1:])),
         'swap annuity from discount factors', 1e-10, 1e-13)
    if n > 2 and s.kind in ('zero', 'df'):
        k = r.randint(1, n - 2)
        m.eq(c.get_swap_annuity(dates[:k + 1]) + c.get_swap_annuity(dates[k:]), want, 'swap annuity is not additive', 1e-9, 1e-13)
    m.hit('annuity of %s periods' % ('no' if n == 1 else 'some'))


# ------------------------------------------------------------------------------------------------------------ C09
def c09_chain(m):
    r = m.rng
    s = RateState(m, ('zero', 'df', 'zero', 'df', 'short', 'cash'))
    c = s.c
    s.sig()
    for _ in range(6):
        if s.kind in ('zero', 'df'):
            a, b, d = (s.ax.at(s.day()) for _ in range(3))
            m.hit('before origin', int(min(a, b, d) < s.origin))
            if r.random() < .3:
                a = c.origin
            if s.dc is gen.thirty360 and 0. in (s.tau(a, b), s.tau(b, d), s.tau(a, d)) and len({a, b, d}) == 3:
                continue
            if s.dc is gen.thirty360 and any(x != y and s.tau(x, y) == 0. for x in (a, b, d) for y in (a, b, d)):
                continue
            ab, bd, ad, ba = (c.get_discount_factor(x, y) for x, y in ((a, b), (b, d), (a, d), (b, a)))
            tol = s.nt(a, b) + s.nt(b, d)
            m.eq(ab * ba, 1., 'df(a,b) df(b,a) is not 1', tol, 0, a=a, b=b)
            m.hit('inverse')
        elif s.kind == 'short':
            x = sorted(s.day(0) for _ in range(3))
            x = [x[0], min(x[1], x[0] + 400), min(x[2], x[0] + 800)]
            a, b, d = (s.ax.at(k) for k in sorted(x))
            ab, bd, ad = (c.get_discount_factor(x, y) for x, y in ((a, b), (b, d), (a, d)))
            tol = 1e-10
        else:
            a = s.ax.at(s.day(0))
            b = a
            for _ in range(r.randint(0, 12)):
                b = ref.add_period(b, s.tenor)
            e = s.ax.days(b)
            d = s.ax.at(e + r.choice((0, 1, 17, 91, 400, 2000))) if s.ax.kind != 'float' else b + r.choice((0., .01, .3, 2.7))
            if b != d and s.tau(b, d) == 0.:
                continue  # 30th to 31st by 30/360
            ab, bd, ad = (c.get_discount_factor(x, y) for x, y in ((a, b), (b, d), (a, d)))
            tol = 1e-9
            m.hit('cash chain')
        m.true(min(ab, bd, ad) > 0., 'discount factor not positive', a=a, b=b, c=d, got=(ab, bd, ad))
        m.eq(ad, ab * bd, 'df(a,c) is not df(a,b) df(b,c)', tol, 0, a=a, b=b, c=d)
        m.hit('chain')


def c09_monotone(m):
    r = m.rng
    s = RateState(m, IR, monotone=True, alt=False, touch=False)
    c = s.c
    s.sig('monotone')
    days = sorted(set(gen.query_days(m, s.days, 14, lo=0)) | {0})
    if s.kind == 'short':
        days = [d for d in days if d < 500]
    last = None
    for d in days:
        x = s.ax.at(d)
        v = c.get_discount_factor(x)
        m.true(v > 0., 'discount factor not positive', x=x, got=v)
        if last is not None and not (s.kind == 'zero' and d > s.days[-1] and False):
            # zero rates are linear between points, so factors fall on points only
            if s.kind in ('short', 'cash', 'df') and s.kind != 'df':
                m.true(v <= last * (1 + 1e-12), 'discount factor increases', x=x, got=v, before=last)
                m.hit('monotone')
        last = v
    if s.kind in ('zero', 'df'):
        fs = [c.get_discount_factor(s.ax.at(d)) for d in s.days]
        for d, a, b in zip(s.days[1:], fs[:-1], fs[1:]):
            m.true(b <= a * (1 + 1e-12), 'discount factor of points increases', day=d, got=b, before=a)
            m.hit('monotone')
        if s.days[0] > 0:
            m.true(fs[0] <= 1 + 1e-12, 'discount factor above one', got=fs[0])
        # flat rate beyond the last point
        if c.get_zero_rate(s.ax.at(s.days[-1] + 1)) >= 0 and s.days[-1] > 0:
            e = s.ax.at(s.days[-1] + r.randint(1, 4000))
            m.true(c.get_discount_factor(e) <= fs[-1] * (1 + 1e-12) or s.inm, 'discount factor increases beyond the last point')


# ------------------------------------------------------------------------------------------------------------ C10/C13
def _quantity(m, kinds, edge=False):
    s = RateState(m, kinds, edge=edge)
    c, R, tau, o = s.c, s.R, s.tau, s.origin
    s.sig(edge)
    fname = 'discount factor' if s.kind in IR else 'survival probability'
    for x, v in list(R.pts.items()):
        v = R(x)
        if s.kind in ('zero', 'intensity'):
            if x != o:
                m.eq(s.rate(o, x), v, 'rate from origin is not the stored one', 1e-9, 1e-12, x=x)
        elif R.kind == 'df':
            m.eq(s.factor(o, x), v, '%s from origin is not the stored one' % fname, 1e-12, 0, x=x)
            m.eq(s.factor(c.origin, x), v, '%s from origin is not the stored one' % fname, 1e-12, 0, x=x)
        elif s.kind in ('short', 'hazard'):
            m.eq(s.inst(x), v, 'short/hazard rate is not the stored one', 1e-12, 1e-16, x=x)
        elif s.kind == 'cash':
            m.eq(c.get_cash_rate(x), v, 'cash rate is not the stored one', 1e-9, 1e-12, x=x)
            e = ref.add_period(x, s.tenor)
            m.eq(c.get_cash_rate(x, e), v, 'cash rate is not the stored one', 1e-9, 1e-12, x=x)
            m.eq(c.get_discount_factor(x, e), 1. / (1. + v * tau(x, e)), 'tenor discount factor', 1e-12, 0, x=x)
        else:
            e = ref.add_period(x, s.tenor)
            m.eq(c.get_survival_prob(x, e), v, 'survival probability over one tenor is not the stored one', 1e-10, 0, x=x)
        m.hit('stored quantity')
    for a, b in _again(s, 8):
        if not s.alive(a, b):
            continue
        n = R.nlog(a, b)
        if n > 600:
            continue
        m.eq(s.factor(a, b), math.exp(-n), fname, s.nt(a, b) + 1e-13 * abs(n), 0, start=a, stop=b)
        m.eq(s.rate(a, b), n / tau(a, b), 'rate of period', 1e-9, (1e-12 + s.nt(a, b) * 1e-2) / tau(a, b) + 1e-11, start=a, stop=b)
        m.hit('period')
        if s.kind not in IR:
            continue
        if s.kind == 'cash':
            st = _step(s, m)
            e = ref.add_period(a, st)
            if tau(a, e) > 0:
                m.eq(c.get_cash_rate(a, step=st), R.cash(a, e), 'cash rate off tenor', 1e-9, 1e-11 / tau(a, e), start=a, step=str(st))
    # short and hazard rates
    qs = gen.query_days(m, s.days, 8, lo=0)
    for d in qs:
        x = s.ax.at(d)
        if s.kind in ('short', 'hazard'):
            m.eq(s.inst(x), R(x), 'short/hazard rate', 1e-12, 1e-16, x=x)
            m.hit('instantaneous')
            continue
        if s.ax.kind != 'bdate' and not x < max(R.pts):
            continue
        if R.kind == 'marginal' and x >= max(R.pts):
            e = ref.add_period(max(R.pts), '1D')
            if s.tau(max(R.pts), e) <= 0:
                continue
            want = R.zero(max(R.pts), e)
        elif len(s.days) == 1:
            if s.days == [0] or R.kind == 'marginal':
                continue
            want = R.zero(o, s.ax.at(s.days[0]))
        else:
            p = R.period(x)
            if tau(*p) <= 0 or s.kind == 'cash' and (p[1] - p[0] if s.ax.kind == 'float' else 1) <= 0:
                continue
            want = R.zero(*p)
        if abs(want) > 50:
            continue
        m.eq(s.inst(x), want, 'short/hazard rate is not the rate of the enclosing grid period', 1e-8, 1e-10, x=x)
        m.hit('instantaneous')


def c10_quantity(m):
    _quantity(m, IR)


def c13_quantity(m):
    _quantity(m, CREDIT)


def c13_edge(m):
    _quantity(m, CREDIT, True)


def _shape(m, kinds):
    """flat curves of all types are the same; constant short rates between points"""
    r = m.rng
    ax = Axis(m, 'bdate')
    o = ax.at(0)
    z = r.uniform(.001, .1)
    days = gen.grid_days(m, r.choice((1, 2, 4)), r.choice((0, 1, 100)), hi=500)
    dates = [ax.at(d) for d in days]
    dc = r.choice(gen.ADDITIVE)
    tau = tau_of(dc)
    kw = dict(origin=o, day_count=gen.named(m, dc))
    m.note(rate=z, days=days, day_count=gen.dc_name(dc), origin=str(o))
    m.sig('flat', kinds[0], min(len(days), 3), gen.dc_name(dc))
    cs = {}
    for k in kinds:
        cls, rk, _, vk = TYPES[k]
        if rk in ('zero', 'short'):
            v = [z] * len(days)
        elif rk == 'df':
            if days == [0]:
                continue
            v = [math.exp(-z * tau(o, d)) for d in dates]
        elif k == 'cash':
            v = [math.expm1(z * tau(d, d + '3M')) / tau(d, d + '3M') for d in dates]
            if len(days) > 1 or True:
                v = None
        else:
            v = None
        if v is None:
            continue
        if k == 'default':
            v = [1. - x for x in v]
        cs[k] = cls(dates, v, **kw)
    for d in gen.query_days(m, days, 8, lo=1):
        d = min(d, 900)
        a = r.choice((0, r.randint(0, d - 1) if d > 1 else 0))
        A, D = ax.at(a), ax.at(d)
        for k, c in cs.items():
            f = c.get_discount_factor(A, D) if k in IR else c.get_survival_prob(A, D)
            m.eq(f, math.exp(-z * tau(A, D)), 'flat curve factor', 1e-10, 0, start=a, stop=d, type=k)
            i = c.get_short_rate(D) if k in IR else c.get_hazard_rate(D)
            m.eq(i, z, 'flat curve instantaneous rate', 1e-8, 1e-10, x=d, type=k)
    m.hit('flat curves')


def c10_flat(m):
    _shape(m, IR)


def c13_flat(m):
    _shape(m, CREDIT)


# ------------------------------------------------------------------------------------------------------------ C11/C14
def _stored(s_kind, api, ref_, x, tenor, prob):
    """quantity of the source (by its methods, by the reference) which the cast has to store at x"""
    c, R = api, ref_
    ir = s_kind in IR
    o = R.origin
    rk = TYPES[s_kind][1]
    if rk == 'zero':
        f = c.get_zero_rate if ir else c.get_flat_intensity
        return f(c.origin, x), None if x == o else R.zero(o, x)
    if rk == 'df':
        f = c.get_discount_factor if ir else c.get_survival_prob
        return f(c.origin, x), math.exp(-R.nlog(o, x))
    if rk == 'short':
        f = c.get_short_rate if ir else c.get_hazard_rate
        if R.kind == 'short':
            w = R(x)
        elif R.kind == 'marginal' and (len(R.pts) == 1 or x >= max(R.pts)):
            w = R.zero(max(R.pts), ref.add_period(max(R.pts), '1D'))
        else:
            w = R.short(x)
        return f(x), w
    if rk == 'cash':
        return c.get_cash_rate(x, step=tenor), R.cash(x, ref.add_period(x, tenor))
    return c.get_survival_prob(x, ref.add_period(x, tenor)), math.exp(-R.nlog(x, ref.add_period(x, tenor)))


def _cast(m, kinds):
    r = m.rng
    sizes = (1, 2, 3, 5)
    plain = r.random() < .3
    if plain:
        # no days to go on: no short rates
        kinds = [k for k in kinds if k not in ('short', 'hazard')]
    s = RateState(m, kinds, axes=('float', 'date') if plain else ('bdate',), n=r.choice(sizes), dcs=gen.ADDITIVE, alt=r.random() < .3)
    # moderate spans: casts evaluate day by day
    if max(s.days) > 2500:
        return
    ax, o = s.ax, s.origin
    src, R, tenor = s.c, s.R, s.tenor
    src_kind = s.kind
    chain = [src_kind]
    for depth in range(r.choice((1, 1, 2, 3))):
        T = r.choice(kinds)
        cls, rk, names, vk = TYPES[T]
        kw = {}
        nt = tenor
        if r.random() < .3:
            nt = kw['forward_tenor'] = r.choice(('1M', '3M', '6M', '1Y'))
        if plain and (kw or nt is None):
            nt = kw['forward_tenor'] = r.choice((.25, .5, 1.)) if ax.kind == 'float' else ax.step(r.choice((30, 91, 365)))
        mode = r.choice(('own', 'own', 'domain', 'domain data'))
        new_origin = None
        if r.random() < .08:
            # the origin of the cast is the given one
            new_origin = kw['origin'] = ax.at(-r.choice((1, 31, 400)))
            m.hit('cast with origin')
        if plain and (vk == 'df' or rk == 'zero' or kinds[0] not in IR):
            # their casts on own domain add days as given periods
            mode = r.choice(('domain', 'domain data'))
        lo = 1 if rk == 'df' or plain and rk == 'zero' else 0
        if mode == 'own':
            if r.random() < .15:
                new = src.cast(cls, **kw)
                m.hit('cast method')
            else:
                new = cls(src, **kw)
            m.true(set(new.domain) >= set(src.domain), 'cast on own domain lost points', source=src.domain, got=new.domain)
        else:
            days = gen.grid_days(m, r.choice((1, 2, 4)), r.choice((lo, 30, 200)), hi=2500)
            if R.spread is not None and rk == 'short':
                days = [d for d in days if d > 0] or [30]
            dom = gen.container(m, [ax.at(d) for d in days])
            new = cls(dom, src, **kw) if mode == 'domain' else cls(domain=dom, data=src, **kw)
            m.same(sorted(new.domain), sorted(dom), 'cast has other domain')
        chain.append(T)
        m.note(chain=chain, mode=mode, tenor=str(nt), domain=[str(d) for d in new.domain])
        m.same(new.origin, o if new_origin is None else new_origin, 'origin of the cast')
        for x in new.domain:
            if x < o:
                continue
            api, want = _stored(T, src, R, x, nt, vk)
            got = new(x)
            if vk in ('prob', 'marg'):
                if got == 1.:  # clamped
                    api, want = (None if v is None else min(v, 1.) for v in (api, want))
            m.eq(got, api, 'stored quantity of the cast is not the one of the source', 1e-9, 1e-12, x=x, chain=chain)
            if want is not None and not (R.kind == 'short' and s.dc is gen.thirty360):
                m.eq(got, want, 'stored quantity of the cast is not the one expected', 1e-7 if depth else 1e-8, 1e-10, x=x, chain=chain)
                m.hit('stored %s' % T)
        if new_origin is not None:
            break
        # factors of zero/df like casts at common points
        if rk in ('zero', 'df'):
            for x in new.domain:
                if x > o:
                    f = (lambda c: c.get_discount_factor(x)) if T in IR else (lambda c: c.get_survival_prob(x))
                    m.eq(f(new), f(src), 'factor of the cast', 1e-9, 0, x=x, chain=chain)
                    m.hit('factor')
        if mode == 'own' and src_kind != T and {TYPES[src_kind][1], rk} <= {'zero', 'df'} and R.spread is None:
            back = TYPES[src_kind][0](list(src.domain), new) if plain else TYPES[src_kind][0](new)
            for x in src.domain:
                if x > o:
                    m.eq(back(x), src(x), 'casting back and forth', 1e-8, 1e-10, x=x, chain=chain)
            m.hit('round trip')
        # the cast becomes the source
        src, src_kind, tenor = new, T, nt
        R = ref.RefRates(rk, [(x, new(x)) for x in new.domain], o, s.tau, names, nt)
        if rk == 'df' and set(R.pts) == {o}:
            break
        if min(R.pts) < o or len(R.pts) > 60:
            break
        if vk == 'pos' and (min(R.pts.values()) < -1e-12 or max(R.pts.values()) > 5):
            break
        if vk in ('prob', 'marg') and min(R.pts.values()) < 1e-9:
            break
        if max(map(abs, R.pts.values())) > 5:
            break
    m.sig(tuple(chain), ax.kind, len(s.days) == 1, s.explicit)
    m.hit('cast')
    m.hit('cast %s' % ax.kind)


def c05_types(m):
    """arithmetic of curves of different rate types: the second one is cast to the type of the first one"""
    r = m.rng
    kinds = r.choice((('zero', 'zero', 'df', 'cash', 'short'), ('intensity', 'intensity', 'survival', 'hazard', 'marginal')))
    ax = Axis(m, 'bdate')
    f, g = (RateState(m, kinds, ax=ax, n=r.choice((1, 2, 3, 5)), dcs=[None, gen.act365], touch=False, alt=r.random() < .2) for _ in '12')
    if max(f.days + g.days) > 2500 or f.c.origin != g.c.origin or f.tau is not g.tau:
        return
    T = f.kind
    one, two = f.c, g.c
    cast = TYPES[T][0](two) if T != g.kind else two
    xs = sorted(set(one.domain) | set(cast.domain))
    op = r.choice('+-*/')

    def calc(a, b):
        return a + b if op == '+' else a - b if op == '-' else a * b if op == '*' else a / b
    a, b = one(xs), cast(xs)
    if op == '/' and min(map(abs, b)) < 1e-9:
        return
    want = [calc(x, y) for x, y in zip(a, b)]
    if T in ('df', 'survival', 'marginal') and (min(want) <= 1e-9 or max(want) >= 1. and T != 'df'):
        return
    m.note(op=op, types=[T, g.kind])
    m.sig('types', T, g.kind, op, len(f.days) == 1, len(g.days) == 1)
    h = calc(one, two)
    m.true(type(h) is type(one), 'type of the result', got=type(h).__name__, want=f.label)
    m.same(sorted(h.domain), xs, 'domain of the result is not the union')
    for x, y, c, d in zip(xs, want, a, b):
        m.eq(h(x), y, 'value of f %s g of different types' % op, 1e-8, 1e-9 * (abs(c) + abs(d)) + 1e-14, x=x, types=[T, g.kind])
    m.same(h.origin, f.origin, 'origin of the result')
    m.same(h.forward_tenor, one.forward_tenor, 'forward tenor of the result')
    m.hit('types' if T != g.kind else 'same type')


def c11_cast(m):
    _cast(m, IR)


def c14_cast(m):
    _cast(m, CREDIT)


# ------------------------------------------------------------------------------------------------------------ C12
def c12_consistent(m):
    r = m.rng
    edge = r.random() < .3
    s = RateState(m, CREDIT, edge=edge)
    c, R, tau, o = s.c, s.R, s.tau, s.origin
    s.sig(edge)
    for a, b in _again(s, 8):
        if not s.alive(a, b) or R.nlog(a, b) > 600:
            continue
        sv, lam, t = c.get_survival_prob(a, b), c.get_flat_intensity(a, b), tau(a, b)
        tol = s.nt(a, b)
        m.eq(sv, math.exp(-lam * t), 'sv is not exp(-lambda tau)', tol, 0, start=a, stop=b)
        m.eq(sv, math.exp(-R.nlog(a, b)), 'survival probability', tol + 1e-13 * R.nlog(a, b), 0, start=a, stop=b)
        if a == o:
            m.eq(c.get_survival_prob(b), sv, 'sv(t) is not sv(origin,t)', 1e-11, 0, stop=b)
            m.eq(c.get_flat_intensity(b), lam, 'lambda(t) is not lambda(origin,t)', 1e-9, 1e-11, stop=b)
            m.hit('one date forms')
        m.true(c.get_survival_prob(s.ax.copy(b), s.ax.copy(b)) == 1., 'sv(t,t) is not 1', t=b)
        if s.kind in ('survival', 'default', 'intensity'):
            d = s.ax.at(s.ax.days(b) + r.choice((1, 30, 365, 2000))) if s.ax.kind != 'float' else b + r.choice((.1, 1., 3.))
            if s.alive(b, d) and tau(b, d) > 0:
                m.eq(c.get_survival_prob(a, d), sv * c.get_survival_prob(b, d), 'sv(a,c) is not sv(a,b) sv(b,c)', tol + s.nt(b, d), 0, a=a, b=b, c=d)
                m.hit('chain')


def c12_monotone(m):
    s = RateState(m, CREDIT, monotone=True, alt=False, touch=False, nonneg=True)
    c = s.c
    s.sig('monotone')
    days = sorted(set(gen.query_days(m, s.days, 12, lo=0)) | {0})
    if s.kind == 'hazard':
        days = [d for d in days if d < 500]
    if s.kind in ('intensity', 'survival', 'default'):
        days = sorted(s.days + [s.days[-1] + 1000])
    last = 1.
    for d in days:
        v = c.get_survival_prob(s.ax.at(d))
        m.true(0. <= v <= 1. + 1e-12, 'survival probability not in [0,1]', day=d, got=v)
        m.true(v <= last * (1 + 1e-10), 'survival probability increases', day=d, got=v, before=last)
        last = v
        m.hit('monotone')


def c12_pair(m):
    """default probability data is one minus survival probability data; intensities reproduce"""
    r = m.rng
    s = RateState(m, ('survival', 'marginal'), touch=False)
    c = s.c
    pts = list(s.R.pts.items())
    cls = dcf.DefaultProbabilityCurve if s.kind == 'survival' else dcf.MarginalDefaultProbabilityCurve
    kw = dict(s.kw, origin=s.origin)
    d = cls(gen.container(m, [a for a, _ in pts]), gen.container(m, [1. - b for _, b in pts]), **kw)
    s.sig('pair')
    for a, b in s.pairs(6):
        if s.alive(a, b):
            m.eq(d.get_survival_prob(a, b), c.get_survival_prob(a, b), 'default and survival curve differ', 1e-9, 0, start=a, stop=b)
            m.eq(d.get_flat_intensity(a, b), c.get_flat_intensity(a, b), 'default and survival curve differ', 1e-7, 1e-9, start=a, stop=b)
            m.hit('default pair')
    # probabilities are clamped
    p = r.choice((1., 1. + 1e-9, 2.))
    q = r.choice((0., -1e-9, -1.))
    e = dcf.SurvivalProbabilityCurve([s.ax.at(0), s.ax.at(365), s.ax.at(730)], [1., p, q], origin=s.ax.at(0))
    v = [e.get_survival_prob(s.ax.at(k)) for k in (0, 200, 365, 500, 730, 800)]
    m.true(all(0. <= x <= 1. for x in v), 'survival probability not clamped', got=v)
    m.hit('clamped')


def c08_empty(m):
    _empty(m, IR, RateState)


def c12_empty(m):
    _empty(m, CREDIT, RateState)


SIT = 'distinct (scenario, curve type, date type, origin, interpolation, day count, size) signatures with all oracle comparisons done'
PROPS = {
    'C08': Prop('C08', [Scenario('consistent', c08_consistent, 1500), Scenario('annuity', c08_annuity, 600), Scenario('empty', c08_empty, 400)],
                {'one date forms': 500, 'default tenor': 500, 'not meeting': 500, 'annuity of some periods': 200, 'annuity from before origin': 30, 'spread set': 50, 'reassigned': 50, 'empty period': 500,
                 'asked again after assignment': 200, 'before origin': 100}, SIT),
    'C09': Prop('C09', [Scenario('chain', c09_chain, 1500), Scenario('monotone', c09_monotone, 600)],
                {'chain': 2000, 'inverse': 1000, 'before origin': 100, 'cash chain': 200, 'monotone': 300}, SIT),
    'C10': Prop('C10', [Scenario('quantity', c10_quantity, 1800), Scenario('flat', c10_flat, 200)],
                {'stored quantity': 2000, 'period': 3000, 'instantaneous': 2000, 'flat curves': 50,
                 'asked again after assignment': 200, 'before origin': 100}, SIT),
    'C11': Prop('C11', [Scenario('cast', c11_cast, 900)],
                {'cast': 300, 'cast float': 50, 'cast date': 50, 'stored zero': 200, 'stored df': 200, 'stored short': 200, 'stored cash': 200, 'round trip': 20}, SIT),
    'C12': Prop('C12', [Scenario('consistent', c12_consistent, 1500), Scenario('monotone', c12_monotone, 600), Scenario('pair', c12_pair, 300), Scenario('empty', c12_empty, 400),
                        Scenario('dead', c12_dead, 400)],
                {'one date forms': 300, 'chain': 300, 'asked again after assignment': 200, 'monotone': 500, 'default pair': 100, 'empty period': 500, 'alive': 300,
                 'beyond default': 500}, SIT),
    'C13': Prop('C13', [Scenario('quantity', c13_quantity, 1500), Scenario('edge', c13_edge, 500), Scenario('flat', c13_flat, 150)],
                {'stored quantity': 2000, 'period': 3000, 'instantaneous': 1500, 'flat curves': 50,
                 'asked again after assignment': 200}, SIT),
    'C14': Prop('C14', [Scenario('cast', c14_cast, 900)],
                {'cast': 300, 'cast float': 50, 'cast date': 50, 'stored survival': 100, 'stored intensity': 100, 'stored hazard': 100, 'stored marginal': 100}, SIT),
}

"""C32-C35: plans, compounding, rating classes, products"""
import math

import dcf
from businessdate import BusinessDate, BusinessPeriod
from dcf import compounding as cp
from dcf import plans

from dcf.ratingclass import LONG_MASTER_SCALE, MASTER_SCALE, SHORT_MASTER_SCALE, RatingClass

from . import gen, ref
from .core import Prop, Scenario
from .gen import Axis, tau_of
from .m_flows import back, other_day, rows, some_forward

SIT = 'distinct (scenario, function, parameter range) signatures with all oracle comparisons done'


# ------------------------------------------------------------------------------------------------------------ C32
def c32_plans(m):
    r = m.rng
    n = r.choice((1, 1, 2, 3, 4, 5, 10, 12, 60, 120, 240, 360, 400, r.randint(1, 400)))
    amount = r.choice((1., 1, 100, -1., r.uniform(-1e9, 1e9), r.uniform(-1e-3, 1e-3), 0., 1e12))
    rate = r.choice((0., 0, .01, 1., -.5, r.uniform(-.5, 1.), r.uniform(-.02, .1), r.uniform(-.02, .1), r.uniform(-1e-3, 1e-3)))
    if rate and abs(rate) < 1e-6:
        rate = 1e-6
    # stay within floating point numbers
    w = r.random()
    aargs = () if amount == 1. and w < .5 else (amount,)
    rargs = (*(aargs or (amount,)), rate)
    sc = abs(amount) + 1e-300
    m.note(n=n, amount=amount, rate=rate)
    m.sig(min(n, 5), n > 100, amount > 0, amount == 0, rate > 0, rate == 0, abs(rate) > .2)
    p = plans.same(n, *aargs)
    m.true(p == [amount] * n, 'same plan', got=p)
    p = plans.bullet(n, *aargs)
    m.true(p == [0.] * (n - 1) + [amount], 'bullet plan', got=p)
    a = plans.amortize(n, *aargs)
    m.true(len(a) == n, 'number of payments of amortize', got=len(a))
    for x in a:
        m.eq(x, amount / n, 'amortize payment', 1e-12, 1e-15 * sc)
    c = plans.consumer(n, *rargs)
    m.true(len(c) == n, 'number of payments of consumer', got=len(c))
    m.eq(math.fsum(c), amount * (1. + n * rate), 'total of consumer', 1e-10, 1e-11 * sc)
    for x in c:
        m.eq(x, c[0], 'consumer payments not equal', 1e-13, 1e-300)
    y = plans.annuity(n, *rargs)
    m.true(len(y) == n, 'number of payments of annuity', got=len(y))
    m.eq(math.fsum(y), amount, 'total of annuity', 1e-9, 1e-9 * sc)
    out = amount
    # payment and interest
    first = None
    for i, x in enumerate(y):
        s = x + rate * out
        if first is None:
            first = s
        m.eq(s, first, 'annuity payment plus interest not constant', 1e-8, 1e-8 * abs(rate * sc) + 1e-8 * abs(first) + 1e-300, payment=i)
        if i:
            m.eq(x, y[i - 1] * (1. + rate), 'annuity growth', 1e-9, 1e-300, payment=i)
        out -= x
    m.eq(out, 0., 'annuity does not pay back', 0, 1e-9 * sc)
    if rate == 0:
        m.true(y == plans.amortize(n, amount), 'annuity without rate is no amortize plan')
        m.hit('zero rate')
    if not aargs:
        m.true(plans.annuity(n) == plans.annuity(n, 1., .01), 'default rate of annuity')
        m.true(plans.consumer(n) == plans.consumer(n, 1., .01), 'default rate of consumer')
    # outstanding
    for name, plan in (('bullet', p), ('amortize', a), ('annuity', y), ('own', [r.uniform(-5., 5.) for _ in range(n)])):
        start = amount if name != 'own' else r.choice((amount, 0., 10.))
        q = gen.container(m, plan)
        for sign in r.sample((None, False, True), 2):
            kw = {} if sign is None else dict(sign=sign)
            o = plans.outstanding(q, start, **kw)
            m.true(len(o) == n, 'number of outstanding amounts', got=len(o), plan=name)
            s = 1. if sign else -1.
            acc, tot = start, abs(start)
            for x, e in zip(plan, o):
                m.eq(e, acc, 'outstanding amount', 1e-9, 1e-11 * tot + 1e-300, plan=name)
                acc += s * x
                tot += abs(x)
            if name != 'own' and not sign:
                m.eq(o[-1] - plan[-1], 0., 'final payment leaves something', 0, 1e-9 * sc, plan=name)
            m.hit('outstanding')
        m.true(list(q) == list(plan), 'plan changed by outstanding')
    m.hit('plans')


# ------------------------------------------------------------------------------------------------------------ C33
PERIODIC = {1: cp.annually_compounding, 2: cp.semi_compounding, 4: cp.quarterly_compounding, 12: cp.monthly_compounding,
            365: cp.daily_compounding}


def c33_compounding(m):
    r = m.rng
    for _ in range(10):
        rate = r.choice((0., 0, 1., r.uniform(-.2, 1.), r.uniform(-.05, .1), r.uniform(-.05, .1), r.uniform(-1e-4, 1e-4)))
        t = r.choice((1., 1, .25, .5, 10., 1. / 365.25, r.uniform(0., 60.), r.uniform(0., 2.), 60.))
        t = t or 1.
        if r.random() < .05:
            t = r.choice((100., 500., 1000.))
            rate = r.uniform(-.3, .6)
        k = r.choice((1, 2, 3, 4, 6, 12, 52, 365, 365, r.randint(1, 365)))
        m.sig(rate > 0, rate == 0, abs(rate) > .1, t < 1., t > 10., k in PERIODIC)
        det = dict(rate=rate, maturity=t, period=k)
        # continuous
        d = cp.continuous_compounding(rate, t)
        m.eq(d, math.exp(-rate * t), 'continuous compounding', 1e-13, 0, **det)
        m.eq(cp.continuous_rate(d, t), rate, 'continuous rate', 1e-12, 1e-15 * (1. + abs(rate)) + 1e-15 / t, **det)
        # simple
        simple = rate * t > -.95
        if simple:
            s = cp.simple_compounding(rate, t)
            m.eq(s, 1. / (1. + rate * t), 'simple compounding', 1e-12, 0, **det)
            m.eq(cp.simple_rate(s, t), rate, 'simple rate', 1e-11, 1e-15 * (1. + abs(rate)) + 1e-15 / t, **det)
            m.hit('simple')
        # periodic
        p = cp.periodic_compounding(rate, t, k)
        lg = k * t * math.log1p(rate / k)
        m.eq(p, math.exp(-lg), 'periodic compounding', 1e-12 * (1. + k * t), 0, **det)
        m.eq(cp.periodic_rate(p, t, k), rate, 'periodic rate', 1e-11, 1e-15 * k + 1e-14 * (1. + k * t) / t, **det)
        for j, f in PERIODIC.items():
            m.eq(f(rate, t), math.exp(-j * t * math.log1p(rate / j)), '%s' % f.__name__, 1e-11 + 1e-13 * j * t, 0, **det)
        # times before (negative maturities)
        u = -t
        if r.random() < .5:
            m.eq(cp.continuous_compounding(rate, u), math.exp(rate * t), 'continuous compounding of negative time', 1e-13, 0, **det)
            m.eq(cp.continuous_rate(math.exp(rate * t), u), rate, 'continuous rate of negative time', 1e-12,
                 1e-15 * (1. + abs(rate)) + 1e-15 / t, **det)
            m.eq(cp.periodic_compounding(rate, u, k), math.exp(lg), 'periodic compounding of negative time', 1e-12 * (1. + k * t), 0, **det)
            m.eq(cp.periodic_rate(math.exp(lg), u, k), rate, 'periodic rate of negative time', 1e-11,
                 1e-15 * k + 1e-14 * (1. + k * t) / t, **det)
            # simple: any growth factor but zero
            g = r.choice((r.uniform(-5., -.01), r.uniform(.01, 5.), 10. ** r.uniform(-12., 0.), 1. - rate * t))
            if abs(g) >= 1e-12:
                sr = (g - 1.) / u
                w = 1. + sr * u
                if w:
                    m.eq(cp.simple_compounding(sr, u), 1. / w, 'simple compounding of negative time', 1e-12 + 1e-14 / abs(g), 0, growth=g, **det)
                    m.eq(cp.simple_compounding(-sr, t), 1. / w, 'simple compounding of small or negative growth', 1e-12 + 1e-14 / abs(g), 0, growth=g, **det)
                if abs(g) > .01:
                    m.eq(cp.simple_rate(1. / g, u), sr, 'simple rate of negative time', 1e-11, 1e-14 / t, growth=g, **det)
                    m.eq(cp.simple_rate(1. / g, t), -sr, 'simple rate of any discount factor', 1e-11, 1e-14 / t, growth=g, **det)
            m.hit('negative maturities')
        # any discount factor
        x = math.exp(r.uniform(-6., 1.))
        m.eq(cp.continuous_compounding(cp.continuous_rate(x, t), t), x, 'discount factor of continuous rate', 1e-10, 0, df=x, **det)
        m.eq(cp.simple_compounding(cp.simple_rate(x, t), t), x, 'discount factor of simple rate', 1e-10, 0, df=x, **det)
        if abs(math.log(x)) / (t * k) < 5.:
            m.eq(cp.periodic_compounding(cp.periodic_rate(x, t, k), t, k), x, 'discount factor of periodic rate', 1e-9, 0, df=x, **det)
        # identities and order
        fs = [(f.__name__, f) for f in PERIODIC.values()] + [('continuous', cp.continuous_compounding), ('simple', cp.simple_compounding)]
        name, f = r.choice(fs)
        m.eq(f(rate, 0.), 1., '%s compounding at maturity zero' % name, 1e-15, 0, **det)
        m.eq(f(0., t), 1., '%s compounding at rate zero' % name, 1e-15, 0, **det)
        if name != 'simple' or simple and rate >= 0.:
            m.true(f(rate + 1e-3, t) < f(rate, t), '%s compounding does not fall with the rate' % name, **det)
            if rate > 1e-6:
                m.true(f(rate, t + .01) < f(rate, t), '%s compounding does not fall with time' % name, **det)
        if rate > 1e-3:
            # whole periods
            n = max(1, round(t * k))
            T = n / k
            v = cp.simple_compounding(rate, T), cp.periodic_compounding(rate, T, k), cp.continuous_compounding(rate, T)
            m.true(v[0] >= v[1] * (1 - 1e-12) and v[1] >= v[2] * (1 - 1e-12), 'order of compounding', got=v, **det)
            q = [f(rate, float(min(n, 40))) for f in PERIODIC.values()]
            m.true(all(a > b for a, b in zip(q[:-1], q[1:])), 'order of periodic compounding', got=q, **det)
            m.hit('order')
        m.hit('compounding')


# ------------------------------------------------------------------------------------------------------------ C34
def some_scale(m):
    """argument of rating class, [(key, value)] ascending"""
    r = m.rng
    w = r.choice(('dict', 'dict', 'dict', 'scale', 'tuple', 'list', 'short', 'standard', 'long', 'fromkeys'))
    if w in ('dict', 'scale'):
        n = r.choice((2, 2, 3, 4, 6, 10, 30))
        vals = set()
        while len(vals) < n:
            v = round(r.choice((r.uniform(0., 1.), r.uniform(0., .01), r.uniform(0., .1))), r.choice((5, 6, 7)))
            if all(abs(v - x) >= 1e-5 for x in vals):
                vals.add(v)
        if r.random() < .5:
            vals = set(sorted(vals)[1:-1]) | {0. if r.random() < .3 else 1e-5 * r.random(), 1.}
        vals = sorted(vals)
        vals = [v for i, v in enumerate(vals) if not i or v - vals[i - 1] >= 1e-5]
        if len(vals) < 2:
            vals = [.01, 1.]
        keys = ['K%d' % i for i in range(len(vals))]
        r.shuffle(keys)
        pairs = list(zip(keys, vals))
        d = pairs[:]
        if r.random() < .5:
            # whole numbers of the user
            d = [(k, int(v) if v in (0., 1.) else v) for k, v in d]
        r.shuffle(d)
        return w, (dict(d) if w == 'dict' else RatingClass.master_scale(d)), pairs
    keys = {'short': SHORT_MASTER_SCALE, 'standard': MASTER_SCALE, 'long': LONG_MASTER_SCALE}.get(w)
    if keys is None:
        keys = ['X%d' % i for i in range(r.choice((2, 3, 5, 8)))]
    n = len(keys)
    low = 10. ** (1 - n)
    arg = tuple(keys) if w != 'list' else list(keys)
    if w == 'fromkeys':
        low = r.choice((low, 10. ** r.uniform(-6, -1)))
        arg = RatingClass.master_scale.fromkeys(keys, low)
    return w, arg, [(k, low ** (1. - i / (n - 1))) for i, k in enumerate(keys)]


def sloppy(m, x, scale):
    """vector of the value if SLOPPY is set for all or in a class of the user"""
    if m.rng.random() < .5:
        m.hit('class of the user')
        return type('MyRatingClass', (RatingClass,), {'SLOPPY': True})(x, scale).vector
    try:
        RatingClass.SLOPPY = True
        return RatingClass(x, scale).vector
    finally:
        RatingClass.SLOPPY = False


def c34_rating(m):
    r = m.rng
    how, arg, pairs = some_scale(m)
    keys, vals = [k for k, _ in pairs], [v for _, v in pairs]
    n = len(vals)
    m.note(how=how, scale=pairs)
    m.sig(how, min(n, 12), vals[0] == 0.)
    rc = RatingClass(vals[-1], arg)
    ms = rc.masterscale
    m.true(list(ms.keys()) == keys, 'keys of scale', got=list(ms.keys()), want=keys)
    for a, b in zip(ms.values(), vals):
        m.eq(a, b, 'values of scale', 1e-9, 1e-300)
    for (k, a), (q, b) in zip(ms.items(), pairs):
        m.true(k == q, 'items of scale')
        m.eq(a, b, 'items of scale', 1e-9, 1e-300)
    ms2 = ms if r.random() < .5 else arg
    r7 = [round(v, 7) for v in vals]
    for i, (k, v) in enumerate(pairs):
        alone = r7.count(r7[i]) == 1
        for x in (k, float(ms[k])):
            c = RatingClass(x, ms2)
            m.eq(float(c), v, 'value of class', 1e-9, 1e-300, key=k)
            m.true(c.value == float(c), 'value property')
            if alone:
                m.true(str(c) == k and c.name == k, 'name of class', got=str(c), want=k)
                m.true(c.vector == [1. if j == i else 0. for j in range(n)], 'vector of class', got=c.vector, key=k)
                m.hit('class')
        g = ms.get(k)
        m.true(isinstance(g, RatingClass), 'get of scale')
        m.eq(float(g), v, 'get of scale', 1e-9, 1e-300, key=k)
    cl = ms.rating_classes()
    m.true(len(cl) == n and all(a.value == b for a, b in zip(cl, ms.values())), 'rating classes of scale', got=[c.value for c in cl])
    m.true(ms.get('no such key') is None and ms.get('no such key', 7) == 7, 'get of unknown key')
    # values inside
    for _ in range(8):
        w = r.random()
        if w < .5:
            i = r.randrange(n - 1)
            x = r.uniform(vals[i], vals[i + 1])
        elif w < .7:
            i = r.randrange(n)
            x = vals[i] + r.choice((-1., 1.)) * 10. ** r.uniform(-7, -5)
        else:
            x = r.uniform(vals[0], vals[-1])
        x = min(max(x, vals[0]), vals[-1])
        c = RatingClass(x, ms2)
        m.true(float(c) == x and c.value == x, 'value kept', got=float(c), want=x)
        v = c.vector
        det = dict(value=x, vector=v)
        m.true(len(v) == n and all(0. <= a <= 1. for a in v), 'weights', **det)
        m.eq(sum(v), 1., 'sum of weights', 0, 2e-7, **det)
        pos = [j for j, a in enumerate(v) if a]
        m.true(len(pos) <= 2 and (len(pos) < 2 or pos[1] == pos[0] + 1), 'weights of neighbours', **det)
        m.eq(sum(a * b for a, b in zip(v, vals)), x, 'weighted values', 0, 4e-7, **det)
        lo = max(j for j in range(n) if r7[j] <= round(x, 7))
        for j in pos:
            a, b = min(vals[j], x), max(vals[j], x)
            m.true(not any(a + 2e-7 < y < b - 2e-7 for y in vals), 'weight of a class which is no neighbour', **det)
        m.true(list(c) == v, 'vector and iteration')
        same = [k for k, y in zip(keys, r7) if y == round(x, 7)]
        if same:
            m.true(str(c) in same and c.name in same, 'name of value of a class', name=str(c), of=same, **det)
        else:
            want = ' + '.join('%.7f %s' % (a, k) for a, k in zip(v, keys) if a)
            m.true(str(c) == want and c.name == want, 'name of value between classes', name=str(c), want=want, **det)
            m.hit('combined name')
        m.true(repr(c).startswith('[%s]-' % c) and '%0.7f' % x in repr(c), 'printed form', got=repr(c), **det)
        m.hit('inside')
        if len(pos) == 2:
            m.hit('between')
    # values outside
    if vals[-1] < .99:
        x = vals[-1] + r.choice((1e-6, .01, r.uniform(1e-5, 1.)))
        m.raises(ValueError, lambda: RatingClass(x, ms2).vector, 'value above the scale')
        v = sloppy(m, x, ms2)
        m.true(len(v) == n and not any(v[:-1]), 'value above the scale (sloppy)', vector=v)
        m.eq(v[-1] * vals[-1], x, 'value above the scale (sloppy)', 1e-6, 1e-6)
        m.hit('above')
    if vals[0] > 1e-4:
        x = vals[0] * r.uniform(0., .99)
        m.raises(ValueError, lambda: RatingClass(x, ms2).vector, 'value below the scale')
        v = sloppy(m, x, ms2)
        m.true(len(v) == n and not any(v[1:]), 'value below the scale (sloppy)', vector=v)
        m.eq(v[0] * vals[0], x, 'value below the scale (sloppy)', 1e-5, 1e-6)
        m.hit('below')
    # without scale
    x = r.random()
    c = RatingClass(x)
    m.true('%0.7f' % x in str(c) and repr(c) == str(c) == c.name, 'printed form without scale', got=[str(c), repr(c)], value=x)
    m.true(all('[%s]' % k in str(ms) and '[%s]' % k in repr(ms) for k, y in zip(keys, r7) if r7.count(y) == 1), 'printed form of the scale', got=str(ms))
    m.true(c.value == x and c.masterscale is None and c.vector == [], 'class without scale')
    m.raises(TypeError, lambda: RatingClass('no such key', ms2), 'unknown key')


# ------------------------------------------------------------------------------------------------------------ C35
HOLIDAYS = None, None, [], [BusinessDate(2022, 6, 15), BusinessDate(2023, 3, 31), BusinessDate(2025, 12, 24)]


class Term:
    """term of a product with reference schedule"""

    def __init__(self, m):
        r = m.rng
        self.m = m
        self.ax = ax = Axis(m, r.choice(('float', 'bdate', 'bdate', 'date')))
        if ax.kind == 'float':
            ax.f0 = r.choice((0., 0., 1., -2.5, .125, 2020.25))
        self.kw = {}
        self.conv, self.hol = 'no', None
        self.given_end = None
        if ax.kind == 'float':
            self.start = ax.f0
            self.end = self.start + r.choice((10, 1., 2.25, .125, 5.375, 30.))
        elif ax.kind == 'date':
            self.start = ax.at(0)
            self.end = ax.at(r.choice((365, 730, 1000, 3653, 31)))
        else:
            self.start = ax.at(0)
            w = r.random()
            term = r.choice(('1Y', '2Y', '5Y', '10Y', '18M', '7M'))
            self.end = self.start + BusinessPeriod(term) if w < .6 else ax.at(r.choice((365, 730, 1000, 3653, 61)))
            if w < .25:
                self.given_end = r.choice((term, BusinessPeriod(term)))
                m.hit('end given as period')
            self.conv = r.choice(('no', 'mod_follow', 'mod_follow', 'follow', 'previous', 'mod_previous'))
            self.hol = r.choice(HOLIDAYS)
        self.convkw = {}
        if ax.kind == 'bdate' or r.random() < .5:
            if self.conv != 'mod_follow' or r.random() < .5:
                self.convkw['convention'] = self.conv
            if self.hol is not None or r.random() < .5:
                self.convkw['holidays'] = self.hol
        if self.given_end is None:
            self.given_end = self.end
        m.note(axis=ax.kind, given_end=str(self.given_end), start=str(self.start), end=str(self.end), convention=self.conv, holidays=str(self.hol))

    def period(self):
        r = self.m.rng
        if self.ax.kind == 'float':
            return r.choice((1, 1., .5, .25, .125, 2., 50., .1, 1 / 12, 1 / 3, .05, 1 / 365.25))
        if self.ax.kind == 'date':
            return self.ax.step(r.choice((30, 91, 182, 365, 5000)))
        return r.choice(('1Y', '6M', '3M', '1M', '3M', BusinessPeriod('6M'), '20Y', '4M'))

    def schedule(self, period):
        """coupon dates backward from end"""
        p = BusinessPeriod(period) if self.ax.kind == 'bdate' else period
        out, k = [self.end], 1
        # on floats a stub which is but noise of rounding is none
        low = self.start + p * 1e-7 if self.ax.kind == 'float' else self.start
        while self.end - p * k > low:
            out.insert(0, self.end - p * k)
            k += 1
            if k > 20000:
                raise RuntimeError
        if self.ax.kind == 'bdate':
            out = [BusinessDate(d).adjust(self.conv, self.hol) for d in out]
        return out


def offsets(m, ax):
    r = m.rng

    def one():
        if r.random() < .7:
            return None
        return {'float': .125, 'date': ax.step(2), 'bdate': '2D'}[ax.kind]
    return one(), one()


def same_dates(got, want):
    """equal dates, on floats up to rounding"""
    got, want = list(got), list(want)
    return len(got) == len(want) and all(
        abs(a - b) < 1e-9 if isinstance(a, float) and isinstance(b, (int, float)) else a == b for a, b in zip(got, want))


def check_rate_leg(m, l, t, dates, notionals, fixed, f, dc, fo, po, what, sc=0.):
    """rate leg from start over the dates, sc is the size of the flows the outstanding sums up"""
    tau = tau_of(dc)
    sc *= 1e-13 + 1e-15 * len(dates)
    m.true(same_dates(l.domain, dates), what + ': pay dates', got=l.domain[:50], want=dates[:50])
    dates = list(l.domain)
    m.true(all(t.start < d for d in l.domain) or t.conv != 'no', what + ': pay date not after start')
    starts = [t.start] + dates[:-1]
    prev = None
    for s, e, n in zip(starts, dates, notionals):
        p = l.payoff(e)
        s, d = back(s, po), e
        e = back(e, po)
        x = back(s, fo)
        m.true(same_dates((p.start, p.end), (s, e)), what + ': period', got=(p.start, p.end), want=(s, e))
        if prev is not None:
            m.true(same_dates([p.start], [prev]), what + ': periods not adjacent')
        prev = p.end
        m.eq(p.amount, n, what + ': notional', 1e-9, 1e-9 * abs(n) + 1e-12 + sc)
        y = tau(s, e)
        rate = f(x)
        m.eq(l[d], n * y * (fixed + rate), what + ': cashflow', 1e-9, (1e-10 * abs(n) + sc * (abs(fixed) + abs(rate))) * abs(y), date=d)
    m.eq(l.fixed_rate, fixed, what + ': fixed rate', 0, 0)
    m.hit('%s checked' % what)


def distinct(dates, start):
    return all(a < b for a, b in zip([start] + dates[:-1], dates))


def c35_bond(m):
    r = m.rng
    t = Term(m)
    ax = t.ax
    period = t.period()
    dates = t.schedule(period)
    if not distinct(dates, t.start):
        m.hit('dates fall together')
        return
    n = len(dates)
    dc = r.choice(gen.ADDITIVE)
    fixed = r.choice((0., r.uniform(-.01, .1), .05))
    fname, fc, f = some_forward(m, ax)
    fo, po = offsets(m, ax)
    plan = None
    size = r.choice((1., 100., 1e6, -1e3, r.uniform(1., 1e7)))
    if r.random() < .5:
        plan = r.choice((plans.annuity, plans.amortize, plans.bullet, lambda k, a: [r.uniform(-1., 5.) for _ in range(k)]))(n, size)
    kw = dict(t.convkw, day_count=dc)
    if fixed or r.random() < .5:
        kw['fixed_rate'] = fixed
    if fc is not None:
        kw['forward_curve'] = fc
    if fo is not None:
        kw['fixing_offset'] = fo
    if po is not None:
        kw['pay_offset'] = po
    if plan:
        kw['notional_amount'] = gen.container(m, plan)
    elif size != 1. or r.random() < .5:
        kw['notional_amount'] = size
    m.note(period=str(period), plan=bool(plan), size=size, fixed=fixed, forward=fname, day_count=gen.dc_name(dc))
    m.sig('bond', ax.kind, t.conv, bool(plan), fname, fo is None, po is None, min(n, 4), gen.dc_name(dc))
    b = dcf.bond(t.start, t.given_end, period, **kw)
    m.true(isinstance(b, dcf.CashFlowLegList) and len(b.legs) == 2, 'legs of bond')
    nl, cl = b.legs
    m.true(b.origin == t.start, 'origin of bond', got=b.origin)
    if plan:
        nd, na = [t.start] + dates, [-math.fsum(plan)] + list(plan)
        out, o = [], math.fsum(plan)
        for x in plan:
            out.append(o)
            o -= x
    else:
        nd, na = [t.start, t.end], [-size, size]
        out = [size] * n
    m.true(same_dates(nl.domain, nd), 'dates of notional leg', got=nl.domain[:50], want=nd[:50])
    nd = list(nl.domain)
    sc = sum(map(abs, na))
    for d, a in zip(nd, na):
        m.eq(nl[d], a, 'notional flow', 1e-9, 1e-12 * sc, date=d)
    m.eq(sum(nl[nd]), 0., 'notional not conserved', 0, 1e-12 * sc)
    check_rate_leg(m, cl, t, dates, out, fixed, f, dc, fo, po, 'coupon leg', sc)
    m.hit('plan' if plan else 'bullet')
    # worth zero at its own rate
    if po is None and (plan or dates[-1] == t.end):
        q = dcf.bond(t.start, t.given_end, period, **dict(kw, fixed_rate=.05, forward_curve=None))
        tau = tau_of(dc)
        v, s = 1., t.start
        dfs = {t.start: 1.}
        for d in q.legs[1].domain:
            v /= 1. + .05 * tau(s, d)
            dfs[d] = v
            s = d
        # dates of both legs might differ by rounding
        pv = math.fsum(leg[d] * (dfs[d] if d in dfs else dfs[min(dfs, key=lambda x: abs(x - d))]) for leg in q.legs for d in leg.domain)
        m.eq(pv, 0., 'bond at its coupon rate is not worth zero', 0, 1e-10 * sc)
        m.hit('par')
    bad = (plan or [1.] * n) + [1.]
    m.raises(ValueError, lambda: dcf.bond(t.start, t.given_end, period, **dict(kw, notional_amount=bad)), 'plan of other length')


def c35_swap(m):
    r = m.rng
    t = Term(m)
    ax = t.ax
    p1, p2 = t.period(), t.period()
    d1, d2 = t.schedule(p1), t.schedule(p2)
    if not distinct(d1, t.start) or not distinct(d2, t.start):
        m.hit('dates fall together')
        return
    dc1, dc2 = r.choice(gen.DAYCOUNTS), r.choice(gen.DAYCOUNTS)
    r1, r2 = r.choice((0., .03, r.uniform(-.1, .1))), r.choice((0., 0., .01, r.uniform(-.1, .1)))
    n1, c1, f1 = some_forward(m, ax)
    n2, c2, f2 = some_forward(m, ax)
    fo, po = offsets(m, ax)
    size = r.choice((1., 100., 1e6, -1e3, 7))
    kw = dict(t.convkw, day_count=dc1, rec_leg_day_count=dc2)
    if size != 1. or r.random() < .5:
        kw['notional_amount'] = size
    if r1 or r.random() < .5:
        kw['fixed_rate'] = r1
    if r2 or r.random() < .5:
        kw['rec_leg_fixed_rate'] = r2
    if c1 is not None:
        kw['forward_curve'] = c1
    if c2 is not None:
        kw['rec_leg_forward_curve'] = c2
    if fo is not None:
        kw['fixing_offset'] = fo
    if po is not None:
        kw['pay_offset'] = po
    m.note(periods=[str(p1), str(p2)], size=size, rates=[r1, r2], forwards=[n1, n2], day_counts=[gen.dc_name(dc1), gen.dc_name(dc2)])
    m.sig('swap', ax.kind, t.conv, n1, n2, fo is None, po is None, min(len(d1), 3), min(len(d2), 3))
    s = dcf.interest_rate_swap(t.start, t.given_end, p1, rec_leg_period=p2, **kw)
    m.true(isinstance(s, dcf.CashFlowLegList) and len(s.legs) == 2, 'legs of swap')
    a, b = s.legs
    m.true(s.origin == t.start, 'origin of swap', got=s.origin)
    check_rate_leg(m, a, t, d1, [-size] * len(d1), r1, f1, dc1, fo, po, 'pay leg')
    check_rate_leg(m, b, t, d2, [size] * len(d2), r2, f2, dc2, fo, po, 'receive leg')
    m.true(a.payoff(d1[0]).start == b.payoff(d2[0]).start and (t.conv != 'no' or a.payoff(d1[-1]).end == b.payoff(d2[-1]).end), 'term of legs')


def c35_defaults(m):
    """known defects: default day counts of products and asset swaps"""
    r = m.rng
    t = Term(m)
    f = r.choice((dcf.bond, dcf.interest_rate_swap))
    l = f(t.start, t.given_end, t.period(), fixed_rate=.02, **({} if f is dcf.bond else dict(rec_leg_period=t.period())))
    try:
        l[l.domain]
        m.hit('default day count works')
    except TypeError:
        m.finding('default-day-count', 'flows of products with default day count raise TypeError')
    ax = t.ax
    leg = dcf.RateCashFlowList([ax.at(365), ax.at(730)], 100., origin=ax.at(0), fixed_rate=.02)
    ten = {'float': .25, 'date': ax.step(91), 'bdate': '3M'}[ax.kind]
    fwd = dcf.CashRateCurve([ax.at(0)], [.01], forward_tenor=ten)
    try:
        dcf.asset_swap(leg, fwd)
        m.hit('asset swap works')
    except TypeError:
        m.finding('asset-swap', 'asset_swap raises TypeError')
    m.hit('defaults')
    m.sig('defaults', f.__name__, ax.kind)


PROPS = {
    'C32': Prop('C32', [Scenario('plans', c32_plans, 18000)], {'plans': 2000, 'outstanding': 10000, 'zero rate': 100}, SIT),
    'C33': Prop('C33', [Scenario('compounding', c33_compounding, 18000)], {'compounding': 50000, 'simple': 20000, 'order': 10000}, SIT),
    'C34': Prop('C34', [Scenario('rating', c34_rating, 20000)],
                {'class': 5000, 'inside': 10000, 'between': 5000, 'above': 500, 'below': 300}, SIT),
    'C35': Prop('C35', [Scenario('bond', c35_bond, 3600), Scenario('swap', c35_swap, 2400), Scenario('defaults', c35_defaults, 40, 200)],
                {'coupon leg checked': 500, 'pay leg checked': 300, 'receive leg checked': 300, 'plan': 200, 'bullet': 200, 'par': 200, 'end given as period': 50}, SIT),
}

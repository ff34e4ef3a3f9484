"""C22-C24: option payoff models"""
import math

import dcf
from dcf import models
from dcf.models.optionpricing import BinaryOptionPayOffModel, OptionPayOffModel

from . import gen, ref
from .core import Prop, Scenario
from .gen import Axis, tau_of

KINDS = {
    'intrinsic': models.IntrinsicOptionPayOffModel,
    'normal': models.NormalOptionPayOffModel,
    'lognormal': models.LogNormalOptionPayOffModel,
    'displaced': models.DisplacedLogNormalOptionPayOffModel,
}
BINARY = {
    'normal': models.BinaryNormalOptionPayOffModel,
    'lognormal': models.BinaryLogNormalOptionPayOffModel,
    'displaced': models.BinaryDisplacedLogNormalOptionPayOffModel,
}
RKIND = {'intrinsic': 'intrinsic', 'normal': 'bachelier', 'lognormal': 'black', 'displaced': 'black'}
CDF = 1e-7  # accuracy of the normal distribution function in the code


class ModelState:
    """option model with the references of its forward, volatility and time"""

    def __init__(self, m, kinds=tuple(KINDS), ax=None, level=None, table=KINDS, zero=True, axes=gen.KINDS, forwards=None,
                 valuation=None, longvol=False, cls_of=None):
        r = m.rng
        self.m = m
        self.kind = kind = r.choice(kinds)
        self.ax = ax = ax or Axis(m, r.choice(axes))
        self.level = level = level or r.choice(('rate', 'rate', 'price'))
        self.neg = level == 'rate' and kind in ('normal', 'intrinsic', 'displaced') and r.random() < .4
        self.displ = 0.
        if kind == 'displaced':
            self.displ = r.choice((.03, .05, .03, .05, 1)) if level == 'rate' else r.choice((0., 5., -.1, 5, 0))
        self.valday = valuation if valuation is not None else r.choice((0, 0, 0, 100))
        self.val = ax.at(self.valday)
        self.fname, fc, self.fwd, ftau = self.forward(forwards)
        self.vname, vc, self.vol, vtau = self.volatility(zero)
        dc = r.choice((None, None, None, gen.act360, gen.act365, gen.Act364()))
        self.dc = dc
        self.vtau, self.ftau = vtau, ftau
        self.tau = dc or vtau or ftau or gen.yf
        kw = dict(valuation_date=ax.at(self.valday), forward_curve=fc)
        if vc is not NotImplemented:
            kw['volatility_curve'] = vc
        if dc is not None:
            kw['day_count'] = dc
        if kind == 'displaced':
            kw['displacement'] = self.displ
        self.kw = kw
        self.cls = (cls_of or (lambda c: c))(table[kind])
        self.o = self.cls(**kw)
        m.note(model=self.cls.__name__, axis=ax.kind, level=level, displacement=self.displ, forward=self.fname,
               volatility=self.vname, day_count=gen.dc_name(dc), valuation=str(self.val))

    def sig(self, *more):
        self.m.sig(self.kind, self.ax.kind, self.level, self.neg, self.fname, self.vname, gen.dc_name(self.dc), *more)

    # --- curves of the model: name, object, reference function, year fraction if the object has one
    def some_forward_value(self):
        r = self.m.rng
        if self.level == 'price':
            return math.exp(r.uniform(math.log(5.), math.log(300.)))
        return r.uniform(-.015, .08) if self.neg else r.uniform(.002, .08)

    def forward(self, forwards=None):
        m, r, ax = self.m, self.m.rng, self.ax
        opts = ['function', 'function', 'number', 'curve', 'price curve', 'cash curve']
        name = r.choice(forwards or opts)
        a = self.some_forward_value()
        if name == 'cash curve' and self.level == 'price':
            name = 'price curve'
        if name == 'price curve' and (self.neg or a < 0.):
            name = 'function'
        if name == 'number':
            if self.kind in ('normal', 'intrinsic', 'displaced') and self.displ > 0. or self.kind in ('normal', 'intrinsic'):
                if r.random() < .15:
                    a = r.choice((0., 0))
            if self.level == 'price' and r.random() < .2:
                a = int(a) + 1
            return name, a, (lambda x: float(a)), None
        o = ax.at(0)
        if name == 'function':
            g = r.uniform(-.04, .08)
            f = (lambda x: a * math.exp(g * gen.yf(o, x))) if a > 0. else (lambda x: a + .001 * math.sin(gen.yf(o, x)))
            return name, f, f, None
        dc = r.choice(gen.ADDITIVE)
        tau = tau_of(dc)
        n = r.choice((1, 2, 4))
        days = gen.grid_days(m, n, 0, hi=6000)
        vals = [self.some_forward_value() for _ in days]
        if self.level == 'price' and r.random() < .2:
            vals = [int(v) + 1 for v in vals]
            m.hit('forwards are int')
        pts = [(ax.at(d), v) for d, v in zip(days, vals)]
        kw = {} if dc is None else dict(day_count=gen.named(m, dc))
        args = [p[0] for p in pts], vals
        if name == 'curve':
            R = ref.RefCurve(pts, ax.at(0), tau, ref.LINEAR)
            return name, dcf.DateCurve(*args, **kw), R, tau
        if name == 'price curve':
            y = r.uniform(-.03, .06)
            R = ref.RefCurve(pts, ax.at(0), tau, ref.LOGLINEAR)
            T = ax.at(days[-1])
            return name, dcf.ForwardCurve(*args, yield_curve=y, **kw), (lambda x: R(x) if x <= T else R(T) * math.exp(y * tau(T, x))), tau
        if ax.kind == 'float':
            kw['forward_tenor'] = .25
        elif ax.kind == 'date':
            kw['forward_tenor'] = ax.step(91)
        R = ref.RefCurve(pts, ax.at(0), tau, ref.LINEAR)
        return name, dcf.CashRateCurve(*args, **kw), R, tau

    def some_vol(self):
        r = self.m.rng
        if self.kind == 'normal':
            return r.uniform(.0005, .02) if self.level == 'rate' else r.uniform(.5, 30.)
        return r.uniform(.05, .9)

    def volatility(self, zero=True):
        m, r, ax = self.m, self.m.rng, self.ax
        name = r.choice(('function', 'function', 'number', 'curve', 'vol curve', 'inst vol curve') + (('zero', 'none') if zero else ()))
        if name == 'inst vol curve' and r.random() < .5:
            name = 'vol curve'
        a = self.some_vol()
        if name == 'zero':
            return name, r.choice((0., lambda x: 0.)), (lambda x: 0.), None
        if name == 'none':
            return name, NotImplemented, (lambda x: 0.), None
        if name == 'number':
            if self.level == 'price' and r.random() < .2:
                a = int(a) + 1
                m.hit('volatility is int')
            return name, a, (lambda x: float(a)), None
        o = ax.at(0)
        if name == 'function':
            f = lambda x: a * (1. + .2 * math.sin(gen.yf(o, x)))
            return name, f, f, None
        dc = r.choice(gen.ADDITIVE)
        tau = tau_of(dc)
        kw = {} if dc is None else dict(day_count=gen.named(m, dc))
        if name == 'inst vol curve':
            c = dcf.InstantaneousVolatilityCurve([ax.at(0)], [a], **kw)
            return name, c, (lambda x: a), tau
        n = r.choice((1, 2, 4))
        days = gen.grid_days(m, n, 0, hi=6000)
        vals = [self.some_vol() for _ in days]
        pts = [(ax.at(d), v) for d, v in zip(days, vals)]
        R = ref.RefCurve(pts, ax.at(0), tau, ref.LINEAR)
        cls = dcf.DateCurve if name == 'curve' else dcf.TerminalVolatilityCurve
        return name, cls([p[0] for p in pts], vals, **kw), R, tau

    # --- queries
    def expiry_day(self):
        r = self.m.rng
        w = r.random()
        if w < .06:
            return self.valday
        if self.ax.kind == 'float' and w > .9:
            # moments before and after valuation
            self.m.hit('expiry close to valuation')
            return self.valday + (r.choice((-1., 1., 1.)) if self.valday else 1.) * r.choice((1e-3, .04, .3))
        if w < .14 and self.valday:
            return r.randint(0, self.valday)
        return self.valday + r.choice((1, 30, 91, 182, 365, 730, 1826, 3652, r.randint(1, 7000)))

    def strike(self, f, sd=None):
        k = self._strike(f)
        if k is not None and self.level == 'price' and k > 1. and self.m.rng.random() < .15:
            k = int(k)
            self.m.hit('strike is int')
        return k

    def _strike(self, f):
        r = self.m.rng
        w = r.random()
        if w < .1:
            return None
        if w < .2:
            return f
        if self.kind in ('lognormal', 'displaced'):
            k = (f + self.displ) * math.exp(r.choice((r.uniform(-.3, .3), r.uniform(-2., 2.)))) - self.displ
            return k
        s = .01 if self.level == 'rate' else 20.
        if w < .3:
            return r.choice((0., 0))
        return f + r.uniform(-3., 3.) * s * r.choice((1., .1))

    def params(self, x, k):
        f, v, t = self.fwd(x), self.vol(x), max(self.tau(self.val, x), 0.)
        return f, (f if k is None else k), v, t

    def scale(self, f, k):
        return abs(f + self.displ) + abs(k + self.displ)

    def value(self, f, k, v, t, call):
        return ref.option(RKIND[self.kind], f, k, v, t, call, self.displ)


# ------------------------------------------------------------------------------------------------------------ C22
def c22_values(m):
    r = m.rng
    s = ModelState(m)
    o = s.o
    s.sig()
    for _ in range(8):
        d = s.expiry_day()
        x = s.ax.at(d)
        f = s.fwd(x)
        k = s.strike(f)
        f, kk, v, t = s.params(x, k)
        sc = s.scale(f, kk)
        tol = 2 * CDF * sc + 1e-15
        args = (s.ax.copy(x),) if k is None and r.random() < .5 else (s.ax.copy(x), k)
        c, p = o.get_call_value(*args), o.get_put_value(*args)
        det = dict(expiry=x, strike=k, forward=f, vol=v, time=t)
        m.eq(c, s.value(f, kk, v, t, True), 'call value', 1e-9, tol, **det)
        m.eq(p, s.value(f, kk, v, t, False), 'put value', 1e-9, tol, **det)
        m.eq(c - p, f - kk, 'put call parity', 1e-12, 1e-12 * sc + 1e-15 * (abs(c) + abs(p)), **det)
        m.true(c >= max(f - kk, 0.) - tol and p >= max(kk - f, 0.) - tol, 'value below intrinsic', call=c, put=p, **det)
        if v == 0. or t == 0.:
            m.eq(c, max(f - kk, 0.), 'no optionality: call', 1e-12, 1e-13 * sc + 1e-16, **det)
            m.eq(p, max(kk - f, 0.), 'no optionality: put', 1e-12, 1e-13 * sc + 1e-16, **det)
            m.hit('no optionality')
        else:
            m.hit('optionality')
        if k is None:
            m.hit('at the money')
        # details tell the parameters
        dd = o.details(x, k)
        m.eq(dd['strike'], kk, 'strike of details', 1e-12, 1e-15, **det)
        m.eq(dd['time to expiry'], s.tau(s.val, x), 'time to expiry of details', 1e-12, 1e-14, **det)
        m.eq(dd.get('forward', 0.), f, 'forward of details', 1e-9, 1e-14, **det)
        m.eq(dd.get('volatility', 0.), v, 'volatility of details', 1e-9, 1e-14, **det)


def c22_monotone(m):
    """values by strike, volatility, time"""
    r = m.rng
    s = ModelState(m, zero=False, forwards=('number',))
    f = s.fwd(s.ax.at(0))
    x = s.ax.at(s.valday + r.choice((1, 30, 365, 3650)))
    s.sig('monotone')
    ks = sorted({q if q is not None else f for q in (s.strike(f) for _ in range(10))})
    tol = 3 * CDF
    last = None
    for k in ks:
        c, p = s.o.get_call_value(x, k), s.o.get_put_value(x, k)
        e = tol * s.scale(f, k)
        if last:
            m.true(c <= last[0] + e, 'call value rises with strike', strike=k, got=c, before=last)
            m.true(p >= last[1] - e, 'put value falls with strike', strike=k, got=p, before=last)
        last = c, p, k
        m.hit('by strike')
    k = r.choice(ks)
    e = tol * s.scale(f, k)
    v0 = s.some_vol()
    last = None
    for i in range(6):
        o = s.cls(**dict(s.kw, volatility_curve=v0 * i / 2.))
        c, p = o.get_call_value(x, k), o.get_put_value(x, k)
        if last:
            m.true(c >= last[0] - e and p >= last[1] - e, 'value falls with volatility', strike=k, vol=v0 * i / 2., got=(c, p), before=last)
        last = c, p
        m.hit('by volatility')
    o = s.cls(**dict(s.kw, volatility_curve=v0))
    last = None
    for d in (0, 1, 20, 300, 2000, 7000):
        y = s.ax.at(s.valday + d)
        c, p = o.get_call_value(y, k), o.get_put_value(y, k)
        if last:
            m.true(c >= last[0] - e and p >= last[1] - e, 'value falls with time', strike=k, days=d, got=(c, p), before=last)
        last = c, p
        m.hit('by time')


def c22_state(m):
    """models read their curves and dates at each evaluation"""
    r = m.rng
    s = ModelState(m)
    s.sig('state')
    for i in range(4):
        w = r.random()
        if w < .35:
            s.valday = r.choice((0, 50, 400, 2000))
            s.val = s.ax.at(s.valday)
            s.o.valuation_date = s.ax.at(s.valday)
            m.hit('valuation date changed')
        elif w < .65:
            t0 = s.tau
            s.fname, fc, s.fwd, ftau = s.forward()
            s.o.forward_curve = fc
            s.tau = s.dc or s.vtau or ftau or gen.yf
            s.ftau = ftau
            m.hit('forward changed')
        else:
            s.vname, vc, s.vol, vtau = s.volatility()
            s.o.volatility_curve = None if vc is NotImplemented else vc
            s.tau = s.dc or vtau or s.ftau or gen.yf
            s.vtau = vtau
            m.hit('volatility changed')
        x = s.ax.at(s.expiry_day())
        f = s.fwd(x)
        k = s.strike(f)
        f, kk, v, t = s.params(x, k)
        tol = 2 * CDF * s.scale(f, kk) + 1e-15
        m.eq(s.o.get_call_value(x, k), s.value(f, kk, v, t, True), 'call value after a change', 1e-9, tol, expiry=x, strike=k)
        m.eq(s.o.get_put_value(x, k), s.value(f, kk, v, t, False), 'put value after a change', 1e-9, tol, expiry=x, strike=k)


# ------------------------------------------------------------------------------------------------------------ C23
def _scaled(m, cls):
    """the model class, at times with other shifts and scales"""
    r = m.rng
    if r.random() < .5:
        return cls
    m.hit('own scales')
    return type('Scaled' + cls.__name__, (cls,), dict(
        DELTA_SHIFT=r.choice((.0001, .001)), DELTA_SCALE=r.choice((.0001, 1., .01)), VEGA_SHIFT=r.choice((.01, .001)),
        VEGA_SCALE=r.choice((.01, 1.)), THETA_SHIFT=r.choice((1 / 365.25, .01)), THETA_SCALE=r.choice((1 / 365.25, 1.))))


def _price(s, f, k, v, t, call=True):
    """value of a fresh model with plain numbers through the public interface"""
    kw = dict(valuation_date=0., forward_curve=lambda x: f, volatility_curve=lambda x: v, day_count=lambda a, b: t)
    if s.kind == 'displaced':
        kw['displacement'] = s.displ
    o = s.table[s.kind](**kw)
    return o.get_call_value(1., k) if call else o.get_put_value(1., k)


def _closed(s, f, k, v, t):
    """delta, gamma, vega of the exact value"""
    sd = v * math.sqrt(t)
    if s.kind == 'intrinsic':
        return (0. if f < k else 1.), 0., 0.
    if s.kind == 'normal':
        d = (f - k) / sd
        return ref.ncdf(d), ref.npdf(d) / sd, math.sqrt(t) * ref.npdf(d)
    f, k = f + s.displ, k + s.displ
    d = (math.log(f / k) + .5 * sd * sd) / sd
    return ref.ncdf(d), ref.npdf(d) / (f * sd), f * math.sqrt(t) * ref.npdf(d)


def c23_greeks(m):
    r = m.rng
    s = ModelState(m, cls_of=lambda c: _scaled(m, c))
    s.table = KINDS
    bump = r.random() < .4
    if bump:
        s.o = s.cls(**dict(s.kw, bump_greeks=True))
        m.hit('bump greeks')
    elif r.random() < .3:
        s.o = s.cls(**dict(s.kw, bump_greeks=False))
    o, c = s.o, s.cls
    s.sig(bump, c.DELTA_SHIFT, c.VEGA_SHIFT)
    for _ in range(5):
        d = s.expiry_day()
        x = s.ax.at(d)
        k = s.strike(s.fwd(x))
        f, kk, v, t = s.params(x, k)
        ds, dc, vs, vc, ts, tc = c.DELTA_SHIFT, c.DELTA_SCALE, c.VEGA_SHIFT, c.VEGA_SCALE, c.THETA_SHIFT, c.THETA_SCALE
        if min(f, kk) + s.displ <= 2 * ds and s.kind in ('lognormal', 'displaced'):
            continue
        sc = s.scale(f, kk)
        det = dict(expiry=x, strike=k, forward=f, vol=v, time=t, bump=bump)
        got = dict(delta=o.get_call_delta(s.ax.copy(x), k), gamma=o.get_call_gamma(x, k), vega=o.get_call_vega(x, k),
                   theta=o.get_call_theta(x, k))
        m.eq(o.get_put_delta(x, k), got['delta'] - dc, 'put delta', 1e-12, 1e-15 * dc, **det)
        m.true(o.get_put_gamma(x, k) == got['gamma'], 'put gamma', **det)
        m.true(o.get_put_vega(x, k) == got['vega'], 'put vega', **det)
        m.true(o.get_put_theta(x, k) == got['theta'], 'put theta', **det)
        if v == 0. or t == 0.:
            if k is None or abs(f - kk) > 1e-9 * sc:
                m.eq(got['delta'], 0. if f < kk else dc, 'delta without optionality', 1e-12, 0, **det)
            for g in ('gamma', 'vega', 'theta'):
                m.true(got[g] == 0., g + ' without optionality', got_=got[g], **det)
            m.hit('no optionality')
            continue
        if s.kind != 'intrinsic' and v * math.sqrt(t) < 1e-6 * sc:
            continue
        P = lambda f_=f, v_=v, t_=t: _price(s, f_, kk, v_, t_)
        noise = 4e-16 * max(sc, abs(P()), abs(P(v_=v + vs))) + 1e-16
        bd = (P(f + ds) - P()) / ds * dc
        bg = (P(f + ds) - 2 * P() + P(f - ds)) * (dc / ds) ** 2
        bv = (P(v_=v + vs) - P()) / vs * vc
        bt = (P(t_=t + ts) - P()) / ts * tc
        delta, gamma, vega = _closed(s, f, kk, v, t)
        near = s.kind == 'intrinsic' and abs(f - kk) <= 1e-12 * sc
        if bump:
            if not (s.kind == 'intrinsic' and min(abs(f - kk), abs(f + ds - kk), abs(f - ds - kk)) < 1e-12 * sc):
                m.eq(got['delta'], bd, 'bumped delta', 1e-9, 4 * noise / ds * dc, **det)
                m.eq(got['gamma'], bg, 'bumped gamma', 1e-9, 8 * noise * (dc / ds) ** 2, **det)
            m.eq(got['vega'], bv, 'bumped vega', 1e-9, 4 * noise / vs * vc, **det)
            m.hit('bumped')
        else:
            if not near:
                m.eq(got['delta'], delta * dc, 'delta', 1e-9, 2 * CDF * dc, **det)
            else:
                # 0 if F < K else 1
                m.true(got['delta'] == dc or got['delta'] == 0. and k is not None, 'delta at the strike', got_=got['delta'], **det)
                m.hit('at the strike')
            m.eq(got['vega'], vega * vc, 'vega', 1e-8, 1e-13 * vc * sc, **det)
            a, b = got['gamma'], gamma * dc * dc
            if abs(a - b) > 1e-8 * abs(b) + 1e-13 * dc * dc:
                # no formula: the difference quotient
                m.eq(a, bg, 'gamma is neither derivative nor difference quotient', 1e-9, 8 * noise * (dc / ds) ** 2, derivative=b, **det)
                m.hit('gamma by differences')
            else:
                m.hit('gamma by formula')
                m.obs += 1
            m.hit('analytic')
        m.eq(got['theta'], bt, 'theta', 1e-9, 4 * noise / ts * tc, **det)
    # a formula class without any analytic greek
    _own_formula(m, s)


class Quadratic(OptionPayOffModel):
    """own pricing formula, given by _call_price only, which tells forward, strike, volatility and time apart"""

    def _call_price(self, time, strike, forward, volatility):
        return forward * forward * (1 + time) - .5 * strike + 3. * volatility * volatility * time + 2. * time * time * strike


class QuadraticCall(OptionPayOffModel):
    """the same formula as __call__"""

    def __call__(self, time, strike, forward, volatility):
        return forward * forward * (1 + time) - .5 * strike + 3. * volatility * volatility * time + 2. * time * time * strike


def quadratic(self, time, strike, forward, volatility):
    return forward * forward * (1 + time) - .5 * strike + 3. * volatility * volatility * time + 2. * time * time * strike


class WithDelta(Quadratic):
    """analytic delta and vega, the others by differences"""

    def _call_delta(self, time, strike, forward, volatility):
        return 2. * forward * (1 + time) + 10.

    def _call_vega(self, time, strike, forward, volatility):
        return 6. * volatility * time + 20.

    def _call_theta(self, time, strike, forward, volatility):
        return 30. + strike

    def _call_gamma(self, time, strike, forward, volatility):
        return 40. + forward


def _own_formula(m, s):
    r = m.rng
    w = r.choice(('price', 'call', 'function', 'named function'))
    cls = Quadratic if w == 'price' else QuadraticCall if w == 'call' else OptionPayOffModel.from_function(quadratic) if w == 'function' \
        else OptionPayOffModel.from_function(quadratic, name='MyModel')
    if 'function' in w:
        m.true(issubclass(cls, OptionPayOffModel) and cls.__name__ == ('quadraticOptionPayOffModel' if w == 'function' else 'MyModel'), 'class of function', name=cls.__name__)
        m.hit('formula from function')
    q = cls(valuation_date=s.ax.at(0), forward_curve=lambda x: f, volatility_curve=lambda x: v, day_count=lambda a, b: t)
    f, v, t, k = r.uniform(.5, 2.), r.uniform(.1, 1.), r.uniform(.1, 5.), r.uniform(.5, 2.)
    x = s.ax.at(100)
    P = lambda f_, v_, t_: f_ * f_ * (1 + t_) - .5 * k + 3. * v_ * v_ * t_ + 2. * t_ * t_ * k
    det = dict(f=f, v=v, t=t, k=k)
    b = P(f, v, t)
    m.eq(q.get_call_value(x, k), b, 'own formula', 1e-12, 0, **det)
    m.eq(q.get_put_value(x, k), k - f + b, 'own formula put', 1e-12, 1e-13, **det)
    h, g = 1e-4, 1 / 365.25
    z = BinaryOptionPayOffModel(q)
    m.eq(z.get_call_value(x, k), .5 - 2. * t * t, 'binary of own formula', 1e-7, 1e-9, **det)
    formula = models.optionpricing.OptionPricingFormula.from_function(quadratic)()
    z = BinaryOptionPayOffModel(formula, .25, s.ax.at(0), lambda x: f, lambda x: v, lambda a, b: t)
    m.eq(z.get_call_value(x, k), .5 - 2. * t * t, 'binary of own pricing formula', 1e-9, 1e-9, **det)
    m.eq(formula(t, k, f, v), b, 'own pricing formula', 1e-12, 0, **det)
    y = WithDelta(q.valuation_date, q.forward_curve, q.volatility_curve, q.day_count)
    for i in range(3):
        y.bump_greeks = bump = r.choice((True, False, None))
        for n, own, dif in (('delta', (2. * f * (1 + t) + 10.) * 1e-4, P(f + 1e-4, v, t) - b), ('vega', (6. * v * t + 20.) * .01, P(f, v + .01, t) - b),
                            ('gamma', (40. + f) * 1e-8, 2e-8 * (1 + t)), ('theta', (30. + k) / 365.25, P(f, v, t + 1 / 365.25) - b)):
            m.eq(getattr(y, 'get_call_' + n)(x, k), dif if bump else own, n + ' of own formula with greeks', 1e-3 if n == 'gamma' else 1e-8, 1e-13, bump=bump, **det)
        m.hit('own greeks')
    m.eq(q.get_call_delta(x, k), P(f + h, v, t) - b, 'delta of own formula', 1e-8, 1e-13, **det)
    m.eq(q.get_call_gamma(x, k), 2. * h * h * (1 + t), 'gamma of own formula', 1e-3, 1e-13, **det)
    m.eq(q.get_call_vega(x, k), P(f, v + .01, t) - b, 'vega of own formula', 1e-9, 1e-13, **det)
    m.eq(q.get_call_theta(x, k), P(f, v, t + g) - b, 'theta of own formula', 1e-9, 1e-13, **det)
    m.hit('own formula')


# ------------------------------------------------------------------------------------------------------------ C24
def _bclosed(s, f, k, v, t):
    """delta, gamma, vega of the binary value"""
    sd = v * math.sqrt(t)
    if s.kind == 'normal':
        d = (f - k) / sd
        return ref.npdf(d) / sd, -d * ref.npdf(d) / sd ** 2, -d * ref.npdf(d) / v
    f, k = f + s.displ, k + s.displ
    d1 = (math.log(f / k) + .5 * sd * sd) / sd
    d2 = d1 - sd
    return ref.npdf(d2) / (f * sd), -ref.npdf(d2) * d1 / (f * sd) ** 2, -ref.npdf(d2) * d1 / v


def c24_binary(m):
    r = m.rng
    s = ModelState(m, kinds=tuple(BINARY), table=BINARY, zero=False, cls_of=lambda c: _scaled(m, c))
    s.table = BINARY
    o, c = s.o, s.cls
    s.sig(c.DELTA_SHIFT, c.VEGA_SHIFT)
    last = {}
    for _ in range(6):
        x = s.ax.at(s.valday + r.choice((1, 30, 365, 2000, r.randint(1, 5000))))
        k = s.strike(s.fwd(x))
        f, kk, v, t = s.params(x, k)
        if v * math.sqrt(t) < (1e-4 if s.kind != 'normal' else 1e-6):
            continue
        det = dict(expiry=x, strike=k, forward=f, vol=v, time=t)
        p = o.get_call_value(s.ax.copy(x), k)
        w = ref.binary(RKIND[s.kind], f, kk, v, t, s.displ)
        m.eq(p, w, 'binary call value', 0, 2 * CDF, **det)
        m.true(-1e-12 <= p <= 1. + 1e-12, 'binary call value not in [0,1]', value=p, **det)
        k2 = kk + r.uniform(0., 2.) * .05 * (abs(kk) + .01)
        m.true(o.get_call_value(x, k2) <= p + 3 * CDF, 'binary value rises with strike', other=k2, **det)
        m.hit('binary value')
        if min(f, kk) + s.displ <= 2 * c.DELTA_SHIFT and s.kind != 'normal':
            continue
        delta, gamma, vega = _bclosed(s, f, kk, v, t)
        # effect of the last digits of forward and strike
        sd = v * math.sqrt(t)
        eps = 2e-15 * s.scale(f, kk) / (sd if s.kind == 'normal' else sd * (f + s.displ))
        m.eq(o.get_call_delta(x, k), delta * c.DELTA_SCALE, 'binary delta', 1e-8, 1e-12 * abs(delta) * c.DELTA_SCALE + 1e-300, **det)
        m.eq(o.get_call_vega(x, k), vega * c.VEGA_SCALE, 'binary vega', 1e-7, (1e-12 + eps / v) * c.VEGA_SCALE, **det)
        a, b = o.get_call_gamma(x, k), gamma * c.DELTA_SCALE ** 2
        if abs(a - b) > 1e-7 * abs(b) + (1e-12 + eps / (sd if s.kind == 'normal' else sd * (f + s.displ))) * c.DELTA_SCALE ** 2 * abs(delta):
            h = c.DELTA_SHIFT
            P = lambda f_: _price(s, f_, kk, v, t)
            bg = (P(f + h) - 2 * P(f) + P(f - h)) * (c.DELTA_SCALE / h) ** 2
            m.eq(a, bg, 'binary gamma is neither derivative nor difference quotient', 1e-9, (4e-15 + 4 * eps) * (c.DELTA_SCALE / h) ** 2, derivative=b, **det)
        h = c.THETA_SHIFT
        bt = (_price(s, f, kk, v, t + h) - _price(s, f, kk, v, t)) * c.THETA_SCALE / h
        m.eq(o.get_call_theta(x, k), bt, 'binary theta', 1e-9, (4e-15 + 2 * eps) * c.THETA_SCALE / h, **det)
        m.hit('binary greeks')
        # put values
        q = o.get_put_value(x, k)
        if abs(q - (1. - w)) > 4 * CDF:
            if abs(q - (kk - f + p)) <= 1e-12 * (1. + abs(kk) + abs(f)):
                m.finding('binary-put-parity', 'put value of binary models is strike - forward + call', got_=q, want_=1. - w, **det)
            else:
                m.fail('binary put value', value=q, want=1. - w, **det)
        m.hit('binary put')


def _no_optionality(m, o, x, k, f, kk):
    """binary values without optionality: 0 or 1"""
    got, want = o.get_call_value(x, k), 0. if f < kk else 1.
    m.hit('binary without optionality')
    if abs(f - kk) <= 1e-9 * (abs(f) + abs(kk)) and got in (0., 1.):
        m.obs += 1
        return
    if got != want:
        if abs(got - max(f - kk, 0.)) <= 1e-12 * (abs(f) + abs(kk)):
            m.finding('binary-no-optionality', 'binary call value without optionality is the plain payoff', got_=got, want_=want, forward=f, strike=kk)
        else:
            m.fail('binary value without optionality', got_=got, want_=want, forward=f, strike=kk)
    m.obs += 1
    for n in ('gamma', 'vega', 'theta'):
        m.true(getattr(o, 'get_call_' + n)(x, k) == 0., 'binary %s without optionality' % n, forward=f, strike=kk)


def c24_intrinsic(m):
    """the intrinsic binary model: 0 or 1 on both sides of the strike, no greeks"""
    r = m.rng
    s = ModelState(m, kinds=('intrinsic',), table=dict(intrinsic=models.BinaryIntrinsicOptionPayOffModel), cls_of=lambda c: _scaled(m, c))
    o = s.o
    s.sig('intrinsic')
    for _ in range(4):
        x = s.ax.at(s.expiry_day())
        k = s.strike(s.fwd(x))
        f, kk, v, t = s.params(x, k)
        if not v or not t:
            _no_optionality(m, o, x, k, f, kk)
            continue
        c = o.get_call_value(x, k)
        if abs(f - kk) > 1e-9 * (abs(f) + abs(kk)):
            m.true(c == (0. if f < kk else 1.), 'binary intrinsic value', got_=c, forward=f, strike=kk)
        else:
            m.true(c in (0., 1.), 'binary intrinsic value', got_=c, forward=f, strike=kk)
        for n in ('delta', 'gamma', 'vega', 'theta'):
            m.true(getattr(o, 'get_call_' + n)(x, k) == 0., 'binary intrinsic ' + n, forward=f, strike=kk)
        m.hit('binary intrinsic')


def c24_spread(m):
    """call spread model"""
    r = m.rng
    s = ModelState(m, zero=False)
    s.table = KINDS
    inner = s.o
    h = r.choice((None, 1e-4, 1e-3, .01, .002, -.001, 1e-2))
    own = []
    kw = {} if h is None else dict(strike_shift=h)
    val, F, V, vtau, ftau, dc = s.val, s.fwd, s.vol, s.vtau, s.ftau, s.dc
    # own parameters go before those of the inner model, also if they are zero
    if r.random() < .3:
        own.append('valuation')
        val = kw['valuation_date'] = s.ax.at(r.choice((0, 0, s.valday, 40)))
    if r.random() < .3:
        own.append('forward')
        a = s.some_forward_value() if s.kind not in ('normal', 'intrinsic') or r.random() < .7 else 0.
        F, ftau = (lambda x: float(a)), None
        kw['forward_curve'] = r.choice((F, a))
    if r.random() < .3:
        own.append('volatility')
        b = s.some_vol() if r.random() < .8 else 0.
        V, vtau = (lambda x: b), None
        kw['volatility_curve'] = r.choice((V, b))
    if r.random() < .3:
        own.append('day count')
        kw['day_count'] = dc = r.choice((gen.act360, gen.act365))
    for k in own:
        m.hit('own ' + k)
    tau = dc or vtau or ftau or gen.yf
    o = BinaryOptionPayOffModel(inner, **kw)
    h = 1e-4 if h is None else h
    s.sig('spread', h, own)
    for _ in range(5):
        x = s.ax.at(max(s.valday, 40) + r.choice((1, 30, 365, 2000, r.randint(1, 5000))))
        k = s.strike(F(x))
        f, v, t = F(x), V(x), max(tau(val, x), 0.)
        kk = f if k is None else k
        if s.kind in ('lognormal', 'displaced') and min(f, kk) + s.displ <= 2 * abs(h):
            continue
        if not v or not t:
            _no_optionality(m, o, x, k, f, kk)
            continue
        want = (_price(s, f, kk - h / 2, v, t) - _price(s, f, kk + h / 2, v, t)) / h
        det = dict(expiry=x, strike=k, forward=f, vol=v, time=t, shift=h)
        got = o.get_call_value(x, k)
        sc = s.scale(f, kk)
        big = max(sc, abs(_price(s, f, kk, v, t)))
        m.eq(got, want, 'call spread value', 1e-9, 16e-16 * big / abs(h), **det)
        m.hit('call spread')
        if s.kind != 'intrinsic' and v * math.sqrt(t) > 20 * abs(h) / (sc if s.kind != 'normal' else 1.):
            # about the exercise probability
            w = ref.binary(RKIND[s.kind], f, kk, v, t, s.displ)
            m.eq(got, w, 'call spread is not the exercise probability', 0, .02 + 4 * CDF * sc / abs(h), **det)
            m.hit('call spread probability')


SIT = 'distinct (scenario, model, date type, level, kinds of forward and volatility curves, day count, shifts) signatures with all oracle comparisons done'
PROPS = {
    'C22': Prop('C22', [Scenario('values', c22_values, 6000), Scenario('monotone', c22_monotone, 1500), Scenario('state', c22_state, 1500)],
                {'optionality': 10000, 'no optionality': 3000, 'at the money': 1000, 'by strike': 3000, 'by volatility': 3000, 'by time': 3000,
                 'valuation date changed': 500, 'forward changed': 500, 'volatility changed': 500}, SIT),
    'C23': Prop('C23', [Scenario('greeks', c23_greeks, 5000)],
                {'bumped': 1000, 'analytic': 3000, 'no optionality': 1000, 'own formula': 1000, 'formula from function': 1000, 'own greeks': 1000, 'own scales': 500, 'gamma by formula': 500}, SIT),
    'C24': Prop('C24', [Scenario('binary', c24_binary, 4000), Scenario('spread', c24_spread, 2500), Scenario('intrinsic', c24_intrinsic, 500)],
                {'binary value': 5000, 'binary greeks': 5000, 'binary put': 3000, 'call spread': 3000, 'call spread probability': 500, 'own valuation': 300, 'own forward': 300, 'own volatility': 300, 'own day count': 300,
                 'binary without optionality': 200, 'binary intrinsic': 500}, SIT),
}

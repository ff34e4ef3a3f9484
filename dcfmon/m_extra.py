"""C36-C39: integrals of curves, reading in any order, invariance under moved calendars, failing changes"""
import datetime
import math
import re

import dcf
from businessdate import BusinessDate, BusinessPeriod
from dcf import models

from . import gen, ref
from .core import Inject, Prop, Scenario
from .gen import Axis, tau_of
from .m_flows import some_list
from .m_options import BINARY, KINDS, ModelState
from .m_pricer import Tick, ticking
from .m_rates import CREDIT, IR, RateState

SIT = 'distinct (scenario, object types, date type, operations) signatures with all oracle comparisons done'


# ------------------------------------------------------------------------------------------------------------ C36
def exact_integral(pts, names, a, b, power=1):
    """exact integral of a piecewise linear or constant function of time (or its square)"""
    xs = [t for t, _ in pts]
    brk = [a] + sorted(x for x in xs if a < x < b) + [b]
    out = []
    for u, v in zip(brk[:-1], brk[1:]):
        w = v - u
        # values inside of the segment
        f1, f2 = (ref.scheme(names, pts, u + w * k) for k in (.25, .75))
        s = (f2 - f1) / (w * .5)
        mid = .5 * (f1 + f2)
        if power == 1:
            out.append(mid * w)
        else:
            out.append(w * (mid * mid + s * s * w * w / 12.))
    return math.fsum(out)


def c36_integrate(m):
    r = m.rng
    ax = Axis(m)
    n = r.choice((1, 2, 2, 3, 4, 6))
    start = r.choice((0, 0, 30, 400))
    days = gen.grid_days(m, n, start, hi=start + 8000, min_gap=90)
    vals = gen.rates(m, n) if r.random() < .7 else [r.uniform(-100., 100.) for _ in days]
    names = r.choice((ref.LINEAR, ref.LINEAR, ref.LINEAR, ref.ZEROLINEAR, ref.CONST))
    inm = {ref.LINEAR: None, ref.ZEROLINEAR: 'zero_linear_scheme', ref.CONST: 'constant'}[names]
    cls = r.choice((dcf.DateCurve, dcf.DateCurve, dcf.ZeroRateCurve, dcf.InstantaneousVolatilityCurve))
    if cls is dcf.InstantaneousVolatilityCurve:
        vals = [abs(v) for v in vals]
    if inm is None and cls is not dcf.DateCurve:
        inm = 'linear_scheme'
    dc = r.choice(gen.ADDITIVE)
    tau = tau_of(dc)
    kw = {} if dc is None else dict(day_count=gen.named(m, dc))
    if inm:
        kw['interpolation'] = inm
    kw['origin'] = o = ax.at(0)
    pts = list(zip([ax.at(d) for d in days], vals))
    shuffled = gen.shuffled(m, pts)
    c = cls([p[0] for p in shuffled], [p[1] for p in shuffled], **kw)
    T = [(tau(o, x), v) for x, v in pts]
    sc = max(abs(v) for v in vals) + 1e-300
    jumps = names is not ref.LINEAR
    m.note(axis=ax.kind, type=cls.__name__, days=days, values=vals, interpolation=inm, day_count=gen.dc_name(dc))
    m.sig('integrate', ax.kind, cls.__name__, n, inm, gen.dc_name(dc))
    for _ in range(4):
        q = sorted(set(gen.query_days(m, days, 3, lo=-300)))
        if len(q) < 2 or q[-1] - q[0] < 5:
            continue
        a, b = q[0], q[-1]
        if n > 1:
            # the quadrature samples the curve: no feature of the curve is to fall between its first nodes
            b = min(b, a + 6 * min(y - x for x, y in zip(days, days[1:])))
        A, B = ax.at(a), ax.at(b)
        ta, tb = tau(o, A), tau(o, B)
        # accuracy of the quadrature: fine on kinks, coarse on jumps
        rel = 5e-4 if not jumps else 3e-3
        qa = 5e-8 / (tb - ta)  # absolute accuracy of the quadrature
        want = exact_integral(T, names, ta, tb) / (tb - ta)
        got = c.integrate(A, B)
        m.eq(got, want, 'annualized integral', 0, rel * sc + qa, start=A, stop=B)
        m.hit('integral')
        inside = [v for t, v in T if ta <= t <= tb] + [ref.scheme(names, T, ta), ref.scheme(names, T, tb)]
        if names is ref.LINEAR:
            m.true(min(inside) - rel * sc - qa <= got <= max(inside) + rel * sc + qa, 'integral is no average of the curve', got=got, low=min(inside), high=max(inside))
        m.eq(c.integrate(B, A), got, 'average over the reversed period', 0, rel * sc + qa, start=B, stop=A)
        k = r.uniform(-3., 3.)
        m.eq(c.integrate(A, B, lambda y: k), k, 'average of a constant function', 0, 1e-9 * (1. + abs(k)))
        m.eq(c.integrate(A, B, lambda y: y * y), exact_integral(T, names, ta, tb, 2) / (tb - ta), 'annualized integral of squares', 0, 2 * rel * sc * sc + qa, start=A, stop=B)
        m.eq(c.integrate(A, B, lambda y: k * y + 1.), k * got + 1., 'integral is not linear', 0, 3 * rel * sc * abs(k) + 1e-9 * (1. + abs(k)) + 2 * qa * (1. + abs(k)))
        m.hit('function')
        if b - a > 4:
            x = r.randint(a + 1, b - 1)
            X = ax.at(x)
            tx = tau(o, X)
            m.eq(c.integrate(A, X) * (tx - ta) + c.integrate(X, B) * (tb - tx), got * (tb - ta), 'integrals do not add up', 0,
                 2 * rel * sc * (tb - ta) + 1.5e-7, start=A, mid=X, stop=B)
            m.hit('additive')
        if ax.kind == 'bdate' and names is ref.LINEAR:
            # off the kinks the curve is linear
            for x in (r.randint(a, b), r.randint(a, b), days[0] - r.randint(2, 60), days[-1] + r.randint(1, 60), days[-1] + r.randint(1000, 9000)):
                if any(abs(x - d) <= 1 for d in days) and x != days[-1] + 1:
                    continue
                t0, t1 = tau(o, ax.at(x)), tau(o, ax.at(x + 1))
                s = (ref.scheme(names, T, t1) - ref.scheme(names, T, t0)) / (t1 - t0)
                m.eq(c.derivative(ax.at(x)), s, 'derivative', 1e-7, 1e-9 * sc, date=ax.at(x))
                m.hit('derivative')
                if s:
                    m.hit('slope')
    m.eq(c(pts[0][0]), vals[0], 'curve after integrating', 1e-12, 0)


def c36_spread(m):
    """spreads take part in integrals and slopes of rate curves"""
    r = m.rng
    prop = [d for d in gen.ADDITIVE if d is not gen.actact]
    ax = Axis(m)
    o = ax.at(0)
    n = r.choice((1, 2, 3, 4))
    first = r.choice((0, 0, 30))
    days = gen.grid_days(m, n, first, hi=first + 5000, min_gap=150)
    cls = r.choice((dcf.ZeroRateCurve, dcf.ShortRateCurve, dcf.FlatIntensityCurve, dcf.InstantaneousVolatilityCurve))
    vals = [r.uniform(.01, .3) for _ in days]
    dc = r.choice(prop)
    c = cls([ax.at(d) for d in days], vals, 'linear_scheme', o, dc)
    sfirst = r.choice((0, 10, 200, -300))
    sdays = gen.grid_days(m, r.choice((1, 1, 2, 3, 5)), sfirst, hi=sfirst + 5000, min_gap=150)
    svals = r.choice((lambda: [.01] * len(sdays), lambda: [r.uniform(-.005, .1) for _ in sdays], lambda: [r.choice((0., .05)) for _ in sdays]))()
    sdc = r.choice((dc, dc, r.choice(prop)))
    scls = r.choice((dcf.DateCurve, dcf.DateCurve, dcf.ZeroRateCurve))
    spread = scls([ax.at(d) for d in sdays], svals, 'linear_scheme', r.choice((None, o, ax.at(sdays[0] - 40))), sdc)
    m.note(type=cls.__name__, axis=ax.kind, days=days, values=vals, spread_days=sdays, spread=svals, day_count=gen.dc_name(dc), spread_day_count=gen.dc_name(sdc))
    m.sig('spread', ax.kind, cls.__name__, n, len(sdays), sdc is dc)

    def at(d):
        return ref.one('constant' if d < days[0] or d > days[-1] else 'linear', list(zip(days, vals)), d) + \
            (ref.one('constant' if d < sdays[0] or d > sdays[-1] else 'linear', list(zip(sdays, svals)), d) if on else 0.)

    def mean(a, b, power):
        out, brk = [], [a] + sorted(d for d in set(days + sdays) if a < d < b) + [b]
        for u, v in zip(brk[:-1], brk[1:]):
            x, y, z = at(u + (v - u) * 1e-9), at(.5 * (u + v)), at(v - (v - u) * 1e-9)
            out.append((v - u) * (x ** power + 4 * y ** power + z ** power) / 6.)
        return math.fsum(out) / (b - a)
    gap = min([y - x for g in (days, sdays) for x, y in zip(g[:-1], g[1:])] + [2000])
    for on in (False, True, False):
        c.spread = spread if on else None
        for _ in range(3):
            q = sorted(set(gen.query_days(m, days + sdays, 2, lo=0, far=500)))
            if len(q) < 2 or q[1] - q[0] < 5:
                continue
            a, b = q[0], min(q[1], q[0] + 5 * gap)
            A, B = ax.at(a), ax.at(b)
            t = abs(tau_of(dc)(A, B))
            tol = 2e-3 * (max(vals) + max(map(abs, svals))) + 5e-8 / t
            m.eq(c.integrate(A, B), mean(a, b, 1), 'integral with spread', 0, tol, start=A, stop=B, spread=on)
            m.eq(c.integrate(B, A), mean(a, b, 1), 'integral with spread between swapped dates', 0, tol, start=B, stop=A, spread=on)
            m.eq(c.integrate(A, B, lambda y: y * y), mean(a, b, 2), 'integral of squares with spread', 0, tol * .7, start=A, stop=B, spread=on)
            if cls is dcf.InstantaneousVolatilityCurve:
                m.eq(c.get_terminal_vol(A, B) ** 2, mean(a, b, 2), 'terminal volatility with spread', 0, tol * .7, start=A, stop=B, spread=on)
                m.hit('terminal volatility with spread' if on else 'terminal volatility')
            m.hit('integral with spread' if on else 'integral without spread')
            if ax.kind == 'bdate':
                x = r.randint(a, b)
                if not any(abs(x - d) <= 1 for d in days + sdays):
                    u = tau_of(dc)(ax.at(x), ax.at(x + 1))
                    m.eq(c.derivative(ax.at(x)), (at(x + 1) - at(x)) / u, 'derivative with spread', 1e-7, 1e-9, date=ax.at(x), spread=on)
                    m.hit('derivative with spread')
    if ax.kind == 'bdate':
        # any function of dates
        c.spread = lambda x: .01 * math.sin(ax.days(x))
        a = r.randint(0, 900)
        b = a + r.choice((1, 2, 30, 100))
        f = [at(d) + .01 * math.sin(d) for d in range(a, b)]
        m.eq(c.integrate(ax.at(a), ax.at(b)), math.fsum(f) / (b - a), 'integral with function as spread', 1e-9, 2e-3 * (max(vals) + .01), start=a, stop=b)
        m.hit('function as spread')
        c.spread = None


# ------------------------------------------------------------------------------------------------------------ C37
_ADDR = re.compile(r'0x[0-9a-f]+|\bid=\d+')


def plain(x, depth=0):
    """comparable form of anything observed: identities removed"""
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, (int, float)):
        return repr(float(x))
    if isinstance(x, str):
        return _ADDR.sub('0x', x)
    if isinstance(x, dict):
        return [(str(k), plain(v, depth + 1)) for k, v in x.items() if not str(k).endswith('-id')]
    if isinstance(x, (BusinessDate, datetime.date)):
        return str(x)
    if isinstance(x, (BusinessPeriod, datetime.timedelta)):
        return str(x)
    if isinstance(x, (list, tuple)):
        return [plain(v, depth + 1) for v in x]
    if isinstance(x, dcf.Curve):
        return [type(x).__name__, plain(list(x.domain)), plain(list(x(list(x.domain))))]
    if isinstance(x, dcf.CashFlowList):
        return [type(x).__name__, plain(x.domain), plain(x[x.domain])]
    return type(x).__name__


def shown(s):
    """text without addresses"""
    return re.sub(r'0x[0-9a-f]+', '0x', s)


def look(f):
    """what the call shows: value or type of error"""
    try:
        return plain(f())
    except Exception as e:
        return ['error', type(e).__name__]


class Item:
    """an object with named reads and named changes; built anew from the same random numbers"""

    def __init__(self):
        self.reads, self.changes = [], []

    def read(self, name, f):
        self.reads.append((name, f))

    def change(self, name, f):
        self.changes.append((name, f))


def curve_reads(it, c, ax, q, label=''):
    """reads of any curve on dates q"""
    def add(name, f):
        it.read(label + name, f)
    a, b = q[0], q[1]
    lo, hi = min(a, b), max(a, b)
    for x in q[:4]:
        add('value', lambda x=x: c(x))
    add('values', lambda: c(tuple(q)))
    add('domain', lambda: list(c.domain))
    add('values at domain', lambda: c(list(c.domain)))
    add('kwargs', lambda: c.kwargs)
    add('str', lambda: str(c))
    add('repr', lambda: repr(c))
    add('iter', lambda: list(c))
    add('contains', lambda: (q[0] in c, q[1] in c))
    add('getitem', lambda: c[list(c.domain)[0]])
    add('origin', lambda: c.origin)
    add('table', lambda: c.table[:3])
    add('day count', lambda: c.day_count(lo, hi))
    add('plus', lambda: (c + c)(q))
    add('minus', lambda: (c - c)(q))
    add('copy', lambda: type(c)(c)(q))
    add('shifted', lambda: c.shifted()(q))
    add('integral', lambda: c.integrate(lo, hi))
    for nm in ('get_discount_factor', 'get_zero_rate', 'get_cash_rate', 'get_survival_prob', 'get_flat_intensity', 'get_terminal_vol'):
        if hasattr(c, nm):
            add(nm, lambda nm=nm: getattr(c, nm)(lo, hi))
            add(nm + ' from origin', lambda nm=nm: getattr(c, nm)(hi))
    for nm in ('get_short_rate', 'get_hazard_rate', 'get_instantaneous_vol', 'get_forward_price'):
        if hasattr(c, nm):
            add(nm, lambda nm=nm: getattr(c, nm)(q[2]))
    if hasattr(c, 'get_swap_annuity'):
        add('annuity', lambda: c.get_swap_annuity(sorted(q[:3])))
    if hasattr(c, 'forward_tenor'):
        add('tenor', lambda: c.forward_tenor)
    if hasattr(c, 'get_discount_factor'):
        add('cast', lambda: dcf.ZeroRateCurve(c)(q))
        add('cast df', lambda: dcf.DiscountFactorCurve(c)(q))
    if hasattr(c, 'get_survival_prob'):
        add('cast', lambda: dcf.SurvivalProbabilityCurve(c)(q))
        add('cast hazard', lambda: dcf.FlatIntensityCurve(c)(q))


def curve_changes(it, r, c, ax, days, vals, label='', spread=True):
    """changes of a curve, drawn now"""
    for _ in range(6):
        d = r.choice(days) if r.random() < .6 else r.randint(min(days), max(days) + 400)
        v = r.choice(vals) * r.choice((1., 1.02, .97))
        x = ax.at(d)
        it.change(label + 'set point', lambda x=x, v=v: c.__setitem__(ax.copy(x), v))
    d, v = r.choice(days) + r.choice((0, 0, 5)), r.choice(vals) * 1.01
    x = ax.at(d)
    it.change(label + 'fix', lambda: c.fixings.__setitem__(ax.copy(x), v))
    it.change(label + 'unfix', lambda: c.fixings.pop(x, None))
    if spread:
        s = r.uniform(-.002, .004)
        it.change(label + 'no spread', lambda: setattr(c, 'spread', None))

        def sp():
            c.spread = None
            c.spread = lambda x: s
        it.change(label + 'spread', sp)
        S = dcf.DateCurve([ax.at(0), ax.at(500)], [s, -s])

        def sc():
            c.spread = None
            c.spread = S
        it.change(label + 'spread curve', sc)
        it.change(label + 'change of spread curve', lambda: S.__setitem__(ax.at(500), 2 * s))


def build_curve(m):
    r = m.rng
    it = Item()
    w = r.choice(('ir', 'ir', 'credit', 'vol', 'vol', 'forward', 'date'))
    if w in ('ir', 'credit'):
        s = RateState(m, kinds=(('zero', 'df', 'cash', 'short') if w == 'ir' else CREDIT), axes=('bdate', 'bdate', 'float', 'date'), n=r.choice((1, 2, 3, 5)),
                      touch=False)
        if s.kind in ('short', 'hazard') and max(s.days) > 1500:
            s = RateState(m, kinds=('zero', 'df') if w == 'ir' else ('intensity', 'survival'), n=3, touch=False)
        c, ax, days = s.c, s.ax, s.days
        vals = [.9, .95, .99] if s.kind in ('df', 'survival', 'marginal') else [.01, .02, .05]
        it.kind = s.kind
        c_far = 300 if s.kind in ('short', 'hazard', 'cash', 'marginal', 'mdefault') else 3000
    else:
        ax = Axis(m)
        days = gen.grid_days(m, r.choice((1, 2, 3, 6)), 0, hi=5000)
        vals = [.1, .2, .3] if w != 'forward' else [90., 100., 120.]
        cls = {'vol': r.choice((dcf.TerminalVolatilityCurve, dcf.InstantaneousVolatilityCurve)), 'forward': dcf.ForwardCurve, 'date': dcf.DateCurve}[w]
        kw = dict(yield_curve=r.choice((.02, None, 0.))) if w == 'forward' else {}
        if r.random() < .3:
            kw['day_count'] = gen.act365
        c = cls([ax.at(d) for d in days], [r.choice(vals) for _ in days], origin=ax.at(0), **kw)
        it.kind = cls.__name__
        c_far = 1500
    it.ax = ax
    q = [ax.at(d) for d in gen.query_days(m, days, 6, lo=0, far=c_far)]
    q[0] = ax.at(days[-1] // 2)
    q[1] = ax.at(days[-1] // 2 + r.choice((30, 91, 200)))
    curve_reads(it, c, ax, q)
    curve_changes(it, r, c, ax, days, vals, spread=hasattr(c, 'spread'))
    return it


def build_model(m):
    r = m.rng
    it = Item()
    binary = r.random() < .35
    s = ModelState(m, kinds=tuple(BINARY), table=BINARY, level='rate') if binary else ModelState(m)
    o, ax = s.o, s.ax
    it.kind, it.ax = s.kind + (' binary' if binary else ''), ax
    for d in (s.expiry_day(), s.expiry_day(), s.valday + 200):
        x = ax.at(d)
        k = s.strike(s.fwd(x))
        for strike in (k, None):
            for nm in ('value', 'delta', 'gamma', 'vega', 'theta'):
                for cp in ('call', 'put'):
                    f = 'get_%s_%s' % (cp, nm)
                    it.read(f, lambda f=f, x=x, strike=strike: getattr(o, f)(x, strike))
        it.read('details', lambda x=x, k=k: sorted(plain(o.details(x, k))))
    v1, v2 = s.some_vol(), s.some_vol()
    f1 = s.some_forward_value()
    d1 = s.valday + r.choice((1, 30, 150, -50))
    it.change('valuation date', lambda: setattr(o, 'valuation_date', ax.at(d1)))
    it.change('volatility', lambda: setattr(o, 'volatility_curve', lambda x: v1))
    it.change('volatility curve', lambda: setattr(o, 'volatility_curve', dcf.TerminalVolatilityCurve([ax.at(0)], [v2])))
    it.change('forward', lambda: setattr(o, 'forward_curve', f1))
    it.change('forward curve', lambda: setattr(o, 'forward_curve', dcf.DateCurve([ax.at(0)], [f1])))
    it.change('bump', lambda: setattr(o, 'bump_greeks', True))
    it.change('no bump', lambda: setattr(o, 'bump_greeks', False))
    it.change('day count', lambda: setattr(o, 'day_count', gen.act365))
    it.change('no day count', lambda: setattr(o, 'day_count', None))
    if hasattr(o, 'displacement'):
        it.change('displacement', lambda: setattr(o, 'displacement', .04 if s.level == 'rate' else 7.))
    fc, vc = s.kw.get('forward_curve'), s.kw.get('volatility_curve')
    for c, val, lab in ((fc, f1, 'forward: '), (vc, v1, 'volatility: ')):
        if isinstance(c, dcf.DateCurve):
            for d in (0, 100, 700):
                it.change(lab + 'set point', lambda c=c, d=d, val=val: c.__setitem__(ax.at(d), val))
    return it


def build_fx(m):
    r = m.rng
    it = Item()
    ax = Axis(m, r.choice(('bdate', 'date', 'float')))
    it.ax, it.kind = ax, 'fx'
    o = ax.at(0)

    def curve():
        d = [0] + [x for x in gen.grid_days(m, 2, 100, hi=2000)]
        return dcf.ZeroRateCurve([ax.at(x) for x in d], gen.rates(m, len(d)), origin=o)
    names = ['EUR', 'USD', 'GBP', 'JPY'][:r.choice((2, 3, 4))]
    cs = {n: curve() for n in names}
    k = dcf.FxContainer(names[0], cs[names[0]])
    for n in names[1:]:
        k.add(n, cs[n], r.uniform(.5, 150.))
    q = [ax.at(r.randint(0, 3000)) for _ in range(3)]
    pairs = [(a, b) for a in names for b in names if a != b]
    for p in r.sample(pairs, min(len(pairs), 5)):
        it.read('pair', lambda p=p: k[p](q))
        it.read('forward', lambda p=p: k.get_forward_price(p[0], p[1], q[0]))
        it.read('repr', lambda p=p: repr(k[p]))
    it.read('keys', lambda: sorted(k.keys()))
    for n in names:
        it.read('dict', lambda n=n: sorted((a, plain(c)) for a, c in k[n].items()))
    for n in names[1:]:
        s = r.uniform(.5, 150.)
        it.change('re-add', lambda n=n, s=s: k.add(n, cs[n], s))
        c2 = curve()
        it.change('re-add with another curve', lambda n=n, s=s, c2=c2: k.add(n, c2, s * 1.1))
    it.change('add', lambda: k.add('CHF', cs[names[0]], 1.07))
    x, v = ax.at(400), r.uniform(0., .05)
    for n in names:
        it.change('curve point', lambda n=n: cs[n].__setitem__(x, v))
    return it


def build_market(m):
    """curves, model, lists of all types and all valuations of them"""
    r = m.rng
    it = Item()
    ax = Axis(m, r.choice(('bdate', 'bdate', 'float', 'date')))
    it.ax, it.kind = ax, 'market'
    o = ax.at(0)
    ten = {'float': .25, 'date': ax.step(91), 'bdate': '3M'}[ax.kind]
    g = sorted({0} | set(gen.grid_days(m, r.choice((1, 2, 4)), 60, hi=3000)))
    grid = [ax.at(d) for d in g]
    disc = dcf.ZeroRateCurve(grid, gen.rates(m, len(g), 0., .05))
    fwd = dcf.CashRateCurve(grid, gen.rates(m, len(g), 0., .05), forward_tenor=ten)
    vol = dcf.TerminalVolatilityCurve([o], [.01])
    mod = models.NormalOptionPayOffModel(valuation_date=o, forward_curve=fwd, volatility_curve=vol)
    days = gen.grid_days(m, r.choice((1, 2, 4)), 100, hi=1500, min_gap=20)
    dates = [ax.at(d) for d in days]
    so = ax.at(days[0] - 91)
    rate = dcf.RateCashFlowList(dates, 100., origin=so, fixed_rate=.02, forward_curve=fwd)
    fixed = dcf.RateCashFlowList(dates, 100., origin=so, fixed_rate=.03)
    cont = dcf.ContingentRateCashFlowList(dates, 100., origin=so, fixed_rate=.01, floor_strike=.0, cap_strike=.04, payoff_model=mod)
    opt = dcf.OptionCashflowList(dates, 10., strike_list=.02, payoff_model=mod)
    red = dcf.FixedCashFlowList([dates[-1]], [100.])
    legs = dcf.CashFlowLegList([fixed, red])
    swap = dcf.CashFlowLegList([rate, dcf.RateCashFlowList(dates, -100., origin=so, fixed_rate=.02)])
    # legs in no order of dates
    mixed = dcf.CashFlowLegList(gen.shuffled(m, [red, rate, cont, dcf.CashFlowList([dates[0]], [3.])]))
    strat = dcf.OptionStrategyCashflowList(dates, [1., -2.], [.01, .03], 3., [.02], payoff_model=mod)
    bond = dcf.bond(o, ax.at(730), {'float': .25, 'date': ax.step(182), 'bdate': '6M'}[ax.kind], fixed_rate=.03, notional_amount=100.,
                    day_count=gen.act365, forward_curve=fwd)
    val = ax.at(r.choice((0, 0, 40, days[0], days[0] + 5)))
    val2 = ax.at(r.choice((0, 20, days[0] - 1)))
    lists = dict(rate=rate, fixed=fixed, cont=cont, opt=opt, red=red, legs=legs, swap=swap, mixed=mixed, strat=strat, bond=bond)
    for n, l in lists.items():
        it.read('flows ' + n, lambda l=l: l[l.domain])
        it.read('call ' + n, lambda l=l: l())
        it.read('table ' + n, lambda l=l: l.table)
        it.read('pv ' + n, lambda l=l: dcf.get_present_value(l, disc, val))
        it.read('pv later ' + n, lambda l=l: dcf.get_present_value(l, disc, val2))
        it.read('pv by default ' + n, lambda l=l: dcf.get_present_value(l, disc))
        it.read('bpv ' + n, lambda l=l: dcf.get_basis_point_value(l, disc, val, r_pick))
        it.read('buckets ' + n, lambda l=l: dcf.get_bucketed_delta(l, disc, val2, [disc, fwd], grid))
        it.read('str ' + n, lambda l=l: (type(l).__name__, l.domain, l.origin))
        it.read('repr ' + n, lambda l=l: (shown(repr(l)), shown(str(l))))
        it.read('kwargs ' + n, lambda l=l: [(k, shown(str(v))) for k, v in l.kwargs.items()])
        it.read('payoff ' + n, lambda l=l: [shown(repr(l.payoff(d))) for d in l.domain])
        it.read('call given ' + n, lambda l=l: l(mod))
        it.read('called given ' + n, lambda l=l: l(mod)[l.domain])
        if isinstance(l, dcf.CashFlowLegList):
            it.read('legs ' + n, lambda l=l: [(type(x).__name__, x.domain, x.origin) for x in l.legs])
            it.read('flows of legs ' + n, lambda l=l: [x[x.domain] for x in l.legs])
        if n in ('rate', 'fixed', 'cont', 'legs', 'swap'):
            it.read('accrued ' + n, lambda l=l: dcf.get_interest_accrued(l, ax.at(days[0] - 30)))
    r_pick = r.choice((disc, fwd, [fwd, disc]))
    it.read('yield', lambda: dcf.get_yield_to_maturity(legs, val2, 97.))
    it.read('yield by default', lambda: dcf.get_yield_to_maturity(legs, present_value=101.))
    it.read('fair rate', lambda: dcf.get_fair_rate(rate, disc, val2))
    it.read('fair fixed rate', lambda: dcf.get_fair_rate(fixed, disc, val2, 3.))
    it.read('fair collared rate', lambda: dcf.get_fair_rate(cont, disc, val2))
    it.read('fit', lambda: dcf.get_curve_fit([red], disc, o, fitting_grid=[dates[-1]], present_value=[95.]))
    for n, l in (('rate', rate), ('fixed', fixed), ('cont', cont)):
        k = r.uniform(0., .05)
        it.change('fixed rate ' + n, lambda l=l, k=k: setattr(l, 'fixed_rate', k))
    it.change('forward curve', lambda: setattr(rate, 'forward_curve', disc))
    it.change('forward number', lambda: setattr(rate, 'forward_curve', .021))
    it.change('forward none', lambda: setattr(rate, 'forward_curve', None))
    mod2 = models.NormalOptionPayOffModel(valuation_date=o, forward_curve=disc, volatility_curve=vol)
    it.change('model', lambda: setattr(cont, 'payoff_model', mod2))
    it.change('model of options', lambda: setattr(opt, 'payoff_model', mod2))
    it.change('model date', lambda: setattr(mod, 'valuation_date', ax.at(30)))
    it.change('model volatility', lambda: setattr(mod, 'volatility_curve', lambda x: .02))
    it.change('model forward', lambda: setattr(mod, 'forward_curve', fwd))
    curve_changes(it, r, disc, ax, g, [.01, .03], 'disc ')
    curve_changes(it, r, fwd, ax, g, [.01, .03], 'fwd ', spread=False)
    x, v = ax.at(200), r.uniform(.005, .03)
    it.change('vol point', lambda: vol.__setitem__(x, v))
    return it


def build_rating(m):
    r = m.rng
    it = Item()
    it.kind = 'rating'
    it.ax = Axis(m, 'float')
    n = r.choice((2, 3, 5, 22))
    acc, vals = 0., []
    for _ in range(n):
        acc += r.uniform(.001, .9 / n)
        vals.append(acc)
    names = ['R%02d' % i for i in range(n)]
    ms = dcf.RatingClass(names[0], dict(zip(names, vals))).masterscale
    for v in (vals[0], vals[-1], r.uniform(vals[0], vals[-1]), r.uniform(vals[0], vals[-1])):
        x = dcf.RatingClass(v, ms)
        it.read('float', lambda x=x: float(x))
        it.read('vector', lambda x=x: list(x))
        it.read('str', lambda x=x: str(x))
        it.read('repr', lambda x=x: repr(x))
        it.read('name', lambda x=x: (x.name, x.value, x.vector))
    it.read('scale', lambda: (list(ms.keys()), list(ms.values()), [(str(a), float(b)) for a, b in ms.items()]))
    it.read('classes', lambda: [float(x) for x in ms.rating_classes()])
    it.read('scale str', lambda: (str(ms), repr(ms)))
    it.change('nothing', lambda: None)
    return it


BUILD = dict(curve=build_curve, model=build_model, fx=build_fx, market=build_market, rating=build_rating)


def c37(kind):
    def func(m):
        r = m.rng
        state = r.getstate()
        made = 0

        def fresh():
            """the same object once more"""
            keep = r.getstate()
            r.setstate(state)
            it = BUILD[kind](m)
            end = r.getstate()
            if made:
                r.setstate(keep)
            else:
                r.setstate(end)
            return it
        a = fresh()
        made = 1
        n = len(a.reads)
        m.sig(kind, a.kind, a.ax.kind)
        m.hit('kind %s' % a.kind)
        order = list(range(n))
        first = {}
        for i in order:
            first[i] = look(a.reads[i][1])
            m.hit('read')
            if isinstance(first[i], list) and first[i][:1] == ['error']:
                m.hit('read raises')

        def compare(item, sub, want, what):
            for i in sub:
                name, f = item.reads[i]
                got = look(f)
                m.hit('read')
                m.true(got == want[i], '%s: %s' % (what, name), got=str(got)[:300], want=str(want[i])[:300], read=name, number=i)
        # again on the same object, in another order
        compare(a, gen.shuffled(m, order), first, 'reading again shows something else')
        # on an equal object in another order
        b = fresh()
        m.true([x for x, _ in b.reads] == [x for x, _ in a.reads], 'harness: rebuilt object has other reads')
        compare(b, gen.shuffled(m, order), first, 'an equal object read in another order shows something else')
        # changes between the reads or without any read before
        todo = [r.randrange(len(a.changes)) for _ in range(r.choice((1, 1, 2, 4)))]
        m.note(kind=a.kind, axis=a.ax.kind, changes=[a.changes[i][0] for i in todo])
        c = fresh()
        for j, i in enumerate(todo):
            ra, rc = look(a.changes[i][1]), look(c.changes[i][1])
            m.true(ra == rc, 'change gives another result after reads: %s' % a.changes[i][0], got=ra, want=rc)
            m.hit('change')
            m.sig(kind, a.kind, 'change', a.changes[i][0])
            if j + 1 < len(todo) and r.random() < .7:
                for x in r.sample(order, min(n, 12)):
                    look(a.reads[x][1])
        want = {}
        for i in gen.shuffled(m, order):
            want[i] = look(c.reads[i][1])
        compare(a, gen.shuffled(m, order), want, 'after changes a read depends on what was read before')
        if want != first:
            m.hit('change seen')
    return func


# ------------------------------------------------------------------------------------------------------------ C38
def market_spec(m):
    r = m.rng
    g = sorted({0} | set(gen.grid_days(m, r.choice((1, 2, 4, 8)), 60, hi=4000)))
    days = gen.grid_days(m, r.choice((1, 2, 4, 10)), r.choice((30, 100, 400)), hi=3000, min_gap=5)
    n = len(days)
    return dict(
        grid=g, dtype=r.choice(('zero', 'zero', 'df', 'cash')), ftype=r.choice(('cash', 'cash', 'zero')),
        dvals=gen.rates(m, len(g), -.01, .06), fvals=gen.rates(m, len(g), -.01, .06), vvals=[r.uniform(.003, .02)],
        days=days, first=days[0] - r.choice((10, 30, 91)), amounts=[r.uniform(-1e4, 1e4) for _ in days], notional=10. ** r.uniform(0, 6),
        fixed=r.uniform(-.01, .06), floor=r.choice((None, 0., .01)), cap=r.choice((None, .03, .05)), strike=r.uniform(0., .05),
        put=r.random() < .5, back=r.choice((None, 2, 20)), pay=r.choice((None, None, 3)), val=r.choice((0, 0, 15, days[0], days[-1] - 2, r.randint(0, days[-1]))),
        tenor=r.choice((30, 91, 182)), grid2=gen.grid_days(m, 3, 50, hi=3000), model=r.choice(('normal', 'normal', 'intrinsic', 'binary')),
        q=[r.randint(0, 4500) for _ in range(4)], spread=r.choice((None, r.uniform(-.005, .005))), acc=r.randint(max(0, days[0] - 40), days[-1]),
        dc=r.choice((None, None, gen.act365, gen.act360)), price=r.uniform(.85, 1.1), fix=r.choice((None, r.uniform(0., .05))), fx=r.uniform(.2, 5.))


def market_values(ax, s, dc=None):
    """(name -> value) of a market placed on an axis"""
    o = ax.at(0)
    kw = {} if dc is None else dict(day_count=dc)
    tau = tau_of(dc)
    grid = [ax.at(d) for d in s['grid']]
    ten = ax.step(s['tenor'])

    def curve(kind, vals):
        if kind == 'df':
            return dcf.DiscountFactorCurve(grid, [math.exp(-v * d / 365.) for v, d in zip(vals, s['grid'])], origin=o, forward_tenor=ten, **kw)
        cls = dcf.ZeroRateCurve if kind == 'zero' else dcf.CashRateCurve
        return cls(grid, vals, origin=o, forward_tenor=ten, **kw)
    disc, fwd = curve(s['dtype'], s['dvals']), curve(s['ftype'], s['fvals'])
    if s['fix'] is not None:
        fwd.fixings[ax.at(s['first'])] = s['fix']
    vol = dcf.TerminalVolatilityCurve([o], s['vvals'], **kw)
    cls = dict(normal=models.NormalOptionPayOffModel, intrinsic=models.IntrinsicOptionPayOffModel, binary=models.BinaryNormalOptionPayOffModel)[s['model']]
    mod = cls(valuation_date=ax.at(s['val']), forward_curve=fwd, volatility_curve=vol)
    dates = [ax.at(d) for d in s['days']]
    so = ax.at(s['first'])
    off = None if s['back'] is None else ax.step(s['back'])
    pay = None if s['pay'] is None else ax.step(s['pay'])
    N = s['notional']
    rate = dcf.RateCashFlowList(dates, s['amounts'], origin=so, fixed_rate=s['fixed'], forward_curve=fwd, fixing_offset=off, pay_offset=pay, **kw)
    fixed = dcf.RateCashFlowList(dates, N, origin=so, fixed_rate=s['fixed'], **kw)
    cont = dcf.ContingentRateCashFlowList(dates, N, origin=so, fixed_rate=s['fixed'], floor_strike=s['floor'], cap_strike=s['cap'], fixing_offset=off, payoff_model=mod, **kw)
    opt = dcf.OptionCashflowList(dates, s['amounts'], strike_list=s['strike'], is_put_list=s['put'], fixing_offset=off, payoff_model=mod)
    red = dcf.FixedCashFlowList([dates[-1]], [N])
    legs = dcf.CashFlowLegList([fixed, red])
    every = dcf.CashFlowLegList([rate, cont, opt, legs])
    val = ax.at(s['val'])
    A = max(map(abs, s['amounts'] + [N]))
    out = {}

    def put(name, f, scale=1., rel=1e-9):
        try:
            v = f()
        except (AssertionError, ZeroDivisionError) as e:
            v = type(e).__name__
        out[name] = (v, scale, rel)
    q = [ax.at(d) for d in s['q']]
    a, b = sorted(q[:2])
    for n, c in (('discount', disc), ('forward', fwd)):
        put(n + ' values', lambda: c(q))
        if a != b:
            put(n + ' df', lambda: c.get_discount_factor(a, b))
            put(n + ' zero', lambda: c.get_zero_rate(a, b), 30.)
            put(n + ' cash', lambda: c.get_cash_rate(a, b), 30.)
        put(n + ' short', lambda: c.get_short_rate(grid[0]) if len(grid) > 1 else 0., 30.)
    for n, l in dict(rate=rate, fixed=fixed, cont=cont, opt=opt, red=red, legs=legs, every=every).items():
        put('flows ' + n, lambda: l[l.domain], A)
        put('pv ' + n, lambda: dcf.get_present_value(l, disc, val), A * 10)
        put('bpv ' + n, lambda: dcf.get_basis_point_value(l, disc, val, [disc, fwd]), A, 1e-7)
        put('buckets ' + n, lambda: dcf.get_bucketed_delta(l, disc, val, [disc], [ax.at(d) for d in s['grid2']]), A, 1e-7)
        if n in ('fixed', 'cont', 'legs'):
            put('accrued ' + n, lambda: dcf.get_interest_accrued(l, ax.at(s['acc'])), A)
    put('yield', lambda: dcf.get_yield_to_maturity(legs, val, s['price'] * N), 1., 1e-6)
    put('fair rate', lambda: dcf.get_fair_rate(fixed, disc, val, .1 * N), 1., 1e-6)
    put('fair collared rate', lambda: dcf.get_fair_rate(cont, disc, val, 0.), 1., 1e-6)
    if s['dtype'] == 'zero':
        put('fit', lambda: dcf.get_curve_fit([dcf.FixedCashFlowList([dates[-1]], [1.])], disc, o, fitting_grid=[dates[-1]], present_value=[s['price']]), 1., 1e-6)
    for n in ('value', 'delta', 'gamma', 'vega', 'theta'):
        x = dates[-1]
        put('call ' + n, lambda: getattr(mod, 'get_call_' + n)(x, s['strike']), 1., 1e-8)
    e = dcf.ZeroRateCurve(grid, s['fvals'], origin=o, **kw)
    k = dcf.FxContainer('EUR', dcf.ZeroRateCurve(grid, s['dvals'], origin=o, **kw))
    k.add('USD', e, s['fx'])
    put('fx', lambda: k['EUR', 'USD'](q), 10.)
    tbl = rate.table
    put('table', lambda: [row[tbl[0].index('year fraction')] for row in tbl[1:]], 10.)
    put('table rates', lambda: [row[tbl[0].index('forward rate')] for row in tbl[1:]], 10.)
    return out


def c38_moved(m):
    r = m.rng
    s = market_spec(m)
    a = Axis(m, r.choice(('bdate', 'date')))
    # the same market on other calendars
    others = [('days later', Axis(m, a.kind)), ('other date type', Axis(m, 'date' if a.kind == 'bdate' else 'bdate')), ('year fractions', Axis(m, 'float'))]
    m.note(spec={k: v for k, v in s.items() if k != 'dc'}, axis=a.kind, base=str(a.at(0)), others=[str(x.at(0)) for _, x in others])
    m.sig(a.kind, s['dtype'], s['ftype'], s['model'], gen.dc_name(s['dc']), len(s['days']))
    want = market_values(a, s, s['dc'])
    for name, ax in others:
        if name == 'year fractions':
            if s['dc'] is not None:
                continue
            ax.f0 = r.choice((0., 0., .25, -1.5, 2020.5))
            if s['back'] and any(d - s['back'] == s['first'] for d in s['days']):
                # computed and given float dates of the same day may differ by rounding: not the same fixing
                continue
        else:
            ax.ordinal = a.ordinal + r.choice((1, -1, 28, 365, 1461, 10000, -3333))
            if name == 'other date type' and r.random() < .3:
                ax.ordinal = a.ordinal
        got = market_values(ax, s, s['dc'])
        m.true(list(got) == list(want), 'harness: other values')
        for k in want:
            (v, sc, rel), (w, *_) = want[k], got[k]
            if isinstance(v, str) or isinstance(w, str):
                if k in ('yield', 'fair rate', 'fair collared rate', 'fit'):
                    m.true(v == w, 'no solution on %s' % name, of=k, got=w, want=v)
                    m.hit('no solution')
                    continue
                m.true(v == w, 'error on %s' % name, of=k, got=w, want=v)
            vs, ws = (x if isinstance(x, (list, tuple)) else [x] for x in (v, w))
            m.true(len(vs) == len(ws), 'number of values on %s' % name, of=k, got=ws, want=vs)
            for x, y in zip(vs, ws):
                m.eq(y, x, '%s differs on %s' % (k, name), rel, rel * sc, axis=ax.kind, base=str(ax.at(0)))
            m.hit('moved ' + name)


# ------------------------------------------------------------------------------------------------------------ C39
def c39_curve(m):
    """changing a curve fails: it is as before"""
    r = m.rng
    tick = Tick()
    ax = Axis(m)
    days = gen.grid_days(m, r.choice((1, 2, 3, 8)), r.choice((0, 30)), hi=5000)
    kind = r.choice(('zero', 'df', 'cash', 'short', 'intensity', 'survival', 'hazard', 'forward', 'date', 'vol'))
    cls = dict(zero=dcf.ZeroRateCurve, df=dcf.DiscountFactorCurve, cash=dcf.CashRateCurve, short=dcf.ShortRateCurve, intensity=dcf.FlatIntensityCurve,
               survival=dcf.SurvivalProbabilityCurve, hazard=dcf.HazardRateCurve, forward=dcf.ForwardCurve, date=dcf.DateCurve,
               vol=dcf.TerminalVolatilityCurve)[kind]
    positive = kind in ('df', 'survival', 'forward')
    if days == [0] and kind in ('df', 'survival'):
        days = [0, r.randint(1, 900)]  # log rate interpolation has no rate at time zero
    vals = [r.uniform(.5, .99) for _ in days] if positive else [r.uniform(.01, .2) for _ in days]
    tau = r.choice((gen.yf, gen.act365))
    c = cls([ax.at(d) for d in days], vals, origin=ax.at(0), day_count=ticking(tick, tau))
    q = [ax.at(d) for d in gen.query_days(m, days, 5, lo=1)]
    m.note(type=cls.__name__, axis=ax.kind, days=days, values=vals)

    def state():
        at, tick.at = tick.at, None
        s = tuple(c.domain), tuple(c(q)), tuple(c(list(c.domain))), c.origin, dict(c.fixings), id(getattr(c, 'spread', None)), plain(c.kwargs)
        tick.at = at
        return s
    before = state()
    for _ in range(3):
        w = r.choice(('day count', 'day count', 'value', 'date', 'arith', 'spread', 'cast', 'zero division'))
        d = r.choice(days) if r.random() < .5 else max(days) + r.randint(1, 500)
        k = 0
        if w == 'day count':
            # the k-th use of the day count function fails, for each k
            k = 0
            while k < 60:
                k += 1
                tick.arm(k)
                try:
                    c[ax.at(d)] = r.choice(vals)
                except Inject:
                    tick.arm(None)
                    m.true(state() == before, 'failed assignment changed the curve', call=k, got=state(), want=before)
                    m.hit('failed assignment')
                    continue
                break
            tick.arm(None)
            # that one went well
            before = state()
        elif w == 'value':
            bad = r.choice(('abc', None, [1.], object()) + ((-1., 0.) if kind in ('df', 'forward') else ()))
            e = look(lambda: c.__setitem__(ax.at(d), bad))
            if e is None:
                m.fail('invalid value accepted', value=bad, type=cls.__name__)
            m.true(state() == before, 'refused value changed the curve', value=bad, got=state(), want=before)
            m.hit('refused value')
        elif w == 'date':
            bad = r.choice(('nonsense', [], object()))
            e = look(lambda: c.__setitem__(bad, vals[0]))
            m.true(e is not None, 'invalid date accepted', value=str(bad))
            m.true(state() == before, 'refused date changed the curve', date=str(bad), got=state(), want=before)
            m.hit('refused date')
        elif w == 'spread' and hasattr(c, 'spread'):
            if c.spread is None:
                c.spread = lambda x: .001
                before = state()
            m.raises(TypeError, lambda: setattr(c, 'spread', lambda x: .5), 'second spread')
            m.true(state() == before, 'refused spread changed the curve', got=state(), want=before)
            if r.random() < .5:
                c.spread = None
                before = state()
            m.hit('refused spread')
        elif w == 'cast' and kind in ('zero', 'df', 'cash', 'intensity', 'survival'):
            other = dcf.DiscountFactorCurve if kind in ('zero', 'cash') else dcf.ZeroRateCurve if kind == 'df' else dcf.SurvivalProbabilityCurve
            for k in (1, 2, 3, 5, 9):
                tick.arm(k)
                look(lambda: other(c))
                tick.arm(None)
            m.true(state() == before, 'failed cast changed the source', got=state(), want=before)
            e = look(lambda: other(c, [.1] * len(days)))
            m.true(isinstance(e, list) and e[:1] == ['error'], 'cast with data accepted')
            m.hit('failed cast')
        elif w == 'zero division' and kind in ('zero', 'date', 'vol'):
            z = cls([ax.at(x) for x in days], [0.] * len(days), origin=ax.at(0), day_count=tau)
            m.raises(ZeroDivisionError, lambda: c / z, 'division by zero curve')
            m.true(state() == before, 'failed division changed the curve', got=state(), want=before)
            m.hit('zero division')
        else:
            for k in (1, 2, 4, 7):
                tick.arm(k)
                look(lambda: c + c)
                look(lambda: c * c)
                tick.arm(None)
            m.true(state() == before, 'failed arithmetic changed the curve', got=state(), want=before)
            m.hit('failed arithmetic')
        m.sig(kind, ax.kind, w)
    # still works
    x = ax.at(max(days) + 777)
    c[x] = vals[0]
    m.eq(c(x), vals[0] + (c.spread(x) if getattr(c, 'spread', None) else 0.), 'assignment after failures', 1e-9, 0)


def c39_build(m):
    """objects which cannot be built raise, their arguments stay"""
    r = m.rng
    ax = Axis(m)
    days = gen.grid_days(m, r.choice((1, 2, 5)), 0, hi=5000)
    dates = [ax.at(d) for d in days]
    n = len(days)
    vals = [r.uniform(.5, .9) for _ in days]
    longer = vals + [.4]
    cls = r.choice((dcf.DateCurve, dcf.ZeroRateCurve, dcf.DiscountFactorCurve, dcf.CashRateCurve, dcf.SurvivalProbabilityCurve, dcf.TerminalVolatilityCurve, dcf.ForwardCurve))
    ds, vs = list(dates), list(longer)
    m.raises(ValueError, lambda: cls(ds, vs), 'curve of unequal lengths', type=cls.__name__)
    if n > 1:
        m.raises(ValueError, lambda: cls(ds[1:], ds and vals), 'curve of unequal lengths', type=cls.__name__)
    m.true(ds == dates and vs == longer, 'arguments changed')
    f = dcf.Curve
    m.raises(ValueError, lambda: f([0., 1.], [1.]), 'curve of unequal lengths')
    m.hit('unequal lengths')
    for c in (dcf.DiscountFactorCurve, dcf.ForwardCurve, dcf.MarginalSurvivalProbabilityCurve):
        bad = list(vals)
        bad[r.randrange(n)] = r.choice((0., -1.)) if c is not dcf.MarginalSurvivalProbabilityCurve else .5
        if c is dcf.MarginalSurvivalProbabilityCurve:
            continue
        m.raises(ValueError, lambda: c(dates, bad), 'non positive values', type=c.__name__)
        m.hit('non positive')
    # rate curves of rate curves do not take data
    z = dcf.ZeroRateCurve(dates, vals)
    for c in (dcf.ZeroRateCurve, dcf.DiscountFactorCurve, dcf.CashRateCurve):
        m.raises(TypeError, lambda: c(z, vals), 'cast with data', type=c.__name__)
    m.hit('cast with data')
    v = dcf.TerminalVolatilityCurve(dates, vals)
    for c in (dcf.TerminalVolatilityCurve, dcf.InstantaneousVolatilityCurve):
        m.raises(TypeError, lambda: c(v, vals), 'cast with data', type=c.__name__)
    s = dcf.SurvivalProbabilityCurve(dates, vals)
    for c in (dcf.SurvivalProbabilityCurve, dcf.FlatIntensityCurve):
        m.raises(TypeError, lambda: c(s, vals), 'cast with data', type=c.__name__)
    # cashflow lists
    for c in (dcf.CashFlowList, dcf.FixedCashFlowList):
        m.raises(ValueError, lambda: c(dates, longer), 'list of unequal lengths', type=c.__name__)
    m.raises(ValueError, lambda: dcf.CashFlowLegList([dcf.FixedCashFlowList(dates, vals), z]), 'leg of other type')
    m.raises(ValueError, lambda: dcf.bond(0., 5., notional_amount='100'), 'notional of other type')
    m.hit('lists')
    # ratings
    ms = dcf.RatingClass('A', {'A': .001, 'B': .01, 'C': .1}).masterscale
    for bad in (1, None, 'Z', [.1], 2):
        m.raises(TypeError, lambda: dcf.RatingClass(bad, ms), 'rating of other type', value=str(bad))
    m.hit('ratings')
    m.sig(cls.__name__, ax.kind, n)
    m.true(z(dates[0]) == dcf.ZeroRateCurve(dates, vals)(dates[0]), 'curve changed')


def c39_fx(m):
    """an add which fails leaves the container as it was"""
    r = m.rng
    ax = Axis(m)
    o = ax.at(0)
    tick = Tick()

    def curve():
        c = dcf.ZeroRateCurve([o, ax.at(900)], [r.uniform(0., .05) for _ in '12'], origin=o)
        return c
    k = dcf.FxContainer('EUR', curve())
    names = ['USD', 'GBP', 'JPY', 'CHF'][:r.choice((1, 2, 4))]
    cs = {n: curve() for n in names}
    for n in names:
        k.add(n, cs[n], r.uniform(.3, 120.))
    q = [ax.at(r.randint(0, 2000)) for _ in range(2)]

    def state():
        return sorted((p, tuple(c(q)), id(c)) for p, c in dict.items(k))
    before = state()
    for _ in range(4):
        n = r.choice(names + ['SEK'])
        bad = r.choice(('name', 'curve', 'spot', 'int spot', 'zero spot', 'negative', 'pair', 'other'))
        if bad == 'name':
            f = lambda: k.add(r.choice((1, None, 2.)), curve(), 1.1)
        elif bad == 'curve':
            f = lambda: k.add(n, r.choice((None, .02, lambda x: .02)), 1.1)
        elif bad == 'spot':
            f = lambda: k.add(n, curve(), r.choice((None, '1.1')))
        elif bad == 'int spot':
            f = lambda: k.add(n, curve(), None)
        elif bad == 'zero spot':
            f = lambda: k.add(n, curve(), 0.)
        elif bad == 'negative':
            f = lambda: k.add(n, curve(), -1.)
        elif bad == 'pair':
            f = lambda: k.__setitem__(('EUR', n), r.choice((curve(), 1.1, None)))
        else:
            f = lambda: k.__setitem__(n, r.choice((curve(), 1.1, None)))
        e = look(f)
        m.true(isinstance(e, list) and e[:1] == ['error'], 'invalid add accepted', bad=bad)
        m.true(state() == before, 'failed add changed the container', bad=bad, currency=n)
        m.hit('failed add')
        m.sig('fx', ax.kind, bad, n in names, len(names))
        miss = look(lambda: k['EUR', 'XYZ'])
        m.true(isinstance(miss, list) and miss[:1] == ['error'], 'unknown pair accepted')


PROPS = {
    'C36': Prop('C36', [Scenario('integrate', c36_integrate, 1500), Scenario('spread', c36_spread, 800)],
                {'integral with spread': 500, 'terminal volatility with spread': 80, 'derivative with spread': 30, 'function as spread': 60, 'integral': 2000, 'function': 2000, 'additive': 1500, 'derivative': 200, 'slope': 80}, SIT),
    'C37': Prop('C37', [Scenario(k, c37(k), n) for k, n in dict(curve=500, model=500, fx=150, market=120, rating=100).items()],
                {'read': 100000, 'change': 1500, 'change seen': 500, 'kind market': 100, 'kind fx': 100, 'kind rating': 50, 'kind zero': 20, 'kind df': 20, 'kind cash': 20,
                 'kind short': 3, 'kind survival': 3, 'kind hazard': 1, 'kind normal': 20, 'kind lognormal': 20, 'kind displaced': 20}, SIT),
    'C38': Prop('C38', [Scenario('moved', c38_moved, 400)],
                {'moved days later': 10000, 'moved other date type': 10000, 'moved year fractions': 3000}, SIT),
    'C39': Prop('C39', [Scenario('curve', c39_curve, 1500), Scenario('build', c39_build, 500), Scenario('fx', c39_fx, 600)],
                {'failed assignment': 1000, 'refused value': 200, 'refused date': 200, 'refused spread': 100, 'failed cast': 50, 'zero division': 50, 'failed arithmetic': 100,
                 'unequal lengths': 400, 'non positive': 800, 'failed add': 2000, 'ratings': 400}, SIT),
}

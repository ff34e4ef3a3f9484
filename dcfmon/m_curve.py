"""C01-C07: interpolations, curves as maps, dates, fixings and spreads, arithmetic, kwargs, tables"""
import datetime
import math

import dcf
from businessdate import BusinessDate, BusinessPeriod
from dcf import interpolation as I

from . import gen, ref
from .core import Prop, Scenario
from .gen import Axis, tau_of
from .m_more import c01_refused, c06_points
from .m_rates import c05_types

# ------------------------------------------------------------------------------------------------------------ C01
PLAIN = ['left', 'constant', 'right', 'nearest', 'linear', 'loglinear', 'loglinearrate', 'logconstantrate', 'zero', 'no']
RATE = 'loglinearrate', 'logconstantrate'
POSITIVE = 'loglinear', 'loglinearrate', 'logconstantrate'


def _xgrid(m, n, rate=False):
    """ascending distinct floats"""
    r = m.rng
    mode = r.choice(('int', 'dyadic', 'random', 'tiny', 'huge', 'mixed'))
    m.hit('x %s' % mode)
    x = float(r.choice((0, 0, 1, -5, 3))) if not rate else float(r.choice((0, 0, 1, 2)))
    out = []
    for i in range(n):
        out.append(x)
        x += {'int': float(r.randint(1, 3)), 'dyadic': r.randint(1, 64) / 64., 'random': r.uniform(.01, 2.),
              'tiny': r.uniform(1e-6, 1e-5), 'huge': r.uniform(10., 1000.),
              'mixed': r.choice((1e-6, 1e-3, .1, 1., 30., 400.))}[mode]
    if rate and mode in ('tiny', 'huge', 'mixed') and r.random() < .5:
        out = [v + .5 for v in out]
    return mode, out


def _yvals(m, xs, name):
    r = m.rng
    if name in RATE:
        # y = exp(-r x) for rates of moderate size (and any positive value at zero)
        return [math.exp(-r.uniform(-.05, .1) * x) if abs(x) < 3000 else math.exp(-r.uniform(0., .01) * x)
                for x in xs] if r.random() < .8 else [r.uniform(.5, 1.5) if x else r.choice((1., 1., .9)) for x in xs]
    if name in POSITIVE:
        return [math.exp(r.uniform(-3, 3)) for _ in xs]
    w = r.random()
    if w < .15:
        return [r.choice((0., 1., -1.)) for _ in xs]
    if w < .3:
        return [float(i) for i in range(len(xs))]
    if w < .4:
        return [r.uniform(-1e6, 1e6) for _ in xs]
    return [r.uniform(-5., 5.) for _ in xs]


def _queries(m, xs, n):
    r = m.rng
    span = (xs[-1] - xs[0]) or 1.
    out = []
    for _ in range(n):
        w = r.random()
        i = r.randrange(len(xs))
        x = xs[i]
        if w < .25:
            q = x
        elif w < .45 and i + 1 < len(xs):
            q = x + (xs[i + 1] - x) * r.choice((.5, .25, .75, r.random(), .01, .99))
        elif w < .6:
            q = math.nextafter(x, r.choice((-math.inf, math.inf)))
        elif w < .7:
            q = x + r.choice((-1, 1)) * r.choice((1e-9, 1e-7, 1e-4))
        elif w < .85:
            q = xs[-1] + span * r.choice((.01, .5, 1., 3.))
        else:
            q = xs[0] - span * r.choice((.01, .5, 1., 3.))
        if r.random() < .1 and q == int(q):
            q = int(q)
        out.append(q)
    return out


def _tie(pts, x):
    """x too close to the middle of two points to say which one is nearest (unless exact)"""
    p = sorted(pts)
    d = sorted((abs(a - x), a) for a, b in p)
    if len(d) < 2 or x == d[0][1]:
        return False
    gap = d[1][0] - d[0][0]
    if gap == 0. and all(float(a * 64).is_integer() for _, a in d[:2]) and float(x * 256).is_integer():
        return False  # exact tie: documented by example to go left
    return gap <= 1e-9 * (abs(d[0][1]) + abs(d[1][1]) + 1e-300)


def _scale(names, pts, x):
    """rounding scale for the comparison at x: (usable, relative, absolute)"""
    p = sorted(pts)
    a = max(abs(v) for _, v in p)
    eps = 1e-14 * max(abs(x), abs(p[0][0]), abs(p[-1][0]))  # rounding of x, times slope
    if 'linear' in names and len(p) > 1:
        s = max(abs((v - u) / (b - c)) for (c, u), (b, v) in zip(p[:-1], p[1:]))
        a += 0 if p[0][0] <= x <= p[-1][0] else s * max(abs(x - p[0][0]), abs(x - p[-1][0]))
        a += s * eps * 1e11
    rel = 1e-9
    for nm in ('loglinear',):
        if nm in names and len(p) > 1:
            l = [(c, math.log(u)) for c, u in p]
            s = max(abs((v - u) / (b - c)) for (c, u), (b, v) in zip(l[:-1], l[1:]))
            e = max(abs(u) for _, u in l) + (0 if p[0][0] <= x <= p[-1][0] else s * max(abs(x - p[0][0]), abs(x - p[-1][0])))
            if e > 500:
                return False, 0, 0
            rel = max(rel, 1e-12 * e, s * eps)
    if set(names) & set(RATE):
        l = [(c, math.log(u) / c) for c, u in p if c != 0.]
        s = max([abs((v - u) / (b - c)) for (c, u), (b, v) in zip(l[:-1], l[1:])] or [0.])
        e = max(abs(u) for _, u in l)
        if not l[0][0] <= x <= l[-1][0]:
            e += s * max(abs(x - l[0][0]), abs(x - l[-1][0]))
        e *= abs(x)
        if e > 500:
            return False, 0, 0
        d = max(1e-15 * (1 + abs(u * c)) / abs(c) for c, u in l)  # rounding of the rates log(y)/x
        if len(l) > 1 and not l[0][0] <= x <= l[-1][0]:
            d *= 1 + max(abs(x - l[0][0]), abs(x - l[-1][0])) / min(b[0] - a[0] for a, b in zip(l[:-1], l[1:]))
        rel = max(rel, 1e-12 * e, s * eps * abs(x), 4 * d * abs(x))
    return True, rel, 1e-11 * a


def _build(m, cls, name, xs, ys):
    """the different ways to build the same interpolation"""
    r = m.rng
    way = r.choice(('list', 'tuple', 'shuffled', 'shuffled', 'dict', 'ints'))
    m.hit('built by %s' % way)
    if way == 'dict':
        return cls.from_dict(dict(gen.shuffled(m, zip(xs, ys))))
    pts = list(zip(xs, ys))
    if way == 'shuffled':
        pts = gen.shuffled(m, pts)
    a, b = [x for x, _ in pts], [y for _, y in pts]
    if way == 'ints':
        a = [int(x) if x == int(x) else x for x in a]
    if way == 'tuple':
        a, b = tuple(a), tuple(b)
    return cls(a, b)


def c01_single(m):
    r = m.rng
    name = r.choice(PLAIN)
    n = r.choice((1, 1, 2, 2, 3, 4, 5, 8, 13, 30, 60))
    mode, xs = _xgrid(m, n, name in RATE)
    if name in RATE and all(x == 0. for x in xs):
        xs = [x + 1. for x in xs]
    ys = _yvals(m, xs, name)
    pts = list(zip(xs, ys))
    f = _build(m, getattr(I, name), name, xs, ys)
    m.note(interpolation=name, points=pts)
    qs = _queries(m, xs, 40)
    m.sig(name, min(n, 4), mode, 0. in xs)
    for x in qs + gen.shuffled(m, qs):
        m.true((x in f) == (x in xs) if name not in RATE else True, '`x in interpolation` is not x one of the points', x=x)
        ok, rel, ab = _scale((name,), pts, x) if name != 'no' else (True, 0, 0)
        if not ok:
            continue
        got = f(x)
        want = ref.one(name, pts, x)
        if name == 'no' or want is None:
            m.true(got == want and (got is None) == (want is None), 'no interpolation', x=x, got=got, want=want)
            continue
        if name == 'nearest' and _tie(pts, x):
            m.hit('nearest tie skipped')
            continue
        m.eq(got, want, 'interpolation %s differs from its documented function' % name, rel, ab, x=x)
        m.hit('on point' if x in xs else 'outside' if not xs[0] < x < xs[-1] else 'between')
    for x, y in pts:
        ok, rel, ab = _scale((name,), pts, x)
        if ok:
            m.eq(f(x), y, 'interpolation %s does not return the value of its point' % name, rel, ab, x=x)


SCHEMES = {'linear_scheme': ref.LINEAR, 'constant_linear_constant': ref.LINEAR, 'log_linear_scheme': ref.LOGLINEAR,
           'log_linear_rate_scheme': ref.LOGRATE, 'zero_linear_scheme': ref.ZEROLINEAR, 'zero_linear_constant': ref.ZEROLINEAR,
           'logconstant_loglinear_logconstant': ref.LOGLINEAR,
           'logconstantrate_loglinearrate_logconstantrate': ref.LOGRATE}
PARTS = ['left', 'constant', 'right', 'nearest', 'linear', 'loglinear', 'loglinearrate', 'logconstantrate', 'zero']


def _scheme_of(m):
    """(how to build a scheme on points, names of its three parts)"""
    r = m.rng
    w = r.random()
    if w < .4:
        nm = r.choice(sorted(SCHEMES))
        return nm, getattr(I, nm), SCHEMES[nm]
    base = r.choice([I.interpolation_scheme, I.interpolation_scheme, I.linear_scheme, I.log_linear_scheme,
                     I.zero_linear_scheme])
    dflt = {I.interpolation_scheme: ref.LINEAR, I.linear_scheme: ref.LINEAR, I.log_linear_scheme: ref.LOGLINEAR,
            I.zero_linear_scheme: ref.ZEROLINEAR}[base]
    if w < .5:
        return base.__name__, lambda x, y: base(x, y), dflt
    a, b, c = (r.choice(PARTS) for _ in range(3))
    A, B, C = (getattr(I, k) for k in (a, b, c))
    seq = r.choice((tuple, list))
    if w < .6:
        return base.__name__ + '(%s)' % b, lambda x, y: base(x, y, B), (dflt[0], b, dflt[2])
    if w < .65:
        return base.__name__ + '((%s,))' % b, lambda x, y: base(x, y, seq((B,))), (dflt[0], b, dflt[2])
    if w < .75:
        return base.__name__ + '((%s,%s))' % (b, c), lambda x, y: base(x, y, seq((B, C))), (c, b, c)
    return base.__name__ + '((%s,%s,%s))' % (a, b, c), lambda x, y: base(x, y, seq((A, B, C))), (a, b, c)


def c01_scheme(m):
    r = m.rng
    label, build, names = _scheme_of(m)
    n = r.choice((1, 1, 2, 2, 3, 4, 5, 8, 13, 30, 60))
    rate = bool(set(names) & set(RATE))
    mode, xs = _xgrid(m, n, rate)
    if rate and (all(x == 0. for x in xs)):
        xs = [x + 1. for x in xs]
    ys = _yvals(m, xs, 'loglinearrate' if rate else 'loglinear' if set(names) & set(POSITIVE) else 'linear')
    if set(names) & set(POSITIVE) and any(y <= 0 for y in ys):
        ys = [abs(y) + .1 for y in ys]
    pts = list(zip(xs, ys))
    order = gen.shuffled(m, pts)
    f = build([x for x, _ in order], [y for _, y in order])
    m.note(scheme=label, points=pts)
    m.sig(names, min(n, 4), 0. in xs)
    for x in _queries(m, xs, 40):
        if 'nearest' in names and _tie(pts, x):
            continue
        ok, rel, ab = _scale(names, pts, x)
        if not ok:
            continue
        lo, hi = ref.first_last(names[0], names[2], pts)
        m.hit('scheme left' if x < lo else 'scheme right' if x > hi else 'scheme mid')
        m.eq(f(x), ref.scheme(names, pts, x), 'scheme value differs from its documented piecewise function', rel, ab, x=x)
    m.hit('scheme of %d given' % label.count(',') if '(' in label else 'named scheme')


def c01_other(m):
    r = m.rng
    y = r.uniform(-1e3, 1e3)
    f = I.flat(y)
    for _ in range(5):
        x = r.choice((0, 0., 1, -7.5, r.uniform(-1e6, 1e6)))
        m.eq(f(x), y, 'flat', 1e-15, 0, x=x)
    m.eq(I.flat()(r.uniform(-9, 9)), 0., 'default flat')
    n = r.choice((1, 2, 5, 20))
    mode, xs = _xgrid(m, n)
    ys = _yvals(m, xs, 'linear')
    d = r.choice((None, 0., 42, -1.5, 'x'))
    order = gen.shuffled(m, zip(xs, ys))
    g = I.default_value_interpolation([a for a, _ in order], [b for _, b in order], d)
    m.note(points=order, default=d)
    m.sig('default', d, min(n, 4))
    for x in _queries(m, xs, 20):
        want = ref.one('zero', list(zip(xs, ys)), x) if x in xs else d
        m.same(g(x), want, 'default value interpolation', x=x)
    # log types refuse non positive values
    nm = r.choice(('loglinear', 'loglinearrate', 'logconstantrate'))
    bad = [1.] * n
    bad[r.randrange(n)] = r.choice((0., -1e-9, -1.))
    m.raises(ValueError, lambda: getattr(I, nm)(xs, bad), 'log interpolation of non positive value')
    # interpolation names of Curve give the same functions
    nm = r.choice(['linear', 'nearest', 'left', 'right', 'constant', 'linear_scheme', 'zero_linear_scheme', 'zero',
                   'log_linear_scheme', 'loglinear'])
    names = SCHEMES.get(nm)
    if 'log' in nm:
        ys = [abs(v) + .1 for v in ys]
    c = dcf.Curve(xs, ys, nm if r.random() < .5 else getattr(I, nm))
    pts = list(zip(xs, ys))
    for x in _queries(m, xs, 10):
        if nm == 'nearest' and _tie(pts, x):
            continue
        ok, rel, ab = _scale(names or (nm,), pts, x)
        if ok:
            want = ref.scheme(names, pts, x) if names else ref.one(nm, pts, x)
            m.eq(c(x), want, 'Curve with interpolation %s' % nm, rel, ab, x=x)
    m.hit('curve interpolation %s' % nm)


# interpolation of the types if none is given
DEFAULTS = {ref.LINEAR: I.linear_scheme, ref.LOGLINEAR: I.log_linear_scheme, ref.LOGRATE: I.log_linear_rate_scheme,
            ref.CONST: I.constant}


# ------------------------------------------------------------------------------------------------------------ C02
def _curve_types():
    pos = 'pos'
    prob = 'prob'
    return [
        ('Curve', dcf.Curve, ref.LINEAR, 'any'), ('DateCurve', dcf.DateCurve, ref.LINEAR, 'any'),
        ('ZeroRateCurve', dcf.ZeroRateCurve, ref.LINEAR, 'any'), ('DiscountFactorCurve', dcf.DiscountFactorCurve, ref.LOGRATE, prob),
        ('ShortRateCurve', dcf.ShortRateCurve, ref.CONST, 'any'), ('CashRateCurve', dcf.CashRateCurve, ref.LINEAR, 'any'),
        ('FlatIntensityCurve', dcf.FlatIntensityCurve, ref.LINEAR, pos), ('HazardRateCurve', dcf.HazardRateCurve, ref.CONST, pos),
        ('SurvivalProbabilityCurve', dcf.SurvivalProbabilityCurve, ref.LOGRATE, prob),
        ('MarginalSurvivalProbabilityCurve', dcf.MarginalSurvivalProbabilityCurve, ref.LOGLINEAR, prob),
        ('TerminalVolatilityCurve', dcf.TerminalVolatilityCurve, ref.LINEAR, pos),
        ('InstantaneousVolatilityCurve', dcf.InstantaneousVolatilityCurve, ref.LINEAR, pos),
        ('ForwardCurve', dcf.ForwardCurve, ref.LOGLINEAR, pos),
        ('FxForwardCurve', dcf.FxForwardCurve, ref.LOGLINEAR, pos)]


INTERP = [(None, None), (None, None), ('linear', None), ('left', None), ('right', None), ('constant', None),
          ('linear_scheme', ref.LINEAR), ('zero_linear_scheme', ref.ZEROLINEAR)]
INTERP_POS = INTERP + [('log_linear_scheme', ref.LOGLINEAR)]


def _interp_arg(m, nm):
    """by name, class or tuple"""
    r = m.rng
    if nm is None:
        return None
    return nm if r.random() < .5 else getattr(I, nm)


def _val(m, kind):
    r = m.rng
    if kind == 'any':
        return r.choice((0., r.uniform(-.05, .2), r.uniform(-.05, .2), r.uniform(-3, 3), r.randint(-3, 3)))
    if kind == 'rate':
        return r.choice((0., r.uniform(-.02, .08), r.uniform(0., .1)))
    if kind == 'intensity':
        return r.uniform(.0001, .1)
    if kind == 'pos':
        return r.choice((1, r.uniform(.01, .5), r.uniform(.01, .5), r.uniform(.1, 100.)))
    return r.uniform(.3, .999)


def _safe(names, pts, x):
    """well conditioned comparison of x against the points (year fractions)"""
    p = sorted(pts)
    if len(p) > 1 and min(b[0] - a[0] for a, b in zip(p[:-1], p[1:])) < 1e-9:
        return False, 0, 0
    return _scale(names, pts, x)


class CurveState:
    """a dcf curve together with the points it should have"""

    def __init__(self, m, kinds=None, types=None, n=None, customs=True, dcs=True, plain_linear=True):
        r = m.rng
        self.m = m
        nm, cls, names, vk = r.choice(types or _curve_types())
        self.label, self.cls, self.vk = nm, cls, vk
        self.dated = cls is not dcf.Curve
        self.axis = ax = Axis(m, r.choice(kinds) if kinds else None if self.dated else 'float')
        inm, inames = r.choice(INTERP_POS if vk in ('pos', 'intensity') else INTERP) if customs and vk != 'prob' else (None, None)
        if inm == 'linear' and not plain_linear:  # extrapolates to anything
            inm = inames = None
        self.interp = inm
        self.names = names if inm is None else inames or (inm, inm, inm)
        n = r.choice((1, 1, 2, 3, 5, 8)) if n is None else n
        self.explicit = self.dated and r.random() < .6
        lo = r.choice((0, 0, 1, 30, 365)) if not self.dated or self.explicit else 0
        days = gen.grid_days(m, n, lo) if n else []
        if set(self.names) & set(RATE) and all(d == 0 for d in days):
            days = days + [(days or [0])[-1] + r.randint(1, 500)]
            n += 1
        self.days = days
        order = gen.shuffled(m, days) if self.explicit or not self.dated else days
        if self.dated and not self.explicit and r.random() < .3 and set(self.names) & {'constant', 'linear', 'left'} \
                and not set(self.names) & set(RATE):
            order = gen.shuffled(m, days)  # the origin is the first *given* date
        self.dc = r.choice(gen.DAYCOUNTS if dcs else [None]) if self.dated else None
        if self.dc is gen.thirty360:
            self.dc = gen.act360  # two dates could have the same year fraction
        self.origin = (ax.at(0) if self.explicit else ax.at(order[0]) if order else None)
        self.pts = {}
        for d in order:
            v = _val(m, vk)
            if set(self.names) & set(RATE):
                v = math.exp(-r.uniform(.001, .1) * max(d, 1) / 365.25)
            self.pts[ax.at(d)] = v
        kw = {}
        if inm is not None:
            kw['interpolation'] = _interp_arg(m, inm)
        if self.explicit:
            kw['origin'] = ax.at(0)
        if self.dc is not None:
            kw['day_count'] = gen.named(m, self.dc)
        self.kw = kw
        self.given = gen.container(m, list(self.pts)), gen.container(m, list(self.pts.values()))
        self.c = cls(*self.given, **kw)
        m.note(type=nm, kind=ax.kind, interpolation=inm, origin=self.origin, day_count=gen.dc_name(self.dc),
               points=[(str(a), b) for a, b in self.pts.items()])

    def new_value(self, day):
        if set(self.names) & set(RATE):
            return math.exp(-self.m.rng.uniform(.001, .1) * max(day, 1) / 365.25)
        return _val(self.m, self.vk)

    def fpts(self):
        tau = tau_of(self.dc)
        if not self.dated:
            return list(self.pts.items())
        return [(tau(self.origin, d), v) for d, v in self.pts.items()]

    def fx(self, x):
        return tau_of(self.dc)(self.origin, x) if self.dated else x

    def value(self, x):
        return ref.scheme(self.names, self.fpts(), self.fx(x))

    def check(self, x, what, curve=None, add=0.):
        ok, rel, ab = _safe(self.names, self.fpts(), self.fx(x))
        if not ok:
            return
        if self.label in ('ForwardCurve', 'FxForwardCurve') and not x <= max(self.pts):
            return
        if abs(self.fx(x)) > 0 and set(self.names) & {'zero', 'left', 'right', 'constant', 'nearest'} and x not in self.pts:
            # next to a jump in floating point time
            if any(abs(self.fx(x) - a) < 1e-9 for a, _ in self.fpts()):
                return
        want = self.value(x) + add
        self.m.eq((self.c if curve is None else curve)(x), want, what, rel, ab + 1e-12, x=x)

    def fresh(self):
        order = list(self.pts)
        if self.explicit or not self.dated:
            order = gen.shuffled(self.m, order)
        kw = dict(self.kw)
        return self.cls(order, [self.pts[d] for d in order], **kw)


def c02_history(m):
    r = m.rng
    s = CurveState(m, n=r.choice((1, 1, 2, 3, 5, 8)))
    ax, c = s.axis, s.c
    history = []
    # second curve of the very same containers, both must stay apart
    first, raw = dict(s.pts), tuple(list(v) for v in s.given)
    twin = s.cls(*s.given, **s.kw) if r.random() < .5 else None
    tdays = list(s.days)
    hi = (max(s.days) if s.days else 0) + r.choice((10, 400, 4000))
    for k in range(r.choice((3, 10, 20, 60)) if m.tier == 'thorough' else r.choice((3, 8, 20))):
        op = r.choice(('set', 'set', 'new', 'new', 'new', 'get', 'call', 'list', 'contains', 'iter', 'keyerror'))
        day = r.choice(s.days) if s.days and op in ('set', 'get') else r.choice(
            (r.randint(0, hi), (s.days and max(s.days) or 0) + r.randint(1, 100), r.randint(0, 40)))
        if set(s.names) & set(RATE) and day == 0 and op == 'new':
            day = 17
        x = ax.at(day)
        if x not in s.pts and any(abs(s.fx(x) - a) < 1e-9 for a, _ in s.fpts()):
            continue
        history.append((op, str(x)))
        m.note(history=history)
        if op in ('set', 'new'):
            v = s.new_value(day)
            history[-1] += (v,)
            # equal keys are one point, also 1 and 1.0
            y = int(x) if ax.kind == 'float' and x == int(x) and r.random() < .5 else x
            c[y] = v
            s.pts[x] = v
            if day not in s.days:
                s.days.append(day)
            m.hit('assign %s' % op)
            s.check(x, 'assigned point does not return the value')
            if y is not x:
                m.true(y in c and x in c, '`x in curve` depends on the number type', x=x)
                s.check(y, 'curve[x] with int', c.__getitem__)
                m.hit('int key')
        elif op == 'get':
            if x in s.pts:
                m.true(x in c, '`x in curve` false for a point', x=x)
                s.check(x, 'curve[x]', c.__getitem__)
        elif op == 'call':
            s.check(x, 'evaluation after assignments')
        elif op == 'list':
            xs = [ax.at(r.randint(0, hi)) for _ in range(3)] + list(s.pts)[:3]
            if s.label in ('ForwardCurve', 'FxForwardCurve'):
                xs = [x for x in xs if x <= max(s.pts)]
            got = c(gen.container(m, xs))
            m.true(len(got) == len(xs), 'list evaluation has other length', got=got)
            for a, b in zip(xs, got):
                m.eq(b, c(a), 'value in list differs from single evaluation', 1e-12, 1e-12, x=a)
        elif op == 'contains':
            m.same(x in c, x in s.pts, '`x in curve`', x=x)
        elif op == 'keyerror':
            if x not in s.pts:
                m.raises(KeyError, lambda: c[x], 'curve[x] off the points', x=x)
        else:
            m.same(sorted(c), sorted(s.pts), 'iteration does not give the points')
            m.same(sorted(c.domain), sorted(s.pts), 'domain is not the points')
    m.sig(s.label, ax.kind, s.interp, s.explicit, len(s.pts) > len(history) // 2, gen.dc_name(s.dc))
    f = s.fresh() if s.explicit or not s.dated or list(s.pts)[0] == s.origin else None
    for day in gen.query_days(m, sorted(s.days), 14, lo=0 if not s.dated or set(s.names) & set(RATE) else -400):
        x = ax.at(day)
        s.check(x, 'curve after history differs from its points')
        if f is not None:
            if s.label in ('ForwardCurve', 'FxForwardCurve') and x > max(s.pts):
                continue
            a, b = c(x), f(x)
            m.eq(a, b, 'curve after history differs from fresh curve', 1e-9, 1e-12, x=x)
    for x in s.pts:
        s.check(x, 'point does not return its value after history')
    m.same(sorted(c.domain), sorted(s.pts), 'domain after history')
    for v, w in zip(s.given, raw):
        m.same(list(v), w, 'container given by the user changed by assignments')
    if twin is not None:
        now, s.pts = s.pts, first
        m.same(sorted(twin.domain), sorted(first), 'domain of second curve of the same lists changed')
        for x in list(first) + [ax.at(d) for d in gen.query_days(m, sorted(tdays), 8, lo=0)]:
            s.check(x, 'assignments to one curve changed another curve of the same lists', twin)
        x = ax.at(r.choice(tdays))
        v = s.new_value(r.choice(tdays))
        twin[x] = v
        first[x] = v
        s.check(x, 'assigned point of second curve', twin)
        s.pts = now
        s.check(x, 'assignment to second curve changed the first')
        m.hit('second curve of same lists')
    if ax.kind == 'float' and not s.dated and s.pts and r.random() < .5:
        # a point next to another is another point
        x = r.choice(sorted(s.pts))
        y = x + r.choice((1e-4, 1e-6, 1e-7, 1e-8, 1e-9)) * r.choice((-1., 1.))
        if y not in s.pts and y != x and (y > 0. or not set(s.names) & {'logconstantrate', 'neglogconstantrate'}):
            m.raises(KeyError, lambda: c[y], 'curve[x] next to a point', x=x, y=y)
            m.same(y in c, False, '`x in curve` next to a point', x=x, y=y)
            v = s.new_value(1)
            c[y] = v
            want = dict(s.pts)
            want[y] = v
            m.same(sorted(c), sorted(want), 'points after assignment next to a point', x=x, y=y)
            m.same(len(c.domain), len(want), 'number of points', x=x, y=y)
            for z in (x, y):
                m.eq(c[z], want[z], 'points next to each other', 1e-9, 1e-9 + 1e-14 * (1. + abs(x)) / abs(y - x), x=x, y=y, z=z)
            m.hit('point next to a point')
    m.hit('histories')


def c02_refused(m):
    r = m.rng
    nm, cls, names, vk = r.choice(_curve_types())
    ax = Axis(m, 'float' if cls is dcf.Curve else None)
    days = gen.grid_days(m, r.choice((1, 2, 3, 8)), 1)
    k = r.choice((-1, 1, 2))
    n = max(0, len(days) + k)
    if n == len(days) or n == 0:
        n = len(days) + 1
    vals = [_val(m, vk) for _ in range(n)]
    m.note(type=nm, n=len(days), values=vals)
    m.sig('refused', nm, k)
    m.raises(ValueError, lambda: cls([ax.at(d) for d in days], vals), '%d points and %d values accepted' % (len(days), n))
    m.hit('refused')


def c02_order(m):
    """order and container of the points never matter"""
    r = m.rng
    s = CurveState(m, n=r.choice((2, 3, 5, 8, 20)))
    if s.dated and not s.explicit:
        s.kw['origin'] = s.origin
    m.sig('order', s.label, s.axis.kind, s.interp)
    pts = list(s.pts.items())
    cs = []
    for _ in range(3):
        p = gen.shuffled(m, pts)
        cs.append(s.cls(gen.container(m, [a for a, _ in p]), gen.container(m, [b for _, b in p]), **s.kw))
    given = [c.domain for c in cs]
    for d in gen.query_days(m, s.days, 12, lo=0):
        x = s.axis.at(d)
        for c in cs:
            if s.label in ('ForwardCurve', 'FxForwardCurve') and x > max(s.pts):
                continue
            s.check(x, 'curve depends on the order of its points', c)
            m.eq(c(x), cs[0](x), 'curves of same points differ', 1e-12, 1e-13, x=x)
    for c in cs:
        m.same(sorted(c.domain), sorted(s.pts), 'domain')
    del given
    m.hit('orders')


# ------------------------------------------------------------------------------------------------------------ C03
def c03_daycount(m):
    r = m.rng
    dcount = dcf.daycount.day_count
    o = datetime.date(1950, 1, 1).toordinal()
    hi = datetime.date(2150, 1, 1).toordinal()
    sp = [datetime.date(2024, 2, 29), datetime.date(2023, 2, 28), datetime.date(2000, 2, 29), datetime.date(2100, 2, 28),
          datetime.date(1999, 12, 31), datetime.date(2000, 1, 1), datetime.date(2024, 12, 31), datetime.date(2024, 3, 31)]

    def rd():
        return r.choice(sp) if r.random() < .3 else datetime.date.fromordinal(r.randint(o, hi))
    for _ in range(40):
        a, b, c = rd(), rd(), rd()
        A, B, C = (BusinessDate(x.year, x.month, x.day) for x in (a, b, c))
        want = (b.toordinal() - a.toordinal()) / 365.25
        m.eq(dcount(a, b), want, 'year fraction of datetime.date', 1e-13, 1e-15, start=a, end=b)
        m.eq(dcount(A, B), want, 'year fraction of BusinessDate', 1e-13, 1e-15, start=a, end=b)
        for x, y, z in ((a, b, c), (A, B, C)):
            m.eq(dcount(x, y) + dcount(y, z), dcount(x, z), 'year fraction not additive', 1e-12, 1e-12, dates=(x, y, z))
            m.eq(dcount(x, y), -dcount(y, x), 'year fraction not antisymmetric', 1e-13, 1e-15, dates=(x, y))
            m.true(dcount(x, x) == 0., 'year fraction of empty period')
        u, v = r.uniform(-50, 150), r.choice((r.uniform(-50, 150), 0., 3))
        m.eq(dcount(u, v), v - u, 'float year fraction', 1e-13, 1e-13, start=u, end=v)
        t = datetime.datetime(a.year, a.month, a.day), datetime.datetime(b.year, b.month, b.day)
        m.eq(dcount(*t), want, 'year fraction of datetime', 1e-13, 1e-15)
    m.note(last=(str(a), str(b)))
    m.sig('daycount', a.year // 25, a > b)
    m.hit('year fractions', 40)


class DCRecorder:
    """user day count which knows what it was asked for"""

    def __init__(self, f):
        self.f, self.calls = f, 0

    def __call__(self, s, e):
        self.calls += 1
        return self.f(s, e)


def c03_curve(m):
    """curve on dates == plain Curve on year fractions from origin"""
    r = m.rng
    types = [t for t in _curve_types() if t[0] not in ('Curve',)]
    nm, cls, names, vk = r.choice(types)
    base = r.choice(gen.BASES)
    axes = [Axis(m, k, base) for k in ('date', 'bdate')]
    flt = Axis(m, 'float')
    n = r.choice((1, 2, 3, 5, 8, 20))
    explicit = r.random() < .6
    days = gen.grid_days(m, n, r.choice((0, 1, 45)) if explicit else 0)
    if set(names) & set(RATE) and days == [0]:
        days = [0, 200]
    f = r.choice(gen.DAYCOUNTS)
    if f is gen.thirty360 and len(days) > 1 and min(b - a for a, b in zip(days[:-1], days[1:])) < 5:
        f = gen.act360
    dc = None if f is None else DCRecorder(f)
    tau = tau_of(f)
    if f is None:
        axes.append(flt)
        if r.random() < .4:
            flt.f0 = -r.choice(days) / 365.25 if r.random() < .5 and not explicit else 0.
    ys = [math.exp(-r.uniform(0, .1) * d / 365.25) if set(names) & set(RATE) else _val(m, vk) for d in days]
    kw = {}
    if explicit:
        kw['origin'] = None
    if dc is not None:
        kw['day_count'] = dc
    key = None
    if dc is not None and r.random() < .3:
        key = 'dcfmon-test'
    inm, inames = r.choice(INTERP_POS if vk in ('pos', 'intensity') else INTERP) if vk != 'prob' else (None, None)
    if inm:
        kw['interpolation'] = _interp_arg(m, inm)
        names = inames or (inm,) * 3
    if not set(names) & set(RATE) and r.random() < .5:
        # dates in any order, the origin still is the first one given
        p = list(zip(days, ys))
        p = p[::-1] if r.random() < .4 else gen.shuffled(m, p)
        days, ys = [a for a, _ in p], [b for _, b in p]
        m.hit('first given is not first date' if days[0] > min(days) and not explicit else 'any order')
    m.note(type=nm, days=days, values=ys, day_count=gen.dc_name(f), base=base, explicit=explicit, interpolation=inm, named=key)
    m.sig(nm, explicit, days[0] == min(days), gen.dc_name(f), inm, min(n, 3), key)
    try:
        if key:
            if r.random() < .4:
                # curve type with day counts of its own
                cls = type(cls.__name__, (cls,), dict(DAY_COUNT={key: dc}))
                if r.random() < .5:
                    dcf.DateCurve.DAY_COUNT[key] = gen.yf
                m.hit('day count of own curve type')
            else:
                dcf.DateCurve.DAY_COUNT[key] = dc
            kw['day_count'] = key
        cs = []
        for ax in axes:
            if explicit:
                kw['origin'] = ax.at(0)
            cs.append(cls([ax.at(d) for d in days], ys, **kw))
        o = axes[0].at(0 if explicit else days[0])
        pts = [(tau(o, axes[0].at(d)), y) for d, y in zip(days, ys)]
        plain = dcf.Curve([a for a, _ in pts], ys, kw.get('interpolation') or DEFAULTS[names])
        for d in gen.query_days(m, days, 14, lo=-300 if not set(names) & set(RATE) else 0):
            x = tau(o, axes[0].at(d))
            if nm in ('ForwardCurve', 'FxForwardCurve') and d > max(days):
                continue
            ok, rel, ab = _safe(names, pts, x)
            if not ok:
                continue
            want = ref.scheme(names, pts, x)
            near = any(0 < abs(x - a) < 1e-9 for a, _ in pts)
            for ax, c in zip(axes, cs):
                if not near:
                    m.eq(c(ax.at(d)), want, 'date curve differs from its points at year fractions', rel, ab + 1e-12, day=d, kind=ax.kind)
                m.eq(c(ax.at(d)), plain(x), 'date curve differs from curve on year fractions', rel, ab + 1e-12, day=d, kind=ax.kind)
                m.eq(c.day_count(ax.at(d)), x, 'curve day count from origin', 1e-12, 1e-14 if ax is not flt else 1e-11, day=d, kind=ax.kind)
            a, b = r.choice(days), d
            m.eq(cs[0].day_count(axes[0].at(a), axes[0].at(b)), tau(axes[0].at(a), axes[0].at(b)), 'curve day count', 1e-12, 1e-14)
            m.same(cs[0](axes[0].at(d)), cs[1](axes[1].at(d)), 'BusinessDate and datetime.date curve differ', day=d)
            m.hit('before origin' if d < 0 else 'on or after origin')
        for ax, c in zip(axes, cs):
            if explicit:
                m.same(c.origin, ax.at(0), 'explicit origin')
            else:
                m.same(c.origin, ax.at(days[0]), 'implicit origin is the first given date')
            m.hit('origin zero' if c.origin == 0. else 'origin')
        for ax, c in zip(axes, cs):
            for d, y in zip(days, ys):
                ok, rel, ab = _safe(names, pts, tau(o, axes[0].at(d)))
                if ok:
                    m.eq(c(ax.at(d)), y, 'date curve does not return the value of its date', rel, ab + 1e-12, day=d)
                    m.eq(c[ax.at(d)], y, 'date curve does not return the value of its date', rel, ab + 1e-12, day=d)
        if dc is not None:
            m.true(dc.calls > 0, 'user day count never used')
            m.hit('user day count')
    finally:
        if key:
            dcf.DateCurve.DAY_COUNT.pop(key, None)


def c03_rates(m):
    """user day counts drive the year fractions of rates and cashflow discounting"""
    r = m.rng
    base = r.choice(gen.BASES)
    ax = Axis(m, r.choice(('date', 'bdate')), base)
    f = r.choice(gen.DAYCOUNTS[2:])
    cls = r.choice((dcf.ZeroRateCurve, dcf.FlatIntensityCurve))
    days = gen.grid_days(m, r.choice((1, 2, 5)), 0)
    zs = gen.rates(m, len(days), 0., .1)
    pts = [(f(ax.at(0), ax.at(d)), z) for d, z in zip(days, zs)]
    if len(set(a for a, _ in pts)) < len(pts) or min([b[0] - a[0] for a, b in zip(pts[:-1], pts[1:])] or [1.]) < 1e-9:
        return
    c = cls([ax.at(d) for d in days], zs, origin=ax.at(0), day_count=f)
    m.note(type=cls.__name__, days=days, rates=zs, day_count=gen.dc_name(f), base=base)
    m.sig('rates', cls.__name__, gen.dc_name(f), ax.kind)
    for d in gen.query_days(m, days, 6, lo=1):
        x = ax.at(d)
        z = ref.scheme(ref.LINEAR, pts, f(ax.at(0), x))
        df = c.get_discount_factor(x) if cls is dcf.ZeroRateCurve else c.get_survival_prob(x)
        m.eq(df, math.exp(-z * f(ax.at(0), x)), 'factor with user day count', 1e-10, 0, day=d)
        e = ax.at(d + r.choice((30, 91, 400)))
        if cls is dcf.ZeroRateCurve and f(x, e) > 0:
            z2 = ref.scheme(ref.LINEAR, pts, f(ax.at(0), e))
            fw = math.exp(-z2 * f(ax.at(0), e) + z * f(ax.at(0), x)) if f is gen.thirty360 else None
            lg = (z2 * f(ax.at(0), e) - z * f(ax.at(0), x))
            m.eq(c.get_cash_rate(x, e), math.expm1(lg) / f(x, e), 'cash rate with user day count', 1e-9, 1e-10, start=x, stop=e)
            del fw
    m.hit('rates with user day count')


# ------------------------------------------------------------------------------------------------------------ C04
def c04_history(m):
    r = m.rng
    types = [t for t in _curve_types() if t[0] != 'Curve']
    s = CurveState(m, types=types, n=r.choice((1, 2, 3, 5, 8)))
    ax, c = s.axis, s.c
    ratelike = isinstance(c, dcf.RateCurve)
    fix, spread, hist = {}, None, []

    def expected(x):
        return (fix[x] if x in fix else s.value(x)) + (spread(x) if spread else 0.)

    def observe(what):
        for d in gen.query_days(m, s.days + list(fixdays), 6, lo=0):
            x = ax.at(d)
            if s.label in ('ForwardCurve', 'FxForwardCurve') and x > max(s.pts) and x not in fix:
                continue
            ok, rel, ab = _safe(s.names, s.fpts(), s.fx(x))
            near = x not in s.pts and any(abs(s.fx(x) - a) < 1e-9 for a, _ in s.fpts())
            if ok and not near:
                m.eq(c(x), expected(x), what, rel, ab + 1e-12, x=x, fixed=x in fix, spread=spread is not None)
                m.hit('observed %s%s' % ('fixing ' if x in fix else '', 'spread' if spread else ''))
                m.same(x in c, x in s.pts, '`x in curve` with fixings and spread', x=x)
                if x in s.pts:
                    m.eq(c[x], expected(x), 'curve[x] with fixings and spread', rel, ab + 1e-12, x=x)
                else:
                    m.raises(KeyError, lambda: c[x], 'curve[x] off the points', x=x)
        m.same(sorted(c.domain), sorted(s.pts), 'domain with fixings and spread')
        m.same(sorted(c), sorted(s.pts), 'iteration with fixings and spread')
    fixdays = []
    for _ in range(r.choice((3, 8, 15))):
        op = r.choice(('fix', 'unfix', 'spread', 'nospread', 'set', 'new', 'again', 'clear', 'refix'))
        hist.append(op)
        m.note(history=hist)
        if op in ('fix', 'refix'):
            d = r.choice(s.days + [r.randint(0, max(s.days) + 100)]) if op == 'fix' or not fixdays else r.choice(fixdays)
            v = r.choice((0., r.uniform(-1, 2), r.uniform(-1, 2)))
            c.fixings[ax.at(d)] = v
            fix[ax.at(d)] = v
            fixdays.append(d)
            m.eq(c(ax.at(d)), v + (spread(ax.at(d)) if spread else 0.), 'fixing not returned', 1e-12, 1e-13, x=ax.at(d))
            observe('curve with fixings')
        elif op == 'unfix' and fix:
            x = r.choice(list(fix))
            del c.fixings[x]
            del fix[x]
            observe('curve after removing a fixing')
        elif op == 'clear':
            c.fixings.clear()
            fix.clear()
            observe('curve after removing fixings')
        elif op == 'spread' and ratelike:
            sp = r.choice((lambda x: .01, _Spread(ax, r.uniform(-.02, .03)),
                           dcf.DateCurve([ax.at(0), ax.at(max(s.days) + 50)], [r.uniform(-.02, .02), r.uniform(-.02, .02)], origin=ax.at(0))))
            if spread is None:
                c.spread = sp
                spread = sp
            else:
                m.raises(TypeError, lambda: setattr(c, 'spread', sp), 'second spread accepted')
                m.hit('second spread refused')
            m.true(c.spread is spread, 'spread is not the one set')
            observe('curve with spread')
        elif op == 'nospread' and ratelike:
            c.spread = None
            spread = None
            m.true(c.spread is None, 'spread not removed')
            observe('curve after removing the spread')
        elif op in ('set', 'new'):
            d = r.choice(s.days) if op == 'set' else r.randint(1, max(s.days) + 200)
            x = ax.at(d)
            if x not in s.pts and any(abs(s.fx(x) - a) < 1e-9 for a, _ in s.fpts()):
                continue
            v = s.new_value(d)
            c[x] = v
            s.pts[x] = v
            if d not in s.days:
                s.days.append(d)
            observe('curve after assigning a point')
    m.sig(s.label, ax.kind, tuple(sorted(set(hist))))
    c.fixings.clear()
    fix.clear()
    if ratelike:
        c.spread, spread = None, None
    observe('curve after all removed')
    for x in s.pts:
        s.check(x, 'point does not return its value after fixings and spreads were removed')
    m.hit('histories')


class _Spread:
    def __init__(self, ax, v):
        self.ax, self.v = ax, v

    def __call__(self, x):
        return self.v * (1. + self.ax.days(x) / 3652.5)


def c04_rates(m):
    """spreads act on all rates and factors derived from the curve"""
    from .m_rates import RateState
    r = m.rng
    if r.random() < .5:
        return _fixed_rates(m)
    s = RateState(m, kinds=('zero', 'short', 'cash', 'intensity', 'hazard', 'df', 'df', 'survival', 'default', 'marginal', 'mdefault'), touch=False)
    o, c, R = s.origin, s.c, s.R
    sp = r.choice((lambda x: .0125, _Spread(s.ax, r.uniform(-.01, .02))))
    if R.kind in ('df', 'marginal'):
        # factors have to stay factors
        v = r.uniform(.2, 1.) * min(list(s.R.pts.values()) + [1.])
        sp = r.choice((lambda x: v, lambda x: -.3 * v, lambda x: v * (.2 + .1 * math.sin(s.ax.days(x)))))
    pairs = s.pairs(6, maxspan=1500)
    before = [s.factor(a, b) for a, b in pairs]
    c.spread = sp
    if s.kind in ('short', 'hazard') and isinstance(sp, _Spread):
        sp = c.spread = None
        c.spread = sp = (lambda x: -.004)
    R.spread = sp
    for a, b in pairs:
        m.eq(s.factor(a, b), math.exp(-R.nlog(a, b)), 'factor with spread', 1e-9, 1e-13, start=a, stop=b)
        m.eq(s.rate(a, b), R.zero(a, b), 'rate with spread', 1e-9, 1e-12 + 1e-15 / abs(s.tau(a, b)), start=a, stop=b)
        if hasattr(c, 'get_cash_rate') and R.kind != 'cash':
            m.eq(c.get_cash_rate(a, b), R.cash(a, b), 'cash rate with spread', 1e-9, 1e-12 + 1e-15 / abs(s.tau(a, b)), start=a, stop=b)
        m.eq(c(a), R(a), 'value with spread', 1e-9, 1e-13, x=a)
        m.hit('spread on %s' % s.kind)
        m.hit('factor with spread')
    c.spread = None
    R.spread = None
    for (a, b), v in zip(pairs, before):
        m.same(s.factor(a, b), v, 'factor after spread was removed', start=a, stop=b)
    m.sig('rates', s.label, s.ax.kind)
    del o


def _fixed_rates(m):
    """fixings act at exactly their date on all rates and factors derived from the curve"""
    from .m_rates import RateState
    r = m.rng
    s = RateState(m, kinds=('zero', 'df', 'short', 'cash', 'cash', 'survival', 'intensity', 'hazard', 'marginal'), touch=False)
    c, R = s.c, s.R
    pairs = s.pairs(6, maxspan=1500)
    before = [s.factor(a, b) for a, b in pairs]
    shown = [c(x) for x in s.c.domain]
    fixed = set()
    for x in [r.choice(r.choice(pairs)) for _ in range(r.choice((1, 2, 3)))]:
        v = r.uniform(.3, .99) if R.kind in ('df', 'marginal') else r.choice((0., r.uniform(0., .1), .02))
        c.fixings[s.ax.copy(x)] = v
        R.fixings[x] = v
        fixed.add(x)
    m.note(fixings={str(k): v for k, v in R.fixings.items()})
    for a, b in pairs:
        m.eq(s.factor(a, b), math.exp(-R.nlog(a, b)), 'factor with fixings', 1e-9, 1e-13, start=a, stop=b)
        m.eq(s.rate(a, b), R.zero(a, b), 'rate with fixings', 1e-9, 1e-12 + 1e-15 / abs(s.tau(a, b)), start=a, stop=b)
        m.eq(c(a), R(a), 'value with fixings', 1e-9, 1e-13, x=a)
        if hasattr(c, 'get_cash_rate') and R.kind != 'cash':
            m.eq(c.get_cash_rate(a, b), R.cash(a, b), 'cash rate with fixings', 1e-9, 1e-12 + 1e-15 / abs(s.tau(a, b)), start=a, stop=b)
        m.hit('factor with fixing' if a in fixed or b in fixed else 'factor beside fixings')
        if R.kind == 'cash':
            m.eq(c.get_cash_rate(a), R(a), 'cash rate with fixings', 1e-9, 1e-13, x=a)
            m.hit('fixed cash rate' if a in fixed else 'cash rate beside fixings')
        if R.kind == 'short':
            m.eq((c.get_short_rate if s.kind == 'short' else c.get_hazard_rate)(a), R(a), 'short rate with fixings', 1e-9, 1e-13, x=a)
    c.fixings.clear()
    for (a, b), v in zip(pairs, before):
        m.same(s.factor(a, b), v, 'factor after fixings were removed', start=a, stop=b)
    m.same([c(x) for x in c.domain], shown, 'value after fixings were removed')
    m.sig('fixed', s.label, s.ax.kind)


# ------------------------------------------------------------------------------------------------------------ C05
def c05_arith(m):
    r = m.rng
    names = {'Curve', 'DateCurve', 'ZeroRateCurve', 'ShortRateCurve', 'FlatIntensityCurve', 'HazardRateCurve'}
    types = [t for t in _curve_types() if t[0] in names]
    t = r.choice(types)
    f = CurveState(m, types=[t], n=r.choice((1, 2, 3, 5, 8)))
    ax = f.axis
    if f.dated and not f.explicit:
        # implicit origins are the first given date
        pass
    # second curve with the same origin
    g_days = gen.grid_days(m, r.choice((1, 2, 3, 5, 8)), r.choice((0, 1, 30)))
    mode = r.choice(('own', 'same', 'nested', 'over', 'ends', 'size'))
    if mode == 'same':
        g_days = sorted(f.days)
    elif mode == 'nested':
        g_days = sorted(r.sample(f.days, r.randint(1, len(f.days))))
    elif mode in ('ends', 'size') and len(f.days) > 2:
        # as many points, same ends (or same first), other inner points
        a = sorted(f.days)
        n, hi = len(a), a[-1] if mode == 'ends' else a[-1] + r.randint(1, 300)
        if hi - a[0] > 2 * n:
            g_days = [a[0]] + sorted(r.sample(range(a[0] + 1, hi), n - 2)) + [hi]
            m.hit('same number of points')
    elif mode == 'over':
        g_days = sorted(set(g_days) | set(r.sample(f.days, r.randint(1, len(f.days)))))
    kw = dict(f.kw)
    if f.dated:
        kw['origin'] = ax.copy(f.origin)
    if r.random() < .3:
        kw.pop('interpolation', None)
        gn = t[2]
    else:
        gn = f.names
    gv = [_val(m, f.vk) for _ in g_days]
    gx = [ax.at(d) for d in g_days]
    p = gen.shuffled(m, zip(gx, gv)) if r.random() < .5 else list(zip(gx, gv))
    g = t[1](gen.container(m, [a for a, _ in p]), gen.container(m, [b for _, b in p]), **kw)
    tau = tau_of(f.dc) if f.dated else None
    gp = [((tau(f.origin, a) if f.dated else a), b) for a, b in p]
    fp = f.fpts()
    xs = sorted(set(f.pts) | set(gx))
    flt = [f.fx(x) for x in xs]
    if min([b - a for a, b in zip(sorted(flt)[:-1], sorted(flt)[1:])] or [1]) < 1e-9:
        return
    op = r.choice('+-*/' if not set(f.names) & set(POSITIVE) else '+*/')
    fv = [ref.scheme(f.names, fp, x) for x in flt]
    gvv = [ref.scheme(gn, gp, x) for x in flt]
    m.note(other=[(str(a), b) for a, b in p], op=op)
    m.sig(f.label, ax.kind, op, mode, f.interp, f.explicit, any(not v for v in gvv))
    tenor = None
    if isinstance(g, dcf.RateCurve) and r.random() < .6:
        tenor, other = (ax.step(r.choice((30, 91, 182, 365))) for _ in '12')
        f.c = t[1](**dict(f.c.kwargs, forward_tenor=tenor))
        if r.random() < .5:
            g = t[1](**dict(g.kwargs, forward_tenor=other))
        m.hit('forward tenor')
    before = [(c(x), list(map(str, c.domain))) for c in (f.c, g) for x in xs]

    def calc(a, b):
        return a + b if op == '+' else a - b if op == '-' else a * b if op == '*' else a / b
    if op == '/' and any(abs(c) < 1e-9 and not (x in gx and c == 0.) for x, c in zip(xs, gvv)):
        return  # zero up to rounding
    if op == '/' and any(not c for c in gvv):
        zeros = {x for x, c in zip(xs, gvv) if not c}
        if 'linear' in gn[1] and zeros <= set(gx) - {min(gx)} and len(gx) > 1 and any(gvv):
            return  # linear interpolation gives the zero of an inner point up to rounding only
        m.raises(ZeroDivisionError, lambda: f.c / g, 'division by a curve with zero value')
        m.hit('zero division')
        return
    h = calc(f.c, g)
    m.hit('op %s' % op)
    m.same(sorted(h.domain), xs, 'domain of the result is not the union')
    m.true(type(h) is type(f.c), 'result has other type', got=type(h).__name__, want=f.label)
    want = [calc(a, b) for a, b in zip(fv, gvv)]
    sc = max(map(abs, want))
    for x, a, b, w in zip(xs, fv, gvv, want):
        ok1, rel1, ab1 = _safe(f.names, fp, f.fx(x))
        ok2, rel2, ab2 = _safe(gn, gp, f.fx(x))
        cond = (abs(a) + abs(b)) if op in '+-' else abs(w) + abs(a * ab2) + abs(b * ab1) if op == '*' else abs(w) * (1 + ab1 / (abs(a) + 1e-300) * 1e3 + ab2 / abs(b) * 1e3)
        if ok1 and ok2:
            m.eq(h(x), w, 'value of f %s g' % op, 1e-8, 1e-9 * cond + 1e-12 * (1 + max(map(abs, fv)) * max(map(abs, gvv))), x=x)
    # the result interpolates like f
    hp = list(zip(flt, [h(x) for x in xs]))
    for d in gen.query_days(m, f.days + g_days, 8, lo=0):
        x = ax.at(d)
        ok, rel, ab = _safe(f.names, [(a, b) for a, b in hp], f.fx(x)) if not set(f.names) & set(POSITIVE) or min(b for _, b in hp) > 0 else (0, 0, 0)
        near = x not in xs and any(abs(f.fx(x) - a) < 1e-9 for a in flt)
        if ok and not near:
            m.eq(h(x), ref.scheme(f.names, hp, f.fx(x)), 'result does not interpolate like the first curve', max(rel, 1e-8), ab + 1e-10 * sc, x=x)
            m.hit('between')
    if f.dated:
        m.same(h.origin, f.origin, 'origin of the result')
        if isinstance(g, dcf.RateCurve):
            m.same(h.forward_tenor, f.c.forward_tenor if tenor is None else tenor, 'forward tenor of the result')
        y = ax.at(max(f.days) + 77)
        m.eq(h.day_count(y), tau(f.origin, y), 'day count of the result', 1e-12, 1e-13)
    after = [(c(x), list(map(str, c.domain))) for c in (f.c, g) for x in xs]
    m.same(after, before, 'operand changed')
    if r.random() < .5 and op in '+-':
        k = (f.c + g) - g
        for x, a in zip(xs, fv):
            m.eq(k(x), a, '(f + g) - g', 1e-8, 1e-8 * (max(map(abs, fv)) + max(map(abs, gvv))), x=x)
        m.hit('chained')


def c05_zero(m):
    """divisors which are zero, or nearly so, at some point of either curve"""
    r = m.rng
    names = {'Curve', 'DateCurve', 'ZeroRateCurve', 'ShortRateCurve', 'FlatIntensityCurve', 'HazardRateCurve'}
    t = r.choice([t for t in _curve_types() if t[0] in names])
    ax = Axis(m, 'float') if t[0] == 'Curve' else Axis(m)
    kw = {}
    if t[0] != 'Curve':
        kw = dict(origin=ax.at(0), day_count=r.choice((None, gen.yf, gen.act365)))
    x = 64 * r.choice((2, 3, 5, 16))
    h = r.choice((16, 32, 64))
    v = r.choice((.25, 1., 3., 1e-3))
    where = r.choice(('own', 'other', 'both', 'none', 'none', 'middle'))
    f_days, g_days, gv = [0, x], [x - h, x + h], [r.choice((v, .5 * v)), v]
    if where == 'both':
        f_days, g_days, gv = [0, x], [x - h, x], [v, 0.]
    elif where == 'other':
        f_days, g_days, gv = [x + h, x + 2 * h], [x - h, x], [v, 0.]
    elif where == 'own':
        # constant zero about a point of the first curve
        f_days, g_days, gv = [0, x], [0, x - h, x + h, x + 2 * h], [v, 0., 0., v]
    elif where == 'middle':
        # zero between points of the second and at a point of the first
        gv = [-v, v]
    off = r.choice((0., 1e-9, 1e-300)) if where == 'none' else 0.
    if off:
        gv = [off, off]
    at = (lambda d: d / 64.) if ax.kind == 'float' else ax.at
    f = t[1]([at(d) for d in f_days], [r.uniform(.5, 2.) for _ in f_days], **kw)
    g = t[1]([at(d) for d in g_days], gv, **kw)
    m.note(type=t[0], axis=ax.kind, where=where, days=f_days, other=g_days, values=gv)
    m.sig('zero', t[0], ax.kind, where, off)
    if where == 'none':
        k = f / g
        for d in sorted(set(f_days + g_days)):
            y = at(d)
            m.eq(k(y), f(y) / g(y), 'value of f / g', 1e-8, 0, x=y)
        m.hit('not zero but small' if off else 'not zero')
    elif g(at(x)) == 0.:  # not up to rounding only
        m.raises(ZeroDivisionError, lambda: f / g, 'division by a curve with zero value')
        m.hit('zero ' + where)


# ------------------------------------------------------------------------------------------------------------ C06
def _same_curve(m, a, b, axis, days, what, tol=1e-12):
    for d in gen.query_days(m, days, 10, lo=0):
        x = axis.at(d)
        m.eq(a(x), b(x), what, tol, tol, x=x)


def _custom(xs, ys):
    """interpolation function of a user: smooth blending, flat outside"""
    pts = sorted(zip(xs, ys))

    def f(x):
        if x <= pts[0][0]:
            return pts[0][1]
        for (a, u), (b, v) in zip(pts[:-1], pts[1:]):
            if x <= b:
                w = (x - a) / (b - a)
                w = w * w * (3. - 2. * w)
                return u * (1. - w) + v * w
        return pts[-1][1]
    return f


def c06_kwargs(m):
    r = m.rng
    types = _curve_types() + [('DefaultProbabilityCurve', dcf.DefaultProbabilityCurve, ref.LOGRATE, 'prob'),
                              ('MarginalDefaultProbabilityCurve', dcf.MarginalDefaultProbabilityCurve, ref.LOGLINEAR, 'prob')]
    types = [t for t in types if 'Forward' not in t[0]]
    t = r.choice(types)
    if 'Default' in t[0]:
        t = (t[0], t[1], t[2], 'prob')
    s = CurveState(m, types=[t], n=r.choice((1, 2, 3, 8)))
    if t[1] is dcf.Curve and r.random() < .3:
        s.kw['interpolation'] = _custom
        s.c = dcf.Curve(list(s.pts), list(s.pts.values()), **s.kw)
        m.hit('custom interpolation function')
    c = s.c
    tenor = None
    if isinstance(c, dcf.RateCurve) and r.random() < .5:
        tenor = {'float': .25, 'date': datetime.timedelta(91), 'bdate': r.choice(('1M', '6M', BusinessPeriod('2M')))}[s.axis.kind]
        kw = dict(s.kw, forward_tenor=tenor)
        dflt = 'Default' in t[0]
        c = s.cls(list(s.pts), [1 - v for v in s.pts.values()] if dflt else list(s.pts.values()), **kw)
    if r.random() < .3 and s.dated:
        c = s.cls(**c.kwargs)
    k = c.kwargs
    d = s.cls(**k)
    m.sig('kwargs', s.label, s.axis.kind, s.interp, s.explicit, tenor is not None, gen.dc_name(s.dc))
    _same_curve(m, d, c, s.axis, s.days, 'curve from kwargs differs', 1e-9)
    for x in s.pts:
        m.eq(d(x), c(x), 'curve from kwargs differs at point', 1e-9, 1e-11, x=x)
    m.same(sorted(d.domain), sorted(c.domain), 'domain of curve from kwargs')
    if s.dated:
        m.same(d.origin, c.origin, 'origin of curve from kwargs')
        y = s.axis.at(max(s.days) + 431)
        m.eq(d.day_count(y), c.day_count(y), 'day count of curve from kwargs', 1e-13, 1e-14)
        m.eq(d.day_count(y), tau_of(s.dc)(s.origin, y), 'day count of curve', 1e-12, 1e-13)
    if isinstance(c, dcf.RateCurve):
        m.same(d.forward_tenor, c.forward_tenor, 'forward tenor of curve from kwargs')
        if tenor is not None:
            m.same(d.forward_tenor, tenor, 'forward tenor of curve')
    # going on: interpolation is kept, so that curves stay equal after further assignments
    if set(s.names) & set(RATE) == set() or True:
        day = max(s.days) + r.randint(5, 900)
        v = math.exp(-.02 * day / 365.25) if s.vk == 'prob' else _val(m, s.vk)
        x = s.axis.at(day)
        c[x] = v
        d[x] = v
        _same_curve(m, d, c, s.axis, s.days + [day], 'curve from kwargs differs after assignment', 1e-9)
    str(c), repr(c), str(d)
    m.hit('kwargs')


def c06_forward_kwargs(m):
    r = m.rng
    ax = Axis(m, r.choice(('date', 'bdate')))
    days = gen.grid_days(m, r.choice((1, 2, 5)), 0)
    ps = gen.prices(m, len(days))
    zc = dcf.ZeroRateCurve([ax.at(0), ax.at(900)], [.02, .05], origin=ax.at(0))
    z2 = dcf.ZeroRateCurve([ax.at(0)], [-.01], origin=ax.at(0))
    dc = r.choice(gen.ADDITIVE)
    kw = dict(origin=ax.at(0), day_count=gen.named(m, dc))
    w = r.randrange(4)
    if w == 3:
        c = dcf.FxForwardCurve([ax.at(d) for d in days], ps, domestic_curve=zc, foreign_curve=z2, **kw)
    else:
        c = dcf.ForwardCurve([ax.at(d) for d in days], ps, yield_curve=(r.uniform(-.05, .1), zc, None)[w], **kw)
    d = type(c)(**c.kwargs)
    m.sig('forward kwargs', w, ax.kind, gen.dc_name(dc))
    m.note(days=days, prices=ps, mode=w)
    for day in gen.query_days(m, days, 12, lo=0):
        m.eq(d(ax.at(day)), c(ax.at(day)), 'forward curve from kwargs differs', 1e-12, 0, day=day)
    m.hit('forward kwargs')


def c06_cast(m):
    """curves build from curves take over conventions unless given"""
    r = m.rng
    names = {'DateCurve', 'ZeroRateCurve', 'ShortRateCurve', 'CashRateCurve', 'FlatIntensityCurve', 'HazardRateCurve',
             'DiscountFactorCurve', 'SurvivalProbabilityCurve'}
    types = [t[:3] + ({'any': 'rate', 'pos': 'intensity'}.get(t[3], t[3]),) for t in _curve_types() if t[0] in names]
    s = CurveState(m, types=types, kinds=('bdate',), n=r.choice((2, 3, 5)), plain_linear=False)
    ax = s.axis
    if 0 not in s.days and set(s.names) & set(RATE):
        pass
    src_kw = dict(s.kw)
    tenor = None
    rate = s.label != 'DateCurve'
    if rate and r.random() < .6:
        tenor = r.choice(('1M', '6M', '2M'))
        src_kw['forward_tenor'] = tenor
    src = s.cls(list(s.pts), list(s.pts.values()), **src_kw)
    targets = [dcf.DateCurve] if not rate else [dcf.DateCurve] + (
        [dcf.ZeroRateCurve, dcf.ShortRateCurve, dcf.CashRateCurve, dcf.DiscountFactorCurve] if isinstance(src, dcf.InterestRateCurve)
        else [dcf.SurvivalProbabilityCurve, dcf.FlatIntensityCurve, dcf.HazardRateCurve, dcf.MarginalSurvivalProbabilityCurve])
    T = r.choice(targets)
    kw = {}
    if r.random() < .3:
        kw['day_count'] = r.choice((gen.act360, gen.act365))
    if T is not dcf.DateCurve and r.random() < .3:
        kw['forward_tenor'] = r.choice(('1M', '4M'))
    if r.random() < .3 and T in (dcf.DateCurve, dcf.ZeroRateCurve, dcf.FlatIntensityCurve, dcf.ShortRateCurve):
        kw['interpolation'] = r.choice((I.linear_scheme, I.constant))
    if r.random() < .2 and T is dcf.DateCurve:
        kw['origin'] = ax.at(-33)
    snap = [src(x) for x in s.pts], sorted(src.domain), src.origin, src.kwargs.get('forward_tenor')
    m.sig('cast', s.label, T.__name__, tuple(sorted(kw)), s.explicit, gen.dc_name(s.dc), tenor)
    m.note(target=T.__name__, explicit={k: gen.dc_name(v) if callable(v) else v for k, v in kw.items()}, source_tenor=tenor)
    inner = [d for d in s.days if d > 0] or s.days
    if s.origin != ax.at(min(s.days)) and any(x < s.origin for x in s.pts):
        return  # points before the origin (origin first given)
    as_data = r.random() < .4
    if as_data:
        dom = [ax.at(d) for d in inner]
        new = T(dom, src, **kw)
    else:
        new = T(src, **kw)
    m.same(new.origin, kw.get('origin', src.origin), 'origin of the cast')
    m.same(new.origin, kw.get('origin', s.origin), 'origin of the cast')
    y = ax.at(max(s.days) + 812)
    f = kw.get('day_count') or s.dc
    m.eq(new.day_count(y), tau_of(f)(kw.get('origin', s.origin), y), 'day count of the cast', 1e-12, 1e-13)
    m.eq(new.day_count(ax.at(3), y), tau_of(f)(ax.at(3), y), 'day count of the cast', 1e-12, 1e-13)
    if T is not dcf.DateCurve:
        default = '3M' if isinstance(new, dcf.InterestRateCurve) else '1Y'
        want = kw.get('forward_tenor', tenor if rate and tenor else default)
        m.same(str(new.forward_tenor), str(want), 'forward tenor of the cast')
    m.same((([src(x) for x in s.pts]), sorted(src.domain), src.origin, src.kwargs.get('forward_tenor')), snap, 'source curve changed')
    if as_data:
        m.same(sorted(new.domain), sorted(ax.at(d) for d in inner), 'domain of the cast is not the given one')
    else:
        m.true(set(new.domain) >= set(src.domain), 'domain of the cast lost points')
    if 'interpolation' in kw:
        p = [(new.day_count(d), new(d)) for d in new.domain]
        nm = {'constant_linear_constant': ref.LINEAR, 'constant': ('constant',) * 3}[kw['interpolation'].__name__]
        for d in gen.query_days(m, inner, 5, lo=1):
            x = new.day_count(ax.at(d))
            m.eq(new(ax.at(d)), ref.scheme(nm, p, x), 'explicit interpolation not used in the cast', 1e-9, 1e-12, day=d)
    if T is dcf.DateCurve:
        for d in s.days:
            m.eq(new(ax.at(d)) if ax.at(d) in new.domain else src(ax.at(d)), src(ax.at(d)), 'date curve value of the cast', 1e-12, 1e-13)
    m.hit('cast')


def c06_other(m):
    types = [t[:3] + ({'any': 'rate', 'pos': 'intensity'}.get(t[3], t[3]),) if t[0] != 'Curve' else t for t in _curve_types() if 'Vol' not in t[0] and 'Forward' not in t[0]]
    dflt = [t for t in types if t[0] in ('Curve', 'DateCurve')]
    c06_points(m, CurveState(m, types=types + 4 * dflt, n=m.rng.choice((1, 2, 3, 5))))


def c06_conventions(m):
    """curves taking the values of other ones on given dates, on all axes"""
    r = m.rng
    ax = Axis(m)
    S, T = r.choice((
        (dcf.DateCurve, (dcf.DateCurve,)),
        (dcf.ZeroRateCurve, (dcf.DateCurve, dcf.ZeroRateCurve, dcf.DiscountFactorCurve, dcf.CashRateCurve)),
        (dcf.DiscountFactorCurve, (dcf.DateCurve, dcf.ZeroRateCurve, dcf.DiscountFactorCurve, dcf.CashRateCurve)),
        (dcf.CashRateCurve, (dcf.DateCurve, dcf.ZeroRateCurve, dcf.DiscountFactorCurve, dcf.CashRateCurve)),
        (dcf.FlatIntensityCurve, (dcf.DateCurve, dcf.FlatIntensityCurve, dcf.SurvivalProbabilityCurve)),
        (dcf.SurvivalProbabilityCurve, (dcf.DateCurve, dcf.FlatIntensityCurve, dcf.SurvivalProbabilityCurve)),
    ))
    T = r.choice(T)
    factors = dcf.DiscountFactorCurve, dcf.SurvivalProbabilityCurve
    days = [d + 40 for d in gen.grid_days(m, r.choice((1, 2, 3, 5)), 0)]
    values = [math.exp(-r.uniform(.001, .1) * d / 365.25) if S in factors else r.uniform(.001, .1) for d in days]
    dc = r.choice((None, gen.act360, gen.act365))
    explicit = S in factors or r.random() < .6
    skw = {}
    origin = ax.at(days[0])
    if explicit:
        skw['origin'] = origin = ax.at(r.choice((0, 0, 17)))
    if dc is not None:
        skw['day_count'] = gen.named(m, dc)
    tenor = None
    if S is not dcf.DateCurve and (S is dcf.CashRateCurve or T is dcf.CashRateCurve or r.random() < .6):
        skw['forward_tenor'] = tenor = ax.step(r.choice((30, 91, 182)))
    src = S([ax.at(d) for d in days], values, **skw)
    kw = {}
    if r.random() < .5:
        kw['origin'] = r.choice((ax.at(-33), ax.at(0), ax.at(5), origin) + ((0., 0.) if ax.kind == 'float' and T not in factors else ()))
    dc2 = dc
    if r.random() < .4:
        dc2 = r.choice((gen.act360, gen.act365))
        kw['day_count'] = gen.named(m, dc2)
    if T is not dcf.DateCurve and r.random() < .4:
        kw['forward_tenor'] = ax.step(r.choice((45, 91, 200)))
    dom = [ax.at(d) for d in (days if r.random() < .5 else [d + 50 for d in gen.grid_days(m, r.choice((1, 2, 4)), 0)])]
    given = gen.container(m, dom)
    m.sig('conventions', ax.kind, S.__name__, T.__name__, tuple(sorted(kw)), explicit, gen.dc_name(dc), tenor is not None)
    m.note(source=S.__name__, target=T.__name__, days=days, values=values, origin=origin, explicit=kw.get('origin'), day_count=gen.dc_name(dc))
    before = src(src.domain), list(src.domain), src.origin
    whole = T is dcf.DateCurve and r.random() < .4
    if whole:
        dom = [ax.at(d) for d in days]
        new = T(src, **kw)
    else:
        new = T(given, src, **kw)
    o = kw.get('origin', origin)
    m.same(new.origin, o, 'origin of the curve built')
    tau = tau_of(dc2)
    y, z = ax.at(max(days) + 812), ax.at(3)
    m.eq(new.day_count(y), tau(o, y), 'day count of the curve built', 1e-12, 1e-13)
    m.eq(new.day_count(z, y), tau(z, y), 'day count of the curve built', 1e-12, 1e-13)
    m.same(sorted(new.domain), sorted(dom), 'domain of the curve built')
    if T is not dcf.DateCurve:
        want = kw.get('forward_tenor', tenor)
        if want is not None:
            m.same(new.forward_tenor, want, 'forward tenor of the curve built')
    if T is dcf.DateCurve:
        for d in dom:
            m.eq(new(d), src(d), 'value of the date curve built', 1e-11, 1e-13, date=d)
    m.true((src(src.domain), list(src.domain), src.origin) == before, 'source curve changed')
    m.hit('conventions')


# ------------------------------------------------------------------------------------------------------------ C07
def c07_table(m):
    r = m.rng
    kind = r.choice(('float', 'bdate', 'bdate'))
    types = [t for t in _curve_types() if t[0] not in ('ForwardCurve', 'FxForwardCurve') and (kind == 'float' or t[0] != 'Curve')]
    s = CurveState(m, types=types, kinds=(kind,), n=r.choice((2, 3, 5, 8)))
    ax, c = s.axis, s.c
    if set(s.names) & set(POSITIVE):
        s.c = c = dcf.DateCurve(list(s.pts), list(s.pts.values()), origin=s.origin)
    days = sorted(s.days)
    w = r.random()
    m.sig(s.label, kind, w < .6)
    if w < .6:
        # explicit grids
        x_days = gen.grid_days(m, r.choice((1, 2, 3, 6, 12)), r.choice((0, 5)), hi=6000)
        if r.random() < .25:
            # repeated and unsorted grids
            x_days = [r.choice(x_days) if r.random() < .3 else d for d in x_days]
            x_days = gen.shuffled(m, x_days) if r.random() < .5 else x_days
            m.hit('grid of any order')
        xg = [ax.at(d) for d in x_days]
        if kind == 'float':
            yg = [0.] + sorted({r.choice((.25, .5, .75, 1., 2., 5., r.uniform(.01, 3))) for _ in range(r.randint(1, 5))})
            add = [[x + y for y in yg] for x in xg]
        else:
            per = ['0D'] + r.sample(['1D', '1W', '1M', '3M', '6M', '1Y', '2Y'], r.randint(1, 5))
            per = sorted((BusinessPeriod(p) for p in per), key=lambda p: ax.at(0) + p)
            yg = per
            add = [[x + y for y in yg] for x in xg]
        yg = r.choice((tuple, list))(yg)
        xg2 = r.choice((tuple, list))(xg)
        m.note(x_grid=x_days, y_grid=[str(y) for y in yg])
        before = [c(x) for x in s.pts]
        got = dcf.rate_table(c, xg2, yg)
        m.same(list(got[0])[1:], list(yg), 'header row is not the periods')
        m.true(got[0][0] == '', 'corner of the table')
        m.same(len(got), len(xg) + 1, 'number of rows')
        for i, x in enumerate(xg):
            end = xg[i + 1] if i + 1 < len(xg) else xg[-1] + yg[-1] + yg[-1]
            cells = [z for z in add[i] if z < end]
            row = list(got[i + 1])
            m.same(row[0], x, 'row does not start with its date')
            m.same(len(row) - 1, len(cells), 'number of cells of the row', x=x)
            for z, v in zip(cells, row[1:]):
                m.same(v, c(z), 'cell is not the curve value', x=x, date=z)
            m.hit('cells', len(cells))
        m.same([c(x) for x in s.pts], before, 'building a table changed the curve')
        m.hit('explicit grid')
        if s.dated and r.random() < .6:
            # the table shows the curve of today
            _change(m, s, c, x_days)
            now = dcf.rate_table(c, xg2, yg)
            m.same([list(row) for row in now[1:]],
                   [[x] + [c(z) for z in [x + y for y in yg] if z < (xg[i + 1] if i + 1 < len(xg) else xg[-1] + yg[-1] + yg[-1])]
                    for i, x in enumerate(xg)], 'table after the curve was changed')
            m.hit('table after change')
        return
    # default grid
    if len(s.pts) < 2:
        return
    got = c.table
    m.same(got, dcf.rate_table(c), 'default table of the curve')
    for _ in range(r.choice((0, 1, 1, 3)) if s.dated else 0):
        _change(m, s, c, days)
        got = c.table
        m.hit('default table after change')
    m.same(got, dcf.rate_table(c), 'default table of the curve')
    xg = sorted(c.domain)
    if s.dated and c.origin not in xg:
        xg = sorted([c.origin] + xg)
    if not s.dated:
        m.hit('default grid without origin')
    if list(c.domain) != sorted(c.domain):
        m.hit('default grid of unsorted curve')
    m.note(default_grid=[str(x) for x in xg])
    m.same([row[0] for row in got[1:]], xg, 'default rows are not origin and domain')
    yg = list(got[0])[1:]
    m.true(xg[0] + yg[0] == xg[0], 'default periods do not start with zero')
    # zero, the gap before each gap and its multiples which are smaller than the gap
    gaps = [b - a for a, b in zip(xg[:-1], xg[1:])]
    want = [gaps[0] * 0]
    for last, gap in zip([gaps[0]] + gaps, gaps):
        k = last
        want.append(last)
        while k + last < gap:
            k = k + last
            want.append(k)
    m.same(yg, sorted(set(want)), 'default periods are not the gaps and their multiples', rows=[str(x) for x in xg])
    for i, x in enumerate(xg):
        end = xg[i + 1] if i + 1 < len(xg) else xg[-1] + yg[-1] + yg[-1]
        cells = [x + y for y in yg if x + y < end]
        m.same(list(got[i + 1])[1:], [c(z) for z in cells], 'cells of default table', x=x)
    m.hit('default grid')


def _change(m, s, c, days):
    r = m.rng
    w = r.randrange(4)
    x = s.axis.at(r.choice(days))
    if w == 0:
        c.fixings[x] = r.uniform(-1, 1)
    elif w == 1 and x in c.fixings:
        del c.fixings[x]
    elif w == 2 and isinstance(c, dcf.RateCurve):
        k = r.uniform(-.01, .01)
        c.spread = None
        c.spread = lambda _: k
    else:
        x = r.choice(list(s.pts))
        c[x] = _val(m, s.vk)


def c07_doc(m):
    """spot check against own evaluation: tables of interest rate curves as documented"""
    r = m.rng
    ax = Axis(m, 'bdate')
    o = ax.at(0)
    term = ['1m', '3m', '6m', '1y', '2y', '5y']
    term = term[:r.randint(2, 6)]
    zs = gen.rates(m, len(term))
    cls = r.choice((dcf.ZeroRateCurve, dcf.CashRateCurve, dcf.FlatIntensityCurve, dcf.DateCurve))
    c = cls([o + t for t in term], zs, origin=o)
    t = c.table
    pts = [(gen.yf(o, o + p), z) for p, z in zip(term, zs)]
    xs = [o] + [o + p for p in term]
    m.note(origin=str(o), rates=zs, type=cls.__name__)
    m.sig('doc', len(term), cls.__name__)
    m.same([row[0] for row in t[1:]], xs, 'rows')
    for row in t[1:]:
        for y, v in zip(t[0][1:], row[1:]):
            m.eq(v, ref.scheme(ref.LINEAR, pts, gen.yf(o, row[0] + y)), 'table cell', 1e-9, 1e-12, x=row[0], y=y)
    m.hit('doc tables')


SIT = 'distinct (scenario, type, axis, interpolation, history) signatures whose oracle comparisons all ran'
PROPS = {
    'C01': Prop('C01', [Scenario('single', c01_single, 4500), Scenario('scheme', c01_scheme, 4500), Scenario('other', c01_other, 900), Scenario('refused', c01_refused, 900)],
                {'on point': 1000, 'between': 1000, 'outside': 1000, 'scheme left': 500, 'scheme right': 500, 'scheme mid': 2000,
                 'built by dict': 50, 'refused double': 20, 'refused four': 20, 'registered': 100}, SIT),
    'C02': Prop('C02', [Scenario('history', c02_history, 2400), Scenario('order', c02_order, 600), Scenario('refused', c02_refused, 200)],
                {'assign set': 300, 'assign new': 800, 'histories': 500, 'refused': 50,
                 'second curve of same lists': 200}, SIT),
    'C03': Prop('C03', [Scenario('daycount', c03_daycount, 300), Scenario('curve', c03_curve, 3000), Scenario('rates', c03_rates, 900)],
                {'year fractions': 1000, 'user day count': 200, 'origin zero': 30, 'before origin': 100,
                 'first given is not first date': 50}, SIT),
    'C04': Prop('C04', [Scenario('history', c04_history, 2000), Scenario('rates', c04_rates, 800)],
                {'histories': 500, 'second spread refused': 50, 'observed fixing ': 100, 'observed spread': 300,
                 'observed fixing spread': 50, 'factor with spread': 200, 'factor with fixing': 100, 'fixed cash rate': 10}, SIT),
    'C05': Prop('C05', [Scenario('arith', c05_arith, 3000), Scenario('types', c05_types, 1600), Scenario('zero', c05_zero, 400)],
                {'op +': 150, 'op -': 150, 'op *': 150, 'op /': 60, 'zero division': 5, 'zero own': 30, 'zero other': 30, 'zero both': 30, 'zero middle': 5, 'not zero but small': 30, 'forward tenor': 200, 'same number of points': 50, 'chained': 50, 'between': 1000, 'types': 60, 'same type': 60}, SIT),
    'C06': Prop('C06', [Scenario('kwargs', c06_kwargs, 600), Scenario('forward', c06_forward_kwargs, 150), Scenario('cast', c06_cast, 600), Scenario('conventions', c06_conventions, 1200), Scenario('points', c06_other, 1500)],
                {'kwargs': 300, 'forward kwargs': 50, 'cast': 300, 'on given points': 200, 'curve of curve': 80, 'shifted': 80, 'deprecated': 80,
                 'cast method': 10, 'between new points': 500}, SIT),
    'C07': Prop('C07', [Scenario('table', c07_table, 4500), Scenario('doc', c07_doc, 300)],
                {'explicit grid': 200, 'default grid': 20, 'table after change': 50, 'default table after change': 20, 'doc tables': 50, 'grid of any order': 50,
                 'default grid of unsorted curve': 5, 'default grid without origin': 2, 'cells': 1000}, SIT),
}

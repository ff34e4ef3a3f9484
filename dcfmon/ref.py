"""Reference models, written from the documentation: no code of dcf is used here."""
import math
from businessdate import BusinessDate, BusinessPeriod

from .gen import yf


# ---------------------------------------------------------------- interpolation
def _left(p, x):
    y = p[0][1]
    for a, b in p:
        if a <= x:
            y = b
    return y


def _right(p, x):
    for a, b in p:
        if x <= a:
            return b
    return p[-1][1]


def _nearest(p, x):
    best = None
    for a, b in p:
        if best is None or abs(a - x) < best[0]:
            best = abs(a - x), b
    return best[1]


def _linear(p, x):
    if len(p) == 1:
        return p[0][1]
    k = 0
    while k < len(p) - 2 and p[k + 1][0] < x:
        k += 1
    (a, u), (b, v) = p[k], p[k + 1]
    if x == a:
        return u
    if x == b:
        return v
    w = (x - a) / (b - a)
    return u * (1 - w) + v * w


def _at(p, x, default):
    for a, b in p:
        if a == x:
            return b
    return default


def _logrates(p):
    return [(a, math.log(b) / a) for a, b in p if a != 0.]


def one(name, pts, x):
    """value at x of the (not piecewise) interpolation `name` of the points pts = [(x, y), ...]"""
    p = sorted(pts)
    if name in ('left', 'constant'):
        return _left(p, x)
    if name == 'right':
        return _right(p, x)
    if name == 'nearest':
        return _nearest(p, x)
    if name == 'linear':
        return _linear(p, x)
    if name == 'loglinear':
        return math.exp(_linear([(a, math.log(b)) for a, b in p], x))
    if name in ('loglinearrate', 'logconstantrate'):
        if x == 0.:
            return _at(p, 0., 1.)
        f = _linear if name == 'loglinearrate' else _left
        return math.exp(x * f(_logrates(p), x))
    if name == 'zero':
        return _at(p, x, 0.)
    if name == 'no':
        return _at(p, x, None)
    raise KeyError(name)


def first_last(name_left, name_right, pts):
    def xs(name):
        return sorted(a for a, b in pts if a != 0. or 'rate' not in name)
    return xs(name_left)[0], xs(name_right)[-1]


def scheme(names, pts, x):
    """left, mid, right piecewise interpolation"""
    left, mid, right = names
    lo, hi = first_last(left, right, pts)
    return one(left if x < lo else right if x > hi else mid, pts, x)


LINEAR = 'constant', 'linear', 'constant'
LOGLINEAR = 'constant', 'loglinear', 'constant'
LOGRATE = 'logconstantrate', 'loglinearrate', 'logconstantrate'
ZEROLINEAR = 'zero', 'linear', 'constant'
CONST = 'constant', 'constant', 'constant'


# ---------------------------------------------------------------- curves
class RefCurve:
    """points on dates, year fractions from origin, interpolation, fixings, spread"""

    def __init__(self, pts, origin, tau=yf, names=LINEAR):
        self.pts = dict(pts)
        self.origin, self.tau, self.names = origin, tau, names
        self.fixings = {}
        self.spread = None

    def raw(self, x):
        p = [(self.tau(self.origin, d), v) for d, v in self.pts.items()]
        return scheme(self.names, p, self.tau(self.origin, x))

    def __call__(self, x):
        y = self.fixings[x] if x in self.fixings else self.raw(x)
        return y + (self.spread(x) if self.spread is not None else 0.)


def add_period(x, period):
    """x + period with calendar periods for business dates (trusted library)"""
    if isinstance(period, str):
        period = BusinessPeriod(period)
    return x + period


class RefRates(RefCurve):
    """kind in zero, df, short, cash (and for credit: survival ~ df, intensity ~ zero, hazard ~ short, marginal)
    -> negative log of the discount factor (survival probability) between two dates"""

    def __init__(self, kind, pts, origin, tau=yf, names=LINEAR, tenor=None):
        super().__init__(pts, origin, tau, names)
        self.kind, self.tenor = kind, tenor

    def steps(self, s, t):
        """tenor periods from s to t, last one cut"""
        cur = s
        while add_period(cur, self.tenor) < t:
            nxt = add_period(cur, self.tenor)
            yield cur, nxt, nxt
            cur = nxt
        yield cur, add_period(cur, self.tenor), t

    def nlog(self, s, t):
        if s == t:
            return 0.
        tau, o = self.tau, self.origin
        if self.kind == 'zero':
            return self(t) * tau(o, t) - self(s) * tau(o, s)
        if self.kind == 'df':
            # factors are factors from the origin
            return (0. if s == o else math.log(self(s))) - (0. if t == o else math.log(self(t)))
        if self.kind == 'short':
            # day by day; the left constant short rate (default interpolation) only breaks at points
            if self.names != CONST:
                brk = [s]
                while brk[-1] < t:
                    brk.append(min(add_period(brk[-1], '1D'), t))
                return sum(self(a) * tau(a, b) for a, b in zip(brk[:-1], brk[1:]))
            brk = [s] + sorted(d for d in self.breaks() if s < d < t) + [t]
            return sum(self(a) * tau(a, b) for a, b in zip(brk[:-1], brk[1:]))
        if self.kind == 'cash':
            return sum(math.log(1. + self(a) * tau(a, e)) for a, b, e in self.steps(s, t))
        if self.kind == 'marginal':
            return sum(-math.log(self(a)) * tau(a, e) / tau(a, b) for a, b, e in self.steps(s, t))
        raise KeyError(self.kind)

    def breaks(self):
        return set(self.pts) | set(self.fixings) | {add_period(x, '1D') for x in self.fixings}

    def df(self, s, t):
        return math.exp(-self.nlog(s, t))

    def zero(self, s, t):
        return self.nlog(s, t) / self.tau(s, t)

    def cash(self, s, t):
        return math.expm1(self.nlog(s, t)) / self.tau(s, t)

    def period(self, x):
        """grid period enclosing x (first and last one outside)"""
        ds = sorted(self.pts)
        for a, b in zip(ds[:-1], ds[1:]):
            if x < b:
                return a, b
        return ds[-2], ds[-1]

    def short(self, x):
        if self.kind == 'short':
            return self(x)
        if len(self.pts) == 1:
            d, = self.pts
            return self.zero(self.origin, d) if d != self.origin else None
        return self.zero(*self.period(x))


# ---------------------------------------------------------------- option values (exact normal distribution)
def ncdf(x):
    return .5 * math.erfc(-x / math.sqrt(2.))


def npdf(x):
    return math.exp(-.5 * x * x) / math.sqrt(2. * math.pi)


def _pos(x):
    return x if x > 0. else 0.


def option(kind, f, k, vol, t, call=True, displ=0.):
    """undiscounted expectation of max(+-(F-k), 0)"""
    w = 1. if call else -1.
    if kind == 'intrinsic' or vol <= 0. or t <= 0.:
        return _pos(w * (f - k))
    sd = vol * math.sqrt(t)
    if kind == 'bachelier':
        d = (f - k) / sd
        return w * (f - k) * ncdf(w * d) + sd * npdf(d)
    f, k = f + displ, k + displ
    d1 = (math.log(f / k) + .5 * sd * sd) / sd
    return w * (f * ncdf(w * d1) - k * ncdf(w * (d1 - sd)))


def binary(kind, f, k, vol, t, displ=0.):
    """probability of F > k"""
    sd = vol * math.sqrt(t)
    if kind == 'bachelier':
        return ncdf((f - k) / sd)
    f, k = f + displ, k + displ
    return ncdf((math.log(f / k) - .5 * sd * sd) / sd)

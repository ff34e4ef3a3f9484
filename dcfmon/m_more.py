"""further scenarios of C01, C06, C08, C12: curves on other points, shifted curves, registered interpolations,
empty periods and default"""
import datetime
import math
import warnings

import dcf
from businessdate import BusinessPeriod
from dcf import interpolation as I

from . import gen, ref
from .gen import Axis, tau_of


# ------------------------------------------------------------------------------------------------------------ C01
def c01_refused(m):
    """what makes no interpolation is refused, registered names are used"""
    r = m.rng
    n = r.choice((1, 2, 3, 6))
    xs = sorted(r.sample(range(-20, 40), n))
    ys = [r.uniform(.1, 3.) for _ in xs]
    if r.random() < .5:
        xs = [float(x) for x in xs]
    nm = r.choice(('linear_scheme', 'log_linear_scheme', 'zero_linear_scheme', 'interpolation_scheme'))
    cls = getattr(I, nm)
    a, b = list(xs), list(ys)
    w = r.choice(('double', 'long domain', 'long data', 'four', 'no interpolation'))
    arg = None
    if w == 'double':
        i = r.randrange(n)
        a.insert(r.randrange(n + 1), r.choice((float(xs[i]), xs[i])))
        b.insert(r.randrange(n + 1), r.uniform(.1, 3.))
    elif w == 'long domain':
        a.append(max(a) + 1)
    elif w == 'long data':
        b.append(1.)
    elif w == 'four':
        arg = (I.constant, I.linear, I.linear, I.constant)
    else:
        arg = r.choice((dict, float, I.linear_scheme))
    m.note(scheme=nm, domain=a, data=b, what=w)
    m.sig('refused', nm, w, min(n, 3))
    m.raises(Exception, lambda: cls(a, b, arg), 'scheme of ' + w + ' not refused')
    cls(xs, ys)
    m.hit('refused ' + w)
    # interpolations registered by name
    key = r.choice(('own', 'linear', 'constant', 7))
    f, names = r.choice(((I.linear_scheme, ref.LINEAR), (I.constant, ref.CONST), (I.log_linear_scheme, ref.LOGLINEAR), (I.right, ('right',) * 3)))

    class Own(r.choice((dcf.Curve, dcf.DateCurve, dcf.ZeroRateCurve))):
        INTERPOLATIONS = {key: f}
    xs = [float(x - min(xs)) for x in xs]
    kw = {} if issubclass(Own, dcf.DateCurve) is False else dict(origin=0.)
    order = gen.shuffled(m, zip(xs, ys))
    c = Own([x for x, _ in order], [y for _, y in order], key, **kw)
    pts = list(zip(xs, ys))
    for x in xs + [r.uniform(-1., 70.) for _ in range(6)]:
        m.eq(c(x), ref.scheme(names, pts, x), 'curve of a registered interpolation', 1e-9, 1e-12, x=x, key=key)
    m.hit('registered')


# ------------------------------------------------------------------------------------------------------------ C06
def c06_points(m, state):
    """plain and date curves built from a curve on given points, shifted curves, deprecated casts"""
    r = m.rng
    s = state
    ax, c = s.axis, s.c
    dated = s.dated
    before = [c(x) for x in s.pts], list(c.domain)
    w = r.choice(('points', 'points', 'curve', 'shifted', 'shifted', 'deprecated', 'deprecated'))
    m.note(way=w)
    m.sig(w, s.label, ax.kind, s.interp, s.explicit, gen.dc_name(s.dc), min(len(s.pts), 3))
    lo = 0 if not set(s.names) & set(('loglinearrate',)) else 1
    ks = sorted(set(gen.query_days(m, s.days, r.choice((1, 2, 4, 7)), lo=lo, far=900)))
    if dated and s.fx(s.origin) == 0. and len({s.fx(ax.at(k)) for k in ks}) < len(ks):
        return
    own = INTERP_FUNC.get(s.interp) if s.interp else None
    names = s.names if s.interp else ref.LINEAR

    def scheme(new, pts, nms, back):
        """new is the interpolation of the points"""
        span = [a for a, _ in pts]
        if len(pts) > 1 and min(b - a for a, b in zip(sorted(span)[:-1], sorted(span)[1:])) < 1e-6:
            return
        if set(nms) & {'loglinear', 'loglinearrate'} and min(v for _, v in pts) <= 0:
            return
        sc = max(abs(v) for _, v in pts) + 1e-300
        if len(pts) > 1 and 'linear' in (nms[0], nms[2]):
            p = sorted(pts)
            sc += 1e4 * max(abs((v - u) / (b - a)) for (a, u), (b, v) in zip(p[:-1], p[1:]))
        for a in [r.uniform(min(span) - .5, max(span) + 1.) for _ in range(5)]:
            if any(abs(a - b) < 1e-6 for b in span):
                continue
            if 'nearest' in nms:
                continue
            m.eq(new(back(a)), ref.scheme(nms, pts, a), 'interpolation of the new curve', 1e-9, 1e-11 * sc, x=a, points=pts)
            m.hit('between new points')

    if w == 'points':
        dom = [ax.at(k) for k in ks]
        given = gen.container(m, gen.shuffled(m, dom))
        kw = {}
        if r.random() < .3:
            kw['interpolation'], names = r.choice(((I.linear_scheme, ref.LINEAR), ('constant', ref.CONST), ('right', ('right',) * 3)))
            m.hit('other interpolation')
        T = r.choice((dcf.Curve, dcf.Curve, dcf.DateCurve)) if dated else dcf.Curve
        if s.label not in ('Curve', 'DateCurve') and 'interpolation' not in kw and s.interp is None:
            # default of another type: not that of the new curve
            kw['interpolation'], names = I.linear_scheme, ref.LINEAR
        new = r.choice((lambda: T(given, c, **kw), lambda: T(domain=given, data=c, **kw)))()
        vals = [c(x) for x in dom]
        if T is dcf.Curve:
            fdom = [s.fx(x) for x in dom]
            m.true(len(new.domain) == len(dom), 'curve on given points has other number of points', got=new.domain)
            for a, b in zip(new.domain, sorted(fdom)):
                m.eq(a, b, 'curve on given points has other points', 1e-12, 1e-13, expected=fdom)
            for a, v in zip(fdom, vals):
                m.eq(new(a), v, 'curve on given points has not the values of the source', 1e-9, 1e-12, x=a)
            scheme(new, list(zip(fdom, vals)), names, lambda a: a)
        else:
            m.same(sorted(new.domain), dom, 'curve on given points has other points')
            for x, v in zip(dom, vals):
                m.eq(new(x), v, 'curve on given points has not the values of the source', 1e-9, 1e-12, x=x)
            m.same(new.origin, s.origin, 'origin of the new curve')
            if ax.kind == 'float' and s.dc is None:
                scheme(new, [(s.fx(x), v) for x, v in zip(dom, vals)], names, lambda a: a + s.origin)
        m.hit('on given points')
    elif w == 'curve':
        new = dcf.Curve(c) if not dated or r.random() < .6 else dcf.Curve(data=c, domain=c.domain)
        fdom = [s.fx(x) for x in s.pts]
        for a, b in zip(sorted(new.domain), sorted(fdom)):
            m.eq(a, b, 'curve of a curve has other points', 1e-12, 1e-13, expected=fdom)
        for x, a in zip(s.pts, fdom):
            m.eq(new(a), c(x), 'curve of a curve has other values', 1e-9, 1e-12, x=x)
        if s.interp or s.label in ('Curve', 'DateCurve'):
            scheme(new, [(a, c(x)) for x, a in zip(s.pts, fdom)], names, lambda a: a)
        m.hit('curve of curve')
    elif w == 'shifted':
        if s.label not in ('Curve', 'DateCurve', 'ZeroRateCurve', 'FlatIntensityCurve'):
            return
        if ax.kind == 'bdate':
            p = r.choice(('1D', '1M', '13M', BusinessPeriod('2W'), BusinessPeriod('1Y')))
        elif ax.kind == 'date':
            p = datetime.timedelta(r.choice((1, 30, 365, 800)))
        else:
            p = r.choice((.25, 1., 2, .1, 0., 0))
        if r.random() < .1:
            p = r.choice((None, 0)) if ax.kind != 'float' else 0.
        dom = [ref.add_period(x, p) if p else x for x in s.pts]
        if len(set(dom)) < len(dom) or len({s.fx(x) for x in dom}) < len(dom):
            return  # 28th to 31st and a month are one date
        if dated and any(not x > s.origin for x in dom) and s.label not in ('Curve', 'DateCurve'):
            return
        new = c.shifted(p)
        m.note(shift=str(p))
        m.true(type(new) is type(c), 'type of the shifted curve', got=type(new).__name__)
        for a, b in zip(sorted(new.domain), sorted(dom)):
            m.true(a == b or ax.kind == 'float' and abs(a - b) < 1e-12, 'shifted curve has other points', got=new.domain, expected=dom)
        if dated:
            m.same(new.origin, s.origin, 'origin of the shifted curve')
            m.eq(new.day_count(dom[-1]), s.fx(dom[-1]), 'day count of the shifted curve', 1e-12, 1e-13)
        for x in new.domain:
            m.eq(new(x), c(x), 'shifted curve is not the curve on the shifted points', 1e-9, 1e-11, x=x)
        if ax.kind == 'float' and s.dc is None:
            scheme(new, [((x - s.origin) if dated else x, c(x)) for x in new.domain], names, (lambda a: a + s.origin) if dated else lambda a: a)
        m.hit('shifted' if p else 'shifted by nothing')
    else:
        if not dated:
            return
        with warnings.catch_warnings(record=True) as got:
            warnings.simplefilter('always')
            new = c.to_curve()
        m.true(type(new) is dcf.Curve, 'to_curve is not a plain curve', got=type(new).__name__)
        m.true(len(got) > 0, 'deprecated method does not warn')
        two = dcf.Curve(c)
        m.same((list(new.domain), list(new(list(new.domain)))), (list(two.domain), list(two(list(two.domain)))), 'to_curve differs from Curve(curve)')
        if isinstance(c, dcf.RateCurve) and ax.kind == 'bdate':
            T = r.choice((dcf.ZeroRateCurve, dcf.DiscountFactorCurve, dcf.ShortRateCurve) if isinstance(c, dcf.InterestRateCurve)
                         else (dcf.FlatIntensityCurve, dcf.SurvivalProbabilityCurve, dcf.HazardRateCurve))
            kw = {}
            if r.random() < .5:
                kw['domain'] = [ax.at(k) for k in ks if k > 0] or [ax.at(17)]
                m.hit('cast method on given points')
            if r.random() < .5:
                kw['day_count'] = gen.act365
            if r.random() < .5:
                kw['forward_tenor'] = '2M'
            if max(s.days) > 3000 or any(x < s.origin for x in s.pts):
                return
            if s.dc not in (None, gen.act365, gen.act360) or min(s.pts) == max(s.pts) == s.origin and T is dcf.DiscountFactorCurve:
                return
            with warnings.catch_warnings(record=True) as got:
                warnings.simplefilter('always')
                one = c.cast(T, **kw)
            m.true(len(got) > 0, 'deprecated method does not warn')
            two = T(kw.pop('domain'), c, **kw) if 'domain' in kw else T(c, **kw)
            m.true(type(one) is T, 'type of the cast', got=type(one).__name__)
            m.same((one.domain, one.origin, one.forward_tenor), (two.domain, two.origin, two.forward_tenor), 'cast method differs from constructor')
            for x in one.domain:
                m.eq(one(x), two(x), 'cast method differs from constructor', 1e-12, 0, x=x)
                m.eq(one.day_count(x), two.day_count(x), 'cast method differs from constructor', 1e-12, 0, x=x)
            m.hit('cast method')
        m.hit('deprecated')
    m.same(([c(x) for x in s.pts], list(c.domain)), before, 'source curve changed')


INTERP_FUNC = {}


# ------------------------------------------------------------------------------------------------------------ C08, C12
def _empty(m, kinds, RateState):
    """rates of a period without length are those of the day to follow (or the stored one)"""
    r = m.rng
    s = RateState(m, kinds, axes=('bdate',))
    c, o = s.c, s.origin
    ir = isinstance(c, dcf.InterestRateCurve)
    rate = c.get_zero_rate if ir else c.get_flat_intensity
    factor = c.get_discount_factor if ir else c.get_survival_prob
    s.sig('empty')
    for d in gen.query_days(m, s.days, 8, lo=0, far=300) + [0]:
        x = s.ax.at(d)
        y = s.ax.copy(x)
        if s.tau(x, ref.add_period(x, '1D')) <= 0:
            continue
        m.true(factor(x, y) == 1., 'factor of an empty period is not 1', x=x)
        got = rate(x, y)
        rk = s.R.kind
        if rk in ('short', 'cash'):
            m.eq(got, c(x), 'rate of an empty period is not the stored one', 1e-12, 1e-14, x=x)
        elif x == o and rk == 'zero':
            m.eq(got, c(x), 'rate of an empty period at origin is not the stored one', 1e-12, 1e-14, x=x)
            m.eq(rate(x), got, 'rate to origin', 1e-12, 1e-14, x=x)
        elif x == o and rk == 'df':
            if max(s.days) > 0:
                e = s.ax.at(min(k for k in s.days if k > 0))
                m.eq(got, rate(x, e), 'rate of an empty period at origin is not the one to the first point', 1e-9, 1e-11, x=x)
        else:
            e = ref.add_period(x, '1D')
            if s.R.kind in ('df',) and s.names[0] != 'logconstantrate' and d > 12000:
                continue
            m.eq(got, rate(x, e), 'rate of an empty period is not the one of the next day', 1e-9, 1e-9, x=x)
            m.eq(got, s.R.zero(x, e), 'rate of an empty period', 1e-6, 1e-8, x=x)
        m.hit('empty period')


def c12_dead(m):
    """survival probabilities vanish from default on"""
    r = m.rng
    kind = r.choice(('survival', 'default', 'marginal', 'mdefault'))
    ax = Axis(m, 'bdate' if kind in ('marginal', 'mdefault') else r.choice(('bdate', 'date')))
    o = ax.at(0)
    n = r.choice((2, 3, 4, 6))
    k = r.randint(1, n - 1)  # first dead point
    days = [0]
    for _ in range(n - 1):
        days.append(days[-1] + r.choice((30, 365, 366, 1000)))
    dates = [ax.at(d) for d in days]
    dc = r.choice(gen.ADDITIVE)
    tau = tau_of(dc)
    v, vals = 1., []
    for i in range(n):
        v = v * r.uniform(.6, 1.) if i else r.choice((1., 1., .999)) if kind in ('marginal', 'mdefault') else 1.
        vals.append(v if i < k else 0.)
    dead = r.choice((0., 0, -1e-12, -.1))
    given = [v if i < k else dead for i, v in enumerate(vals)]
    if kind in ('default', 'mdefault'):
        given = [1. - g for g in given]
    cls = {'survival': dcf.SurvivalProbabilityCurve, 'default': dcf.DefaultProbabilityCurve,
           'marginal': dcf.MarginalSurvivalProbabilityCurve, 'mdefault': dcf.MarginalDefaultProbabilityCurve}[kind]
    kw = dict(origin=o, day_count=gen.named(m, dc))
    tenor = None
    if 'm' in kind[:1]:
        tenor = kw['forward_tenor'] = r.choice(('1M', '3M', '1Y'))
    order = gen.shuffled(m, zip(dates, given))
    c = cls([a for a, _ in order], [b for _, b in order], **kw)
    m.note(type=cls.__name__, days=days, values=given, origin=str(o), day_count=gen.dc_name(dc), tenor=tenor)
    m.sig('dead', kind, n, k, gen.dc_name(dc), str(dead), tenor)
    last, first = days[k - 1], days[k]  # last live, first dead
    live = [(x, v) for x, v in zip(dates, vals) if v]
    if kind in ('survival', 'default'):
        R = ref.RefRates('df', live, o, tau, ref.LOGRATE) if k > 1 else None
    qs = sorted({*days, last, first, first + 1, days[-1], days[-1] + r.choice((1, 100, 2000)), days[-1] + 4000, r.randint(0, first),
                 r.randint(first, days[-1] + 1), max(0, last - 1)})
    for i, a in enumerate(qs):
        A = ax.at(a)
        m.same(c.get_survival_prob(A, ax.copy(A)), 1. if a <= last else 0. if a >= first else c.get_survival_prob(A, ax.copy(A)),
               'sv(t,t) is not one before and zero from default on', t=A)
        prev = 1.
        for b in qs[i + 1:]:
            B = ax.at(b)
            got = c.get_survival_prob(A, B)
            # (points between dates with high intensities may be above one another)
            m.true(0. <= got and (got <= 1. + 1e-12 or a not in days or a > last or b not in days), 'survival probability not in [0,1]', start=A, stop=B, got=got)
            if a in days and a <= last and b in days:
                m.true(got <= prev * (1 + 1e-10) + 1e-290, 'survival probability increases', start=A, stop=B, got=got, before=prev)
                prev = got
            if kind in ('survival', 'default'):
                if b <= last and k > 1:
                    m.eq(got, R.df(A, B), 'survival probability before default', 1e-9, 0, start=A, stop=B)
                    m.hit('alive')
                elif a <= last and b >= first:
                    m.true(got < 1e-290, 'survival probability beyond default does not vanish', start=A, stop=B, got=got)
                    m.hit('beyond default')
            else:
                R = ref.RefRates('marginal', [(x, max(v, 1e-300)) for x, v in zip(dates, vals)], o, tau, ref.LOGLINEAR, tenor)
                starts = [ax.days(s) for s, _, _ in R.steps(A, B)]
                if max(starts) >= first:
                    m.true(got == 0., 'survival probability beyond default does not vanish', start=A, stop=B, got=got)
                    m.hit('beyond default')
                elif max(starts) <= last:
                    m.eq(got, R.df(A, B), 'survival probability before default', 1e-9, 0, start=A, stop=B)
                    m.hit('alive')
    m.hit('dead')

"""C25-C31: pricing functions"""
import copy
import math

import dcf
from dcf import models

from . import gen, ref
from .core import Inject, Prop, Scenario
from .gen import Axis, tau_of
from .m_flows import RateState as Schedule
from .m_flows import amounts, pay_days, some_forward, some_list
from .m_options import ModelState
from .m_rates import RateState as Rates

SIT = 'distinct (scenario, list types, curve types, date type, valuation date, parameters) signatures with all oracle comparisons done'


# ------------------------------------------------------------------------------------------------------------ helpers
def some_axis(m):
    return Axis(m)


def curve(m, ax, far=0):
    """discount curve with its reference"""
    kinds = 'zero', 'zero', 'df', 'cash'
    if far > 3000:
        # cash rate curves step by tenor
        kinds = 'zero', 'df'
    if not far or m.rng.random() > .2:
        return Rates(m, kinds=kinds, ax=ax, dcs=gen.ADDITIVE)
    # the origin of the curve is after some pay dates, maybe all of them
    bx = copy.copy(ax)
    k = m.rng.choice((1, 30, far // 2, far // 4, far - 1, far, far + 10))
    bx.ordinal, bx.f0 = bx.ordinal + k, bx.f0 + k / 365.25
    s = Rates(m, kinds=('zero', 'df'), ax=bx, dcs=gen.ADDITIVE)
    m.hit('origin after pay dates')
    return s


def legs_of(l):
    if isinstance(l, dcf.CashFlowLegList):
        return [g for leg in l.legs for g in legs_of(leg)]
    return [l]


def flows_at(l, val):
    """(pay date, flow at valuation date) of all legs"""
    out = []
    for g in legs_of(l):
        model = getattr(g, 'payoff_model', None)
        had = hasattr(model, 'valuation_date')
        if had:
            old = model.valuation_date
            model.valuation_date = val
        out += [(d, float(g[d])) for d in g.domain if d >= val]
        if had:
            model.valuation_date = old
    return out


def pv_of(flows, df):
    """value, gross value, scale of rounding"""
    v = [(d, a, df(d)) for d, a in flows]
    return math.fsum(a * f for d, a, f in v), math.fsum(abs(a * f) for d, a, f in v)


def val_day(m, days, lo=0):
    """valuation day before, between, on and after"""
    r = m.rng
    if m.zero is not None and r.random() < .5:
        m.hit('valuation at 0.0')
        return max(lo, m.zero)
    w = r.random()
    if w > .92 and m.axis is not None:
        return max(lo, gen.special_day(m, r.randint(min(days), max(days))))
    if w < .15:
        return lo
    if w < .4:
        return max(lo, r.choice(days))
    if w < .5:
        return max(lo, max(days) + r.choice((1, 0, 100)))
    if w < .65:
        return max(lo, r.choice(days) + r.choice((-1, 1)))
    return max(lo, r.randint(min(days) - 30, max(days)))


# ------------------------------------------------------------------------------------------------------------ C25
def c25_pv(m):
    r = m.rng
    ax = some_axis(m)
    l, _, days, kind = some_list(m, ax)
    s = curve(m, ax, max(days))
    m.note(list=kind, pay_days=days, legs=[type(g).__name__ for g in legs_of(l)])
    s.sig(kind)
    for _ in range(3):
        w = r.random()
        if w < .2:
            val, arg = s.c.origin, r.choice(((), (), (None,)))
            m.hit('default valuation date')
        else:
            lo = r.choice((0, 0, -30, -400)) if s.kind in ('zero', 'df') else 0
            val = ax.at(val_day(m, days, lo))
            if val < s.c.origin:
                m.hit('valuation before the origin of the curve')
            arg = ax.copy(val),
            if r.random() < .1:
                arg = val,
        fl = flows_at(l, val)
        want, gross = pv_of(fl, lambda d: s.R.df(val, d))
        got = dcf.get_present_value(l, s.c, *arg)
        det = dict(valuation=val, list=kind, flows=fl[:20])
        nt = max([s.nt(val, d) for d, _ in fl] + [0.])
        m.eq(got, want, 'present value', 1e-10, (1e-11 + nt) * gross, **det)
        m.hit('pv %s' % kind)
        if not fl:
            m.hit('nothing left')
            m.true(got == 0., 'value without flows', got=got, **det)
        if any(d == val for d, _ in fl):
            m.hit('flow at valuation date')
        # the future alone
        if fl:
            f = {}
            for d, a in fl:
                f[d] = f.get(d, 0.) + a
            p = list(f.items())
            r.shuffle(p)
            q = dcf.FixedCashFlowList([d for d, _ in p], [a for _, a in p])
            m.eq(dcf.get_present_value(q, s.c, val), got, 'present value of the fixed future flows', 1e-9, 1e-11 * gross, **det)
            # past flows do not count
            past = ax.at(ax.days(val) - 1) if ax.kind != 'float' else val - 1e-6
            q = dcf.CashFlowList([past] + [d for d, _ in p], [1e9] + [a for _, a in p])
            m.eq(dcf.get_present_value(q, s.c, val), got, 'past flow counts', 1e-9, 1e-11 * gross, **det)
            # linear in amounts
            k = r.choice((-1., 2., 1e-3))
            q = dcf.CashFlowList([d for d, _ in p], [k * a for _, a in p])
            m.eq(dcf.get_present_value(q, s.c, val), k * got, 'not linear in amounts', 1e-9, 1e-11 * abs(k) * gross, **det)
        # additive
        if kind == 'legs':
            m.eq(sum(dcf.get_present_value(g, s.c, val) for g in l.legs), got, 'not the sum of legs', 1e-9, 1e-11 * gross, **det)
        # change something
        w = r.random()
        if w < .3 and s.kind in ('zero', 'cash'):
            x = s.ax.at(r.choice(s.days))
            v = s.R.pts[x] * r.uniform(.5, 1.)
            s.c[x] = s.R.pts[x] = v
            m.hit('curve changed')
        elif w < .6:
            for g in legs_of(l):
                if hasattr(g, 'fixed_rate'):
                    g.fixed_rate = r.uniform(-.05, .1)
                    m.hit('rate changed')
                mod = getattr(g, 'payoff_model', None)
                if hasattr(mod, 'valuation_date') and r.random() < .5:
                    mod.valuation_date = ax.at(r.choice((0, 50, 3000)))
                    m.hit('model date changed')


def c25_rates(m):
    """rate lists with a forward curve, all from references"""
    r = m.rng
    sch = Schedule(m)
    ax = sch.ax
    fname, fc, f = some_forward(m, ax)
    s = curve(m, ax, max(sch.days))
    l = dcf.RateCashFlowList(sch.dates, sch.amount_arg, forward_curve=fc, **sch.kw)
    s.sig(fname)
    days = sch.days
    for _ in range(3):
        val = ax.at(val_day(m, days))
        fl = [(d, n * y * (sch.fixed + f(x))) for d, n, y, x in zip(sch.dates, sch.amounts, sch.year_fractions(), sch.fixings) if d >= val]
        want, gross = pv_of(fl, lambda d: s.R.df(val, d))
        nt = max([s.nt(val, d) for d, _ in fl] + [0.])
        ex = math.fsum(abs(n) for n in sch.amounts) * 1e-13
        got = dcf.get_present_value(l, s.c, val)
        m.eq(got, want, 'present value of rate list', 1e-9, (1e-10 + nt) * gross + ex, valuation=val)
        m.hit('rate list')
        e = dcf.CashFlowLegList([l, dcf.FixedCashFlowList([sch.dates[-1]], [3.]), l])
        x = 3. * s.R.df(val, sch.dates[-1]) if sch.dates[-1] >= val else 0.
        m.eq(dcf.get_present_value(e, s.c, val), 2 * want + x, 'present value of legs', 1e-9,
             (1e-10 + nt) * (2 * gross + abs(x)) + 2 * ex, valuation=val)
        fname, fc, f = some_forward(m, ax)
        l.forward_curve = fc
        m.hit('forward curve set')


def c25_empty(m):
    r = m.rng
    ax = some_axis(m)
    s = curve(m, ax)
    l = r.choice((dcf.CashFlowList(), dcf.CashFlowList([], [])))
    m.true(dcf.get_present_value(l, s.c, ax.at(r.choice((0, 100)))) == 0., 'value of empty list')
    m.true(dcf.get_present_value(l, s.c) == 0., 'value of empty list')
    m.hit('empty')


# ------------------------------------------------------------------------------------------------------------ C26
def noise(gross, slope):
    return 2e-14 * gross / slope if slope else 1e300


def c26_yield(m):
    r = m.rng
    ax = some_axis(m)
    dc = r.choice(gen.DAYCOUNTS)
    tau = tau_of(dc)
    n = r.choice((1, 1, 2, 5, 20, 60))
    days = pay_days(m, n, r.choice((0, 30, 365)))
    size = 10. ** r.uniform(-3, 9)
    how = r.choice(('positive', 'positive', 'invest', 'bond', 'rate', 'negative'))
    vday = r.choice((0, 0, min(days), r.randint(0, max(days)), r.choice(days)))
    dates = [ax.at(d) for d in days]
    org = r.choice((None, vday, vday, 0, 10))
    okw = {} if org is None else dict(origin=ax.at(org))
    present = None
    if how in ('positive', 'negative', 'invest'):
        am = [size * r.uniform(.1, 1.) for _ in days]
        if how == 'negative':
            am = [-a for a in am]
        l = r.choice((dcf.CashFlowList, dcf.FixedCashFlowList))(dates, am, **okw)
    else:
        f = lambda d: .02 + .001 * math.sin(gen.yf(ax.at(0), d))
        so = ax.at(days[0] - 91)
        c = dcf.RateCashFlowList(dates, size, origin=so, fixed_rate=r.uniform(.0, .08), forward_curve=r.choice((None, f)))
        l = c
        if how == 'bond':
            l = dcf.CashFlowLegList([c, dcf.FixedCashFlowList([dates[-1]], size)])
    lo_b, hi_b = bounds = r.choice(((-.1, .2), (-.1, .2), (-.1, .2), (0., 1.), (-.5, .5), (-.03, -.01), (.049, .051)))
    y = r.choice((r.uniform(lo_b, hi_b), r.uniform(lo_b, hi_b), lo_b + 1e-6 * (hi_b - lo_b), hi_b - 1e-6 * (hi_b - lo_b)))
    if lo_b < 0. < hi_b and r.random() < .08:
        y = 0.
    given = r.random() < .7
    val = ax.at(vday) if given else l.origin
    fl = flows_at(l, val)
    if how == 'invest':
        # investment at valuation date: price as first flow
        if vday in days or not given:
            how = 'positive'
        else:
            p0, _ = pv_of(fl, lambda d: math.exp(-y * tau(val, d)))
            q = sorted(zip(days + [vday], [*am, -p0]))
            l = dcf.CashFlowList([ax.at(a) for a, _ in q], [b for _, b in q])
            fl = flows_at(l, val)
            present = 0.
    disc = lambda z: (lambda d: math.exp(-z * tau(val, d)))
    want, gross = pv_of(fl, disc(y))
    slope = abs(math.fsum(a * tau(val, d) * math.exp(-y * tau(val, d)) for d, a in fl))
    span = max([abs(tau(val, d)) for d, _ in fl] + [0.])
    if slope < 1e-3 * gross or not fl or span > 80. or max(abs(lo_b), abs(hi_b)) * span > 50.:
        m.hit('not sensitive')
        return
    if present is None:
        present = want
    prec = r.choice((1e-7, 1e-7, 1e-3, 1e-12, 1e-10))
    kw = {}
    if dc is not None:
        kw['day_count'] = dc
    if given:
        kw['valuation_date'] = ax.copy(val)
    if bounds != (-.1, .2) or r.random() < .3:
        kw['bounds'] = bounds
    if prec != 1e-7:
        kw['precision'] = prec
    if present != 0. or r.random() < .5:
        kw['present_value'] = present
    m.note(list=how, days=days, size=size, valuation=str(val), y=y, bounds=bounds, precision=prec, day_count=gen.dc_name(dc), present_value=present)
    m.sig(how, ax.kind, bounds, prec, gen.dc_name(dc), given, min(n, 3), int(math.log10(size)))
    gen.nones(m, kw, 'valuation_date')
    got = dcf.get_yield_to_maturity(l, **kw)
    m.hit('yield %s' % how)
    if y < 0:
        m.hit('negative yield')
    m.eq(got, y, 'yield to maturity', 0, prec + noise(gross, slope) + 1e-15, list=how)
    v, _ = pv_of(fl, disc(got))
    m.eq(v, present, 'yield does not reprice', 0, prec + 1e-13 * gross + 1e-15 * slope, list=how)
    # the flat curve with this yield
    c = dcf.ZeroRateCurve([val], [got], **({} if dc is None else dict(day_count=gen.named(m, dc))))
    m.eq(dcf.get_present_value(l, c, val), present, 'flat curve does not reprice', 0, prec + 1e-13 * gross + 1e-15 * slope)
    # no rate in the bounds
    z = r.choice((lo_b - r.uniform(1e-3, .1), hi_b + r.uniform(1e-3, .1)))
    other, _ = pv_of(fl, disc(z))
    kw['present_value'] = other
    m.raises(AssertionError, lambda: dcf.get_yield_to_maturity(l, **kw), 'no yield in the bounds', y=z, bounds=bounds)
    m.hit('no yield')


# ------------------------------------------------------------------------------------------------------------ C27
def c27_fair(m):
    r = m.rng
    sch = Schedule(m)
    ax = sch.ax
    s = curve(m, ax, max(sch.days))
    kind = r.choice(('fixed', 'float', 'float', 'contingent'))
    size = 10. ** r.uniform(-3, 9)
    sign = r.choice((1., -1.))
    n = sch.amounts = [sign * size * r.uniform(.2, 1.) for _ in sch.days]
    kw = dict(sch.kw)
    ms = None
    fname = 'none'
    if kind == 'contingent':
        ms = ModelState(m, ax=ax, level='rate', valuation=r.choice((0, 50)), kinds=('intrinsic', 'normal'))
        l = dcf.ContingentRateCashFlowList(sch.dates, n, payoff_model=ms.o, floor_strike=r.choice((None, 0., .01)), cap_strike=r.choice((None, .05)), **kw)
    elif kind == 'float':
        fname, fc, f = some_forward(m, ax)
        l = dcf.RateCashFlowList(sch.dates, n, forward_curve=fc, **kw)
    else:
        l = dcf.RateCashFlowList(sch.dates, n, **kw)
    vday = val_day(m, sch.days, r.choice((0, 0, -30, -400)) if s.kind in ('zero', 'df') else 0)
    given = r.random() < .8
    val = ax.at(vday) if given else s.c.origin
    yfs = sch.year_fractions()
    ann = [a * y * s.R.df(val, d) for a, y, d in zip(n, yfs, sch.dates) if d >= val]
    A = math.fsum(ann)
    # float flows alone
    l.fixed_rate = 0.
    F, Fg = pv_of(flows_at(l, val), lambda d: s.R.df(val, d))
    # different rates before
    before = []
    for d in sch.dates:
        x = r.choice((0., sch.fixed, r.uniform(-.1, .2)))
        before.append(x)
        l.payoff(d).fixed_rate = x
    lo_b, hi_b = bounds = r.choice(((-.1, .2), (-.1, .2), (-.1, .2), (0., 1.), (-.03, -.01), (.049, .051)))
    if not ann or abs(A) < 1e-4 * math.fsum(map(abs, ann)) or abs(A) < 1e-5 * size:
        m.hit('nothing left')
        return
    c = r.choice((r.uniform(lo_b, hi_b), r.uniform(lo_b, hi_b), lo_b + 1e-6 * (hi_b - lo_b), hi_b - 1e-6 * (hi_b - lo_b)))
    present = A * c + F
    if r.random() < .2 and abs(A) > 0 and lo_b < -F / A < hi_b and min(-F / A - lo_b, hi_b + F / A) > 1e-6:
        present, c = 0., -F / A
    prec = r.choice((1e-7, 1e-7, 1e-3, 1e-12))
    nt = max(s.nt(val, d) for d in sch.dates if d >= val)
    gross = math.fsum(map(abs, ann)) + Fg
    err = (1e-11 + 2 * nt) * gross
    kw = {}
    if given:
        kw['valuation_date'] = ax.copy(val)
    if bounds != (-.1, .2) or r.random() < .3:
        kw['bounds'] = bounds
    if prec != 1e-7:
        kw['precision'] = prec
    if present != 0. or r.random() < .5:
        kw['present_value'] = present
    m.note(list=kind, valuation=str(val), rate=c, bounds=bounds, precision=prec, present_value=present)
    s.sig(kind, fname, bounds, prec, given, sign)
    if min(c - lo_b, hi_b - c) <= 3 * err / abs(A):
        m.hit('ill conditioned')
        return
    gen.nones(m, kw, 'valuation_date')
    for i in range(2):
        got = dcf.get_fair_rate(l, s.c, **kw)
        m.eq(got, c, 'fair rate', 0, prec + 2 * err / abs(A) + 1e-15, list=kind)
        m.hit('fair rate %s' % kind)
        now = [l.payoff(d).fixed_rate for d in sch.dates]
        m.true(now == before, 'fixed rates not restored', now=now, before=before)
        # the list with this rate
        l.fixed_rate = got
        v = dcf.get_present_value(l, s.c, val)
        m.eq(v, present, 'fair rate does not reprice', 0, prec + 2e-13 * gross + 2e-15 * abs(A), list=kind)
        before = [r.uniform(-.1, .1) for _ in sch.dates]
        for d, x in zip(sch.dates, before):
            l.payoff(d).fixed_rate = x
    z = r.choice((lo_b - r.uniform(1e-3, .1), hi_b + r.uniform(1e-3, .1)))
    if abs(A) * 1e-3 > 3 * err:
        kw['present_value'] = A * z + F
        m.raises(AssertionError, lambda: dcf.get_fair_rate(l, s.c, **kw), 'no fair rate in the bounds', rate=z, bounds=bounds)
        now = [l.payoff(d).fixed_rate for d in sch.dates]
        m.true(now == before, 'fixed rates not restored if there is no fair rate', now=now, before=before)
        m.hit('no fair rate')


# ------------------------------------------------------------------------------------------------------------ C28
def c28_accrued(m):
    r = m.rng
    ax = some_axis(m)
    legs, refs = [], []
    for _ in range(r.choice((1, 1, 2, 3))):
        sch = Schedule(m, ax=ax, pay=r.random() < .4, dcs=gen.ADDITIVE)
        kind = r.choice(('rate', 'rate', 'contingent', 'fixed'))
        if kind == 'fixed':
            l = r.choice((dcf.FixedCashFlowList, dcf.CashFlowList))(sch.dates, sch.amount_arg)
            legs.append(l)
            refs.append((sch, l, None, kind))
            continue
        if kind == 'contingent':
            ms = ModelState(m, ax=ax, level='rate', valuation=0, kinds=('intrinsic', 'normal'))
            l = dcf.ContingentRateCashFlowList(sch.dates, sch.amount_arg, payoff_model=ms.o, floor_strike=r.choice((None, 0., .01)),
                                               cap_strike=r.choice((None, .05)), **sch.kw)
            f = None
        else:
            fname, fc, f = some_forward(m, ax)
            l = dcf.RateCashFlowList(sch.dates, sch.amount_arg, forward_curve=fc, **sch.kw)
        legs.append(l)
        refs.append((sch, l, f, kind))
    whole = dcf.CashFlowLegList(legs) if len(legs) > 1 or r.random() < .3 else legs[0]
    m.sig(ax.kind, *sorted('%s %s' % (k, gen.dc_name(s.dc)) for s, _, _, k in refs))
    m.note(legs=[k for _, _, _, k in refs])
    allx = sorted({d for s, _, _, _ in refs for d in s.days})

    def one(sch, l, f, kind, val):
        if kind == 'fixed':
            return 0., 0.
        out = sc = 0.
        for d, a, e, n, y, x in zip(sch.dates, sch.starts, sch.ends, sch.amounts, sch.year_fractions(), sch.fixings):
            if a < val <= e:
                flow = l[d] if f is None else n * y * (sch.fixed + f(x))
                out += flow * sch.tau(a, val) / sch.tau(a, e)
                sc += abs(flow) + abs(n * y) * .01
                m.hit('accrued %s' % kind)
                if val == e:
                    m.hit('at pay date')
            if a == val:
                m.hit('at period start')
        return out, sc
    for _ in range(6):
        vday = val_day(m, allx, lo=-100)
        if r.random() < .2:
            s0 = refs[0][0]
            vday = s0.origin_day if s0.origin_day is not None else 0
        val = ax.at(vday)
        if any(e < val <= d for sch, _, _, k in refs if k != 'fixed' and sch.po is not None for d, e in zip(sch.dates, sch.ends)):
            continue  # between end of period and its payment: no current period
        res = [one(*q, val) for q in refs]
        if any(res_[1] and q[0].po is not None for res_, q in zip(res, refs)):
            m.hit('accrued with pay offset')
        got = dcf.get_interest_accrued(whole, ax.copy(val))
        m.eq(got, sum(a for a, _ in res), 'accrued interest', 1e-9, 1e-11 * sum(b for _, b in res) + 1e-300, valuation=val)
        if not any(b for _, b in res):
            m.true(got == 0., 'accrued interest outside of all periods', got=got, valuation=val)
            m.hit('nothing accrued')
        for l, (a, b) in zip(legs, res):
            m.eq(dcf.get_interest_accrued(l, val), a, 'accrued interest of leg', 1e-9, 1e-11 * b + 1e-300, valuation=val)
        if r.random() < .2:
            q = r.choice(refs)
            if q[3] != 'fixed':
                q[0].fixed = r.uniform(-.05, .1)
                q[1].fixed_rate = q[0].fixed
                m.hit('rate changed')


# ------------------------------------------------------------------------------------------------------------ C29
def hat(ax, grid, j):
    """hat function of grid date j"""
    g = [ax.days(x) if ax.kind != 'float' else x for x in grid]

    def h(x):
        t = ax.days(x) if ax.kind != 'float' else x
        if len(g) == 1:
            return 1.
        if j == 0 and t <= g[0] or j == len(g) - 1 and t >= g[-1]:
            return 1.
        if j and g[j - 1] <= t <= g[j]:
            return (t - g[j - 1]) / (g[j] - g[j - 1])
        if j + 1 < len(g) and g[j] <= t <= g[j + 1]:
            return (g[j + 1] - t) / (g[j + 1] - g[j])
        return 0.
    return h


def c29_reference(m):
    """all from references: rate list with a forward curve, zero or cash curves"""
    r = m.rng
    sch = Schedule(m)
    ax = sch.ax
    ten = {'float': .25, 'date': ax.step(91), 'bdate': '3M'}[ax.kind]

    def rate_curve():
        while True:
            s = Rates(m, ('zero', 'cash') if sch.days[-1] < 3000 else ('zero',), ax=ax, dcs=gen.ADDITIVE, touch=False)
            if s.tenor is None:
                s.tenor = s.R.tenor = '3M' if ax.kind == 'bdate' else None
            if s.tenor is not None:
                return s
    disc = rate_curve()
    fwd = r.choice((None, disc, rate_curve()))
    bond = r.random() < .5
    l = dcf.RateCashFlowList(sch.dates, sch.amount_arg, forward_curve=fwd.c if fwd else None, **sch.kw)
    L = l
    if bond:
        L = dcf.CashFlowLegList([l, dcf.FixedCashFlowList([sch.dates[-1]], [1e3])])
    given = r.random() < .7
    val = ax.at(val_day(m, sch.days, r.choice((0, 0, -30, -400)) if disc.kind == 'zero' else 0)) if given else disc.c.origin
    targets = r.choice(([disc], [disc], [disc, fwd], [fwd]))
    targets = [t for t in targets if t] or [disc]
    if len(targets) == 2 and targets[0] is targets[1]:
        targets = targets[:1]
    shift = r.choice((1e-4, 1e-4, 1e-6, 1e-2, -1e-4, -1e-5))
    yfs = sch.year_fractions()

    def value(spread):
        for t in targets:
            t.R.spread = spread
        fl = []
        for d, n, y, x in zip(sch.dates, sch.amounts, yfs, sch.fixings):
            f = fwd.R.cash(x, ref.add_period(x, fwd.tenor)) if fwd else 0.
            if d >= val:
                fl.append((d, n * y * (sch.fixed + f)))
        if bond and sch.dates[-1] >= val:
            fl.append((sch.dates[-1], 1e3))
        v, g = pv_of(fl, lambda d: disc.R.df(val, d))
        g += math.fsum(abs(n * y) for n, y in zip(sch.amounts, yfs)) * .1
        for t in targets:
            t.R.spread = None
        return v, g
    v0, g0 = value(None)
    span = max(abs(disc.tau(disc.origin, d)) for d in sch.dates + [val]) + 1.
    nt = 4e-14 * span * span
    tol = nt * g0 / abs(shift) * 1e-4
    want = (value(lambda x: shift)[0] - v0) / shift * .0001
    kw = {}
    single = len(targets) == 1 and r.random() < .7
    if targets != [disc] or r.random() < .5:
        kw['delta_curve'] = targets[0].c if single else gen.container(m, [t.c for t in targets])
    if given:
        kw['valuation_date'] = val
    if shift != 1e-4 or r.random() < .5:
        kw['shift'] = shift
    m.note(discount=disc.kind, forward=fwd and (fwd is disc or fwd.kind), targets=len(targets), shift=shift, valuation=str(val), bond=bond)
    m.sig(ax.kind, disc.kind, fwd and (fwd is disc or fwd.kind), [t is disc for t in targets], shift, given, bond)
    own = 'delta_curve' in kw
    gen.nones(m, kw, 'valuation_date', 'delta_curve')
    got = dcf.get_basis_point_value(L, disc.c, **kw)
    m.eq(got, want, 'basis point value', 1e-6, tol, shift=shift)
    m.hit('bpv')
    if g0 and abs(want) > 1e4 * tol:
        m.hit('bpv not zero')
    # buckets
    base = targets[0].c if own and not isinstance(kw['delta_curve'], (list, tuple)) else disc.c
    if r.random() < .5 or list(base.domain) != sorted(base.domain):
        n = r.choice((1, 2, 2, 3, 5, 20))
        grid = [ax.at(d) for d in gen.grid_days(m, n, r.choice((0, 30, 500)), hi=9000)]
        kw['delta_grid'] = gen.container(m, grid)
        m.hit('own grid')
    else:
        grid = list(base.domain)
        gen.nones(m, kw, 'delta_grid')
        m.hit('default grid')
    b = dcf.get_bucketed_delta(L, disc.c, **kw)
    m.true(len(b) == len(grid), 'number of buckets', got=len(b), want=len(grid))
    for j in range(len(grid)):
        h = hat(ax, grid, j)
        w = (value(lambda x: shift * h(x))[0] - v0) / shift * .0001
        m.eq(b[j], w, 'bucketed delta', 1e-6, tol, bucket=j, shift=shift)
        m.hit('bucket')
    # second order of the shift
    order2 = g0 * 1e-4 * abs(shift) * (span + 2.) ** 2 * 8.
    if abs(shift) * span < .05:
        m.eq(sum(b), got, 'buckets do not add up to the basis point value', 1e-9, order2 + 2 * tol * (1 + len(b)))
    for t in {id(t): t for t in targets + [disc]}.values():
        m.true(t.c.spread is None, 'spread left on curve')


def c29_shifts(m):
    """any list and curve: against present values of curves with own spread"""
    r = m.rng
    ax = some_axis(m)
    s = Rates(m, ('zero', 'df', 'cash') if r.random() < .3 else ('zero', 'df'), ax=ax, dcs=gen.ADDITIVE, touch=False)
    kind = r.choice(('list', 'list', 'vol', 'forward', 'many'))
    targets = [s.c]
    if kind == 'list':
        l, _, days, what = some_list(m, ax)
    elif kind == 'many':
        # several delta curves, each with a leg of its own or shared
        days, what = pay_days(m, r.choice((1, 2, 5)), 60), kind
        g = gen.grid_days(m, r.choice((1, 2, 4)), 0, hi=6000)
        fs = [dcf.CashRateCurve([ax.at(d) for d in g], gen.rates(m, len(g)), forward_tenor={'float': .25, 'date': ax.step(91), 'bdate': '3M'}[ax.kind])
              for _ in range(r.choice((2, 3, 3, 4)))]
        l = dcf.CashFlowLegList([dcf.RateCashFlowList([ax.at(d) for d in days], r.uniform(-1e4, 1e4), origin=ax.at(days[0] - 50), forward_curve=f)
                                 for f in fs + fs[:1]])
        targets = gen.shuffled(m, fs + [s.c])[:r.randint(1, len(fs) + 1)]
    else:
        days = pay_days(m, r.choice((1, 2, 5)), 60)
        dates = [ax.at(d) for d in days]
        g = gen.grid_days(m, r.choice((1, 2, 4)), 0, hi=6000)
        what = kind
        if kind == 'vol':
            v = dcf.TerminalVolatilityCurve([ax.at(d) for d in g], [r.uniform(.1, .4) for _ in g])
            mod = models.LogNormalOptionPayOffModel(valuation_date=ax.at(0), forward_curve=lambda x: 100., volatility_curve=v)
            l = dcf.OptionCashflowList(dates, r.choice((1., 1e6)), strike_list=r.uniform(80., 120.), payoff_model=mod)
            targets = [v]
        else:
            t = {'float': .25, 'date': ax.step(91), 'bdate': '3M'}[ax.kind]
            f = dcf.CashRateCurve([ax.at(d) for d in g], gen.rates(m, len(g)), forward_tenor=t)
            mod = models.NormalOptionPayOffModel(valuation_date=ax.at(0), forward_curve=f, volatility_curve=lambda x: .01)
            l = dcf.ContingentRateCashFlowList(dates, 1e4, origin=ax.at(days[0] - 50), floor_strike=r.choice((None, .01)), cap_strike=.03, payoff_model=mod)
            targets = r.choice(([f], [f, s.c]))
    val = ax.at(val_day(m, days, r.choice((0, 0, -30, -400)) if s.kind in ('zero', 'df') and kind in ('list', 'many') else 0))
    shift = r.choice((1e-4, 1e-3, 1e-2, -1e-4))
    if s.kind == 'df':
        shift = abs(shift) * .1

    def value(spread):
        for t in targets:
            t.spread = spread
        v = dcf.get_present_value(l, s.c, val)
        for t in targets:
            t.spread = None
        return v
    v0 = value(None)
    _, gross = pv_of(flows_at(l, val), lambda d: s.R.df(val, d))
    tol = 1e-12 * gross / abs(shift) * 1e-4
    kw = dict(valuation_date=val, shift=shift)
    if targets != [s.c] or r.random() < .5:
        kw['delta_curve'] = targets[0] if len(targets) == 1 and r.random() < .7 else gen.container(m, targets)
    m.note(list=what, discount=s.kind, shift=shift, valuation=str(val), targets=len(targets))
    m.sig(what, s.kind, ax.kind, shift, len(targets))
    got = dcf.get_basis_point_value(l, s.c, **kw)
    m.eq(got, (value(lambda x: shift) - v0) / shift * .0001, 'basis point value', 1e-9, tol)
    m.hit('bpv %s' % kind)
    n = r.choice((1, 2, 3, 6))
    grid = [ax.at(d) for d in gen.grid_days(m, n, r.choice((0, 30, 500)), hi=9000)]
    b = dcf.get_bucketed_delta(l, s.c, delta_grid=gen.container(m, grid), **kw)
    m.true(len(b) == len(grid), 'number of buckets', got=len(b), want=len(grid))
    for j in range(n):
        h = hat(ax, grid, j)
        m.eq(b[j], (value(lambda x: shift * h(x)) - v0) / shift * .0001, 'bucketed delta', 1e-9, tol + 1e-13 * gross, bucket=j)
    m.hit('buckets %s' % kind)
    if n == 1:
        m.eq(b[0], got, 'one bucket is not the basis point value', 1e-9, tol)
    m.true(all(t.spread is None for t in targets), 'spread left on curve')
    m.eq(dcf.get_present_value(l, s.c, val), v0, 'present value changed', 1e-15, 0)


# ------------------------------------------------------------------------------------------------------------ C30
def maturities(m, n):
    r = m.rng
    out, cur = [], 0
    for _ in range(n):
        cur += r.choice((91, 182, 365, 365, 730))
        out.append(cur)
    return out


def schedule_to(d, step=None):
    """pay days up to d backwards"""
    step = step or 365
    out = [d]
    while out[0] - step > 20:
        out.insert(0, out[0] - step)
    return out


def c30_discount(m):
    """zero curve from coupon bonds"""
    r = m.rng
    ax = some_axis(m)
    n = r.choice((1, 2, 3, 5, 8))
    days = maturities(m, n)
    size = 10. ** r.uniform(-1, 7)
    par = r.random() < .3
    grid = [ax.at(d) for d in days]
    o = ax.at(0)
    true = [r.uniform(-.01, .08) for _ in days]
    dc = r.choice(gen.ADDITIVE)
    kw = dict(origin=o)
    if dc is not None:
        kw['day_count'] = dc
    tau = tau_of(dc)
    R = ref.RefRates('zero', list(zip(grid, true)), o, tau, ref.LINEAR)
    products, prices, flows = [], [], []
    # price of par products
    level = r.choice((0., 0., 0, 100, r.uniform(-50., 50.)))
    ends = list(days)
    if r.random() < .3:
        # more products than grid dates, some mature between the grid dates
        for a, d in zip([0] + days, days):
            w = r.random()
            if w < .4:
                ends.append(d)
            elif w < .8 and d - a > 60:
                ends.append(r.randint(a + 30, d - 10))
        r.shuffle(ends)
        m.hit('more products than grid dates')
    k = 3 * (len(ends) - n + 1) if len(ends) > n else 1
    for d in ends:
        pd = schedule_to(d, r.choice((182, 365, 365))) if r.random() < .8 else [d]
        cr = r.uniform(0., .06)
        dates = [ax.at(x) for x in pd]
        leg = dcf.RateCashFlowList(dates, size, origin=o, fixed_rate=cr)
        red = dcf.FixedCashFlowList([dates[-1]], [size])
        p = dcf.CashFlowLegList([leg, red])
        fl = flows_at(p, o)
        if r.random() < .4:
            # the same flows as one list, pay dates in any order
            net = {}
            for x, a in fl:
                net[x] = net.get(x, 0.) + a
            fl = gen.shuffled(m, net.items())
            p = dcf.FixedCashFlowList(gen.container(m, [x for x, _ in fl]), [a for _, a in fl])
            m.hit('unsorted product' if [x for x, _ in fl] != sorted(net) else 'fixed product')
        v, _ = pv_of(fl, lambda x: R.df(o, x))
        if par:
            # par product worth zero (or any other given number)
            p = dcf.CashFlowLegList([p, dcf.FixedCashFlowList([o], [level - v])])
            fl = fl + [(o, level - v)]
            v = level
        products.append(p)
        flows.append(fl)
        prices.append(v)
    # start curve
    if r.random() < .6:
        start = [(g, min(.15, max(-.05, t + r.uniform(-.05, .05)))) for g, t in zip(grid, true)]
        given = r.random() < .3
    else:
        start = [(o, r.uniform(-.01, .05))]
        given = True
    c = dcf.ZeroRateCurve([a for a, _ in start], [b for _, b in start], **kw)
    # prices of curves to discount with and to fit are the same curve
    args = {}
    if given:
        args['fitting_grid'] = gen.container(m, grid)
    if r.random() < .5:
        args['fitting_curve'] = c
    vd = r.random() < .5
    if vd:
        args['valuation_date'] = o
    if not par or level != 0 or r.random() < .5:
        args['present_value'] = gen.container(m, prices) if not par or r.random() < .5 else level
        if args['present_value'] is level:
            m.hit('one price of type %s' % type(level).__name__)
    prec = r.choice((1e-7, 1e-7, 1e-9))
    if prec != 1e-7:
        args['precision'] = prec
    b = r.choice(((-.1, .2), (-.12, .12)))
    if b != (-.1, .2):
        args['bounds'] = b
    need = []
    R0 = ref.RefCurve(start, o, tau, ref.LINEAR)
    if any(not b[0] + 1e-4 < t - R0(g) < b[1] - 1e-4 for g, t in zip(grid, true)):
        m.hit('start too far')
        return
    m.note(days=days, ends=ends, true=true, start=[x for _, x in start], size=size, par=par, precision=prec, day_count=gen.dc_name(dc))
    m.sig(ax.kind, n, par, given, vd, prec, b, gen.dc_name(dc), len(start) == 1)
    before = c(list(c.domain))
    gen.nones(m, args, 'fitting_grid', 'fitting_curve', 'valuation_date')
    got = dcf.get_curve_fit(gen.container(m, products), c, **args)
    m.true(len(got) == n, 'number of values', got=got, want=n)
    F = ref.RefRates('zero', list(zip(grid, got)), o, tau, ref.LINEAR)
    for i, (fl, v) in enumerate(zip(flows, prices)):
        p, g = pv_of(fl, lambda x: F.df(o, x))
        m.eq(p, v, 'fitted curve does not reprice', 0, k * n * prec + 1e-12 * g, product=i)
        m.hit('repriced')
    new = dcf.ZeroRateCurve(grid, got, **kw)
    for i, (p, v) in enumerate(zip(products, prices)):
        m.eq(dcf.get_present_value(p, new, o), v, 'curve built from fit does not reprice', 0, k * n * prec + 1e-11 * size, product=i)
    if size > 1e3:
        for i, (a, b) in enumerate(zip(got, true)):
            m.eq(a, b, 'curve not recovered', 0, 1e-6, point=i)
            m.hit('recovered')
    m.true(c.spread is None, 'spread left on the curve')
    m.true(c(list(c.domain)) == before, 'fitting curve changed')


def c30_forward(m):
    """cash rate curve from rate lists"""
    r = m.rng
    ax = some_axis(m)
    n = r.choice((1, 2, 3, 5))
    ten = {'float': .25, 'date': ax.step(91), 'bdate': '3M'}[ax.kind]
    o = ax.at(0)
    days = [91 * (i + 1) * r.choice((1, 1)) for i in range(n)]
    size = 10. ** r.uniform(2, 7)
    # last fixing of each product is a day after the grid date before
    grid = [ax.at(d) for d in days]
    true = [r.uniform(-.01, .08) for _ in days]
    R = ref.RefCurve(list(zip(grid, true)), o, gen.yf, ref.LINEAR)
    disc = dcf.ZeroRateCurve([o], [r.uniform(-.01, .06)])
    c0 = r.uniform(-.01, .06)
    start = [(g, c0) for g in grid] if r.random() < .5 else [(o, c0)]
    c = dcf.CashRateCurve([a for a, _ in start], [b for _, b in start], origin=o, forward_tenor=ten)
    products, prices, flows = [], [], []
    for i, d in enumerate(days):
        # each period fixes at its end
        lo = [0] + days[:i]
        dates = [ax.at(x) for x in days[:i + 1]]
        back = ax.at(0) - ax.at(days[0] - r.choice((1, 10, 30, 89))) if ax.kind == 'float' else None
        off = -(r.choice((30, 45, 89)))
        off = off / 365.25 if ax.kind == 'float' else ax.step(off)
        fr = r.choice((0., -.01, .02))
        leg = dcf.RateCashFlowList(dates, size, origin=o, fixed_rate=fr, forward_curve=c, fixing_offset=off)
        products.append(leg)
        starts = [o] + dates[:-1]
        fl = [(e, size * gen.yf(s, e) * (fr + R(s - off))) for s, e in zip(starts, dates)]
        flows.append((fr, off, starts, dates))
        prices.append(pv_of(fl, lambda x: math.exp(-disc(o) * gen.yf(o, x)))[0])
    if any(not -.0999 < t - c0 < .1999 for t in true):
        m.hit('start too far')
        return
    prec = r.choice((1e-7, 1e-9))
    m.note(days=days, true=true, start=c0, size=size)
    m.sig(ax.kind, n, len(start) == 1, prec)
    got = dcf.get_curve_fit(products, disc, o, fitting_curve=c, fitting_grid=grid, present_value=prices, precision=prec)
    F = ref.RefCurve(list(zip(grid, got)), o, gen.yf, ref.LINEAR)
    for i, ((fr, off, starts, dates), v) in enumerate(zip(flows, prices)):
        fl = [(e, size * gen.yf(s, e) * (fr + F(s - off))) for s, e in zip(starts, dates)]
        p, _ = pv_of(fl, lambda x: math.exp(-disc(o) * gen.yf(o, x)))
        m.eq(p, v, 'fitted forward curve does not reprice', 0, (i + 1) * prec + 1e-12 * size, product=i)
        m.hit('forward repriced')
    m.true(c.spread is None and disc.spread is None, 'spread left on the curve')
    m.true(list(c(list(c.domain))) == [c0] * len(start), 'fitting curve changed')


def c30_vol(m):
    """terminal volatility curve from options"""
    r = m.rng
    ax = some_axis(m)
    n = r.choice((1, 2, 3, 5, 8))
    days = maturities(m, n)
    o = ax.at(0)
    grid = [ax.at(d) for d in days]
    lognormal = r.random() < .7
    true = [r.uniform(.08, .5) for _ in days] if lognormal else [r.uniform(.004, .02) for _ in days]
    disc = dcf.ZeroRateCurve([o], [r.uniform(-.01, .06)])
    v0 = r.uniform(.11, .3) if lognormal else r.uniform(.004, .02)
    start = [(g, v0) for g in grid] if r.random() < .5 else [(o, v0)]
    v = dcf.TerminalVolatilityCurve([a for a, _ in start], [b for _, b in start], origin=o)
    fwd = 100. if lognormal else .03
    cls = models.LogNormalOptionPayOffModel if lognormal else models.NormalOptionPayOffModel
    mod = cls(valuation_date=o, forward_curve=lambda x: fwd, volatility_curve=v)
    size = 10. ** r.uniform(0, 6)
    products, prices, keys = [], [], []
    for d, t in zip(days, true):
        k = fwd * math.exp(r.uniform(-.15, .15)) if lognormal else fwd + r.uniform(-.005, .005)
        put = r.random() < .5
        x = ax.at(d)
        products.append(dcf.OptionCashflowList([x], size, strike_list=k, is_put_list=put, payoff_model=mod))
        keys.append((x, k, put))
        prices.append(size * ref.option('black' if lognormal else 'bachelier', fwd, k, t, gen.yf(o, x), not put) * math.exp(-disc(o) * gen.yf(o, x)))
    b = (-.1, .5) if lognormal else (-.0039, .1)
    if any(not b[0] + 1e-4 < t - v0 < b[1] - 1e-4 for t in true):
        m.hit('start too far')
        return
    m.note(days=days, true=true, start=v0, lognormal=lognormal, size=size)
    m.sig(ax.kind, n, lognormal, len(start) == 1)
    got = dcf.get_curve_fit(products, disc, o, fitting_curve=v, fitting_grid=gen.container(m, grid), present_value=prices, bounds=b)
    for i, ((x, k, put), p, s) in enumerate(zip(keys, prices, got)):
        w = size * ref.option('black' if lognormal else 'bachelier', fwd, k, s, gen.yf(o, x), not put) * math.exp(-disc(o) * gen.yf(o, x))
        m.eq(w, p, 'fitted volatility does not reprice', 0, (i + 1) * 1e-7 + 5e-7 * size * fwd, product=i)
        m.hit('vol repriced')
    m.true(v.spread is None and disc.spread is None, 'spread left on the curve')
    m.true(list(v(list(v.domain))) == [v0] * len(start), 'fitting curve changed')


# ------------------------------------------------------------------------------------------------------------ C31
class Tick:
    """counts calls of user supplied functions and lets the k-th one fail"""

    def __init__(self):
        self.n, self.at = 0, None

    def __call__(self):
        self.n += 1
        if self.n == self.at:
            raise Inject('call %d' % self.n)

    def arm(self, k):
        self.n, self.at = 0, k


def ticking(tick, f):
    def g(*a):
        tick()
        return f(*a)
    return g


def tick_model(tick, cls):
    class Model(cls):
        def get_call_value(self, *a, **k):
            tick()
            return super().get_call_value(*a, **k)
    return Model


class World:
    """curves, models and lists with user functions everywhere, and their observable state"""

    def __init__(self, m):
        r = m.rng
        self.m = m
        self.tick = t = Tick()
        self.ax = ax = some_axis(m)
        self.lists, self.curves, self.models = [], [], []
        o = ax.at(0)
        ten = {'float': .25, 'date': ax.step(91), 'bdate': '3M'}[ax.kind]
        g = sorted({0} | set(gen.grid_days(m, r.choice((1, 2, 4)), 0, hi=4000)))
        grid = [ax.at(d) for d in g]
        dc = ticking(t, gen.yf) if r.random() < .6 else None
        kw = {} if dc is None else dict(day_count=dc)

        class ZeroRates(dcf.ZeroRateCurve):
            def get_discount_factor(self, *a):
                t()
                return super().get_discount_factor(*a)
        self.disc = ZeroRates(grid, gen.rates(m, len(g)), **kw)
        self.fwd = dcf.CashRateCurve(grid, gen.rates(m, len(g)), forward_tenor=ten, **kw)
        self.fwd2 = dcf.ZeroRateCurve(grid, gen.rates(m, len(g)), forward_tenor=ten, **kw)
        self.vol = dcf.TerminalVolatilityCurve([o], [.2])
        self.curves = [self.disc, self.fwd, self.fwd2, self.vol]
        price = ticking(t, lambda x: 100. + gen.yf(o, x))
        self.m1 = tick_model(t, models.LogNormalOptionPayOffModel)(valuation_date=ax.at(r.choice((0, 20))), forward_curve=price, volatility_curve=self.vol)
        self.m2 = tick_model(t, models.NormalOptionPayOffModel)(valuation_date=ax.at(r.choice((0, 20))), forward_curve=self.fwd, volatility_curve=ticking(t, lambda x: .01))
        self.models = [self.m1, self.m2]
        days = self.days = pay_days(m, r.choice((1, 2, 4)), 100)
        dates = [ax.at(d) for d in days]
        so = ax.at(days[0] - 91)
        ldc = ticking(t, gen.act365) if r.random() < .5 else None
        self.rate = dcf.RateCashFlowList(dates, 100., origin=so, fixed_rate=.02, day_count=ldc,
                                         forward_curve=r.choice((self.fwd, self.fwd2, ticking(t, lambda x: .03), None)))
        self.cont = dcf.ContingentRateCashFlowList(dates, 100., origin=so, fixed_rate=.01, day_count=ldc, floor_strike=.0, cap_strike=.04, payoff_model=self.m2)
        self.opt = dcf.OptionCashflowList(dates, 10., strike_list=100., payoff_model=self.m1)
        self.call = dcf.ContingentCashFlowList(dates, [ticking(t, lambda x=None: 3.)] * len(dates), payoff_model=self.m1)
        self.fix = dcf.FixedCashFlowList(dates, 100.)
        for l in (self.rate, self.cont):
            for d in dates:
                l.payoff(d).fixed_rate = r.choice((.01, .02, 0.))
        self.legs = dcf.CashFlowLegList(r.sample([self.rate, self.cont, self.opt, self.call, self.fix], r.choice((2, 3, 5))))
        self.lists = [self.rate, self.cont, self.opt, self.call, self.fix, self.legs]
        self.q = [ax.at(d) for d in gen.query_days(m, days + g, 4)]
        self.extra = []

    def state(self):
        at, self.tick.at = self.tick.at, None
        s = []
        for c in self.curves:
            s.append((type(c), tuple(c.domain), tuple(c(list(c.domain))), tuple(c(self.q)), id(c.spread), c.origin,
                      len(c.fixings), c.forward_tenor))
        for o in self.models:
            s.append((o.valuation_date, id(o.forward_curve), id(o.volatility_curve)))
        for l in self.lists:
            s.append((tuple(l.domain), l.origin, tuple(l[tuple(l.domain)]), id(getattr(l, 'payoff_model', None)), id(getattr(l, 'forward_curve', None)),
                      tuple(getattr(l.payoff(d), 'fixed_rate', None) for d in l.domain)))
        s.append([list(map(id, e)) if isinstance(e, list) else repr(e) for e in self.extra])
        s.append([id(g) for g in self.legs.legs])
        self.tick.at = at
        return s


def c31_call(m, w):
    """some valuation as (name, function of no argument)"""
    r = m.rng
    ax = w.ax
    val = ax.at(val_day(m, w.days))
    val = r.choice((val, val, None))
    l = r.choice(w.lists)
    name = r.choice(('pv', 'ytm', 'fair', 'accrued', 'bpv', 'buckets', 'fit', 'fit vol'))
    if name == 'pv':
        return name, lambda: dcf.get_present_value(l, w.disc, val)
    if name == 'accrued':
        l = r.choice((w.rate, w.cont, w.legs, w.fix))
        val = val or ax.at(w.days[0] - 20)
        return name, lambda: dcf.get_interest_accrued(l, val)
    prec = r.choice((1e-7, 1e-3))
    if name == 'ytm':
        l = r.choice((w.fix, w.rate, w.legs, w.fix))
        target = r.choice((100. * len(w.days), 100. * len(w.days), 1e9, -1e9, 50.))
        dc = ticking(w.tick, gen.act365)
        v = val or ax.at(0)
        return name, lambda: dcf.get_yield_to_maturity(l, v, target, prec, day_count=dc)
    if name == 'fair':
        l = r.choice((w.rate, w.cont))
        target = r.choice((0., 5., 1e9, -1e9))
        return name, lambda: dcf.get_fair_rate(l, w.disc, val, target, prec)
    dl = r.choice((None, w.disc, w.fwd, w.vol, [w.disc, w.fwd], [w.fwd2, w.fwd], [w.disc, w.fwd, w.disc]))
    if isinstance(dl, list):
        w.extra.append(dl)
    if name == 'bpv':
        return name, lambda: dcf.get_basis_point_value(l, w.disc, val, dl, r0)
    if name == 'buckets':
        g = [ax.at(d) for d in gen.grid_days(m, r.choice((1, 2, 3, 4)), 0, hi=3000)]
        g = r.choice((None, g))
        if g:
            w.extra.append(g)
        return name, lambda: dcf.get_bucketed_delta(l, w.disc, val, dl, g, r0)
    days = w.days[:3]
    grid = [ax.at(d) for d in days]
    v = ax.at(0)
    if name == 'fit':
        prods = [dcf.FixedCashFlowList([x], [100.]) for x in grid]
        prices = [r.choice((98., 95., 101.)) for _ in prods]
        if r.random() < .3:
            prices[-1] = r.choice((1e9, -5.))
        w.extra += [prods, prices, grid]
        w.lists += prods
        fc = r.choice((w.disc, None))
        return name, lambda: dcf.get_curve_fit(prods, w.disc, v, fc, grid, prices, prec, (-.2, .3))
    prods = [dcf.OptionCashflowList([x], 10., strike_list=100., payoff_model=w.m1) for x in grid]
    prices = [r.choice((60., 90.)) for _ in prods]
    if r.random() < .3:
        prices[-1] = r.choice((1e9, -5.))
    w.extra += [prods, prices, grid]
    w.lists += prods
    return name, lambda: dcf.get_curve_fit(prods, w.disc, v, w.vol, grid, prices, prec, (-.19, 1.))


r0 = 1e-4


def c31_faults(m):
    r = m.rng
    w = World(m)
    name, call = c31_call(m, w)
    m.note(call=name, axis=w.ax.kind, days=w.days)

    def run():
        try:
            return call()
        except Inject as e:
            return 'failed', str(e)
        except (AssertionError, TypeError, ZeroDivisionError, ValueError, OverflowError) as e:
            # no solution or spread set twice
            return 'error', type(e).__name__
    before = w.state()
    w.tick.arm(None)
    first = run()
    calls = w.tick.n
    m.true(w.state() == before, '%s changed its arguments' % name, result=first)
    m.hit('call %s' % name)
    if isinstance(first, tuple) and first and first[0] == 'error':
        m.hit('error %s' % first[1])
    m.true(run() == first, '%s repeated gives another result' % name)
    ks = list(range(1, calls + 1))
    if len(ks) > 20:
        ks = ks[:6] + ks[-6:] + r.sample(ks[6:-6], 8)
    m.sig(name, w.ax.kind, isinstance(first, tuple) and first and first[0] == 'error', min(calls, 30))
    for k in ks:
        w.tick.arm(k)
        res = run()
        w.tick.arm(None)
        m.hit('fault')
        m.hit('fault %s' % name)
        if res != ('failed', 'call %d' % k):
            m.hit('fault not raised')
        now = w.state()
        m.true(now == before, '%s changed its arguments when call %d of a user function failed' % (name, k), k=k, of=calls,
               difference=[(a, b) for a, b in zip(before, now) if a != b][:2])
    m.true(run() == first, '%s after failed calls gives another result' % name)


def c31_spread(m):
    """curves which have a spread keep it"""
    r = m.rng
    ax = some_axis(m)
    s = Rates(m, ('zero', 'cash'), ax=ax, dcs=gen.ADDITIVE, touch=False)
    x = r.uniform(-.01, .02)
    sp = lambda d: x
    days = pay_days(m, r.choice((1, 3)), 50)
    l = dcf.FixedCashFlowList([ax.at(d) for d in days], 100.)
    c = s.c
    c.spread = sp
    v = dcf.get_present_value(l, c)
    f = r.choice((lambda: dcf.get_basis_point_value(l, c), lambda: dcf.get_bucketed_delta(l, c),
                  lambda: dcf.get_curve_fit([l], c, present_value=[90.])))
    try:
        f()
    except Exception:
        m.hit('refused')
    m.true(c.spread is sp, 'spread of curve lost')
    m.true(dcf.get_present_value(l, c) == v, 'value changed')
    m.hit('with spread')
    m.sig(s.kind, ax.kind)


PROPS = {
    'C25': Prop('C25', [Scenario('pv', c25_pv, 2400), Scenario('rates', c25_rates, 1200), Scenario('empty', c25_empty, 50)],
                {'pv legs': 300, 'pv plain': 300, 'pv rate': 300, 'pv option': 200, 'pv callable': 200, 'pv contingent rate': 200, 'nothing left': 200,
                 'flow at valuation date': 1000, 'default valuation date': 500, 'curve changed': 200, 'rate changed': 200,
                 'model date changed': 200, 'rate list': 3000, 'empty': 50}, SIT),
    'C26': Prop('C26', [Scenario('yield', c26_yield, 3000)],
                {'yield positive': 400, 'yield negative': 100, 'yield invest': 100, 'yield bond': 200, 'yield rate': 200, 'no yield': 1500,
                 'negative yield': 400}, SIT),
    'C27': Prop('C27', [Scenario('fair', c27_fair, 1300)],
                {'fair rate fixed': 150, 'fair rate float': 300, 'fair rate contingent': 100, 'no fair rate': 350}, SIT),
    'C28': Prop('C28', [Scenario('accrued', c28_accrued, 6000)],
                {'accrued rate': 2000, 'accrued with pay offset': 500, 'accrued contingent': 1000, 'at pay date': 300, 'at period start': 200, 'nothing accrued': 500,
                 'rate changed': 300}, SIT),
    'C29': Prop('C29', [Scenario('reference', c29_reference, 1000), Scenario('shifts', c29_shifts, 700)],
                {'bpv': 1000, 'bpv not zero': 300, 'bucket': 3000, 'own grid': 300, 'default grid': 300, 'bpv list': 200, 'bpv vol': 50,
                 'bpv forward': 50, 'bpv many': 50, 'buckets vol': 50}, SIT),
    'C30': Prop('C30', [Scenario('discount', c30_discount, 700), Scenario('forward', c30_forward, 200), Scenario('vol', c30_vol, 300)],
                {'repriced': 1000, 'recovered': 600, 'more products than grid dates': 60, 'one price of type int': 8, 'unsorted product': 200, 'forward repriced': 200, 'vol repriced': 300}, SIT),
    'C31': Prop('C31', [Scenario('faults', c31_faults, 1200), Scenario('spread', c31_spread, 100)],
                {'fault': 8000, 'call pv': 50, 'call ytm': 50, 'call fair': 50, 'call accrued': 50, 'call bpv': 50, 'call buckets': 50,
                 'call fit': 50, 'call fit vol': 50, 'error AssertionError': 50, 'with spread': 100}, SIT),
}

"""C40-C41: tables of cashflows and printed forms"""
import datetime

import businessdate
import dcf
from businessdate import BusinessDate, BusinessPeriod
from dcf.models.optionpricing import OptionPayOffModel

from . import gen, ref
from .core import Prop, Scenario
from .gen import Axis, tau_of
from .m_flows import RateState, Tagged, amounts, back, offset, pay_days, some_forward, some_list, some_model, strikes
from .m_options import CDF, ModelState

SIT = 'distinct (scenario, list types, date type, model and curve kinds) signatures with all oracle comparisons done'

# documented columns in their order
PLAIN = 'cashflow', 'pay date'
RATE = PLAIN + ('notional', 'start date', 'end date', 'year fraction', 'fixed rate', 'forward rate', 'fixing date', 'tenor')
CONTINGENT = RATE + ('floorlet', 'floorlet strike', 'floorlet volatility', 'caplet', 'caplet strike', 'caplet volatility',
                     'time to expiry', 'valuation date')
MODEL = 'fixing date', 'forward', 'volatility', 'time to expiry', 'valuation date'
OPTION = PLAIN + ('put/call', 'long/short', 'notional', 'strike', 'expiry date') + MODEL
STRATEGY = PLAIN + tuple('#%d %s' % (i, k) for i in range(10) for k in ('put/call', 'long/short', 'notional', 'strike')) + ('expiry date',) + MODEL


def table(m, l, dates, columns, must, what, never=()):
    """rows as dicts; header of the columns in order, one row per pay date"""
    t = l.table
    m.true(isinstance(t, list) and len(t) == len(dates) + 1, what + ': number of rows', got=len(t), want=len(dates) + 1)
    head = t[0]
    if not dates:
        m.true(tuple(head) == (), what + ': header without rows', got=head)
        return []
    m.true(len(set(head)) == len(head), what + ': column twice', got=head)
    pos = [columns.index(k) if k in columns else None for k in head]
    m.true(None not in pos, what + ': column of other kind', got=head)
    m.true(pos == sorted(pos), what + ': order of columns', got=head)
    miss = [k for k in must if k not in head]
    m.true(not miss, what + ': missing columns', missing=miss, got=head)
    bad = [k for k in never if k in head]
    m.true(not bad, what + ': columns of things not there', columns=bad, got=head)
    for row in t[1:]:
        m.true(len(row) == len(head), what + ': number of cells', row=row, header=head)
    out = [dict(zip(head, row)) for row in t[1:]]
    m.true([x['pay date'] for x in out] == list(dates), what + ': pay dates', got=[x['pay date'] for x in out], want=dates)
    for x, d in zip(out, dates):
        m.eq(x['cashflow'], l[d], what + ': cashflow', 1e-12, 0, date=d)
    m.hit(what + ' table')
    # the table is made anew
    t.append('x')
    m.true(len(l.table) == len(dates) + 1, what + ': table is not new')
    return out


def tenor_of(fc):
    if isinstance(fc, OptionPayOffModel):
        fc = fc.forward_curve
    return getattr(fc, 'forward_tenor', None)


def rate_rows(m, s, tab, fixed, f, fc, what):
    for t, n, a, b, x, y in zip(tab, s.amounts, s.starts, s.ends, s.fixings, s.year_fractions()):
        det = dict(date=t['pay date'])
        m.eq(t['notional'], n, what + ': notional', 0, 0, **det)
        m.true(t['start date'] == a, what + ': start date', got=t['start date'], want=a, **det)
        m.true(t['end date'] == b, what + ': end date', got=t['end date'], want=b, **det)
        m.eq(t['year fraction'], y, what + ': year fraction', 1e-12, 1e-15, **det)
        m.eq(t['fixed rate'], fixed, what + ': fixed rate', 0, 0, **det)
        if 'forward rate' in t:
            m.eq(t['forward rate'], f(x), what + ': forward rate', 1e-9, 1e-14, **det)
            m.true(t['fixing date'] == x, what + ': fixing date', got=t['fixing date'], want=x, **det)
            want = tenor_of(fc)
            m.true(str(t['tenor']) == str(want), what + ': tenor', got=t['tenor'], want=want, **det)


# ------------------------------------------------------------------------------------------------------------ C40
def c40_rate(m):
    r = m.rng
    s = RateState(m)
    fname, fc, f = some_forward(m, s.ax)
    s.sig(fname)
    m.note(forward=fname)
    l = dcf.RateCashFlowList(s.dates, s.amount_arg, forward_curve=fc, **s.kw)
    fixed = s.fixed
    for _ in range(r.choice((1, 2, 3))):
        must, never = RATE[:7], ()
        if fname in ('none',):
            never = RATE[7:]
            m.hit('rate table without forwards')
        elif fname not in ('zero',):
            must = RATE
        tab = table(m, l, s.dates, RATE, must, 'rate', never)
        rate_rows(m, s, tab, fixed, f, fc, 'rate')
        for t in tab:
            # the row recomputes its cashflow
            fw = t.get('forward rate', 0.)
            m.eq(t['cashflow'], (t['fixed rate'] + fw) * t['year fraction'] * t['notional'], 'row does not give its cashflow', 1e-12,
                 1e-15 * abs(t['notional']), row=t)
        p = l.payoff(s.dates[0])
        det = p.details(fc)
        m.eq(det['cashflow'], p(fc), 'details of the payoff', 0, 0)
        m.eq(det['cashflow'], tab[0]['cashflow'], 'details and table', 0, 0)
        m.eq(p.details()['cashflow'], s.amounts[0] * fixed * s.year_fractions()[0], 'details without curve', 1e-9, 0)
        m.true(tuple(l.payoff(s.dates)) == tuple(l.payoff(d) for d in s.dates), 'payoffs of dates')
        w = r.random()
        if w < .6:
            fname, fc, f = some_forward(m, s.ax)
            l.forward_curve = fc
            m.hit('forward curve set')
        if w > .4:
            fixed = r.choice((0., r.uniform(-.1, .2)))
            l.fixed_rate = fixed
        if w > .9 and len(s.dates) > 1:
            l.payoff(s.dates[0]).fixed_rate = fixed + .01
            m.true(l.fixed_rate is None, 'fixed rate of different rates', got=l.fixed_rate)
            l.fixed_rate = fixed
            m.eq(l.fixed_rate, fixed, 'fixed rate set', 0, 0)
            m.hit('different fixed rates')


def model_cells(m, t, ms, x, what):
    """time, valuation date, volatility of the row"""
    m.eq(t['time to expiry'], ms.tau(ms.o.valuation_date, x), what + ': time to expiry', 1e-12, 1e-15, expiry=x)
    m.true(t['valuation date'] == ms.o.valuation_date, what + ': valuation date', got=t['valuation date'], want=ms.o.valuation_date)


def c40_collared(m):
    r = m.rng
    ax = Axis(m)
    s = RateState(m, ax=ax)
    floor, cap = strikes(m)
    name, model, f, ms = some_model(m, ax, s.days)

    def good():
        return not (isinstance(ms, ModelState) and ms.kind in ('lognormal', 'displaced') and
                    any(k is not None and k + ms.displ <= 0. for k in (floor, cap)))
    while not good():
        name, model, f, ms = some_model(m, ax, s.days)
    l = dcf.ContingentRateCashFlowList(s.dates, s.amount_arg, floor_strike=floor, cap_strike=cap, payoff_model=model, **s.kw)
    s.sig(name, floor is None, cap is None, getattr(ms, 'kind', None))
    m.note(model_=name, floor=floor, cap=cap)
    for _ in range(r.choice((1, 2, 3))):
        must, never = list(RATE[:7]), []
        opt = ms is not None
        if opt or name == 'forward' and model:
            fc = model.forward_curve if opt else model
            if fc:
                must += RATE[7:]
        else:
            fc = None
        if name == 'none':
            never += RATE[7:]
        for k, st in (('floorlet', floor), ('caplet', cap)):
            (must if opt and st is not None else never).extend((k, k + ' strike', k + ' volatility'))
        (must if opt and (floor is not None or cap is not None) else never).extend(('time to expiry', 'valuation date'))
        tab = table(m, l, s.dates, CONTINGENT, must, 'contingent rate', never)
        rate_rows(m, s, tab, s.fixed, f, fc, 'contingent rate')
        for t, x in zip(tab, s.fixings):
            fw, fl, ca = t.get('forward rate', 0.), t.get('floorlet', 0.), t.get('caplet', 0.)
            y = t['year fraction'] * t['notional']
            m.eq(t['cashflow'], (t['fixed rate'] + fw) * y + fl - ca, 'row does not give its cashflow', 1e-12,
                 1e-14 * (abs(t['fixed rate']) + abs(fw) + 1.) * abs(y), row=t)
            if 'floorlet' in t:
                m.eq(t['floorlet strike'], floor, 'floorlet strike', 0, 0)
                m.eq(fl, model.get_put_value(x, floor) * y, 'floorlet', 1e-9, 1e-14 * abs(y), row=t)
                m.hit('floorlet')
            if 'caplet' in t:
                m.eq(t['caplet strike'], cap, 'caplet strike', 0, 0)
                m.eq(ca, model.get_call_value(x, cap) * y, 'caplet', 1e-9, 1e-14 * abs(y), row=t)
                m.hit('caplet')
            if isinstance(ms, ModelState) and (floor is not None or cap is not None):
                model_cells(m, t, ms, x, 'contingent rate')
                for k in ('floorlet volatility', 'caplet volatility'):
                    if k in t:
                        if ms.o.volatility_curve:
                            t['time to expiry'] > 0. and m.eq(t[k], ms.vol(x), k, 1e-9, 1e-12, row=t)
                        else:
                            m.true(not t[k], k + ' without volatility', row=t)
        if r.random() < .7:
            name, model, f, ms = some_model(m, ax, s.days)
            while not good():
                name, model, f, ms = some_model(m, ax, s.days)
            l.payoff_model = model
            m.hit('model set')


def option_state(m, ax, days):
    r = m.rng
    return ModelState(m, ax=ax, valuation=r.choice((0, 0, r.randint(days[0], days[-1]), days[-1] + 10)))


def option_cells(m, t, s, x, what):
    """model columns of an option row"""
    if s is None:
        for k in MODEL:
            m.true(k not in t, what + ': model column without model', column=k)
        return
    if s.o.forward_curve is not None:
        m.eq(t['forward'], s.fwd(x), what + ': forward', 1e-9, 1e-12, row=t)
        m.true(t['fixing date'] == x, what + ': fixing date', row=t)
    if s.o.volatility_curve:
        t['time to expiry'] > 0. and m.eq(t['volatility'], s.vol(x), what + ': volatility', 1e-9, 1e-12, row=t)
        m.hit('volatility shown')
    else:
        m.true('volatility' not in t or not t['volatility'], what + ': volatility of a model without', row=t)
    model_cells(m, t, s, x, what)


def side(m, t, a, key, what):
    if a:
        m.true(t[key] == ('long' if a > 0 else 'short'), what + ': long or short', amount=a, row=t)


def c40_options(m):
    r = m.rng
    ax = Axis(m)
    days = pay_days(m, r.choice((1, 2, 4, 12)), r.choice((31, 120, 400)))
    dates = [ax.at(d) for d in days]
    s = option_state(m, ax, days)
    po, fo = offset(m, ax, 'pay'), offset(m, ax, 'fixing')
    exps = [back(back(d, po), fo) for d in dates]
    how, arg, am = amounts(m, len(days))
    ks = [s.strike(s.fwd(x)) for x in exps]
    if s.kind in ('lognormal', 'displaced'):
        ks = [k if k is None or k + s.displ > 0 else None for k in ks]
    puts = [r.random() < .5 for _ in days]
    kw = {k: v for k, v in dict(pay_offset=po, fixing_offset=fo).items() if v is not None}
    l = dcf.OptionCashflowList(dates, arg, ks, puts, payoff_model=s.o, **kw)
    m.note(days=days, amounts=am, strikes=ks, puts=puts, pay_offset=str(po), fixing_offset=str(fo))
    s.sig('options', how, po is None, fo is None)
    for _ in range(2):
        must = OPTION[:7]
        if s is not None:
            must += ('fixing date', 'forward', 'time to expiry', 'valuation date') + (('volatility',) if s.o.volatility_curve else ())
        tab = table(m, l, dates, OPTION, must, 'option', () if s else MODEL)
        for t, k, p, x, n in zip(tab, ks, puts, exps, am):
            m.true(t['put/call'] == ('put' if p else 'call'), 'put/call', row=t)
            side(m, t, n, 'long/short', 'option')
            m.true(t['expiry date'] == x, 'expiry', row=t)
            m.eq(t['notional'], n, 'notional', 0, 0)
            option_cells(m, t, s, x, 'option')
            if s is None:
                m.true(t['strike'] is None if k is None else t['strike'] == k, 'strike', row=t, want=k)
                m.eq(t['cashflow'], 0., 'cashflow without model', 0, 0)
                continue
            m.eq(t['strike'], s.fwd(x) if k is None else k, 'strike', 1e-9, 1e-12, row=t)
            # the row recomputes the option value by the formula of the model
            v = s.value(t['forward'], t['strike'], t.get('volatility', 0.) or 0., max(t['time to expiry'], 0.), not p)
            sc = s.scale(t['forward'], t['strike'])
            m.eq(t['cashflow'], n * v, 'row does not give its cashflow', 1e-9, 2 * CDF * abs(n) * sc + 1e-15, row=t)
            m.hit('option row')
        l.payoff_model = s = None


def c40_strategy(m):
    r = m.rng
    ax = Axis(m)
    days = pay_days(m, r.choice((1, 2, 4)), r.choice((31, 120, 400)))
    dates = [ax.at(d) for d in days]
    s = option_state(m, ax, days)
    po, fo = offset(m, ax, 'pay'), offset(m, ax, 'fixing')
    exps = [back(back(d, po), fo) for d in dates]
    f = s.fwd(exps[0])
    n = r.choice((0, 1, 2, 3, 5, 10, 10))
    ks = []
    while len(ks) < n:
        k = s.strike(f)
        if k is not None and (s.kind not in ('lognormal', 'displaced') or k + s.displ > 0):
            ks.append(k)
    if n > 2 and r.random() < .4:
        ks[0] = ks[-1]
    nc = r.randint(0, n)
    am = [r.choice((1., -1., 2., r.uniform(-5., 5.))) for _ in ks]
    kw = {k: v for k, v in dict(pay_offset=po, fixing_offset=fo).items() if v is not None}
    l = dcf.OptionStrategyCashflowList(dates, am[:nc], ks[:nc], am[nc:], ks[nc:], payoff_model=s.o, **kw)
    m.note(days=days, amounts=am, strikes=ks, calls=nc, pay_offset=str(po), fixing_offset=str(fo))
    s.sig('strategy', min(nc, 3), min(n - nc, 3), n == 10, po is None, fo is None)
    # by strike, of equal strikes puts first
    opts = sorted(zip(ks[nc:], am[nc:], ['put'] * n), key=lambda x: x[0]) + sorted(zip(ks[:nc], am[:nc], ['call'] * n), key=lambda x: x[0])
    opts.sort(key=lambda x: x[0])
    for _ in range(2):
        must = PLAIN + tuple(k for k in STRATEGY if k[0] == '#' and int(k[1]) < n) + ('expiry date',)
        never = tuple(k for k in STRATEGY if k[0] == '#' and int(k[1]) >= n)
        if s is not None and n:
            must += ('fixing date', 'forward', 'time to expiry', 'valuation date') + (('volatility',) if s.o.volatility_curve else ())
        tab = table(m, l, dates, STRATEGY, must, 'strategy', never + (MODEL if s is None else ()))
        for t, x in zip(tab, exps):
            m.true(t['expiry date'] == x, 'expiry', row=t)
            if n:
                option_cells(m, t, s, x, 'strategy')
            v, sc = 0., 0.
            for i, (k, a, p) in enumerate(opts):
                h = '#%d ' % i
                m.true(t[h + 'put/call'] == p, 'put/call', row=t, option=i)
                side(m, t, a, h + 'long/short', 'strategy')
                m.eq(t[h + 'notional'], a, 'notional', 0, 0)
                m.eq(t[h + 'strike'], k, 'strike', 1e-12, 0, option=i)
                m.hit('strategy option')
                if s is not None:
                    v += a * s.value(t['forward'], k, t.get('volatility', 0.) or 0., max(t['time to expiry'], 0.), p == 'call')
                    sc += abs(a) * s.scale(t['forward'], k)
            m.eq(t['cashflow'], v, 'row does not give its cashflow', 1e-9, 2 * CDF * sc + 1e-15, row=t)
        l.payoff_model = s = None


def c40_plain(m):
    """lists of any payoffs, legs and lists of different payoffs"""
    r = m.rng
    ax = Axis(m)
    l, val, days, kind = some_list(m, ax, kinds=('plain', 'fixed', 'callable', 'legs'))
    m.sig(kind, ax.kind)
    table(m, l, [ax.at(d) for d in days], PLAIN, PLAIN, 'plain')
    # payoffs of different kinds in one list
    days = pay_days(m, r.choice((2, 4, 7)))
    dates = [ax.at(d) for d in days]
    y = r.choice((.03, lambda x: .02))
    pay = []
    for d in dates:
        w = r.randrange(5)
        a = r.uniform(-100., 100.)
        if w == 0:
            pay.append(a)
        elif w == 1:
            pay.append(dcf.FixedCashFlowPayOff(a))
        elif w == 2:
            pay.append(dcf.RateCashFlowPayOff(ax.at(0), d, a, fixed_rate=.01))
        elif w == 3:
            pay.append(dcf.ContingentRateCashFlowPayOff(ax.at(0), d, a, floor_strike=.02))
        else:
            pay.append((lambda a: lambda x=None: a)(a))
    o = Tagged(valuation_date=ax.at(0), forward_curve=y)
    l = dcf.ContingentCashFlowList(dates, pay, payoff_model=o)
    tab = table(m, l, dates, PLAIN, PLAIN, 'mixed')
    for t, p in zip(tab, pay):
        m.eq(t['cashflow'], p if isinstance(p, float) else p(o), 'cashflow of the payoff', 1e-12, 0)
    c = l()
    table(m, c, dates, PLAIN, PLAIN, 'mixed called')


# ------------------------------------------------------------------------------------------------------------ C41
NAMES = dict(vars(dcf))
NAMES.update(BusinessDate=BusinessDate, BusinessPeriod=BusinessPeriod, datetime=datetime)


def c41_curve(m):
    """printed curves show range, values and parameters, and repr builds an equal curve"""
    r = m.rng
    ax = Axis(m)
    n = r.choice((1, 2, 3, 6))
    start = r.choice((0, 30, 300))
    days = gen.grid_days(m, n, start, hi=6000)
    dates = [ax.at(d) for d in days]
    w = r.choice(('Curve', 'DateCurve', 'ir', 'ir', 'credit', 'TerminalVolatilityCurve', 'InstantaneousVolatilityCurve', 'ForwardCurve', 'ForwardCurve'))
    kw = {}
    if w == 'ir':
        w = r.choice(('ZeroRateCurve', 'DiscountFactorCurve', 'ShortRateCurve', 'CashRateCurve'))
    elif w == 'credit':
        w = r.choice(('FlatIntensityCurve', 'HazardRateCurve', 'SurvivalProbabilityCurve', 'DefaultProbabilityCurve', 'MarginalSurvivalProbabilityCurve',
                      'MarginalDefaultProbabilityCurve'))
    cls = getattr(dcf, w)
    if w in ('Curve', 'DateCurve'):
        vals = [r.uniform(-100., 100.) for _ in days]
    elif w in ('DiscountFactorCurve', 'SurvivalProbabilityCurve', 'DefaultProbabilityCurve'):
        days = [d + 30 for d in days]  # factors at the origin are 1
        dates = [ax.at(d) for d in days]
        kw['origin'] = ax.at(0)
        vals = sorted((r.uniform(.3, .999) for _ in days), reverse=w != 'DefaultProbabilityCurve')
    elif w == 'MarginalSurvivalProbabilityCurve':
        vals = [r.uniform(.9, 1.) for _ in days]
    elif w == 'MarginalDefaultProbabilityCurve':
        vals = [r.uniform(.001, .1) for _ in days]
    else:
        vals = [r.uniform(.001, .12) for _ in days]
    if w == 'Curve':
        dates = [gen.yf(ax.at(0), d) for d in dates]
    elif r.random() < .6:
        kw['origin'] = ax.at(0)
    if r.random() < .4:
        kw['interpolation'] = r.choice(('linear', 'linear_scheme', 'constant', 'log_linear_scheme' if all(v > 0. for v in vals) else 'linear'))
        if w in ('ForwardCurve', 'FxForwardCurve', 'DefaultProbabilityCurve', 'MarginalDefaultProbabilityCurve', 'SurvivalProbabilityCurve',
                 'MarginalSurvivalProbabilityCurve', 'DiscountFactorCurve'):
            kw.pop('interpolation')
    if hasattr(cls, 'forward_tenor') or w in ('CashRateCurve', 'ZeroRateCurve'):
        if r.random() < .5 and w not in ('Curve', 'DateCurve', 'ForwardCurve', 'FxForwardCurve'):
            kw['forward_tenor'] = .25 if ax.kind == 'float' else BusinessPeriod(r.choice(('1M', '6M', '1Y'))) if ax.kind == 'bdate' else datetime.timedelta(91)
    if w in ('ForwardCurve', 'FxForwardCurve') and r.random() < .5:
        kw['yield_curve'] = r.uniform(-.02, .06)
    c = cls(dates, vals, **kw)
    if r.random() < .3 and 'Prob' not in w and 'Factor' not in w:
        d = dates[-1]
        v = r.choice(vals)
        c[d] = v
        m.hit('changed')
    m.note(type=w, axis=ax.kind, points=list(zip(map(str, dates), vals)), kwargs={k: str(v) for k, v in kw.items()})
    m.sig(w, ax.kind, *sorted(kw))
    s, q = str(c), repr(c)
    dom = list(c.domain)
    a, b = dom[0], dom[-1]
    m.true(s.startswith(w + '('), 'str does not name the type', got=s)
    m.true('[%r ... %r]' % (a, b) in s, 'str does not show the range', got=s, first=a, last=b)
    m.true('[%r ... %r]' % (c(a), c(b)) in s, 'str does not show the values', got=s, first=c(a), last=c(b))
    m.true(q.startswith(w + '('), 'repr does not name the type', got=q)
    flip = isinstance(c, (dcf.DefaultProbabilityCurve, dcf.MarginalDefaultProbabilityCurve))  # are given by 1 - value
    for d in dom:
        m.true(repr(d) in q and repr(1. - c(d) if flip else c(d)) in q, 'repr does not show a point', got=q, date=d, value=c(d))
    for k, v in kw.items():
        m.true('%s=' % k in q and '%s=' % k in s, 'parameter not shown', got=q, parameter=k)
    m.hit('printed')
    # the text builds an equal curve
    e = eval(q, dict(NAMES))
    m.true(type(e) is cls, 'repr builds another type', got=type(e).__name__)
    m.true(list(e.domain) == dom, 'domain of the curve built of the text', got=e.domain, want=dom)
    m.true(list(e.kwargs) == list(c.kwargs), 'parameters of the curve built of the text', got=repr(e), want=q)
    if w != 'Curve':
        m.true(e.origin == c.origin, 'origin of the curve built of the text', got=e.origin, want=c.origin)
    for d in gen.query_days(m, days, 6, lo=0):
        x = ax.at(d) if w != 'Curve' else gen.yf(ax.at(0), ax.at(d))
        m.eq(e(x), c(x), 'value of the curve built of the text', 1e-12, 1e-15, date=x)
    m.hit('rebuilt')
    m.hit('rebuilt ' + w)


def c41_list(m):
    r = m.rng
    ax = Axis(m)
    l, val, days, kind = some_list(m, ax)
    m.sig(kind, ax.kind)
    dates = [ax.at(d) for d in days]
    m.note(kind=kind, axis=ax.kind, days=days)
    s, q = str(l), repr(l)
    name = type(l).__name__
    m.true(s.startswith(name + '('), 'str does not name the type', got=s)
    m.true(q.startswith(name + '('), 'repr does not name the type', got=q)
    m.true('[%r ... %r]' % (dates[0], dates[-1]) in s, 'str does not show the range', got=s)
    if kind != 'legs':
        for d in dates:
            m.true(repr(d) in q, 'repr does not show a pay date', got=q, date=d)
    if kind in ('plain', 'fixed'):
        a, b = l[dates[0]], l[dates[-1]]
        flows = l.payoff(tuple(dates))
        m.true('[%r ... %r]' % (flows[0], flows[-1]) in s, 'str does not show the amounts', got=s)
        k = l.kwargs
        m.true(tuple(k['payment_date_list']) == tuple(dates), 'pay dates of kwargs', got=k)
        if kind == 'plain':
            e = eval(q, dict(NAMES))
            m.true(type(e) is type(l) and list(e.domain) == dates and e.origin == l.origin, 'list built of the text', got=repr(e), want=q)
            m.true(tuple(e[tuple(dates)]) == tuple(l[tuple(dates)]), 'cashflows of the list built of the text', got=repr(e), want=q)
            f = type(l)(**k)
            m.true(repr(f) == q and f.origin == l.origin, 'list built of kwargs', got=repr(f), want=q)
            m.hit('list rebuilt')
    m.hit('list printed')


def c41_price(m):
    r = m.rng
    ax = Axis(m)
    v = r.choice((r.uniform(-10., 1e4), 0., 1, r.uniform(-1e-3, 1e-3)))
    o = r.choice((None, ax.at(r.randint(0, 3000))))
    cls = dcf.Price
    if r.random() < .6:
        p = cls(v, o)
        m.true(p.origin == o, 'origin of price', got=p.origin, want=o)
        m.eq(p.value, v, 'value of price', 0, 0)
        m.true(type(p.value) is float and type(float(p)) is float, 'price is not a float')
        m.eq(float(p), v, 'float of price', 0, 0)
        m.true(str(p) == repr(p) == 'Price(%f; origin=%r)' % (v, o), 'printed price', got=str(p))
    else:
        d = r.choice((None, ax.at(r.randint(0, 3000))))
        p = dcf.FxRate(v, d)
        m.eq(float(p), v, 'float of fx rate', 0, 0)
        m.true(p.origin == d, 'origin of fx rate', got=p.origin, want=d)
        m.true('%f' % v in str(p) and repr(d) in str(p), 'printed fx rate', got=str(p))
    m.sig('price', ax.kind, o is None, type(v).__name__)
    m.hit('price')


PROPS = {
    'C40': Prop('C40', [Scenario('rate', c40_rate, 1500), Scenario('collared', c40_collared, 1500), Scenario('options', c40_options, 1500),
                        Scenario('strategy', c40_strategy, 1200), Scenario('plain', c40_plain, 800)],
                {'rate table': 1000, 'contingent rate table': 1000, 'option table': 1000, 'strategy table': 1000, 'plain table': 300, 'mixed table': 300,
                 'floorlet': 500, 'caplet': 500, 'option row': 1000, 'strategy option': 3000, 'volatility shown': 500,
                 'rate table without forwards': 100, 'different fixed rates': 30}, SIT),
    'C41': Prop('C41', [Scenario('curve', c41_curve, 16000), Scenario('list', c41_list, 6000), Scenario('price', c41_price, 600)],
                {'printed': 1000, 'rebuilt': 1000, 'list printed': 500, 'list rebuilt': 50, 'price': 200}, SIT),
}

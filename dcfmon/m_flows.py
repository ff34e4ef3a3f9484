"""C18-C21: cashflow lists and payoffs"""
import datetime

import dcf
from businessdate import BusinessPeriod
from dcf.models.optionpricing import OptionPayOffModel

from . import gen, ref
from .core import Prop, Scenario
from .gen import Axis, tau_of
from .m_options import ModelState

SIT = 'distinct (scenario, list types, date type, origin, amounts, offsets, curve or model kinds) signatures with all oracle comparisons done'


# ------------------------------------------------------------------------------------------------------------ helpers
def amounts(m, n):
    """amounts of any sign and size: (argument, list)"""
    r = m.rng
    w = r.choice(('scalar', 'int', 'list', 'tuple', 'mixed', 'zeros'))
    if w == 'scalar':
        a = r.choice((1., -1., r.uniform(-1e6, 1e6), 0.))
        return w, a, [a] * n
    if w == 'int':
        a = r.choice((0, 1, 100, -7))
        return w, a, [a] * n
    v = [r.choice((r.uniform(-100., 100.), r.uniform(-1e9, 1e9), 0., 1, -3, 1e-9)) for _ in range(n)]
    if w == 'zeros':
        v = [0.] * n
    return w, (tuple(v) if w == 'tuple' else list(v)), v


def pay_days(m, n=None, lo=None):
    r = m.rng
    n = r.choice((1, 1, 2, 3, 4, 8, 12, 40, 60)) if n is None else n
    lo = r.choice((0, 1, 90, 365)) if lo is None else lo
    return gen.grid_days(m, n, lo, hi=lo + 12000)


def other_day(m, days):
    r = m.rng
    for _ in range(20):
        d = r.choice(days) + r.choice((-1, 1, 7, -30, 400)) if days else r.randint(0, 100)
        if d not in days:
            return d
    return max(days) + 12345


def snapshot(l):
    """observable state of a list"""
    return (tuple(l.domain), l.origin, tuple(l[tuple(l.domain)]), getattr(l, 'fixed_rate', None), len(l.table),
            id(getattr(l, 'forward_curve', None)), id(getattr(l, 'payoff_model', None)))


def rows(l):
    """table as list of dicts"""
    head, *body = l.table
    return [dict(zip(head, row)) for row in body]


def read_some(m, l, ax, days):
    """random reads"""
    r = m.rng
    for _ in range(r.randint(1, 5)):
        w = r.randrange(6)
        if w == 0:
            l[ax.at(other_day(m, days))]
        elif w == 1:
            l[tuple(l.domain)]
        elif w == 2:
            l()
        elif w == 3:
            l.table
        elif w == 4:
            l.payoff(ax.at(days[0]) if days else 0.)
        else:
            l.domain, l.origin


def check_list(m, l, ax, days, vals, tol=1e-12, what='list'):
    """the list is the map from days to values"""
    r = m.rng
    dates = [ax.at(d) for d in days]
    m.true(list(l.domain) == dates, what + ': domain', got=l.domain, want=dates)
    sc = max([abs(float(v)) for v in vals] + [0.])
    for d, v in zip(r.sample(list(zip(dates, vals)), min(len(vals), 12)), ()):
        pass
    for d, v in r.sample(list(zip(dates, vals)), min(len(vals), 12)):
        m.eq(l[ax.copy(d)], v, what + ': cashflow', 1e-9, tol * (abs(v) + 1e-300), date=d)
    for _ in range(2):
        o = ax.at(other_day(m, days))
        m.true(l[o] == 0., what + ': cashflow at another date', date=o, got=l[o])
    q = [r.choice(dates + [ax.at(other_day(m, days))]) for _ in range(r.randint(0, 6))]
    got = l[gen.container(m, q)]
    ref_ = dict(zip(dates, vals))
    m.true(len(got) == len(q), what + ': number of cashflows', got=got, dates=q)
    for a, b in zip(q, got):
        m.eq(b, ref_.get(a, 0.), what + ': cashflows of dates', 1e-9, 0, date=a)
    c = l()
    m.true(isinstance(c, dcf.CashFlowList), what + ': call gives no list', got=type(c).__name__)
    m.true(list(c.domain) == dates, what + ': domain of call', got=c.domain, want=dates)
    m.true(c.origin == l.origin, what + ': origin of call', got=c.origin, want=l.origin)
    for d, v in zip(dates, vals):
        m.eq(c[d], v, what + ': cashflow of call', 1e-9, 0, date=d)
    tab = rows(l)
    m.true([t['pay date'] for t in tab] == dates, what + ': dates of table', got=[t['pay date'] for t in tab], want=dates)
    for t, v in zip(tab, vals):
        m.eq(t['cashflow'], v, what + ': cashflow of table', 1e-9, 0, date=t['pay date'])
    m.hit('list checked')
    return tab


# ------------------------------------------------------------------------------------------------------------ C18
def c18_plain(m):
    r = m.rng
    ax = Axis(m)
    days = pay_days(m, r.choice((0, 1, 2, 3, 8, 20, 60)))
    unsorted = r.random() < .4
    if unsorted:
        days = gen.shuffled(m, days)
    name = r.choice(('CashFlowList', 'FixedCashFlowList', 'ContingentCashFlowList'))
    how, arg, vals = amounts(m, len(days))
    origin = r.choice((None, None, 0, -30, 500))
    kw = {} if origin is None else dict(origin=ax.at(origin))
    dates = gen.container(m, [ax.at(d) for d in days])
    if name == 'ContingentCashFlowList' and not days:
        name = 'CashFlowList'
    l = getattr(dcf, name)(dates, arg, **kw)
    m.note(type=name, axis=ax.kind, days=days, amounts=vals, origin=origin, how=how)
    m.sig(name, ax.kind, how, origin is None, unsorted, min(len(days), 3))
    # what is given may change afterwards
    if isinstance(arg, list) and r.random() < .5:
        arg.append(1.)
        arg[0] = 77.
        m.hit('arguments changed')
    if isinstance(dates, list) and r.random() < .5:
        dates.append(ax.at(99999 if ax.kind == 'float' else 9))
    want = ax.at(origin) if origin is not None else ax.at(days[0]) if days else None
    before = snapshot(l)
    check_list(m, l, ax, days, vals)
    m.true(l.origin == want, 'origin', got=l.origin, want=want)
    read_some(m, l, ax, days)
    check_list(m, l, ax, days, vals)
    m.true(snapshot(l) == before, 'reads changed the list', got=snapshot(l), want=before)
    m.hit('plain %s' % name)
    # as fixed cashflow list
    own = r.random() < .4
    f = dcf.FixedCashFlowList(l, **(dict(origin=ax.at(3)) if own else {}))
    check_list(m, f, ax, days, vals, what='fixed list of a list')
    m.true(f.origin == (ax.at(3) if own else want), 'origin of the fixed list of a list', got=f.origin, want=want, own=own)
    m.hit('fixed list of a list')
    # lengths
    if days and isinstance(vals, list):
        bad = vals[:-1] if r.random() < .5 else vals + [1.]
        cls = r.choice((dcf.CashFlowList, dcf.FixedCashFlowList))
        m.raises(ValueError, lambda: cls([ax.at(d) for d in days], bad), 'lists of unequal lengths')
        m.hit('unequal lengths')


def some_list(m, ax, depth=0, kinds=None):
    """a list of any type: (list, day -> value function now, days, type)"""
    r = m.rng
    kinds = kinds or ('plain', 'fixed', 'rate', 'rate', 'option', 'contingent rate', 'callable') + (('legs',) if depth < 2 else ())
    k = r.choice(kinds)
    if k == 'legs':
        legs = [some_list(m, ax, depth + 1) for _ in range(r.choice((1, 2, 3)))]
        if r.random() < .3:
            legs.append(legs[0])
        l = dcf.CashFlowLegList([g[0] for g in legs])
        days = sorted({d for g in legs for d in g[2]})
        return l, (lambda d: sum(g[1](d) for g in legs)), days, 'legs'
    days = pay_days(m, r.choice((1, 2, 3, 6)))
    dates = [ax.at(d) for d in days]
    how, arg, vals = amounts(m, len(days))
    org = {} if r.random() < .5 else dict(origin=ax.at(days[0] - r.choice((30, 180))))
    if k in ('plain', 'fixed'):
        l = (dcf.CashFlowList if k == 'plain' else dcf.FixedCashFlowList)(dates, arg, **org)
        pos = dict(zip(days, vals))
        return l, (lambda d: pos.get(d, 0.)), days, k
    if k == 'rate':
        y = r.choice((None, .03, lambda x: .02))
        l = dcf.RateCashFlowList(dates, arg, fixed_rate=r.uniform(-.02, .1), forward_curve=y, origin=ax.at(days[0] - 91))
    elif k == 'callable':
        fs = [(lambda a: (lambda x=None: a * (x or 1.)))(float(a)) for a in vals]
        l = dcf.ContingentCashFlowList(dates, fs, payoff_model=r.choice((2., -3.)), **org)
    else:
        s = ModelState(m, ax=ax, valuation=0)
        if k == 'option':
            ks = [s.strike(s.fwd(x)) for x in dates]
            l = dcf.OptionCashflowList(dates, arg, strike_list=ks, is_put_list=r.random() < .5, payoff_model=s.o, **org)
        else:
            l = dcf.ContingentRateCashFlowList(dates, arg, origin=ax.at(days[0] - 91), fixed_rate=.01, floor_strike=s.strike(s.fwd(dates[0])),
                                               payoff_model=s.o)
    return l, (lambda d: l[ax.at(d)] if d in days else 0.), days, k


def empty_list(m, ax):
    """list without cashflows and without origin"""
    r = m.rng
    k = r.choice(('plain', 'fixed', 'rate', 'rate', 'contingent rate', 'option', 'strategy', 'contingent', 'legs'))
    m.hit('empty %s' % k)
    no = r.choice(((), []))
    a = r.choice((1., 100., [], ()))
    if k == 'plain':
        return dcf.CashFlowList() if r.random() < .5 else dcf.CashFlowList(no, a)
    if k == 'fixed':
        return dcf.FixedCashFlowList(no, a)
    if k == 'rate':
        return dcf.RateCashFlowList(no, a, fixed_rate=.01, forward_curve=r.choice((None, .02)))
    if k == 'contingent rate':
        return dcf.ContingentRateCashFlowList(no, a, fixed_rate=.01, floor_strike=r.choice((None, 0.)))
    if k == 'option':
        return dcf.OptionCashflowList(no, a)
    if k == 'strategy':
        return dcf.OptionStrategyCashflowList(no, r.choice(((), (1.,))), r.choice(((), (1., 2.))))
    if k == 'contingent':
        return dcf.ContingentCashFlowList(no, ())
    return dcf.CashFlowLegList(r.choice(((), [], [dcf.CashFlowList()])))


def c18_empty(m):
    r = m.rng
    ax = Axis(m)
    l = empty_list(m, ax)
    m.note(type=type(l).__name__, axis=ax.kind)
    m.sig('empty', type(l).__name__, ax.kind)
    for x in gen.shuffled(m, [l, l()]):
        m.true(tuple(x.domain) == (), 'domain of empty list', got=x.domain)
        m.true(x.origin is None, 'origin of empty list', got=x.origin)
        m.true(x[ax.at(0)] == 0., 'cashflow of empty list', got=x[ax.at(0)])
        m.true(tuple(x[()]) == (), 'no cashflows of empty list', got=x[()])
        m.true(tuple(x[ax.at(1), ax.at(5)]) == (0., 0.), 'cashflows of empty list', got=x[ax.at(1), ax.at(5)])
        m.true(len(x.table) <= 1, 'table of empty list', got=x.table)
    c = dcf.ZeroRateCurve([ax.at(0), ax.at(400)], [.01, .02])
    m.true(dcf.get_present_value(l, c, ax.at(r.choice((0, 30)))) == 0., 'present value of empty list')
    m.true(dcf.get_present_value(l, c) == 0., 'present value of empty list')
    m.true(dcf.get_basis_point_value(l, c) == 0., 'basis point value of empty list')
    m.true(dcf.get_interest_accrued(l, ax.at(5)) == 0., 'interest accrued of empty list')


def c18_legs(m):
    r = m.rng
    ax = Axis(m)
    n = r.choice((1, 2, 2, 3, 5))
    legs = [some_list(m, ax) for _ in range(n)]
    if r.random() < .25:
        legs.append(legs[0])
        m.hit('leg twice')
    lists = [g[0] for g in legs]
    if r.random() < .2:
        lists.insert(r.randint(0, n), empty_list(m, ax))
        m.hit('empty leg')
    given = gen.container(m, lists)
    l = dcf.CashFlowLegList(given)
    if isinstance(given, list) and r.random() < .5:
        # what is given may change afterwards
        given.append(dcf.CashFlowList([ax.at(legs[0][2][0])], [1e7]))
        if r.random() < .5:
            del given[0]
        m.hit('legs given changed')
    days = sorted({d for g in legs for d in g[2]})
    m.note(axis=ax.kind, types=[g[3] for g in legs], days=days)
    m.sig('legs', ax.kind, *sorted(g[3] for g in legs))
    m.true(l.origin == min(g.origin for g in lists if g.origin is not None), 'origin of legs', got=l.origin)
    before = snapshot(l), [snapshot(g) for g in lists]
    for _ in range(r.choice((1, 2, 3))):
        vals = [sum(g[1](d) for g in legs) for d in days]
        sc = [sum(abs(g[1](d)) for g in legs) for d in days]
        dates = [ax.at(d) for d in days]
        m.true(list(l.domain) == dates, 'domain of legs', got=l.domain, want=dates)
        c = l()
        tab = rows(l)
        m.true([t['pay date'] for t in tab] == dates and list(c.domain) == dates, 'dates of table and call', got=[t['pay date'] for t in tab], want=dates)
        for d, x, v, e, t in zip(days, dates, vals, sc, tab):
            m.eq(l[ax.copy(x)], v, 'cashflow of legs', 1e-9, 1e-12 * e, date=x)
            m.eq(c[x], v, 'cashflow of legs called', 1e-9, 1e-12 * e, date=x)
            m.eq(t['cashflow'], v, 'cashflow of legs in the table', 1e-9, 1e-12 * e, date=x)
        o = ax.at(other_day(m, days))
        m.true(l[o] == 0., 'cashflow of legs at another date', date=o, got=l[o])
        got = l[l.domain]
        for g, v, e in zip(got, vals, sc):
            m.eq(g, v, 'cashflows of legs', 1e-9, 1e-12 * e)
        m.hit('legs checked')
        kinds = {type(g).__name__ for g in lists}
        if kinds <= {'CashFlowList', 'FixedCashFlowList', 'RateCashFlowList'}:
            g = r.choice((0., .03, lambda x: .07))
            c, parts = l(g), [leg(g) for leg in lists]
            for d in dates:
                m.eq(c[d], sum(x[d] for x in parts), 'legs called with given forward', 1e-9, 1e-12 * sum(abs(x[d]) for x in parts), date=d)
            m.hit('legs called with forward')
        read_some(m, l, ax, days)
        lg = l.legs
        m.true(len(lg) == len(lists) and all(a is b for a, b in zip(lg, lists)), 'legs of list', got=lg)
        lg.append(lists[0])
        m.true(len(l.legs) == len(lists), 'legs are not a copy')
        m.true((snapshot(l), [snapshot(g) for g in lists]) == before, 'reads changed lists')
        # re-set a leg
        g = r.choice(lists)
        if isinstance(g, (dcf.RateCashFlowList, dcf.ContingentRateCashFlowList)):
            g.fixed_rate = r.uniform(-.05, .2)
            m.hit('leg changed')
        before = snapshot(l), [snapshot(g) for g in lists]
    m.raises(ValueError, lambda: dcf.CashFlowLegList(lists + [[1, 2]]), 'leg of other type')


# ------------------------------------------------------------------------------------------------------------ C19
def offset(m, ax, what):
    r = m.rng
    if r.random() < .5:
        return None
    if ax.kind == 'float':
        return r.choice((.01, .25, 2. / 365.25))
    if ax.kind == 'date':
        return datetime.timedelta(r.choice((1, 2, 10)))
    return r.choice(('2d', '1w', BusinessPeriod(days=3), '2b', '1m' if what == 'fixing' else '5d'))


def back(x, off):
    if off is None:
        return x
    return x - (BusinessPeriod(off) if isinstance(off, str) else off)


def some_forward(m, ax):
    """name, object, rate function of dates"""
    r = m.rng
    w = r.choice(('none', 'number', 'int', 'zero', 'function', 'function', 'cash', 'cash', 'date curve', 'zero curve', 'model'))
    a = r.uniform(-.02, .1)
    if w == 'none':
        return w, None, lambda d: 0.
    if w == 'number':
        return w, a, lambda d: a
    if w == 'int':
        return w, 1, lambda d: 1.
    if w == 'zero':
        return w, 0., lambda d: 0.
    o = ax.at(0)
    f = lambda d: a + .001 * gen.yf(o, d)
    if w == 'function':
        return w, f, f
    if w == 'model':
        # objects which have a forward curve
        return w, OptionPayOffModel(valuation_date=o, forward_curve=f), f
    n = r.choice((1, 2, 5))
    days = gen.grid_days(m, n, 0, hi=9000)
    vals = gen.rates(m, n)
    dc = r.choice(gen.ADDITIVE)
    kw = {} if dc is None else dict(day_count=gen.named(m, dc))
    pts = [(ax.at(d), v) for d, v in zip(days, vals)]
    args = [p[0] for p in pts], vals
    R = ref.RefCurve(pts, ax.at(0), tau_of(dc), ref.LINEAR)
    if w == 'date curve':
        return w, dcf.DateCurve(*args, **kw), R
    kw['forward_tenor'] = {'float': .25, 'date': datetime.timedelta(91), 'bdate': '3M'}[ax.kind]
    if w == 'cash':
        return w, dcf.CashRateCurve(*args, **kw), R
    c = dcf.ZeroRateCurve(*args, **kw)
    RR = ref.RefRates('zero', pts, ax.at(0), tau_of(dc), ref.LINEAR)

    def rate(d):
        e = ref.add_period(d, kw['forward_tenor'])
        return RR.cash(d, e)
    return w, c, rate


class RateState:
    """schedule of rate cashflows with reference periods"""

    def __init__(self, m, contingent=False, ax=None, lo=None, pay=True, dcs=gen.DAYCOUNTS, n=None, single=False):
        r = m.rng
        self.m = m
        self.ax = ax = ax or Axis(m)
        lo = r.choice((120, 400, 31)) if lo is None else lo
        self.days = days = pay_days(m, n, lo)
        self.dates = dates = [ax.at(d) for d in days]
        self.origin_day = None
        if r.random() < .6 or (len(days) == 1 and not single):
            self.origin_day = days[0] - r.choice((1, 30, 31))
        self.dc = r.choice(dcs)
        self.tau = tau_of(self.dc)
        self.how, self.amount_arg, self.amounts = amounts(m, len(days))
        self.po = offset(m, ax, 'pay') if pay else None
        self.fo = offset(m, ax, 'fixing')
        if self.origin_day is not None:
            starts = [ax.at(self.origin_day)] + dates[:-1]
        elif len(days) == 1:
            # no period at all
            starts = dates
            m.hit('single date without origin')
        else:
            starts = [dates[0] - (dates[1] - dates[0])] + dates[:-1]
        self.starts = [back(s, self.po) for s in starts]
        self.ends = [back(e, self.po) for e in dates]
        self.fixings = [back(s, self.fo) for s in self.starts]
        self.fixed = r.choice((0., r.uniform(-.05, .1), 0, 1))
        kw = dict(fixed_rate=self.fixed)
        if self.origin_day is not None:
            kw['origin'] = ax.at(self.origin_day)
        if self.dc is not None:
            kw['day_count'] = self.dc
        if self.po is not None:
            kw['pay_offset'] = self.po
        if self.fo is not None:
            kw['fixing_offset'] = self.fo
        self.kw = kw
        m.note(axis=ax.kind, days=days, origin=self.origin_day, amounts=self.amounts, day_count=gen.dc_name(self.dc),
               pay_offset=str(self.po), fixing_offset=str(self.fo), fixed_rate=self.fixed)

    def sig(self, *more):
        self.m.sig(self.ax.kind, self.how, gen.dc_name(self.dc), self.origin_day is None, self.po is None, self.fo is None,
                   min(len(self.days), 3), *more)

    def year_fractions(self):
        return [self.tau(s, e) for s, e in zip(self.starts, self.ends)]


def c19_rate(m):
    r = m.rng
    s = RateState(m, single=True)
    ax = s.ax
    fname, fc, f = some_forward(m, ax)
    s.sig(fname)
    m.note(forward=fname)
    if fname == 'none' and r.random() < .5:
        l = dcf.RateCashFlowList(gen.container(m, s.dates), s.amount_arg, **s.kw)
    else:
        l = dcf.RateCashFlowList(gen.container(m, s.dates), s.amount_arg, forward_curve=fc, **s.kw)
    fixed = s.fixed
    want_origin = ax.at(s.origin_day) if s.origin_day is not None else s.dates[0]
    m.true(l.origin == want_origin, 'origin', got=l.origin, want=want_origin)
    for _ in range(r.choice((1, 2, 4))):
        yfs = s.year_fractions()
        vals = [n * y * (fixed + f(d)) for n, y, d in zip(s.amounts, yfs, s.fixings)]
        m.eq(l.fixed_rate, fixed, 'fixed rate', 0, 0) if vals else None
        tab = check_list(m, l, ax, s.days, vals, what='rate list')
        for t, n, a, b, y, d in zip(tab, s.amounts, s.starts, s.ends, yfs, s.fixings):
            det = dict(date=t['pay date'])
            m.eq(t['notional'], n, 'notional of table', 0, 0, **det)
            m.true(t['start date'] == a, 'start date of table', start=t['start date'], want=a, **det)
            m.true(t['end date'] == b, 'end date of table', end=t['end date'], want=b, **det)
            m.eq(t['year fraction'], y, 'year fraction of table', 1e-9, 1e-15, **det)
            m.eq(t['fixed rate'], fixed, 'fixed rate of table', 0, 0, **det)
            if 'forward rate' in t:
                m.eq(t['forward rate'], f(d), 'forward rate of table', 1e-9, 1e-14, **det)
                m.true(t['fixing date'] == d, 'fixing date of table', fixing=t['fixing date'], want=d, **det)
                m.hit('float')
            else:
                m.true(not fc, 'no forward rate in table')
            if 'tenor' in t and t['tenor'] != '' and t['tenor'] is not None:
                m.true(str(t['tenor']) == str(fc.forward_tenor), 'tenor of table', tenor=t['tenor'])
        m.hit('rate list')
        # called with another forward
        gname, g, h = some_forward(m, ax)
        if g is not None:
            c = l(g)
            for n, y, d, x in zip(s.amounts, yfs, s.fixings, s.dates):
                m.eq(c[x], n * y * (fixed + h(d)), 'called with given forward', 1e-9, 1e-15 * abs(n), date=x, given=gname, forward=fname)
            got = l[tuple(s.dates)]
            for x, a, v in zip(s.dates, got, vals):
                m.eq(a, v, 'call with given forward changed the list', 1e-9, 0, date=x)
            m.hit('called with forward')
        w = r.random()
        if w < .5:
            fixed = r.choice((r.uniform(-.1, .2), 0., 0))
            l.fixed_rate = fixed
            m.hit('fixed rate set')
        if w > .3:
            fname, fc, f = some_forward(m, ax)
            l.forward_curve = fc
            m.hit('forward curve set')
        read_some(m, l, ax, s.days)
    # single payoffs
    i = r.randrange(len(s.days))
    p = dcf.RateCashFlowPayOff(s.starts[i], s.ends[i], s.amounts[i], day_count=s.dc, fixing_offset=s.fo, fixed_rate=fixed)
    m.eq(p(), s.amounts[i] * yfs[i] * fixed, 'payoff without forward curve', 1e-9, 0)
    if not isinstance(fc, OptionPayOffModel):
        want = s.amounts[i] * yfs[i] * (fixed + f(s.fixings[i]))
        m.eq(p(fc), want, 'payoff with forward curve', 1e-9, 0)
        # the same as part of models and of lists of cashflows with models
        model = OptionPayOffModel(valuation_date=ax.at(0), forward_curve=fc)
        w = r.choice(('model', 'list', 'list with curve'))
        if w == 'model':
            fc = model
        else:
            fc = dcf.ContingentRateCashFlowList([s.dates[i]], 1., origin=ax.at(0) if w == 'list' else None, payoff_model=model)
        if model.forward_curve is not None:
            m.eq(p(fc), want, 'payoff with forward curve of a ' + w, 1e-9, 0, forward=fname)
            m.eq(p.details(fc)['cashflow'], want, 'details with forward curve of a ' + w, 1e-9, 0, forward=fname)
            m.hit('forward curve of model')


# ------------------------------------------------------------------------------------------------------------ C20
class Tagged(OptionPayOffModel):
    """model with distinguishable call and put values by date and strike"""

    def get_call_value(self, date, strike=None):
        return .01 + .1 * strike + .001 * gen.yf(self.valuation_date, date)

    def get_put_value(self, date, strike=None):
        return .02 + .3 * strike + .002 * gen.yf(self.valuation_date, date)


def some_model(m, ax, days, contingent=True):
    """name, object, forward function, option model or None"""
    r = m.rng
    w = r.choice(('model', 'model', 'model', 'tagged', 'forward', 'none'))
    if w == 'none':
        return w, None, (lambda d: 0.), None
    if w == 'forward':
        while True:
            n, fc, f = some_forward(m, ax)
            if n not in ('none', 'model'):
                return w, fc, f, None
    lo, hi = days[0], days[-1]
    val = r.choice((0, 0, r.randint(lo, hi), r.choice(days), hi + 10))
    if w == 'tagged':
        n, fc, f = some_forward(m, ax)
        while n == 'model':
            n, fc, f = some_forward(m, ax)
        o = Tagged(valuation_date=ax.at(val), forward_curve=fc)
        return w, o, f, o
    s = ModelState(m, ax=ax, level='rate', valuation=val)
    f = s.fwd
    return w, s.o, f, s


def strikes(m):
    r = m.rng
    k = [r.choice((None, None, 0., 0, r.uniform(.001, .06))) for _ in range(2)]
    if None not in k and k[0] > k[1] and r.random() < .7:
        k.reverse()
    return k


def c20_collared(m):
    r = m.rng
    ax = Axis(m)
    s = RateState(m, ax=ax, single=True)
    floor, cap = strikes(m)
    name, model, f, ms = some_model(m, ax, s.days)
    if isinstance(ms, ModelState) and ms.kind in ('lognormal', 'displaced'):
        # positive strikes
        floor, cap = [k if k is None or k + ms.displ > 0 else None for k in (floor, cap)]
    kw = dict(s.kw)
    if floor is not None or r.random() < .5:
        kw['floor_strike'] = floor
    if cap is not None or r.random() < .5:
        kw['cap_strike'] = cap
    if model is not None or r.random() < .5:
        kw['payoff_model'] = model
    l = dcf.ContingentRateCashFlowList(gen.container(m, s.dates), s.amount_arg, **kw)
    s.sig(name, floor is None, cap is None, floor == 0, cap == 0, getattr(ms, 'kind', None))
    m.note(model_=name, floor=floor, cap=cap)
    fixed = s.fixed
    yfs = s.year_fractions()
    want_origin = ax.at(s.origin_day) if s.origin_day is not None else s.dates[0]
    m.true(l.origin == want_origin, 'origin', got=l.origin, want=want_origin)
    for _ in range(r.choice((1, 2, 3))):
        vals = []
        o = model if ms is not None else None
        for n, y, d in zip(s.amounts, yfs, s.fixings):
            x = f(d)
            opt = 0.
            if o is not None:
                put = 0. if floor is None else o.get_put_value(d, floor)
                call = 0. if cap is None else o.get_call_value(d, cap)
                opt = put - call
                if floor is not None and cap is not None and floor > cap:
                    m.hit('floor above cap')
                elif isinstance(ms, ModelState) and (ms.vol(d) == 0. or ms.tau(ms.val, d) <= 0. or ms.kind == 'intrinsic'):
                    a = max(x, floor) if floor is not None else x
                    a = min(a, cap) if cap is not None else a
                    m.eq(x + opt, a, 'no optionality: not the collared rate', 1e-9, 1e-13, forward=x, floor=floor, cap=cap, fixing=d)
                    opt = a - x
                    m.hit('collared rate')
            vals.append(n * y * (fixed + x + opt))
        # cancellation of forward and options
        m.eq(l.fixed_rate, fixed, 'fixed rate', 0, 0)
        sc = [abs(n * y) * (abs(fixed) + .2) for n, y in zip(s.amounts, yfs)]
        got = l[tuple(s.dates)]
        for d, g, v, e in zip(s.dates, got, vals, sc):
            m.eq(g, v, 'contingent rate cashflow', 1e-9, 1e-12 * e, date=d, model=name, floor=floor, cap=cap)
        c = l()
        for d, t, v, e in zip(s.dates, rows(l), vals, sc):
            m.eq(l[ax.copy(d)], v, 'contingent rate cashflow', 1e-9, 1e-12 * e, date=d)
            m.eq(c[d], v, 'contingent rate cashflow of call', 1e-9, 1e-12 * e, date=d)
            m.eq(t['cashflow'], v, 'contingent rate cashflow of table', 1e-9, 1e-12 * e, date=d)
        x = ax.at(other_day(m, s.days))
        m.true(l[x] == 0., 'cashflow at another date', date=x)
        m.hit('model %s' % name)
        if o is not None and floor is not None:
            m.hit('floor')
        if o is not None and cap is not None:
            m.hit('cap')
        if floor is None and cap is None or o is None:
            # equals the plain rate cashflow list
            fc = None if model is None else model if o is None else model.forward_curve
            q = dcf.RateCashFlowList(s.dates, s.amount_arg, forward_curve=fc, **dict(s.kw, fixed_rate=fixed))
            for d in s.dates:
                m.eq(l[d], q[d], 'not the rate cashflow without options', 1e-10, 0, date=d)
            m.hit('no options')
        w = r.random()
        if w < .4:
            fixed = r.uniform(-.1, .2)
            l.fixed_rate = fixed
            m.hit('fixed rate set')
        if w > .2:
            name, model, f, ms = some_model(m, ax, s.days)
            if isinstance(ms, ModelState) and ms.kind in ('lognormal', 'displaced') and any(k is not None and k + ms.displ <= 0 for k in (floor, cap)):
                name, model, f, ms = 'none', None, (lambda d: 0.), None
            c = None if model is None else l(model)
            l.payoff_model = model
            if c is not None:
                for d, v in zip(s.dates, l[tuple(s.dates)]):
                    m.eq(c[d], v, 'called with given model', 1e-10, 0, date=d, model=name)
                m.hit('called with model')
            m.hit('model set')
    # single payoffs
    i = r.randrange(len(s.days))
    p = dcf.ContingentRateCashFlowPayOff(s.starts[i], s.ends[i], s.amounts[i], day_count=s.dc, fixing_offset=s.fo, fixed_rate=fixed,
                                         floor_strike=floor, cap_strike=cap)
    m.eq(p(model), l[s.dates[i]], 'single payoff', 1e-10, 0)
    m.eq(p(), s.amounts[i] * yfs[i] * fixed, 'single payoff without model', 1e-9, 0)


# ------------------------------------------------------------------------------------------------------------ C21
def _new_model(m, ax, days):
    r = m.rng
    lo, hi = days[0], days[-1]
    s = ModelState(m, ax=ax, valuation=r.choice((0, 0, r.randint(lo, hi), hi + 10)))
    return s


def _change_model(m, s, l):
    """re-set the model or something in the model"""
    r = m.rng
    w = r.random()
    if w < .3:
        s.valday = r.choice((0, 200, 1000))
        s.o.valuation_date = s.ax.at(s.valday)
        m.hit('valuation date changed')
    elif w < .6:
        a = s.some_vol()
        s.o.volatility_curve = lambda x: a
        m.hit('volatility changed')
    elif w < .8:
        # no model
        l.payoff_model = None
        m.hit('no model')
        return None
    else:
        s = ModelState(m, ax=s.ax, kinds=(s.kind,), level=s.level, valuation=0)
        l.payoff_model = s.o
        m.hit('model set')
    return s


def c21_options(m):
    r = m.rng
    ax = Axis(m)
    days = pay_days(m, r.choice((1, 2, 4, 12, 30)), r.choice((31, 120, 400)))
    dates = [ax.at(d) for d in days]
    s = _new_model(m, ax, days)
    po, fo = offset(m, ax, 'pay'), offset(m, ax, 'fixing')
    exps = [back(back(d, po), fo) for d in dates]
    how, arg, am = amounts(m, len(days))
    one = r.random() < .4
    ks = [s.strike(s.fwd(exps[0]))] * len(days) if one else [s.strike(s.fwd(x)) for x in exps]
    if s.kind in ('lognormal', 'displaced'):
        ks = [k if k is None or k + s.displ > 0 else None for k in ks]
    puts = [r.random() < .5] * len(days) if r.random() < .5 else [r.random() < .5 for _ in days]
    parg = puts[0] if len(set(puts)) == 1 and r.random() < .7 else gen.container(m, puts)
    if r.random() < .2:
        # numbers as flags
        parg = int(parg) if isinstance(parg, bool) else [r.choice((int, float))(p) for p in parg]
        m.hit('numbers as put flags')
    karg = ks[0] if one and ks[0] is not None else gen.container(m, ks)
    kw = dict(strike_list=karg, payoff_model=s.o)
    if any(puts) or r.random() < .5:
        kw['is_put_list'] = parg
    if po is not None:
        kw['pay_offset'] = po
    if fo is not None:
        kw['fixing_offset'] = fo
    if r.random() < .3:
        kw['origin'] = ax.at(-10)
    l = dcf.OptionCashflowList(gen.container(m, dates), arg, **kw)
    m.note(days=days, amounts=am, strikes=ks, puts=puts, pay_offset=str(po), fixing_offset=str(fo))
    s.sig('options', how, one, type(parg).__name__, po is None, fo is None)
    for _ in range(r.choice((1, 2, 4))):
        vals = []
        for n, x, k, p in zip(am, exps, ks, puts):
            vals.append(0. if s is None else n * (s.o.get_put_value(x, k) if p else s.o.get_call_value(x, k)))
        tab = check_list(m, l, ax, days, vals, what='option list')
        m.hit('options')
        for t, k, p, x, n in zip(tab, ks, puts, exps, am):
            m.true(t['put/call'] == ('put' if p else 'call'), 'put/call of table', date=t['pay date'])
            m.true(t['expiry date'] == x, 'expiry of table', expiry=t['expiry date'], want=x)
            m.eq(t['notional'], n, 'notional of table', 0, 0)
        if s is None:
            s = _new_model(m, ax, days)
            bad = s.kind in ('lognormal', 'displaced') and any(k is not None and k + s.displ <= 0 for k in ks)
            c = None if bad else l(s.o)
            l.payoff_model = s.o
            if not bad:
                for d, v in zip(dates, l[tuple(dates)]):
                    m.eq(c[d], v, 'called with given model', 1e-10, 0, date=d)
                m.hit('called with model')
        else:
            s = _change_model(m, s, l)
        if s and s.kind in ('lognormal', 'displaced') and any(k is not None and k + s.displ <= 0 for k in ks):
            break


def c21_strategy(m):
    r = m.rng
    ax = Axis(m)
    days = pay_days(m, r.choice((1, 2, 4, 12)), r.choice((31, 120, 400)))
    dates = [ax.at(d) for d in days]
    s = _new_model(m, ax, days)
    po, fo = offset(m, ax, 'pay'), offset(m, ax, 'fixing')
    exps = [back(back(d, po), fo) for d in dates]
    n = r.choice((0, 1, 2, 3, 5, 10, 10))
    nc = r.randint(0, n)
    f = s.fwd(exps[0])

    def strike():
        while True:
            k = s.strike(f)
            if k is not None and (s.kind not in ('lognormal', 'displaced') or k + s.displ > 0):
                return k
    ck, pk = [strike() for _ in range(nc)], [strike() for _ in range(n - nc)]
    if ck and pk and r.random() < .3:
        pk[0] = ck[0]
    ca = [r.choice((1., -1., 2., -2., r.uniform(-5., 5.), 0.)) for _ in ck]
    pa = [r.choice((1., -1., r.uniform(-5., 5.))) for _ in pk]
    kw = dict(payoff_model=s.o)
    if po is not None:
        kw['pay_offset'] = po
    if fo is not None:
        kw['fixing_offset'] = fo
    args = dict(call_amount_list=ca, call_strike_list=ck, put_amount_list=pa, put_strike_list=pk)
    w = r.random()
    if w < .25 and ck:
        ca[:] = [ca[0]] * nc
        args['call_amount_list'] = ca[0]
    if w > .75 and pk:
        pa[:] = [pa[0]] * len(pa)
        args['put_amount_list'] = pa[0]
    if w < .2 and all(a == 1. for a in ca) or not ck and r.random() < .5:
        args.pop('call_amount_list')
        ca[:] = [1.] * nc
    l = dcf.OptionStrategyCashflowList(gen.container(m, dates), **args, **kw)
    m.note(days=days, pay_offset=str(po), fixing_offset=str(fo), **{k: v for k, v in args.items()})
    s.sig('strategy', min(nc, 3), min(n - nc, 3), po is None, fo is None, n == 10)
    perm = list(range(nc))
    r.shuffle(perm)
    perm2 = list(range(n - nc))
    r.shuffle(perm2)
    other = dcf.OptionStrategyCashflowList(dates, [ca[i] for i in perm], [ck[i] for i in perm], [pa[i] for i in perm2], [pk[i] for i in perm2], **kw)
    g = r.choice((2., -1., .5))
    scaled = dcf.OptionStrategyCashflowList(dates, [g * a for a in ca], ck, [g * a for a in pa], pk, **kw)
    for _ in range(r.choice((1, 2, 4))):
        for d, x in zip(dates, exps):
            parts = [] if s is None else [a * s.o.get_call_value(x, k) for a, k in zip(ca, ck)] + [a * s.o.get_put_value(x, k) for a, k in zip(pa, pk)]
            v, e = sum(parts), 1e-12 * sum(map(abs, parts))
            m.eq(l[ax.copy(d)], v, 'strategy cashflow', 1e-9, e, date=d)
            m.eq(l()[d], v, 'strategy cashflow of call', 1e-9, e, date=d)
            m.eq(other[d], v, 'order of options', 1e-9, e, date=d)
            m.eq(scaled[d], g * v, 'not linear in amounts', 1e-9, abs(g) * e, date=d)
            m.hit('strategy')
        for t, x, d in zip(rows(l), exps, dates):
            m.eq(t['cashflow'], l[d], 'strategy cashflow of table', 1e-12, 0, date=d)
        x = ax.at(other_day(m, days))
        m.true(l[x] == 0., 'cashflow at another date', date=x)
        if s is None:
            break
        s = _change_model(m, s, l)
        other.payoff_model = scaled.payoff_model = l.payoff_model
        if s and any(k + s.displ <= 0 for k in ck + pk) and s.kind in ('lognormal', 'displaced'):
            break
    # too many
    k = r.randint(11, 14)
    i = r.randint(0, k)
    m.raises(KeyError, lambda: dcf.OptionStrategyCashflowList(dates, 1., [1.] * i, 1., [1.] * (k - i)), 'more than ten options')
    m.hit('too many')


PROPS = {
    'C18': Prop('C18', [Scenario('plain', c18_plain, 3000), Scenario('legs', c18_legs, 900), Scenario('empty', c18_empty, 300)],
                {'list checked': 5000, 'plain CashFlowList': 500, 'plain FixedCashFlowList': 500, 'plain ContingentCashFlowList': 500,
                 'legs checked': 800, 'leg changed': 100, 'unequal lengths': 1000, 'leg twice': 50, 'arguments changed': 200, 'empty leg': 50, 'legs given changed': 100, 'legs called with forward': 30, 'empty rate': 20}, SIT),
    'C19': Prop('C19', [Scenario('rate', c19_rate, 1800)],
                {'rate list': 2000, 'float': 5000, 'forward curve of model': 300, 'called with forward': 500, 'single date without origin': 20, 'fixed rate set': 500, 'forward curve set': 500}, SIT),
    'C20': Prop('C20', [Scenario('collared', c20_collared, 1800)],
                {'model model': 500, 'model none': 200, 'model forward': 200, 'model tagged': 200, 'floor': 500, 'cap': 500,
                 'collared rate': 1000, 'no options': 500, 'fixed rate set': 300, 'model set': 500, 'called with model': 300}, SIT),
    'C21': Prop('C21', [Scenario('options', c21_options, 1500), Scenario('strategy', c21_strategy, 1200)],
                {'options': 2000, 'strategy': 3000, 'too many': 500, 'model set': 100, 'no model': 100, 'valuation date changed': 200,
                 'volatility changed': 200, 'numbers as put flags': 100}, SIT),
}

"""Generators of workloads: time axes (float, datetime.date, BusinessDate), grids, query points, values, day counts.
All randomness comes from the rng of the monitor, all dates from fixed calendars (never from today)."""
import datetime
import math

from businessdate import BusinessDate, BusinessPeriod

KINDS = 'float', 'date', 'bdate'
BASES = [(2000, 1, 1), (2024, 2, 29), (2021, 12, 31), (1999, 3, 31), (2023, 1, 31), (2016, 2, 28), (1969, 12, 1),
         (2050, 6, 15), (2022, 5, 31), (2010, 10, 10), (1953, 7, 2), (2096, 2, 29)]


class Axis:
    """a way to represent dates; `at(days)` builds a new equal (not identical) object on each call"""

    def __init__(self, m, kind=None, base=None):
        r = m.rng
        self.kind = kind or r.choice(KINDS)
        self.ordinal = datetime.date(*(base or r.choice(BASES))).toordinal() + (0 if base else r.choice((0, 0, 1, 17, 200)))
        self.f0 = r.choice((0., 0., 0., 0.25, -1.5, 7.3, 2020.5)) if base is None else 0.
        m.axis = self
        if self.kind == 'float' and base is None and r.random() < .3:
            # a day other than day 0 is exactly 0.0
            m.zero = r.choice((1, 30, 37, 90, 365, 1000))
            self.f0 = -m.zero / 365.25

    def at(self, days):
        if self.kind == 'float':
            return self.f0 + days / 365.25
        d = datetime.date.fromordinal(self.ordinal + int(days))
        if self.kind == 'bdate':
            return BusinessDate(d.year, d.month, d.day)
        return d

    def step(self, days):
        """period of some days as added to dates"""
        if self.kind == 'float':
            return days / 365.25
        return datetime.timedelta(days) if self.kind == 'date' else BusinessPeriod(days=int(days))

    def days(self, x):
        return (x - self.f0) * 365.25 if self.kind == 'float' else x.toordinal() - self.ordinal

    def copy(self, x):
        """equal but not identical date"""
        if self.kind == 'float':
            return float(repr(x))
        if self.kind == 'bdate':
            return BusinessDate(x.year, x.month, x.day)
        return datetime.date(x.year, x.month, x.day)


def yf(a, b):
    """reference for the default year fraction"""
    if isinstance(a, (int, float)):
        return float(b) - float(a)
    return (b.toordinal() - a.toordinal()) / 365.25


# --- user day count functions (all additive but the 30/360 one)
def act360(s, e):
    return (e - s) if isinstance(s, (int, float)) else (e.toordinal() - s.toordinal()) / 360.


def act365(s, e):
    return (e - s) * 1.01 if isinstance(s, (int, float)) else (e.toordinal() - s.toordinal()) / 365.


def thirty360(s, e):
    if isinstance(s, (int, float)):
        return (e - s) * .99
    return ((e.year - s.year) * 360 + (e.month - s.month) * 30 + min(e.day, 30) - min(s.day, 30)) / 360.


class Act364:
    """day count given as callable object"""

    def __call__(self, s, e):
        return (e - s) * 1.003 if isinstance(s, (int, float)) else (e.toordinal() - s.toordinal()) / 364.


def actact(s, e):
    """days of leap years are shorter"""
    if isinstance(s, (int, float)):
        return (e - s) * .9975

    def at(d):
        a = datetime.date(d.year, 1, 1).toordinal()
        return d.year + (d.toordinal() - a) / float(datetime.date(d.year + 1, 1, 1).toordinal() - a)
    return at(e) - at(s)


ADDITIVE = [None, None, act360, act365, Act364(), actact]
DAYCOUNTS = ADDITIVE + [thirty360]


def tau_of(dc):
    return yf if dc is None else dc


def dc_name(dc):
    return None if dc is None else getattr(dc, '__name__', type(dc).__name__)


# --- grids
SIZES = (1, 1, 2, 2, 3, 4, 5, 8, 13, 21, 40)


def grid_days(m, n=None, lo=0, hi=18000, min_gap=1, sizes=SIZES):
    """ascending distinct day offsets"""
    r = m.rng
    n = n or r.choice(sizes)
    mode = r.choice(('daily', 'month', 'year', 'irregular', 'cluster', 'growing', 'wide'))
    out, cur = [], lo
    for i in range(n):
        if i or cur < lo:
            if mode == 'daily':
                cur += 1
            elif mode == 'month':
                cur += r.choice((28, 30, 31))
            elif mode == 'year':
                cur += 365 + (r.random() < .25)
            elif mode == 'irregular':
                cur += r.randint(1, 800)
            elif mode == 'cluster':
                cur += r.choice((1, 1, 2, 3, 900))
            elif mode == 'growing':
                cur += int(1 + 1.4 ** min(i, 18))
            else:
                cur += r.randint(1000, 3000)
            cur = max(cur, (out[-1] if out else lo) + min_gap)
        out.append(cur)
    if out[-1] > hi > lo and len(out) > 1 and out[0] < hi:
        f = (hi - lo) / (out[-1] - lo)
        new = []
        for d in out:
            d = lo + int((d - lo) * f)
            if new and d < new[-1] + min_gap:
                d = new[-1] + min_gap
            new.append(d)
        out = new
    if m.zero is not None and r.random() < .5:
        i = r.randrange(len(out))
        if i and out[i - 1] + min_gap <= m.zero and (m.zero + min_gap <= out[i + 1] if i + 1 < len(out) else m.zero <= max(hi, out[-1])):
            out[i] = m.zero
            m.hit('grid date 0.0')
    if m.axis is not None and r.random() < .3:
        i = r.randrange(len(out))
        d = special_day(m, out[i])
        if (d - out[i - 1] >= min_gap if i else d >= lo and out[0] > lo) and (i + 1 == len(out) and d <= hi or i + 1 < len(out) and out[i + 1] - d >= min_gap):
            out[i] = d
    m.hit('grid %s' % mode)
    return out


def special_day(m, day):
    """ends of months and years and leap days close to the day"""
    r, ax = m.rng, m.axis
    if ax is None or ax.kind == 'float':
        return day
    d = datetime.date.fromordinal(ax.ordinal + int(day))
    a = datetime.date(d.year, d.month, 1)
    b = datetime.date(d.year + d.month // 12, d.month % 12 + 1, 1)
    leap = d.year + (-d.year) % 4
    leap += 4 if leap % 100 == 0 and leap % 400 else 0
    m.hit('special day of the calendar')
    x = r.choice((a, b, a - datetime.timedelta(1), b - datetime.timedelta(1), datetime.date(d.year, 12, 31), datetime.date(d.year, 1, 1),
                  datetime.date(d.year, 2, 28), datetime.date(d.year, 3, 1), datetime.date(leap, 2, 29)))
    return x.toordinal() - ax.ordinal


def query_days(m, days, n=12, lo=-400, far=4000):
    """days on, beside, between, before and after the given ones"""
    r = m.rng
    q = []
    days = sorted(days)
    for _ in range(n):
        w = r.random()
        d = r.choice(days)
        if w < .25:
            q.append(d)
        elif w < .4:
            q.append(d + r.choice((-1, 1)))
        elif w < .65 and len(days) > 1:
            i = r.randrange(len(days) - 1)
            q.append(r.randint(days[i], days[i + 1]))
        elif w < .8:
            q.append(days[-1] + r.choice((1, 2, 31, 365, r.randint(1, far))))
        elif w < .9:
            q.append(days[0] - r.choice((1, 2, 31, r.randint(1, 300))))
        else:
            q.append(r.randint(days[0], days[-1]))
    if m.axis is not None and q and r.random() < .3:
        q[r.randrange(len(q))] = special_day(m, r.choice(q))
    if m.zero is not None and q:
        q[r.randrange(len(q))] = m.zero
    return [max(lo, d) for d in q]


def shuffled(m, seq):
    lst = list(seq)
    m.rng.shuffle(lst)
    return lst


# --- values
def rates(m, n, lo=-.03, hi=.12):
    r = m.rng
    mode = r.choice(('flat', 'random', 'rising', 'falling', 'alternate', 'zeros', 'random'))
    if mode == 'flat':
        v = [r.uniform(lo, hi)] * n
    elif mode in ('rising', 'falling'):
        v = sorted((r.uniform(lo, hi) for _ in range(n)), reverse=mode == 'falling')
    elif mode == 'alternate':
        v = [(hi if i % 2 else lo) * r.uniform(.5, 1.) for i in range(n)]
    elif mode == 'zeros':
        v = [r.choice((0., 0., r.uniform(lo, hi))) for _ in range(n)]
    else:
        v = [r.uniform(lo, hi) for _ in range(n)]
    m.hit('values %s' % mode)
    return v


def prices(m, n, lo=.2, hi=300.):
    r = m.rng
    return [math.exp(r.uniform(math.log(lo), math.log(hi))) for _ in range(n)]


def dfs(m, axis_days, hi=.12, lo=-.02):
    """plausible discount factors / survival probabilities for day offsets"""
    out = []
    for d, z in zip(axis_days, rates(m, len(axis_days), lo, hi)):
        out.append(math.exp(-z * d / 365.25))
    return out


def nones(m, kw, *names):
    """optional arguments which are not given are given as None"""
    for a in names:
        if a not in kw and m.rng.random() < .2:
            kw[a] = None
            m.hit('None given as %s' % a)


def container(m, seq):
    return tuple(seq) if m.rng.random() < .5 else list(seq)


def named(m, dc):
    """day count as given to curves: sometimes by the name under which it was registered before"""
    if dc is None or m.rng.random() > .15:
        return dc
    import dcf
    name = 'dcfmon ' + dc_name(dc)
    dcf.DateCurve.DAY_COUNT.setdefault(name, dc)
    m.hit('day count by name')
    return name

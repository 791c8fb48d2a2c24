"""Independent reference semantics of fcrontab time specifications: generation of lines from an
abstract syntax, their text, and the set of wall-clock minutes / periods they stand for.
Nothing here is derived from fcron's own search algorithm: every minute is tested one by one."""
import calendar, functools, os, random, time

RANGES = {'min': (0, 59), 'hour': (0, 23), 'mday': (1, 31), 'mon': (1, 12), 'dow': (0, 7)}
ORDER = ('min', 'hour', 'mday', 'mon', 'dow')
MONS = 'jan feb mar apr may jun jul aug sep oct nov dec'.split()
DOWS = 'sun mon tue wed thu fri sat'.split()


class Field:
    """items: list of ('*', step, excl) | ('n', v) | ('r', a, b, step, excl)"""
    def __init__(self, name, items, names=()):
        self.name, self.items, self.names = name, items, names
    def _num(self, v, key):
        if key in self.names:
            if self.name == 'mon':
                s = MONS[v - 1]
            elif self.name == 'dow':
                s = DOWS[v % 7]
            else:
                return str(v)
            return s.capitalize() if (v & 1) else s
        return str(v)
    def text(self):
        out = []
        for k, it in enumerate(self.items):
            if it[0] == 'n':
                out.append(self._num(it[1], (k, 'a')))
            elif it[0] == '*':
                out.append('*' + ('/%d' % it[1] if it[1] > 1 else '') + ''.join('~%d' % x for x in it[2]))
            else:
                out.append('%s-%s' % (self._num(it[1], (k, 'a')), self._num(it[2], (k, 'b'))) +
                           ('/%d' % it[3] if it[3] > 1 else '') + ''.join('~' + self._num(x, (k, 'x')) for x in it[4]))
        return ','.join(out)
    def values(self):
        lo, hi = RANGES[self.name]
        s = set()
        for it in self.items:
            if it[0] == 'n':
                s.add(it[1])
            else:
                if it[0] == '*':
                    # first-last; the first value is 0 for the purpose of counting steps, also
                    # for the 1-based day of month ("*/5" is 5,10,15...) -- months count from January
                    a, b, step, ex = (lo if self.name == 'mon' else 0), hi, it[1], it[2]
                else:
                    _, a, b, step, ex = it
                if a <= b:
                    s |= set(range(a, b + 1, step))
                else:                       # wrap-around, only generated with step 1
                    s |= set(range(a, hi + 1)) | set(range(lo, b + 1))
                for x in ex:
                    s.discard(x)
                    if self.name == 'dow' and x in (0, 7):
                        s -= {0, 7}
        if self.name == 'dow':
            if s & {0, 7}:
                s |= {0, 7}
        return frozenset(v for v in s if lo <= v <= hi)


def star(name):
    return Field(name, [('*', 1, [])])


def rand_field(r, name, dense=0.5, complex_=0.3):
    lo, hi = RANGES[name]
    if r.random() < dense:
        if r.random() < 0.6:
            return star(name)
        step = r.randint(2, max(2, (hi - lo) // 3))
        return Field(name, [('*', step, [])])
    n = r.choice([1, 1, 1, 2, 2, 3])
    items, names = [], set()
    seen = set()
    for k in range(n):
        c = r.random()
        if c < 0.45:
            v = r.randint(lo, hi)
            items.append(('n', v))
            seen.add(v % 7 if name == 'dow' else v)
        elif c < 0.55 and n == 1:
            ex = r.sample(range(lo, hi + 1), r.randint(1, 3)) if r.random() < complex_ else []
            items.append(('*', r.choice([1, 1, 2, 3]), ex))
        else:
            a, b = r.randint(lo, hi), r.randint(lo, hi)
            if a > b and r.random() < 0.6:
                a, b = b, a
            step = 1
            if a < b and r.random() < 0.35:
                step = r.randint(2, max(2, min(hi, 6)))
            rng_ = list(range(a, b + 1)) if a <= b else list(range(a, hi + 1)) + list(range(lo, b + 1))
            ex = []
            if len(rng_) > 3 and r.random() < complex_:
                ex = r.sample(rng_, r.randint(1, 2))
                ex = [x for x in ex if (x % 7 if name == 'dow' else x) not in seen]
            items.append(('r', a, b, step, ex))
            seen |= set(x % 7 if name == 'dow' else x for x in rng_)
        if name in ('mon', 'dow') and r.random() < 0.3:
            names |= {(k, 'a'), (k, 'b'), (k, 'x')}
            it = items[-1]
            # a name for Sunday always stands for the first day: keep begin <= end meaning
            if name == 'dow' and it[0] == 'r' and 7 in (it[1], it[2]):
                names -= {(k, 'a'), (k, 'b'), (k, 'x')}
    return Field(name, items, names)


class TD:
    """five fields + dayand/dayor"""
    def __init__(self, fields, dayor=False):
        self.f = fields                      # dict name -> Field
        self.dayor = dayor
        self.v = {n: fields[n].values() for n in fields}
    def text(self, names=ORDER):
        return ' '.join(self.f[n].text() for n in names)
    def day_ok(self, mday, wday):
        a, b = mday in self.v['mday'], (wday % 7) in self.v['dow']
        return (a or b) if self.dayor else (a and b)
    def date_ok(self, mon, mday, wday):
        return mon in self.v['mon'] and self.day_ok(mday, wday)
    def ok(self, tm):
        return (tm.tm_min in self.v['min'] and tm.tm_hour in self.v['hour'] and
                self.date_ok(tm.tm_mon, tm.tm_mday, (tm.tm_wday + 1) % 7))
    def days_per_year(self):
        return sum(1 for d in range(366) for t in [time.gmtime(1704067200 + d * 86400)]
                   if self.date_ok(t.tm_mon, t.tm_mday, (t.tm_wday + 1) % 7))


_curtz = None
def set_tz(tz):
    global _curtz
    if tz != _curtz:
        os.environ['TZ'] = tz
        time.tzset()
        _curtz = tz

@functools.lru_cache(maxsize=400000)
def _lt(tz, t):
    set_tz(tz)
    return time.localtime(t)

def local(tz, t):
    """broken-down time in zone tz (tz in POSIX or zone-name form)"""
    set_tz(tz)
    return time.localtime(t)

def offset(tz, t):
    set_tz(tz)
    return time.localtime(t).tm_gmtoff

def transitions(tz, a, b):
    """[(t, delta)] changes of UTC offset in [a,b], to the minute"""
    out = []
    t = a - a % 3600
    o = offset(tz, t)
    while t <= b:
        o2 = offset(tz, t + 3600)
        if o2 != o:
            lo, hi = t, t + 3600
            while hi - lo > 60:
                m = (lo + hi) // 2
                m -= m % 60
                if m <= lo:
                    break
                if offset(tz, m) == o:
                    lo = m
                else:
                    hi = m
            out.append((hi, o2 - o))
            o = o2
        t += 3600
    return out

def matches(td, tz, a, b, tzdiff=0):
    """epoch seconds of every minute start in (a, b] whose local time matches td (brute force by
    day, then by minute)"""
    set_tz(tz)
    sh = tzdiff * 3600
    out = []
    mins, hrs = td.v['min'], td.v['hour']
    t = a - a % 60
    if t <= a:
        t += 60
    lt = time.localtime
    while t <= b:
        x = lt(t - sh)
        if not td.date_ok(x.tm_mon, x.tm_mday, (x.tm_wday + 1) % 7):
            # skip to the next quarter of an hour: offsets are multiples of 15 min
            t += 900 - t % 900
            continue
        if x.tm_hour not in hrs:
            t += 900 - t % 900
            continue
        if x.tm_min in mins:
            out.append(t)
        t += 60
    return out


# ---------------------------------------------------------------- %-lines

LY = {   # keyword: (period, fields given, mid)
    'hourly': ('hour', ('min',), False), 'midhourly': ('hour', ('min',), True),
    'daily': ('day', ('min', 'hour'), False), 'middaily': ('day', ('min', 'hour'), True),
    'nightly': ('day', ('min', 'hour'), True),
    'weekly': ('week', ('min', 'hour'), False), 'midweekly': ('week', ('min', 'hour'), True),
    'monthly': ('month', ('min', 'hour', 'mday'), False), 'midmonthly': ('month', ('min', 'hour', 'mday'), True),
}

def days_from_civil(y, m, d):
    return calendar.timegm((y, m, d, 0, 0, 0, 0, 0, 0)) // 86400

def period_id(keyword, x):
    """identifies the period of a *ly line that the local time x (struct_time) belongs to.
    week: Monday-Sunday (mid: Thursday-Wednesday); hour/day/month from their middle for mid*"""
    per, _, mid = LY[keyword]
    dn = days_from_civil(x.tm_year, x.tm_mon, x.tm_mday)
    if per == 'hour':
        h = dn * 24 + x.tm_hour
        return h + (1 if mid and x.tm_min >= 30 else 0)
    if per == 'day':
        return dn + (1 if mid and x.tm_hour >= 12 else 0)
    if per == 'week':
        wd = (x.tm_wday + 1) % 7              # Sunday 0
        if mid:
            return (dn - 0 - (wd - 4) % 7) // 1   # day number of the Thursday starting it
        return dn - (wd - 1) % 7              # day number of its Monday
    m = x.tm_year * 12 + x.tm_mon - 1
    return m + (1 if mid and x.tm_mday >= 15 else 0)

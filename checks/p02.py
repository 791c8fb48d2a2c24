"""P02: a %-line runs once, and only once, in each of its periods."""
from fc import *
import bisect, datetime

RULE = ('random %-lines (hourly .. midmonthly and mins, hours, days, mons, dow with lists, ranges, steps, dayor, random, '
        'serial, tzdiff, timezone) run by the real daemon on a virtual clock for days to years, with stops, kills, '
        'reloads of other files and late wake-ups; the starts are compared with a minute-by-minute reference of the '
        'periods. A line is non-trivial when at least one run was expected; distinct = distinct (keyword, fields, options, zone).')
ASSUMPTIONS = ['glibc localtime is right about time zones', 'periods which touch a change of the UTC offset are only checked for crashes and hangs']
MUST_OBSERVE = ('starts', 'periods', 'restarts', 'random_starts', 'crashes')
VARIANTS = ('ubsan', 'asan')
ZONES = ['UTC', 'UTC', 'UTC', 'Asia/Kolkata', 'JST-9', 'EST5', 'Europe/Paris', 'America/New_York']
KW = list(sched.LY)
SKW = ['mins', 'hours', 'days', 'mons', 'dow']

def cases(tier, seed):
    n = dict(quick=(45, 45, 25), thorough=(1500, 1500, 700))[tier]
    for kind, k in zip(('up', 'restart', 'crash'), n):
        for i in range(k):
            yield dict(kind=kind, seed=seed, i=i)

class PL:
    """a %-line: keyword, fields"""
    def __init__(self, r, long_):
        slow = ['weekly', 'midweekly', 'monthly', 'midmonthly', 'mons', 'dow']
        fast = ['hourly', 'midhourly', 'mins', 'hours']
        mid = ['daily', 'middaily', 'nightly', 'days']
        self.kw = r.choice({0: fast + fast + mid, 1: mid + mid + slow + ['hours'], 2: slow}[long_])
        given = sched.LY[self.kw][1] if self.kw in sched.LY else sched.ORDER
        f = {n: sched.star(n) for n in sched.ORDER}
        for n in given:
            f[n] = sched.rand_field(r, n, dict(min=.4, hour=.4, mday=.5, mon=.7, dow=.6)[n])
        self.o = {}
        if self.kw not in sched.LY:
            if self.kw == 'hours' and len(f['hour'].values()) == 24:
                f['hour'] = sched.Field('hour', [('r', 2, r.randint(4, 20), 1, [])])
            if self.kw == 'mins' and len(f['min'].values()) == 60:
                f['min'] = sched.Field('min', [('r', 0, r.randint(5, 58), 1, [])])
            if self.kw == 'days' and len(f['mday'].values()) == 31 and len(f['dow'].values()) == 8:
                f['dow'] = sched.Field('dow', [('r', 1, 5, 1, [])])
            if self.kw == 'mons':
                f['mon'] = sched.Field('mon', [('r', a, b, 1, []) for a, b in r.choice([[(2, 3)], [(1, 1), (3, 3)], [(4, 6), (8, 11)], [(1, 5)], [(11, 12), (2, 3), (5, 9)]])])
            if self.kw == 'dow':
                f['dow'] = sched.Field('dow', [('r', 1, 5, 1, [])] if r.random() < .5 else [('n', r.randint(0, 6)), ('n', r.randint(0, 6))])
            if self.kw == 'days' and r.random() < .3 and len(f['mday'].values()) < 31 and len(f['dow'].values()) < 8:
                self.o['dayor'] = ''
            if self.kw in ('mons', 'dow') and r.random() < .7:
                # dates of all kinds are covered by the others: here keep at least one per interval
                f['mday'] = sched.star('mday')
                if self.kw == 'mons':
                    f['dow'] = sched.star('dow')
        self.td = sched.TD(f, 'dayor' in self.o)
        self.given = given
        if r.random() < .2:
            self.o['random'] = ''
        if r.random() < .15:
            self.o['serial'] = ''
        self.ign = dict(mins=set(), hours={'min'}, days={'min', 'hour'}, mons={'min', 'hour', 'mday'},
                        dow={'min', 'hour', 'mday', 'mon'}).get(self.kw, set())
    def text(self, cmd, r):
        op = [k if v == '' else '%s(%s)' % (k, v) for k, v in self.o.items()]
        r.shuffle(op)
        k = r.randint(0, len(op))
        op.insert(k, self.kw)
        return '%%%s %s %s' % (','.join(op), self.td.text(self.given), cmd)
    def bday(self, mon, mday, wday):
        v, g = self.td.v, self.ign
        a, b = 'mday' in g or mday in v['mday'], wday in v['dow']
        return ('mon' in g or mon in v['mon']) and ((a or b) if self.td.dayor else (a and b))

def periods(p, d0, d1):
    """labels (minutes since 1970-01-01 in local time) of the allowed minutes of days d0..d1, by period, in order:
    {period id: [labels]}"""
    out = {}
    v = p.td.v
    hm = [h * 60 + m for h in sorted(v['hour']) for m in sorted(v['min'])]
    ly = p.kw in sched.LY
    run = 0
    epoch = datetime.date(1970, 1, 1)
    lastm = None
    for d in range(d0, d1 + 1):
        x = epoch + datetime.timedelta(days=d)
        wd = (x.weekday() + 1) % 7
        okd = p.td.date_ok(x.month, x.day, wd)
        if ly:
            if okd:
                for q in hm:
                    tm = FakeTm(x, q // 60, q % 60, (wd - 1) % 7)
                    out.setdefault(sched.period_id(p.kw, tm), []).append(d * 1440 + q)
            continue
        b = p.bday(x.month, x.day, wd)
        if not b:
            run += 1
            continue
        if {'min', 'hour'} <= p.ign:
            if okd:
                out.setdefault(run, []).extend(d * 1440 + q for q in hm)
        elif 'min' in p.ign:
            for h in range(24):
                if h in v['hour']:
                    if okd:
                        out.setdefault(run, []).extend(d * 1440 + h * 60 + m for m in sorted(v['min']))
                else:
                    run += 1
        else:
            for q in hm:
                l = d * 1440 + q
                if lastm is None or l != lastm + 1:
                    run += 1
                lastm = l
                out.setdefault(run, []).append(l)
    return out

class FakeTm:
    def __init__(self, x, h, m, wday):
        self.tm_year, self.tm_mon, self.tm_mday, self.tm_hour, self.tm_min, self.tm_wday = x.year, x.month, x.day, h, m, wday

def compare(o, L, got, sess, late, crash_cuts, save):
    p, tz, sh = L['p'], L['tz'], L['tzdiff'] * 3600
    a, b = sess[0][0], sess[-1][1]
    off0 = sched.offset(tz, int(a))
    margin = {'monthly': 40, 'midmonthly': 40, 'weekly': 9, 'midweekly': 9, 'mons': 400, 'dow': 9, 'days': 40}.get(p.kw, 3)
    trans = sched.transitions(tz, int(a) - 86400 * 3, int(b) + 86400 * 3)
    fuzzy = {int(T + o_ - sh + sched.offset(tz, T - 3600)) // 86400 + k for T, _ in trans for o_ in (0,) for k in (-1, 0, 1)}
    d0, d1 = int(a + off0 - sh) // 86400 - margin, int(b + off0 - sh) // 86400 + margin
    per = periods(p, d0, d1)
    def label(t):
        return (int(t) - sh + sched.offset(tz, int(t) - sh)) // 60
    offs = {}
    def when(l):
        d = l // 1440
        if d not in offs:
            offs[d] = sched.offset(tz, d * 86400 + 43200)
        return l * 60 - offs[d] + sh
    idx = {}
    for k, ls in per.items():
        for l in ls:
            idx[l] = k
    desc = '%s tz=%s tzdiff=%s' % (L['text'], tz, L['tzdiff'])
    rand = 'random' in p.o
    runs = collections.defaultdict(list)
    for g in sorted(got):
        l = label(g)
        if l // 1440 in fuzzy:
            runs[idx.get(l, idx.get(l - 1))].append(g)
            continue
        # the daemon may be a little late
        k = idx.get(l)
        if k is None:
            k = next((idx[x] for x in range(l - 1, l - 2 - int(late) // 60, -1) if x in idx and g - (when(x) + (60 if rand else 0)) < late + .5), None)
        if k is None:
            o.bad('outside', 'a %-line started outside its allowed times', line=desc, at=iso(g, tz))
            return
        runs[k].append(g)
    for k, ls in per.items():
        if any(x // 1440 in fuzzy for x in (ls[0], ls[-1])) or any(d in fuzzy for d in range(ls[0] // 1440 - 1, ls[-1] // 1440 + 2)):
            continue
        g = runs.get(k, [])
        if len(g) > 1:
            # a run the last save before a kill does not know may be repeated
            if not any(g[0] > c - save - 60 and g[0] < c < g[-1] for c in crash_cuts):
                o.bad('twice', 'a %-line started more than once in one period', line=desc, at=[iso(x, tz) for x in g], sessions=[(iso(x), iso(y)) for x, y in sess][:6])
                return
        ts = [when(l) for l in ls]
        first = None
        for s, e in sess:
            for t in ts:
                if s < t and max(t, s + 20) + late + 1 < e:
                    first = (t, s, e)
                    break
            if first:
                break
        if first is None:
            continue
        o.count('periods')
        if rand:
            full = any(s < ts[0] and ts[-1] + 80 + late < e for s, e in sess)
            if full and not g:
                o.bad('missed', 'a %-line did not run in a period', line=desc, period=[iso(ts[0], tz), iso(ts[-1], tz)])
                return
            continue
        t, s, e = first
        if not g:
            o.bad('missed', 'a %-line did not run in a period though the daemon was up in its allowed time', line=desc, due=iso(t, tz),
                  period=[iso(ts[0], tz), iso(ts[-1], tz)], sessions=[(iso(x), iso(y)) for x, y in sess][:6], got=[iso(x, tz) for x in sorted(got)][:6])
            return
        if g[0] > max(t, s + 20) + late + 1:
            o.bad('late', 'a %-line started later than its first allowed time', line=desc, due=iso(t, tz), at=iso(g[0], tz))
            return

def run_case(c, o):
    r = rng(c['seed'], 'p02', c['kind'], c['i'])
    kind = c['kind']
    variant = 'asan' if c['i'] % 8 == 0 else 'ubsan'
    long_ = r.choice([0, 0, 1, 1, 1, 2])
    days = {0: r.choice([1.5, 4, 8]), 1: r.choice([20, 45, 100]), 2: r.choice([200, 400, 800])}[long_]
    tz = r.choice(ZONES)
    start = 1577836800 + r.randint(0, 20 * 365) * 86400 + r.randint(0, 86399) + r.choice([0, .25, .7])
    start += .25 if int(start) % 60 == 0 else 0
    users = ['alice', 'bob', 'carol'][:r.randint(1, 3)]
    lines, text = [], {}
    for u in users:
        tzd = r.randint(-24, 24) if r.random() < .12 and tz == 'UTC' else 0
        T = ['!tzdiff(%d)' % tzd] if tzd else []
        for k in range(r.randint(2, 5)):
            p = PL(r, long_)
            ltz = tz
            if not tzd and r.random() < .2:
                ltz = r.choice([z for z in ZONES if '/' in z])
                p.o['timezone'] = ltz
            name = 'j_%s_%d' % (u, k)
            t = p.text(name, r)
            lines.append(dict(p=p, tz=ltz, tzdiff=tzd, name=name, text=t))
            T.append(t)
        text[u] = '\n'.join(T) + '\n'
    late, head = .4, []
    if r.random() < .25:
        lat = r.choice([1.5, 4, 20])
        head.append('wakelat %s' % lat)
        late += lat + 1
    if any('serial' in L['p'].o for L in lines):
        late += 40
    save = 300 if kind == 'crash' else 1800
    with World(variant) as w:
        for u in users:
            x = w.install(u, text[u], now=start - r.randint(10, 100000))
            if not o.sane(x, 'fcrontab'):
                return
            if b'rror' in x.err or b'kipping' in x.err:
                o.bad('install', 'valid %-lines refused', text=text[u], err=x.err.decode('latin-1'))
                return
        end = start + days * 86400
        cuts = []
        if kind != 'up':
            n = r.randint(1, 8)
            for _ in range(n):
                a = start + 60 + r.random() * (end - start - 120)
                cuts.append((a, a + r.choice([1, 30, 61, 600, 3700, 20000, 86400, 86400 * 3, 86400 * 20])))
            if r.random() < .4:
                # stops just after something ran
                a = start + r.randint(1, int(days * 24)) * 3600
                cuts.append((a - a % 3600 + r.choice([20, 61, 125, 400]), a + r.choice([130, 500, 1000])))
            cuts.sort()
        sess, s, cc = [], start, []
        for a, b in cuts:
            if a > s + 1 and b > a and b < end:
                sess.append((s, a))
                s = b
                if int(s) % 60 == 0:
                    s += 1.25
        sess.append((s, end))
        crash_cuts = []
        got = collections.defaultdict(list)
        for si, (a, b) in enumerate(sess):
            crash = kind == 'crash' and si < len(sess) - 1 and r.random() < .7
            sc = [(b - a, 'crash' if crash else 'sig TERM')]
            if crash:
                crash_cuts.append(b)
                o.count('crashes')
            if r.random() < .3:
                x, p = w.stage('dave', '@ 5 d\n%hourly * e\n', 's%d' % si, now=int(a))
                t = r.random() * (b - a)
                sc += [x for x in [(t, 'cp %s new.dave' % p), (t, 'cp %s dave.orig' % p), (t + .01, 'sig HUP'),
                       (t + 7000, 'touch rm.dave'), (t + 7000.1, 'sig HUP')] if x[0] < b - a]
            run = w.daemon(sc, start=a, tz=tz, head=head, opts=('-y', '-s', str(save) if kind == 'crash' else ('86400' if days > 30 else '1800')))
            if not o.sane(run, 'daemon', ok=(0,) if not crash else (0, run.rc)):
                return
            for n, v in execs(run).items():
                got[n] += v
            if si:
                o.count('restarts')
        for L in lines:
            g = got.get(L['name'], [])
            o.count('starts', len(g))
            if 'random' in L['p'].o:
                o.count('random_starts', len(g))
            if g:
                o.sig(L['text'], L['tz'], L['tzdiff'])
            compare(o, L, g, sess, late, crash_cuts, save)
        names = {L['name'] for L in lines} | {'d', 'e'}
        for n in got:
            if n not in names:
                o.bad('alien', 'a command that is in no fcrontab ran', name=n)
        o.count('evaluations', len(lines))
        o.sample = dict(case=c, tz=tz, start=iso(start, tz), days=days, sessions=len(sess), fcrontab=text[users[0]].splitlines(),
                        starts={n: len(v) for n, v in sorted(got.items())[:6]})

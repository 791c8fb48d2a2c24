"""P01: &-lines run in exactly the minutes their fields denote."""
from fc import *
import random, time

RULE = ('random fcrontabs of &-lines (every field form, names, dayor, runfreq, jitter, tzdiff, '
        'timezone, DST zones) compiled by the real fcrontab and run by the real daemon on a virtual '
        'clock for 1 to 800 days with restarts, reloads of other files and late wake-ups; the set of '
        'start times is compared with a minute-by-minute enumeration of the calendar. A line is '
        'non-trivial when at least one start was expected; distinct = distinct (fields, options, zone).')
ASSUMPTIONS = ['glibc localtime is right about time zones', 'jobs are shorter than the distance between their matches']
MUST_OBSERVE = ('starts', 'lines_with_starts', 'dst_transitions', 'restarts')
VARIANTS = ('ubsan', 'asan')

ZONES = ['UTC', 'UTC', 'Asia/Kolkata', 'JST-9', 'EST5', 'Europe/Paris', 'America/New_York', 'Australia/Sydney',
         'CET-1CEST,M3.5.0,M10.5.0/3', 'Asia/Kathmandu']
DSTZ = ['Europe/Paris', 'America/New_York', 'Australia/Sydney', 'CET-1CEST,M3.5.0,M10.5.0/3', 'Europe/London']

def cases(tier, seed):
    n = dict(quick=(90, 16, 60, 24, 24), thorough=(1500, 300, 900, 400, 300))[tier]
    for kind, k in zip(('dense', 'sparse', 'dst', 'restart', 'reload'), n):
        for i in range(k):
            yield dict(kind=kind, seed=seed, i=i)

def gen_line(r, kind, k):
    """(TD, opts dict)"""
    o = {}
    if kind == 'sparse':
        fs = {}
        fs['min'] = sched.Field('min', [('n', r.randint(0, 59))])
        fs['hour'] = sched.Field('hour', [('n', r.randint(0, 23))]) if r.random() < .8 else sched.rand_field(r, 'hour', .1)
        fs['mday'] = sched.rand_field(r, 'mday', .3)
        if r.random() < .3:
            fs['mday'] = sched.Field('mday', [('n', r.choice([28, 29, 29, 30, 31, 31]))])
        fs['mon'] = sched.rand_field(r, 'mon', .4)
        if r.random() < .3:
            fs['mon'] = sched.Field('mon', [('n', r.choice([2, 2, 4, 6, 9, 11, 12, 1]))])
        fs['dow'] = sched.rand_field(r, 'dow', .5)
    else:
        fs = {}
        fs['min'] = sched.rand_field(r, 'min', .25)
        if len(fs['min'].values()) > 30 and r.random() < .8:
            fs['min'] = sched.Field('min', [('*', r.choice([7, 10, 15, 20, 30]), [])])
        fs['hour'] = sched.rand_field(r, 'hour', .5)
        fs['mday'] = sched.rand_field(r, 'mday', .7)
        fs['mon'] = sched.rand_field(r, 'mon', .8)
        fs['dow'] = sched.rand_field(r, 'dow', .6)
    td = sched.TD(fs, dayor=r.random() < .3)
    if td.dayor:
        o['dayor'] = ''
    if r.random() < .2:
        o['runfreq'] = r.randint(2, 7)
    if r.random() < .15:
        o['jitter'] = r.choice([5, 30, 59, 200, 255])
        m = sorted(fs['min'].values())
        gaps = [(b - a) % 60 or 60 for a, b in zip(m, m[1:] + m[:1])]
        if m and min(gaps) * 60 <= o['jitter'] + 60:
            o['jitter'] = 59 if min(gaps) > 1 else 0
        if not o['jitter']:
            del o['jitter']
    return td, o

def line_text(td, o, cmd, r, amp_ok=True):
    opts = []
    o = dict(o)
    pre = '&'
    rf = o.pop('runfreq', None)
    if rf and (r.random() < .5 and not o):
        pre = '&%d ' % rf
    elif rf:
        opts.append('%s(%d)' % (r.choice(['runfreq', 'r']), rf))
    for k, v in o.items():
        opts.append(k if v == '' else '%s(%s)' % (k, v))
    r.shuffle(opts)
    if opts:
        pre = '&' + ','.join(opts) + ' '
    elif pre == '&':
        pre = r.choice(['', '& '])
    return '%s%s %s' % (pre, td.text(), cmd)

def compare(o, L, got, sess, first=20, late=1.0):
    """got: actual start times (epoch), sess: [(start, stop)]"""
    td, tz = L['td'], L['tz']
    J = L['o'].get('jitter', 0)
    N = L['o'].get('runfreq', 0)
    trans = []
    for s, e in sess:
        trans += sched.transitions(tz, s - 7200, e + 7200)
    desc = '%s tz=%s tzdiff=%s opts=%s' % (td.text(), tz, L['tzdiff'], L['o'])
    if (N or J) and trans:
        return     # with a run frequency or jitter, counting through a DST change is not specified
    def in_dst(t):
        return any(T - abs(d) - 120 <= t - t % 60 <= T + abs(d) + 120 for T, d in trans)
    # (due time, latest start, whether the daemon surely lived until then)
    nominal = []
    for s, e in sess:
        for t in sched.matches(td, tz, s, e, L['tzdiff']):
            if not in_dst(t):
                hi = max(t, s + first) + J + late
                nominal.append((t, hi, hi < e - .01))
    if N:
        if not all(x[2] for x in nominal[:-1]):
            return
        nominal = nominal[N - 1::N]
    actual = sorted(got)
    rest = [g for g in actual if not in_dst(g)]
    i = 0
    for t, hi, sure in nominal:
        if i < len(rest) and rest[i] < t - 1e-6:
            o.bad('extra-start', 'a &-line started outside its minutes', line=desc, at=iso(rest[i], tz), next_due=iso(t, tz))
            return
        if i < len(rest) and rest[i] <= hi:
            i += 1
        elif sure:
            o.bad('missed-start', 'a &-line did not start in a minute its fields denote', line=desc, due=iso(t, tz),
                  got=[iso(x, tz) for x in rest[max(0, i - 2):i + 3]])
            return
    if i < len(rest):
        o.bad('extra-start', 'a &-line started outside its minutes', line=desc, at=iso(rest[i], tz))
        return
    # daylight saving changes: the documented rules
    for T, d in ([] if J else trans):
        lo, hi = T - abs(d) - 120, T + abs(d) + 120
        if not any(s < lo - 7200 and hi + J + 60 < e for s, e in sess) or L['tzdiff']:
            continue
        o.count('dst_transitions')
        acts = [g for g in actual if lo <= g - g % 60 <= hi]
        if d < 0:    # repeated hour: each local label runs once
            want = set()
            for t in sched.matches(td, tz, lo - 1, hi):
                x = sched.local(tz, t)
                want.add((x.tm_mday, x.tm_hour, x.tm_min))
            have = []
            for g in acts:
                x = sched.local(tz, g)
                have.append((x.tm_mday, x.tm_hour, x.tm_min))
            if len(set(have)) != len(have):
                o.bad('dst-repeat-twice', 'a local time of a repeated hour ran twice', line=desc, at=[iso(g, tz) for g in acts])
            elif set(have) != want:
                o.bad('dst-repeat-set', 'wrong set of local times around a repeated hour', line=desc,
                      at=[iso(g, tz) for g in acts], want=sorted(want))
            if want:
                o.sig('dst-repeat', td.text(), tz)
        else:        # skipped hour
            normal = set(t for t in sched.matches(td, tz, lo - 1, hi))
            # labels that do not exist
            gap = []
            x = sched.local(tz, T)
            for m in range(d // 60):
                lab = T + m * 60          # real time of label (T local + m min) shifted by d
                y = sched.local(tz, lab)
                hh, mm = divmod(y.tm_hour * 60 + y.tm_min - d // 60, 60)
                if y.tm_hour * 60 + y.tm_min - d // 60 < 0:
                    continue
                if hh in td.v['hour'] and mm in td.v['min'] and td.date_ok(y.tm_mon, y.tm_mday, (y.tm_wday + 1) % 7):
                    gap.append((hh, mm))
            a = set(int(g) - int(g) % 60 for g in acts)
            if len(a) != len(acts):
                o.bad('dst-gap-twice', 'two starts in one minute around a skipped hour', line=desc, at=[iso(g, tz) for g in acts])
            elif not normal <= a:
                o.bad('dst-gap-missing', 'a start after a skipped hour is missing', line=desc, at=[iso(g, tz) for g in acts],
                      want=[iso(g, tz) for g in sorted(normal)])
            elif len(a - normal) > (1 if gap else 0):
                o.bad('dst-gap-extra', 'extra starts around a skipped hour', line=desc, at=[iso(g, tz) for g in acts],
                      want=[iso(g, tz) for g in sorted(normal)], gap=gap)
            elif gap and not any(T <= g < T + d + 60 for g in a):
                o.bad('dst-gap-lost', 'a job of a skipped hour did not run at all', line=desc, at=[iso(g, tz) for g in acts], gap=gap)
            if gap:
                o.sig('dst-gap', td.text(), tz)

def run_case(c, o):
    r = rng(c['seed'], 'p01', c['kind'], c['i'])
    kind = c['kind']
    variant = 'asan' if c['i'] % 12 == 0 else 'ubsan'
    tz = r.choice(DSTZ if kind == 'dst' else ZONES)
    start = 1577836800 + r.randint(0, 20 * 365) * 86400 + r.randint(0, 86399) + r.choice([0, .25, .7])
    if kind == 'dst':
        tr = sched.transitions(tz, int(start), int(start) + 366 * 86400)
        start = r.choice(tr)[0] - r.randint(3, 40) * 3600 + r.randint(-1800, 1800) + .5
    users = ['alice', 'bob', 'root', 'carol'][:r.randint(1, 4)]
    nl = r.randint(2, 6)
    lines, text = [], {}
    for u in users:
        tzd = 0
        if kind not in ('dst',) and r.random() < .15 and tz == 'UTC':
            tzd = r.randint(-24, 24)
        T = []
        if tzd:
            T.append('!tzdiff(%d)' % tzd)
        for k in range(nl):
            td, op = gen_line(r, kind if kind == 'sparse' else 'dense', k)
            ltz = tz
            if kind == 'dst' and r.random() < .8:
                # put most lines near the change
                hs = sorted({r.choice([0, 1, 2, 2, 3, 3, 4]) for _ in range(2)})
                td.f['hour'] = sched.Field('hour', [('n', h) for h in hs])
                td = sched.TD({n: (td.f[n] if n in ('min', 'hour') else sched.star(n)) for n in td.f}, False)
                op.pop('dayor', None)
            if not tzd and r.random() < (.25 if kind != 'dst' else .3):
                ltz = r.choice([z for z in ZONES if '/' in z] if kind != 'dst' else DSTZ[:3])
                op['timezone'] = ltz
            if kind == 'restart':
                op.pop('jitter', None)      # a jittered start may fall into the next session
            name = 'j_%s_%d' % (u, k)
            lines.append(dict(user=u, td=td, o=op, tz=ltz, tzdiff=tzd, name=name))
            T.append(line_text(td, op, name, r))
        text[u] = '\n'.join(T) + '\n'
    # how long: keep the number of starts bounded
    per_year = 1 + sum(len(L['td'].v['min']) * len(L['td'].v['hour']) * L['td'].days_per_year() for L in lines)
    if kind == 'dst':
        days = 3.5
    elif kind == 'sparse':
        days = max(30, min(800, 900 * 366 / per_year))
    else:
        days = max(1.2, min(120, 700 * 366 / per_year))
    late = 0.4
    head = []
    if kind == 'dense' and r.random() < .3:
        # the machine wakes the daemon up to some seconds late
        lat = r.choice([1.5, 4, 20])
        head.append('wakelat %s' % lat)
        late += lat + 1
    with World(variant) as w:
        for u in users:
            x = w.install(u, text[u], now=start - r.randint(10, 100000))
            if not o.sane(x, 'fcrontab'):
                return
            if x.rc != 0 or b'rror' in x.err or b'kipping' in x.err:
                o.bad('install', 'valid &-lines refused', text=text[u], err=x.err.decode('latin-1'))
                return
        o.count('lines', len(lines))
        end = start + days * 86400
        cuts = []
        if kind == 'restart':
            ts = sorted(start + 60 + r.random() * (end - start - 120) for _ in range(2 * r.randint(1, 4)))
            for a_, b_ in zip(ts[::2], ts[1::2]):
                cuts.append((a_, max(b_, a_ + 1)))
        sess, s = [], start
        for a_, b_ in cuts:
            if a_ > s + 1:
                sess.append((s, a_))
                s = b_
        sess.append((s, max(end, s + 10)))
        got = {}
        for si, (a_, b_) in enumerate(sess):
            sc = [(b_ - a_, 'sig TERM')]
            if kind == 'reload':
                # other users' files come and go; every listed line must be unaffected
                for q in range(3):
                    x, p = w.stage('dave', '@ 5 d%d\n*/3 * * * * e%d\n' % (q, q), 's%d' % q, now=start)
                    t = r.random() * (b_ - a_)
                    sc += [(t, 'cp %s new.dave' % p), (t, 'cp %s dave.orig' % p), (t + .01, 'sig HUP')]
                    if r.random() < .5:
                        sc += [(t + 7000, 'touch rm.dave'), (t + 7000.1, 'sig HUP')]
                sc = [x for x in sc if x[0] <= b_ - a_]
            run = w.daemon(sc, start=a_, tz=tz, head=head, opts=('-y', '-s', '86400') if days > 30 else ('-y',))
            if not o.sane(run, 'daemon'):
                return
            for n, v in execs(run).items():
                got.setdefault(n, []).extend(v)
            if si:
                o.count('restarts')
        for L in lines:
            g = got.get(L['name'], [])
            o.count('starts', len(g))
            if g:
                o.count('lines_with_starts')
                o.sig(L['td'].text(), L['o'], L['tz'], L['tzdiff'])
            compare(o, L, g, sess, late=late)
        known_names = {L['name'] for L in lines}
        for n in got:
            if n not in known_names and kind != 'reload':
                o.bad('alien', 'a command that is in no fcrontab ran', name=n)
        o.sample = dict(case=c, tz=tz, start=iso(start, tz), days=round(days, 1), fcrontab=text[users[0]].splitlines(),
                        starts={n: len(v) for n, v in sorted(got.items())[:6]})
        o.count('evaluations', len(lines))

"""P04: what was due while the daemon was down is run or reported as asked."""
from fc import *
import bisect, os, re
import p02

RULE = ('random &- and %-lines (bootrun, noticenotrun, runatreboot, lavg limits, mailto, timezone) and @-lines, run by the real daemon '
        'on a virtual clock through sessions with down times of a minute to months between them, with and without a reboot; runs and '
        'mails are compared with a calendar of what was missed. Kind lavg: %-lines that the load keeps waiting to the end of their period '
        'or a full queue refuses. Distinct = (kind of line, options, missed or not, boot or start).')
ASSUMPTIONS = ['zones with a change of offset are left to P01', 'the jobs write nothing, so every mail is a notice']
MUST_OBSERVE = ('starts', 'bootruns', 'mails', 'missed_periods', 'boots', 'none_for_past', 'lavg_mails', 'full_mails')
VARIANTS = ('ubsan', 'asan')
ZONES = ['UTC', 'Asia/Kolkata', 'JST-9', 'EST5']
BODY = re.compile(r"Line '(.*)' has not run since and including (\d+)-(\d+)-(\d+) wday:(\d) (\d+):(\d+) \(timezone=(.*)\)\ndue to system's down or suspended state\.\n"
                  r"It will be next executed at (\d+)-(\d+)-(\d+) wday:(\d) (\d+):(\d+)")

def cases(tier, seed):
    n = dict(quick=(500, 40, 20), thorough=(12000, 1000, 200))[tier]
    for kind, k in zip(('down', 'lavg', 'full'), n):
        for i in range(k):
            yield dict(kind=kind, seed=seed, i=i)

def mk(r, u, k, tz):
    l = dict(name='j%s%d' % (u, k), user=u, o={})
    o = l['o']
    c = r.random()
    l['t'] = '&' if c < .65 else '%' if c < .92 else '@'
    l['tz'] = tz
    if r.random() < .2:
        l['tz'] = r.choice(['Asia/Kolkata', 'Asia/Tokyo', 'Etc/GMT+5'])
        o['timezone'] = l['tz']
    if r.random() < .6:
        o['noticenotrun'] = ''
    elif r.random() < .2:
        o['noticenotrun'] = 'false'
    if l['t'] != '@' and r.random() < .5:
        o['bootrun'] = ''
    elif l['t'] == '&' and r.random() < .2:
        o['bootrun'] = 'no'
    if l['t'] == '&' and r.random() < .15:
        o['runatreboot'] = ''
    if l['t'] == '&' and r.random() < .15:
        o['lavg1'] = '3'
    l['mailto'] = u
    if r.random() < .2:
        l['mailto'] = o['mailto'] = r.choice(['carol', 'someone@example.org'])
    l['notice'] = o.get('noticenotrun') == ''
    l['bootrun'] = o.get('bootrun') == '' and l['t'] == '&'
    l['ra'] = 'runatreboot' in o
    l['N'] = r.randint(2, 4) if l['bootrun'] and not l['ra'] and r.random() < .25 else 1
    if l['N'] > 1:
        o['runfreq'] = '%d' % l['N']
    op = [a if b == '' else '%s(%s)' % (a, b) for a, b in o.items()]
    r.shuffle(op)
    if l['t'] == '@':
        l['text'] = '@%s %d %s' % (','.join(op), r.choice([1, 5, 60, 600]), l['name'])
        if 'timezone' in o:
            l['t'] = '@'
    elif l['t'] == '&':
        fs = {n: sched.rand_field(r, n, d, .2) for n, d in zip(sched.ORDER, (.2, .5, .75, .85, .7))}
        if len(fs['min'].values()) > 12:
            fs['min'] = sched.Field('min', [('*', r.choice([7, 10, 15, 20, 30]), [])])
        if r.random() < .3:
            op.append('dayor')
        l['td'] = sched.TD(fs, 'dayor' in op)
        l['text'] = '&%s %s %s' % (','.join(op), l['td'].text(), l['name'])
    else:
        while True:
            p = p02.PL(r, r.choice([0, 0, 1, 2]))
            if p.kw in sched.LY:
                break
        p.o = dict(o)
        l['p'] = p
        l['text'] = p.text(l['name'], r)
    return l

class Cal:
    """what a line's fields denote from a to b at most: minutes, and the period of each; worked out as needed"""
    def __init__(self, l, a, b):
        self.l, self.per, self.m = l, {}, []
        self.at, self.end, self.step = int(a), int(b), 86400 * 3
        self.off = sched.offset(l['tz'], int(a))
    def more(self):
        if self.at >= self.end:
            return False
        to = min(self.end, self.at + self.step)
        self.step *= 2
        if self.l['t'] == '&':
            self.m += sched.matches(self.l['td'], self.l['tz'], self.at, to)
        else:
            have = set(self.per)
            d0, d1 = (self.at + self.off) // 86400 - 1, (to + self.off) // 86400 + 1
            for k, ls in p02.periods(self.l['p'], d0, d1).items():
                for x in ls:
                    self.per[x * 60 - self.off] = k
            self.m = sorted(self.per)
        self.at = to
        return True
    def after(self, t):
        while not self.m or self.m[-1] <= t:
            if not self.more():
                return None
        return self.m[bisect.bisect_right(self.m, t)]
    def after_period(self, t):
        k = self.per[t]
        while True:
            t = self.after(t)
            if t is None or self.per[t] != k:
                return t

def stamp(t, tz):
    x = sched.local(tz, t)
    return (x.tm_year, x.tm_mon, x.tm_mday, (x.tm_wday + 1) % 7, x.tm_hour, x.tm_min)

def run_case(c, o):
    r = rng(c['seed'], 'p04', c['kind'], c['i'])
    return dict(down=down, lavg=lavg, full=full)[c['kind']](c, o, r)

def down(c, o, r):
    variant = 'asan' if c['i'] % 5 == 0 else 'ubsan'
    tz = r.choice(ZONES)
    users = ['alice', 'bob', 'root'][:r.randint(1, 3)]
    lines = {u: [mk(r, u, k, tz) for k in range(r.randint(2, 6))] for u in users}
    span = r.choice([3600, 7200, 86400, 86400, 86400 * 7, 86400 * 60])
    nsess = r.randint(2, 5)
    s = 1577836800 + r.randint(0, 15 * 365 * 1440) * 60 + r.randint(1, 38) + r.choice([0, .25, .9])
    sess = []
    for k in range(nsess):
        d = r.choice([4, 12, 30, 100, 600, 3700, 3700, min(span * .3, 90000)])
        e = s + d
        if d >= 20:
            e = e - e % 60 + r.choice([45, 50, 55.5])
            if e < s + 25:
                e += 60
        sess.append((s, e))
        g = r.choice([1, 30, 100, 1000, 4000, span * r.random(), span * r.random()])
        s = e + g
        s = s - s % 60 + r.randint(1, 38) + r.choice([0, .25, .9])
        if s <= e + .1:
            s += 60
    hor = (sess[0][0] - 3600, sess[-1][1] + 86400 * 800)
    late = users[-1] if len(users) > 1 and r.random() < .3 else None
    with World(variant) as w:
        def inst(u, t):
            x = w.install(u, ''.join(l['text'] + '\n' for l in lines[u]), now=t)
            if not o.sane(x, 'fcrontab'):
                return False
            if b'kipping' in x.err or b'rror' in x.err:
                o.bad('install', 'valid lines refused', err=x.err.decode('latin-1'))
                return False
            return True
        for u in users:
            if u != late and not inst(u, sess[0][0] - 50):
                return
        pend, owed, cal = {}, {}, {}
        for u in users:
            for l in lines[u]:
                if l['t'] != '@':
                    cal[l['name']] = Cal(l, *hor)
        loaded = set()
        for si, (S, E) in enumerate(sess):
            boot = si == 0 or r.random() < .4
            if boot:
                o.count('boots')
                try:
                    os.unlink(w.root + '/run/reboot.lock')
                except FileNotFoundError:
                    pass
            if late and si == 1 and not inst(late, S - .5):
                return
            run = w.daemon([(E - S, 'sig TERM')], start=S, tz=tz, opts=['-m', '5'], head=['defdur 0.1'])
            if not o.sane(run, 'daemon'):
                return
            got = collections.defaultdict(list)
            for e in run.ev('exec'):
                got[name_of(e)].append(e['r'])
            mails = collections.defaultdict(list)
            for e in run.ev('mail'):
                b = e['stdin'].split('\n\n', 1)
                m = BODY.match(b[1]) if len(b) == 2 else None
                if not m:
                    o.bad('mail-form', 'a mail that is no notice of a missed run', mail=e['stdin'][:600])
                    return
                mails[m.group(1)].append((e, m))
            for u in users:
                if u == late and si == 0:
                    continue
                for l in lines[u]:
                    n = l['name']
                    g, ml = got.pop(n, []), mails.pop(n, [])
                    o.count('starts', len(g))
                    if l['t'] == '@':
                        if ml:
                            o.bad('mail-at', 'an @-line was reported as not run', line=l['text'], mail=ml[0][0]['stdin'][:500])
                            return
                        continue
                    if not one(o, l, cal[n], g, ml, S, E, boot, n not in loaded, pend, owed, sess[:si + 1], tz):
                        return
                    loaded.add(n)
            if got or mails:
                o.bad('alien', 'a run or mail of a line that is not scheduled', got=sorted(got), mails=sorted(mails))
                return
        o.count('evaluations', sum(map(len, lines.values())))
        o.sample = dict(case=c, tz=tz, fcrontab=[l['text'] for u in users for l in lines[u]][:8], sessions=[(iso(a), iso(b)) for a, b in sess])

def one(o, l, cal, got, mails, S, E, boot, new, pend, owed, sess, tz):
    n = l['name']
    D = pend.get(n)
    iS = int(S)
    def bad(key, msg, **d):
        o.bad(key, msg, line=l['text'], tz=l['tz'], got=[iso(x, l['tz']) for x in got][:5], mails=[m[0]['stdin'][-300:] for m in mails][:3],
              pending=D and iso(D, l['tz']), boot=boot, sessions=[(iso(a, l['tz']), iso(b, l['tz'])) for a, b in sess], **d)
        return False
    note = None                 # (since, next)
    N = l['N']                  # one run every N matches
    rem = l.setdefault('rem', N)
    if new:
        rem = N
    extra = owed.pop(n, 0)      # runs for the past still to come
    atboot = False
    missed = not new and D is not None and D <= iS
    if boot and l['ra']:
        atboot = True
        if missed and l['notice']:
            note = (D, iS)
        D = iS
    elif new or D is None:
        D = cal.after(iS)
    elif missed:
        nxt = cal.after(iS)
        if l['t'] == '&':
            if l['bootrun']:
                rem -= 1
                if not rem:
                    extra += 1
                    rem = N
            else:
                o.count('none_for_past')
                if l['notice']:
                    note = (D, nxt)
        else:
            if nxt is None or cal.per[nxt] != cal.per[D]:
                o.count('missed_periods')
                if l['notice']:
                    note = (D, nxt)
        D = nxt
    o.sig(l['t'], l['notice'], l['bootrun'], l['ra'], 'lavg1' in l['o'], missed, boot, new, bool(extra), note is not None)
    # mails
    if len(mails) != (note is not None):
        return bad('mail-count', 'wrong number of notices for a line', want=note and [iso(x, l['tz']) for x in note if x], have=len(mails))
    if note:
        o.count('mails')
        e, m = mails[0]
        f = [int(x) for x in (m.group(2, 3, 4, 5, 6, 7) + m.group(9, 10, 11, 12, 13, 14))]
        if tuple(f[:6]) != stamp(note[0], l['tz']):
            return bad('mail-since', 'a notice names the wrong missed time', want=iso(note[0], l['tz']))
        if note[1] is not None and tuple(f[6:]) != stamp(note[1], l['tz']):
            return bad('mail-next', 'a notice names the wrong next time', want=iso(note[1], l['tz']))
        if e['argv'][-1] != l['mailto']:
            return bad('mail-to', 'a notice went to another account', argv=e['argv'])
        if m.group(8) != l['o'].get('timezone', "system's"):
            return bad('mail-tz', 'a notice names the wrong time zone', want=l['o'].get('timezone'))
    # runs
    i = 0
    if extra:
        # in the first wake-ups
        lim = S + (25 if 'lavg1' not in l['o'] else 56)
        while i < min(extra, len(got)) and got[i] <= lim + 4:
            i += 1
        if i:
            o.count('bootruns')
        elif E > lim + 5:
            return bad('bootrun-missed', 'a bootrun line that was missed did not run after the start')
        else:
            owed[n] = 1
    if atboot and i < len(got) and S + 20 >= E:
        i += 1                     # it may run as soon as anything wakes the daemon
        D = cal.after(int(got[-1]))
    while D is not None and max(D, S + 20) < E - .5:
        if rem > 1:
            rem -= 1
            D = cal.after(D)
            continue
        rem = N
        if i < len(got) and D - 1e-6 <= got[i] <= max(D, S + 20) + 33 * ('lavg1' in l['o']) + 1.5:
            i += 1
        elif i and extra and D < got[i - 1] + 1:
            pass                   # still waiting to be run for the past
        elif 'lavg1' in l['o'] and max(D, S + 20) + 33 > E:
            break
        else:
            return bad('missed', 'a line did not run when due after a start', due=iso(D, l['tz']))
        t = D if not atboot else max(int(S + 20), D)
        atboot = False
        D = cal.after(t) if l['t'] == '&' else cal.after_period(t)
    if i < len(got):
        return bad('extra', 'a line was run though nothing was due', at=iso(got[i], l['tz']))
    pend[n] = D
    l['rem'] = rem
    return True

# ---------------------------------------------------------------- kept waiting by the load or a full queue

def lavg(c, o, r):
    """%-lines that the load keeps waiting to the end of their hour or day"""
    tz = r.choice(ZONES)
    S = 1577836800 + r.randint(0, 5000) * 86400 + r.choice([0, 5.25]) + 3
    days = r.choice([1, 2, 4])
    L = []
    for k in range(r.randint(2, 6)):
        n = 'q%d' % k
        kw = r.choice(['hourly', 'midhourly', 'daily', 'middaily', 'nightly'])
        f = {x: sched.star(x) for x in sched.ORDER}
        a = r.randint(0, 25)
        f['min'] = sched.Field('min', [('r', a, a + r.randint(1, 28), 1, [])])
        if kw != 'hourly' and kw != 'midhourly':
            h = r.randint(0, 20)
            f['hour'] = sched.Field('hour', [('r', h, h + r.randint(0, 3), 1, [])])
        notice, strict = r.random() < .6, r.random() < .8
        op = [kw, 'lavg1(%d)' % r.choice([1, 2])] + ['noticenotrun'] * notice + ['strict(%s)' % ('true' if strict else 'false')] * (not strict or r.random() < .3)
        r.shuffle(op)
        g = sched.LY[kw][1]
        td = sched.TD(f)
        L.append(dict(name=n, kw=kw, td=td, notice=notice, strict=strict, text='%%%s %s %s' % (','.join(op), td.text(g), n)))
    with World('asan' if c['i'] % 3 == 0 else 'ubsan') as w:
        x = w.install('alice', ''.join(l['text'] + '\n' for l in L), now=S - 10)
        if not o.sane(x, 'fcrontab'):
            return
        cut = days * 86400 * r.uniform(.5, 1)
        run = w.daemon([(days * 86400, 'sig TERM'), (cut, 'lavg 0 0 0')], start=S, tz=tz, head=['lavg 9 9 9'], opts=['-s', '86400'])
        if not o.sane(run, 'daemon'):
            return
        ex = execs(run)
        dropped = collections.Counter()
        for e in run.ev('log'):
            m = re.match(r"Interval of execution exceeded : '(\w+)' \(not run\)", e['msg'])
            if m:
                dropped[m.group(1)] += 1
        mails = collections.defaultdict(list)
        for e in run.ev('mail'):
            m = re.search(r"\n\nLine '(\w+)' has not run since and including .*\ndue to a too high system load average", e['stdin'])
            if not m:
                o.bad('lavg-form', 'a mail that is no notice of a missed run', mail=e['stdin'][:500])
                return
            mails[m.group(1)].append(e)
        off = sched.offset(tz, int(S))
        for l in L:
            n = l['name']
            # minutes by period
            per = collections.OrderedDict()
            t = int(S) // 60 * 60
            while t < S + (days + 2) * 86400:
                x = sched.local(tz, t)
                if l['td'].ok(x):
                    per.setdefault(sched.period_id(l['kw'], x), []).append(t)
                t += 60
            lost = 0
            for k, m in per.items():
                # the whole allowed time, and its end, under load
                if m[0] > S + 20 and m[-1] + 130 < S + cut and m[-1] + 130 < S + days * 86400:
                    lost += 1
            if not l['strict']:
                lost = 0
            o.count('lavg_periods', lost)
            o.sig('lavg', l['kw'], l['notice'], l['strict'], lost > 0)
            early = [x for x in ex.get(n, []) if x < S + cut - 31]
            if early:
                o.bad('lavg-run', 'a line ran while the load was above its limit', line=l['text'], at=iso(early[0], tz))
            h = len(mails.pop(n, []))
            if l['notice'] and l['strict']:
                if not lost <= h <= lost + 2:
                    o.bad('lavg-mail', 'the load kept a line from running in its periods: wrong number of notices', line=l['text'], periods=lost, mails=h)
                o.count('lavg_mails', h)
            elif h:
                o.bad('lavg-mail-unasked', 'a notice for a line that does not ask for it', line=l['text'], mails=h)
            if not l['strict'] and dropped[n]:
                o.bad('lavg-drop', 'a line with strict(false) was dropped at the end of its interval', line=l['text'])
        if mails:
            o.bad('alien', 'notices for unknown lines', names=sorted(mails))
        o.count('evaluations', len(L))

def full(c, o, r):
    """more serial jobs at once than the queue takes"""
    S = 1577836800 + r.randint(0, 5000) * 86400 + 30
    q = r.choice([5, 6, 10, 30])
    n = q + r.randint(2, 12)
    lavg_ = r.random() < .4
    note = [r.random() < .6 for _ in range(n)]
    with World('asan' if c['i'] % 3 == 0 else 'ubsan') as w:
        op = 'lavg1(1),until(3h)' if lavg_ else 'serial'
        x = w.install('bob', ''.join('&%s%s 5 * * * * s%d dur=500\n' % (op, ',noticenotrun' if note[k] else '', k) for k in range(n)), now=S - 10)
        if not o.sane(x, 'fcrontab'):
            return
        run = w.daemon([(600, 'sig TERM')], start=S, opts=['-q', str(q)], head=['lavg 5 5 5'])
        if not o.sane(run, 'daemon'):
            return
        refused = collections.Counter()
        for e in run.ev('log'):
            m = re.match(r"Could not add job(?: '(s\d+)[^']*' : lavg queue is full| : serial queue is full .*: '(s\d+) )", e['msg'])
            if m:
                refused[m.group(1) or m.group(2)] += 1
        mails = collections.Counter()
        for e in run.ev('mail'):
            m = re.search(r"\n\nLine '(s\d+) dur=500' couldn't be added to lavg or serial queue which is full", e['stdin'])
            if not m:
                o.bad('full-form', 'a mail that is no notice of a full queue', mail=e['stdin'][:500])
                return
            mails[m.group(1)] += 1
        if not refused:
            o.bad('full-none', 'a queue took more jobs than its maximum', q=q, n=n)
            return
        for k in range(n):
            j = 's%d' % k
            if mails[j] != (refused[j] if note[k] else 0):
                o.bad('full-mail', 'a job was refused by a full queue: wrong number of notices', refused=refused[j], mails=mails[j], notice=note[k])
                return
        o.count('full_mails', sum(mails.values()))
        o.sig('full', lavg_, q, n)

"""P20: suspending the machine shifts delays and loses no due run."""
from fc import *
import bisect, os, re
import p02, p04
from p04 import BODY, Cal, ZONES, stamp

RULE = ('random &-, %- and @-lines (bootrun, noticenotrun, runatresume, runonce, volatile, first, serial, jobs which take long) in a real daemon whose machine is suspended again and again, for a fraction of a second to weeks, '
        'with and without a notice to the daemon, together with signals, ends of jobs and other suspends at the same instant; and whose clock is set forwards and backwards. Runs and mails are compared with a calendar of the time the '
        'machine was up. Distinct = (kind of line, options, missed or not, notice, what came at the same time).')
ASSUMPTIONS = ['the machine tells the time it was suspended by its clocks (Linux); a daemon which is not told notices at its next wake-up', 'what is due within 2 s of a suspend may be taken to be before or after it']
MUST_OBSERVE = ('resumes', 'unnoticed', 'together', 'bootruns', 'none_for_past', 'mails', 'missed_periods', 'resume_runs', 'shifted', 'at_runs', 'long_jobs', 'jumps_back', 'jumps_on', 'after_jump', 'stopped_at_resume')
VARIANTS = ('ubsan', 'asan')
T0 = 1577836800

def cases(tier, seed):
    n = dict(quick=(500, 120, 60), thorough=(12000, 4000, 1500))[tier]
    for kind, k in zip(('suspend', 'jump', 'stop'), n):
        for i in range(k):
            yield dict(kind=kind, seed=seed, i=i)

def mk(r, u, k, tz):
    l = dict(name='j%s%d' % (u, k), user=u, o={}, tz=tz, mailto=u, N=1)
    o = l['o']
    c = r.random()
    l['t'] = '&' if c < .5 else '%' if c < .65 else '@'
    if l['t'] != '@' and r.random() < .5:
        o['noticenotrun'] = ''
    if l['t'] == '&' and r.random() < .5:
        o['bootrun'] = ''
    if l['t'] != '%' and r.random() < .25:
        o['runatresume'] = ''
    if l['t'] == '@' and r.random() < .25:
        o['volatile'] = ''
    if l['t'] == '@' and r.random() < .15:
        o['runonce'] = ''
    if r.random() < .2:
        o['serial'] = ''
    cmd = l['name']
    if r.random() < .2 and 'serial' not in o:
        cmd += ' dur=%d' % r.choice([2, 40])
        o['exesev'] = ''        # (or it would not be started as long as it runs)
    l['ra'] = 'runatresume' in o
    l['ro'] = 'runonce' in o
    l['notice'] = 'noticenotrun' in o
    l['bootrun'] = 'bootrun' in o
    l['long'] = ' dur' in cmd
    if l['t'] == '@' and r.random() < .2:
        l['o'] = o = {}
        l.update(ra=True, ro=True, first=None, freq=None, long=False, text='@resume ' + l['name'], notice=False, bootrun=False)
        return l
    if l['t'] == '@':
        l['freq'] = r.choice([1, 2, 3, 7, 10, 30, 60, 90, 1440])
        l['first'] = r.choice([None, 0, 1, 5, 60])
        if l['first'] is not None:
            o['first'] = '%d' % l['first']
        l['first'] = 60 * (l['freq'] if l['first'] is None else l['first'])
    op = [a if b == '' else '%s(%s)' % (a, b) for a, b in o.items()]
    r.shuffle(op)
    if l['t'] == '@':
        l['text'] = '@%s %d %s' % (','.join(op), l['freq'], cmd)
        l['freq'] *= 60
    elif l['t'] == '&':
        fs = {n: sched.rand_field(r, n, d, .2) for n, d in zip(sched.ORDER, (.2, .6, .85, .9, .85))}
        if len(fs['min'].values()) > 12 and r.random() < .8:
            fs['min'] = sched.Field('min', [('*', r.choice([7, 10, 15, 20, 30]), [])])
        l['td'] = sched.TD(fs, False)
        l['text'] = '&%s %s %s' % (','.join(op), l['td'].text(), cmd)
    else:
        while True:
            p = p02.PL(r, r.choice([0, 0, 1, 2]))
            if p.kw in sched.LY:
                break
        p.o = dict(o)
        l['p'] = p
        l['text'] = p.text(cmd, r)
    return l

def rand_start(r):
    return T0 + r.randint(0, 15 * 365 * 1440) * 60 + r.randint(2, 38) + r.choice([0, .25, .9])

def suspend(c, o, r):
    """the machine is suspended again and again"""
    tz = r.choice(ZONES)
    S = rand_start(r)
    users = ['alice', 'bob', 'root'][:r.randint(1, 2)]
    lines = {u: [mk(r, u, k, tz) for k in range(r.randint(2, 6))] for u in users}
    sc, seg = [], []            # segments of time awake: (wall from, wall to, uptime from, uptime to, what)
    t, w0 = 0.0, S
    n = r.randint(1, 5)
    unnoticed = r.random() < .3
    jobs_end = []
    tog_all = []
    for k in range(n + 1):
        up = r.choice([.5, 3, 8, 25, 62, 100, 300, 600, 1900, 3700, 7300]) + r.choice([0, .3, .75]) if k else r.choice([30, 100, 700]) + r.random()
        if k == n or tog_all and not tog_all[-1][1]:
            up = max(up, 100)   # (what was not told is noticed first)
        t1 = round(t + up, 3)
        seg.append([w0, w0 + t1 - t, t, t1])
        if k == n:
            break
        D = r.choice([.4, 1.2, 4, 10, 58, 61, 130, 700, 3600, 7000, 30000, 86400, 86400 * 3, 86400 * 40]) + r.choice([0, .5, .9])
        notify = 0 if unnoticed and r.random() < .6 else 1
        tog = None
        if r.random() < .35:
            tog = r.choice(['sig HUP', 'sig USR2', 'sig CHLD', 'sig CONT'])
            o.count('together')
        # (at the same time; or right after it)
        if tog and r.random() < .7:
            sc.append((t1, 'suspend %s %d %s' % (D, notify, tog[4:])))
        else:
            sc.append((t1, 'suspend %s %d' % (D, notify)))
            if tog:
                sc.append((t1, tog))
        o.count('resumes' if notify else 'unnoticed')
        tog_all.append((tog, notify))
        w0 = w0 + t1 - t + D
        t = t1
    end = seg[-1][3]
    sc.append((end, 'sig TERM'))
    hor = (S - 3600, seg[-1][1] + 86400 * 800)
    with World('asan' if c['i'] % 5 == 0 else 'ubsan') as w:
        for u in users:
            x = w.install(u, ''.join(l['text'] + '\n' for l in lines[u]), now=S - 50)
            if not o.sane(x, 'fcrontab'):
                return
            if b'kipping' in x.err or b'rror' in x.err:
                return o.bad('install', 'valid lines refused', err=x.err.decode('latin-1'))
        run = w.daemon(sc, start=S, tz=tz, opts=['-m', '20', '-s', '60'], head=['defdur 0.1'])
        if not o.sane(run, 'daemon'):
            return
        got = collections.defaultdict(list)
        for e in run.ev('exec'):
            got[name_of(e)].append((e['t'], e['r']))
        mails = collections.defaultdict(list)
        for e in run.ev('mail'):
            b = e['stdin'].split('\n\n', 1)
            m = BODY.match(b[1]) if len(b) == 2 else None
            if not m:
                return o.bad('mail-form', 'a mail that is no notice of a missed run', mail=e['stdin'][:600])
            mails[m.group(1).split(' dur')[0]].append((e, m))
        # every job which ended has been waited for
        ctrl = [e for e in run.ev('reap')]
        for u in users:
            for l in lines[u]:
                g, ml = got.pop(l['name'], []), mails.pop(l['name'], [])
                o.count('starts', len(g))
                if l['long'] and g:
                    o.count('long_jobs')
                f = at if l['t'] == '@' else td
                if not f(o, l, g, ml, seg, tog_all, hor):
                    return
        if got or mails:
            return o.bad('alien', 'a run or mail of a line that is not scheduled', got=sorted(got), mails=sorted(mails))
    o.count('evaluations', sum(map(len, lines.values())))
    o.sample = dict(case=c, tz=tz, fcrontab=[l['text'] for u in users for l in lines[u]][:8], awake=[(iso(a), iso(b)) for a, b, _, _ in seg])

SLACK = 1.6
def at(o, l, got, mails, seg, tog, hor):
    """delays count the time awake"""
    def bad(key, msg, **d):
        o.bad(key, msg, line=l['text'], got=got[:8], awake=[(round(a, 2), round(b, 2), c, d_) for a, b, c, d_ in seg], together=tog, **d)
        return False
    if mails:
        return bad('mail-at', 'an @-line was reported as not run')
    ns = len(seg) - 1
    resumes = []                # (uptime of a resume, the latest time it is noticed)
    for k in range(1, len(seg)):
        D = seg[k][0] - seg[k - 1][1]
        if D > .95:
            resumes.append((seg[k][2], seg[k][2] + (2 if tog[k - 1][1] else 62), D < 2.1))
    g = [t for t, _ in got]
    end = seg[-1][3]
    o.sig('@', l['ra'], l['ro'], 'volatile' in l['o'], len(resumes), tuple(sorted(set(map(str, tog))))[:2], len(g) > 0)
    if l['ra']:
        # once at each resume (several which come together may count as one)
        i = 0
        for k, (a, b, short) in enumerate(resumes):
            x = [t for t in g if a - .3 <= t <= b + SLACK]       # (one which has just begun is not started again)
            nxt = resumes[k + 1][0] if k + 1 < len(resumes) else end
            if x:
                o.count('resume_runs')
            elif nxt > b + SLACK and not short:
                return bad('resume-missed', 'a line with runatresume did not run at a resume', at=a)
        if l['freq'] is None:
            for t in g:
                if not [1 for a, b, s in resumes if a - .01 <= t <= b + SLACK]:
                    return bad('resume-extra', 'a @resume line ran although nothing was resumed', at=t)
            if len(g) > len(resumes):
                return bad('resume-twice', 'a @resume line ran more often than the machine was resumed')
            return True
        if l['ro']:
            if len(g) > 1 + len(resumes):
                return bad('runonce', 'a runonce line ran again')
            return True
        # its regular schedule: no two runs closer than its delay but for the resumes, none more than it apart
        prev = 0
        for t in g + [end]:
            if t - prev > max(l['freq'], l['first'] if prev == 0 else 0, 20) + 2 + ns:
                return bad('resume-late', 'a line with runatresume waited longer than its delay', between=[prev, t])
            prev = t
        for a, b in zip(g, g[1:]):
            if b - a < l['freq'] - 2 - ns and not [1 for x, y, s in resumes if x - .01 <= b <= y + SLACK or x - .01 <= a <= y + SLACK]:
                return bad('resume-early', 'a line with runatresume ran before its delay', between=[a, b])
        return True
    lo = hi = l['first']
    i = 0
    near = sum(a <= 25 for a, _, _ in resumes)
    while True:
        lo_, hi_ = lo - 1.01 - ns, max(hi, 21 if hi < 25 else 0) + SLACK
        if i < len(g):
            if not lo_ <= g[i] <= hi_:
                return bad('when', 'an @-line was started at the wrong time', at=g[i], due=[lo_, hi_])
            o.count('at_runs')
            if [1 for a, _, _ in resumes if a < g[i]]:
                o.count('shifted')
            if l['ro']:
                if len(g) > 1:
                    return bad('runonce', 'a runonce line ran again')
                return True
            lo = hi = g[i] + l['freq']
            i += 1
        else:
            if hi_ < end:
                return bad('missed', 'an @-line was not started when its delay had passed', due=[lo_, hi_], end=end)
            return True

def td(o, l, got, mails, seg, tog, hor):
    def bad(key, msg, **d):
        o.bad(key, msg, line=l['text'], tz=l['tz'], got=[iso(x, l['tz']) for _, x in got][:8], mails=[m[0]['stdin'][-300:] for m in mails][:3],
              awake=[(iso(a, l['tz']), iso(b, l['tz'])) for a, b, _, _ in seg], together=tog, **d)
        return False
    cal = Cal(l, *hor)
    g = [x for _, x in got]
    # states: (next due D, mails so far, position in g, runs for the past still to come) as several outcomes may be right near the edges
    st = {(cal.after(int(seg[0][0])), 0, 0, False)}
    why = []
    for k, (S, E, tS, tE) in enumerate(seg):
        fs = 20 if k == 0 else 0
        if k:
            D_ = S - seg[k - 1][1]
            tell = S + 1.1 if tog[k - 1][1] else min(S + 62, E)
            new = set()
            for (D, m, i, owed) in st:
                new |= resume(o, l, cal, g, mails, D, m, i, owed, seg[k - 1][1], S, tell, E, D_)
            if not new:
                return bad('resume', 'after a resume a line is neither run nor reported as documented', resume=iso(S, l['tz']), asleep=D_, states=[(iso(x[0], l['tz']) if x[0] else None,) + x[1:] for x in list(st)[:4]])
            st = new
            # runs of the moment of resume are handled: now those which are due while awake
        new, late = set(), None
        for (D, m, i, owed) in st:
            while True:
                if owed:
                    # for the past: soon
                    if i < len(g) and g[i] <= max(S, 0) + owed + 4:
                        i += 1
                        owed = False
                        o.count('bootruns')
                        continue
                    if E < S + owed + 5:
                        new.add((D, m, i, owed))
                    else:
                        late = ('bootrun', S)
                    break
                if D is None or max(D, S + fs) > E + 1:
                    if i < len(g) and g[i] <= E:
                        late = ('extra', g[i])
                    else:
                        new.add((D, m, i, False))
                    break
                if i < len(g) and D - .01 <= g[i] <= max(D, S + fs) + SLACK:
                    i += 1
                    D = nextdue(l, cal, D, g[i - 1])
                    continue
                if max(D, S + fs) > E - SLACK:
                    if i < len(g) and g[i] <= E:
                        late = ('extra', g[i])
                    else:
                        new.add((D, m, i, False))
                    break
                late = ('missed', D)
                break
        if not new:
            return bad('awake-' + late[0], 'a line is not run exactly when it is due while the machine is awake', at=iso(late[1], l['tz']))
        st = new
    ok = [x for x in st if x[1] == len(mails) and x[2] == len(g)]
    if not ok:
        return bad('total', 'more or fewer runs or notices than documented', states=[(x[1], x[2]) for x in st], have=(len(mails), len(g)))
    return True

def nextdue(l, cal, D, t):
    x = max(D, int(t + 1e-6))
    return cal.after(x) if l['t'] == '&' else cal.after_period(D)

def resume(o, l, cal, g, mails, D, m, i, owed, E0, S, tell, E, slept):
    """what may have become of a line when the daemon has noticed a resume"""
    out = set()
    if slept < 2.1 or D is None or D > tell:
        # too short to count, or nothing was due
        out.add((D, m, i, owed and 4))
        if slept < .95 or (D is None or D > tell) and not l['ra']:
            return out
    # when does the daemon look? between the resume and `tell`
    looks = sorted({int(S), int(S + .999), int(tell)} | {x for x in range(int(S), int(tell) + 1) if x % 60 in (0, 1)} | {int(g[j]) for j in range(i, min(i + 2, len(g)))} - {0})
    for iS in looks:
        if not S - 1 <= iS <= tell + 1:
            continue
        if (D is None or D > iS) and not l['ra']:
            out.add((D, m, i, owed and 4))
            continue
        missed = D is not None and D <= iS
        nxt = cal.after(iS)
        note = None
        ow = owed and 4
        D2 = nxt
        runs = 0
        if l['ra']:
            runs = 1
            if missed and l['notice']:
                note = (D, iS)
            if not missed:
                D2 = D
        elif not missed:
            D2 = D
        elif l['t'] == '&':
            if l['bootrun']:
                ow = tell - S + 4
            else:
                o.count('none_for_past')
                if l['notice']:
                    note = (D, nxt)
        elif nxt is None or cal.per[nxt] != cal.per[D]:
            o.count('missed_periods')
            if l['notice']:
                note = (D, nxt)
        o.sig(l['t'], l['notice'], l['bootrun'], l['ra'], missed, slept > 3600, note is not None)
        m2, i2 = m, i
        if runs:
            if i < len(g) and S - .1 <= g[i] <= max(tell, iS) + SLACK:
                i2 += 1
                o.count('resume_runs')
                D2 = cal.after(int(g[i] + 1e-6))
            elif E > tell + SLACK and not (i and g[i - 1] > E0 - .3):
                continue
        if note:
            if m >= len(mails):
                if E > tell + 3:
                    continue
            else:
                e, b = mails[m]
                f = [int(x) for x in (b.group(2, 3, 4, 5, 6, 7) + b.group(9, 10, 11, 12, 13, 14))]
                if tuple(f[:6]) != stamp(note[0], l['tz']) or note[1] is not None and tuple(f[6:]) != stamp(note[1], l['tz']):
                    continue
                if e['argv'][-1] != l['mailto']:
                    continue
                m2 += 1
                o.count('mails')
        out.add((D2, m2, i2, ow))
    return out

def jump(c, o, r):
    """the clock is set"""
    tz = r.choice(ZONES)
    S = rand_start(r)
    L = []
    for k in range(r.randint(2, 6)):
        x = mk(r, 'alice', k, tz)
        if x['t'] == '&' and not x['ra'] or x['t'] == '@' and x['freq'] and not x['ro']:
            L.append(x)
    L.append(dict(name='jm', t='&', td=sched.TD({n: sched.Field(n, [('*', 1, [])]) for n in sched.ORDER}, False), text='&bootrun * * * * * jm', long=False, ra=False))
    sc, seg = [], []
    t, w0 = 0.0, S
    n = r.randint(1, 4)
    for k in range(n + 1):
        up = r.choice([5, 25, 62, 100, 300, 1900, 3700]) + r.choice([0, .3, .75]) if k else r.choice([30, 100, 700]) + r.random()
        if k == n:
            up = max(up, 200)
        t1 = round(t + up, 3)
        seg.append([w0, w0 + t1 - t, t, t1])
        if k == n:
            break
        J = r.choice([.4, 2, 30, 61, 3600, 5000, 86400, 86400 * 30]) * r.choice([1, -1])
        if J < -4000:
            J = -r.choice([30, 100, 400, 3600])
        sc.append((t1, 'jump %s' % J))
        o.count('jumps_on' if J > 0 else 'jumps_back')
        w0 = w0 + t1 - t + J
        t = t1
    end = seg[-1][3]
    sc.append((end, 'sig TERM'))
    with World('asan' if c['i'] % 5 == 0 else 'ubsan') as w:
        x = w.install('alice', ''.join(l['text'] + '\n' for l in L), now=S - 50)
        if not o.sane(x, 'fcrontab') or x.rc:
            return
        run = w.daemon(sc, start=S, tz=tz, opts=['-m', '20', '-s', '60'], head=['defdur 0.1'])
        if not o.sane(run, 'daemon'):
            return
        if run.ev('mail'):
            return o.bad('jump-mail', 'setting the clock makes lines be reported as not run for a suspend', mail=run.ev('mail')[0]['stdin'][:500])
        top = S                     # latest time the clock has shown
        for l in L:
            g = [(e['t'], e['r']) for e in run.ev('exec') if name_of(e) == l['name']]
            what = dict(line=l['text'], got=[(round(t, 2), iso(x, tz)) for t, x in g][:12], awake=[(iso(a, tz), iso(b, tz), p, q) for a, b, p, q in seg])
            if l['t'] == '@':
                # due by the clock: no two runs closer than the delay by the clock; never waits longer than its delay and what the clock was set back
                for (a, ra), (b, rb) in zip(g, g[1:]):
                    if rb - ra < l['freq'] - 2.1:
                        return o.bad('jump-burst', 'setting the clock makes an @-line run again too early', between=[a, b], **what)
                prev, pr = 0, 0
                for t, _ in g + [(end, 0)]:
                    back = sum(max(0, seg[k - 1][1] - seg[k][0]) for k in range(1, len(seg)) if prev - 2 <= seg[k][2] <= t + 2)
                    if t - prev > max(l['freq'] if prev else l['first'], 20) + back + 4:
                        return o.bad('jump-wait', 'setting the clock makes an @-line wait too long', between=[prev, t], **what)
                    prev = t
                continue
            top = seg[0][0]
            i = 0
            for k, (a, b, ta, tb) in enumerate(seg):
                # what is due in times the clock shows for the first time is run; what it skips is run once at most; what it shows again is not run again
                ms = [m for m in sched.matches(l['td'], tz, int(max(a, top)) - 60, int(b) + 60) if max(a, top) < m < b]
                skipped = k and a > top and bool([m for m in sched.matches(l['td'], tz, int(top) - 60, int(a) + 60) if top < m <= a])
                x = [q for t, q in g if ta <= t < tb or t == tb == end]
                first = 20 if k == 0 else 0
                for m in ms:
                    y = [q for q in x if m - .01 <= q <= max(m, a + first) + SLACK]
                    if not y and max(m, a + first) + SLACK < b and m > top + 2:
                        return o.bad('jump-missed', 'after the clock was set a line does not run when it is due', due=iso(m, tz), **what)
                    if k:
                        o.count('after_jump', len(y))
                extra = [q for q in x if not [m for m in ms if m - .01 <= q <= max(m, a + first) + SLACK]]
                # (a run due right before the jump may come right after it)
                if len(extra) > 1 or extra and not (extra[0] < a + 3):
                    return o.bad('jump-burst', 'setting the clock makes a line run when it is not due', at=[iso(q, tz) for q in extra], **what)
                if len(x) != len(set(int(q) // 60 for q in x)) and not (len(extra) and extra[0] < a + 3):
                    return o.bad('jump-twice', 'a line runs twice for one minute', **what)
                top = max(top, b)
            o.sig('jump', l['t'], n, tuple((seg[k][0] > seg[k - 1][1]) for k in range(1, len(seg))))

def stop(c, o, r):
    """the daemon is stopped or told to reload everything at the very moment of a resume: no delay may count the suspended time"""
    S = rand_start(r)
    end1 = r.choice([30, 65, 200, 700]) + r.choice([0, .3])
    D = r.choice([30, 100, 1000, 4000, 90000]) + r.choice([0, .5])
    what = r.choice(['sig TERM', 'sig TERM', 'sig USR1', 'sig HUP'])
    fr = [r.choice([1, 2, 5, 10, 60, 1440]) for _ in range(r.randint(1, 4))]
    order = r.random() < .2
    sc = [(end1, 'suspend %s 1' % D), (end1, what)] if order else [(end1, 'suspend %s 1 %s' % (D, what[4:]))]
    newat = r.choice([1, 5, 60]) if what == 'sig HUP' else None
    end = end1 + 4000
    with World('asan' if c['i'] % 5 == 0 else 'ubsan') as w:
        x = w.install('alice', ''.join('@%s %d j%d\n' % (r.choice(['', '', 'first(1)']), f, k) for k, f in enumerate(fr)), now=S - 50)
        txt = open(w.root + '/work/in.alice').read().split('\n')
        if not o.sane(x, 'fcrontab') or x.rc:
            return
        if newat:
            x, p = w.stage('bob', '@ %d jn\n' % newat, 'late', now=int(S))
            sc.insert(0, (end1 - 1.5, 'cp %s new.bob' % p))
        if what == 'sig TERM':
            a = w.daemon(sc, start=S)
            if not o.sane(a, 'daemon'):
                return
            b = w.daemon([(4000, 'sig TERM')], start=S + end1 + D + 100)
            if not o.sane(b, 'daemon'):
                return
            ev = [(e['t'], e) for e in a.ev('exec')] + [(e['t'] + end1, e) for e in b.ev('exec')]
        else:
            a = w.daemon(sorted(sc, key=lambda x: x[0]) + [(end, 'sig TERM')], start=S)
            if not o.sane(a, 'daemon'):
                return
            ev = [(e['t'], e) for e in a.ev('exec')]
        for k, f in enumerate(fr):
            g = [t for t, e in ev if name_of(e) == 'j%d' % k]
            first = 60 if 'first' in txt[k] else f * 60
            due = first
            for t in g:
                if not due - 4 <= t <= max(due, 22 if due < 22 else due) + 26 * (what == 'sig TERM' and t > end1) + 3:
                    return o.bad('stop-when', 'a signal at resume makes a delay count or repeat the time suspended', line=txt[k], got=g[:6], due=due, at=end1, slept=D, signal=what)
                due = t + 60 * f
            if due + 30 < end1 + 3990:
                return o.bad('stop-missed', 'a signal at resume makes a line wait for the time suspended once more', line=txt[k], got=g[-4:], due=due, at=end1, slept=D, signal=what)
            o.count('stopped_at_resume')
        if newat:
            g = [t for t, e in ev if name_of(e) == 'jn']
            if not g or not end1 - 3 <= g[0] - newat * 60 <= end1 + 3:
                return o.bad('stop-new', 'the delay of a new line counts time suspended before', got=g[:3], installed=end1, delay=newat, slept=D)
        o.sig('stop', what, order, D)

def run_case(c, o):
    r = rng(c['seed'], 'p20', c['kind'], c['i'])
    return dict(suspend=suspend, jump=jump, stop=stop)[c['kind']](c, o, r)

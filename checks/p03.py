"""P03: an @-line runs each time the machine has been up for its delay, across restarts."""
from fc import *
import os

RULE = ('random @-lines (first, volatile, rebootreset, runatreboot, runonce, shortcuts) and &-lines with runatreboot/runonce, '
        'run by the real daemon on a virtual clock through sequences of sessions ended by TERM or kill, with or without a '
        'reboot in between and files installed while it runs; each start is compared with a reference of the uptime counters. '
        'After a kill the remaining delay may be off by the save interval, not more. Distinct = (options, boot or start, how the last session ended).')
MUST_OBSERVE = ('starts', 'boots', 'restarts', 'crashes', 'carried')
VARIANTS = ('ubsan', 'asan')

def cases(tier, seed):
    n = dict(quick=(90, 60), thorough=(2500, 1500))[tier]
    for kind, k in zip(('term', 'crash'), n):
        for i in range(k):
            yield dict(kind=kind, seed=seed, i=i)

def tv(r, s):
    """text of a time value of s seconds"""
    if s % 60 == 0 and r.random() < .5:
        m = s // 60
        p = ''
        for mul, n in (('m', 40320), ('w', 10080), ('d', 1440), ('h', 60)):
            if m >= n and r.random() < .7:
                p += '%d%s' % (m // n, mul)
                m %= n
        if m or not p:
            p += '%d' % m
        return p
    return '%ds' % s

def mk(r, u, k):
    l = dict(name='j%s%d' % (u, k), amp=r.random() < .2, vol=r.random() < .2, rr=r.random() < .2, ra=r.random() < .25, ro=r.random() < .25, sc=None)
    if l['amp']:
        l['vol'] = l['vol'] and l['ro']
        l['rr'] = False
        l['step'] = r.choice([2, 5, 10, 20, 30])
        op = []
    else:
        l['freq'] = r.choice([30, 45, 60, 90, 200, 600, 3600, 7200, 10000, 86400])
        l['first'] = r.choice([None, None, 0, 5, 30, 100, 600, 4000, 50000])
        op = []
        if l['first'] is not None and r.random() < .5:
            op.append('first(%s)' % tv(r, l['first']))
    for n, key in (('volatile', 'vol'), ('rebootreset', 'rr'), ('runatreboot', 'ra'), ('runonce', 'ro')):
        if l[key]:
            op.append(n + r.choice(['', '(true)', '(1)', '(yes)']))
        elif r.random() < .1:
            op.append(n + '(false)')
    r.shuffle(op)
    if l['amp']:
        l['text'] = '&%s */%d * * * * %s' % (','.join(op), l['step'], l['name'])
        return l
    if r.random() < .08:
        l.update(sc='reboot', vol=False, rr=False, ra=True, ro=True, first=None, freq=None)
        l['text'] = '@reboot %s' % l['name']
        return l
    o = ','.join(op)
    if l['first'] is not None and 'first(' not in o:
        f = tv(r, l['first'])
        o = f if not o else (o + ',first(%s)' % f)
    l['text'] = '@%s %s %s' % (o, tv(r, l['freq']), l['name'])
    return l

def run_case(c, o):
    r = rng(c['seed'], 'p03', c['kind'], c['i'])
    kind = c['kind']
    variant = 'asan' if c['i'] % 4 == 0 else 'ubsan'
    save = r.choice([60, 300, 1800])
    S0 = 1600000000 + r.randint(0, 10 ** 7) + r.choice([0, .25, .9])
    users = ['alice', 'bob', 'root'][:r.randint(1, 3)]
    lines = {u: [mk(r, u, k) for k in range(r.randint(2, 6))] for u in users}
    nsess = r.randint(2, 7)
    st = {}          # name -> dict(lo, hi: remaining delay; None: new; ran: may/has run (runonce))
    with World(variant) as w:
        late_user = users[-1] if r.random() < .4 and len(users) > 1 else None
        for u in users:
            if u != late_user:
                x = w.install(u, ''.join(l['text'] + '\n' for l in lines[u]), now=int(S0) - 100)
                if not o.sane(x, 'fcrontab'):
                    return
                if b'kipping' in x.err or b'rror' in x.err:
                    o.bad('install', 'valid lines refused', err=x.err.decode('latin-1'))
                    return
        s = S0
        boot = True
        hist = []
        for si in range(nsess):
            dur = r.choice([5, 19, 25, 100, 100, 1000, 4000, 4000, 20000] + [90000] * (r.random() < .15)) + r.randint(0, 40) + r.choice([.1, .35, .8])
            crash = kind == 'crash' and r.random() < .6
            sc = [(dur, 'crash' if crash else 'sig TERM')]
            newat = None
            if late_user and si == min(1, nsess - 1):
                newat = round(r.uniform(0, max(1, dur - 2)), 2)
                x, p = w.stage(late_user, ''.join(l['text'] + '\n' for l in lines[late_user]), 'late', now=int(s + newat))
                sc += [(newat, 'cp %s new.%s' % (p, late_user)), (newat + .001, 'sig HUP')]
            if boot:
                o.count('boots')
                try:
                    os.unlink(w.root + '/run/reboot.lock')
                except FileNotFoundError:
                    pass
            run = w.daemon(sc, start=s, opts=['-s', str(save)])
            if not o.sane(run, 'daemon', ok=(0,) if not crash else (0, run.rc)):
                return
            S = int(s)
            base = s - S                       # trace times are relative to s; ours to S
            end = dur + base
            got = collections.defaultdict(list)
            for e in run.ev('exec'):
                got[name_of(e)].append(e['t'] + base)
            hist.append(dict(start=S, dur=dur, boot=boot, end='crash' if crash else 'term'))
            for u in users:
                if u == late_user and si < min(1, nsess - 1):
                    continue
                isnew = u == late_user and newat is not None
                for l in lines[u]:
                    f = check_line(l, st.get(l['name']), got.pop(l['name'], []), S, end, boot and not isnew, crash, save, o,
                                   (newat + base) if isnew else None, hist)
                    if f is None:
                        return
                    st[l['name']] = f
            if got:
                o.bad('alien', 'an unknown or removed job ran', names=sorted(got))
                return
            if si:
                o.count('restarts')
            o.count('crashes' if crash else 'terms')
            s += dur + r.choice([0.3, 1, 20, 500, 86400, 10 ** 6]) + r.choice([0, .5])
            boot = r.random() < .5
        o.count('evaluations', sum(map(len, lines.values())))
        o.sample = dict(case=c, fcrontab=[l['text'] for u in users for l in lines[u]][:8], sessions=hist)

def check_line(l, old, got, S, end, boot, crash, save, o, newat, hist):
    a = (l, old, got, S, end, boot, crash, save)
    if not (len(hist) > 1 and hist[-2]['end'] == 'crash' and got and got[0] < 90) or old is None:
        return check_line1(*a, o, newat, hist)
    # it may have been running when the daemon was killed: then it is run once more at the start
    o1, o2 = Out(), Out()
    r1 = check_line1(*a, o1, newat, hist)
    r2 = check_line1(l, old, got[1:], S, end, boot, crash, save, o2, newat, hist)
    if r1 is None and r2 is None:
        return check_line1(*a, o, newat, hist)
    o.count('starts', len(got))
    if r1 is None:
        o.count('run_again')
        return r2
    if r2 is None or l['amp']:
        return r1
    return dict(lo=min(r1['lo'], r2['lo']), hi=max(r1['hi'], r2['hi']), ran=r1['ran'] if r1['ran'] == r2['ran'] else 'maybe')

def check_line1(l, old, got, S, end, boot, crash, save, o, newat, hist):
    """old: state at the end of the last session; returns the new one. Times relative to S."""
    def bad(key, msg, **d):
        o.bad(key, msg, line=l['text'], got=got[:6], session=hist[-1], before=hist[-4:-1], state=old, **d)
    T0 = 0 if newat is None else int(newat)
    wake = lambda d: max(d, 20)
    freq = l.get('freq')
    ran = old['ran'] if old else 'no'           # no / yes / maybe (runonce memory)
    if boot or l['vol']:
        ran = 'no'
    o.count('starts', len(got))
    o.sig(l['vol'], l['rr'], l['ra'], l['ro'], l['amp'], boot, old is None, hist[-2]['end'] if len(hist) > 1 else '-')
    got = list(got)
    if l['ro'] and ran == 'yes':
        if got:
            bad('runonce', 'a runonce line ran again')
            return None
        return dict(old, ran='yes')
    # ---- &-lines
    if l['amp']:
        dues = []
        if boot and l['ra']:
            dues.append((0, 20))
        m = (S + T0) // 60 * 60 + 60 - S
        while m <= end:
            if (S + m) // 60 % 60 % l['step'] == 0:
                dues.append((m, wake(m)))
            m += 60
        if boot and l['ra'] and len(dues) > 1 and dues[1][0] <= 20:
            del dues[1]
        if l['ro']:
            dues = dues[:1]
            if ran == 'maybe' and not got:
                return dict(ran='maybe')
        i = 0
        for a, b in dues:
            if i < len(got) and a - 1e-6 <= got[i] <= b + 1.5:
                i += 1
            elif b + 1.5 < end:
                bad('amp-missed', 'an &-line with boot options did not run when due', due=b)
                return None
        if i < len(got):
            bad('amp-extra', 'an &-line with boot options ran when not due', at=got[i])
            return None
        r_ = 'yes' if got else ran
        if crash and got and got[-1] > end - save - 60:
            r_ = 'maybe' if ran == 'no' else r_
        if crash and end < save + 45 and old and old['ran'] != r_:
            r_ = 'maybe'         # nothing was saved
        return dict(ran=r_)
    # ---- @-lines: [lo, hi] is when it is due next; None: never
    first = l['first'] if l['first'] is not None else freq
    if boot and l['ra']:
        lo = hi = 0
    elif l['sc'] == 'reboot' and (old is None or newat is not None or old['lo'] > 1e15):
        lo = hi = 2e18
    elif old is None or newat is not None or l['vol'] or (boot and (l['rr'] or l['ro'])):
        lo = hi = T0 + first
    else:
        lo, hi = max(0, old['lo'] - 1), max(0, old['hi'] + 1)
        o.count('carried')
    if crash and end < save + 45 and old and old['ran'] != ran and l['ro']:
        nosave = True
    else:
        nosave = False
    hist_next = [(T0, lo, hi)]       # (from, due lo, due hi)
    if crash and end < save + 45 and old and old['ran'] != ran and l['ro']:
        nosave = True
    else:
        nosave = False
    hist_next = [(T0, lo, hi)]       # (from, due lo, due hi)
    if len(hist) > 1 and hist[-2]['end'] == 'crash' and got and got[0] < 90 and (got[0] < lo or got[0] > wake(hi) + 1.6 or
                                                                                (len(got) > 1 and not l['ro'] and got[1] - got[0] < freq - 1.5)):
        # (it was running when the daemon was killed)
        got.pop(0)
        o.count('run_again')
    i = 0
    while lo <= end:
        if l['ro'] and ran == 'maybe' and i >= len(got):
            break
        if i < len(got):
            g = got[i]
            if g < lo - 1e-6 or g > wake(hi) + 1.6:
                if not (newat is not None and abs(g - wake(hi)) < 2.2):
                    bad('when', 'an @-line was started at the wrong time', at=g, due=[lo, hi])
                    return None
            i += 1
            if l['ro']:
                lo = hi = 1e18
                ran = 'yes'
            else:
                t = int(g + 1e-6)
                lo, hi = t + freq - 1, t + freq
            hist_next.append((g, lo, hi))
        else:
            if wake(hi) + 1.6 < end:
                bad('missed', 'an @-line was not started when its delay had passed', due=[lo, hi], end=end)
                return None
            break
    if i < len(got):
        bad('extra', 'an @-line was started when it was not due', at=got[i], due=[lo, hi])
        return None
    if lo >= 2e18:
        return dict(lo=lo, hi=hi, ran=ran)
    if lo >= 1e17:
        ran2 = 'yes'
        if crash and got and got[-1] > end - save - 60:
            ran2 = 'maybe'
            # not known to have run: its delay may go on
            c = [(a, b) for f, a, b in hist_next if a < 1e17]
            t_lo, t_hi = max(T0, end - save - 60), end
            return dict(lo=max(0, min(a for a, b in c) - t_hi), hi=max(b for a, b in c) - t_lo, ran=ran2)
        return dict(lo=0, hi=0, ran='yes')
    if not crash:
        return dict(lo=max(0, lo - int(end)), hi=max(0, hi - int(end)), ran=ran)
    # killed: what the last save knew, not more than the save interval ago
    t0 = max(T0, end - save - 25)
    a_, b_ = [], []
    for k, (f, a, b) in enumerate(hist_next):
        till = hist_next[k + 1][0] if k + 1 < len(hist_next) else end
        if till >= t0:
            a_.append(a - min(till, end))
            b_.append(b - max(f, t0))
    lo, hi = max(0, min(a_)), max(0, max(b_))
    if end < save + 45 and old is not None and newat is None:
        # no save in this session: what the last one left still counts
        if not (boot and l['ra']):
            lo, hi = min(lo, old['lo'] - 1), max(hi, old['hi'] + 1)
        else:
            lo, hi = min(lo, old['lo']), max(hi, old['hi'], (first or 0))
    if newat is None and old is None:
        hi = max(hi, first or 0)
    return dict(lo=max(0, lo), hi=hi, ran='maybe' if nosave else ran)

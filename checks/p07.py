"""P07: a reload makes the changes take effect at once and completely, and disturbs nothing else."""
from fc import *
import math

RULE = ('random histories of installs, replacements, removals (also several before one reload request), full reloads, stops and '
        'starts of the real daemon on a virtual clock, with reload requests on minute boundaries, in bursts, between any two '
        'system calls, and left pending over a stop; each start of each line is compared with the schedule of the lines in '
        'force; jobs running over a reload must be reaped and mailed. Distinct = (kind of change, state of the line, what ran over it).')
MUST_OBSERVE = ('starts', 'changes', 'kept', 'removed', 'reloads', 'restarts', 'jobs_over_reload', 'mails', 'tick_requests')
VARIANTS = ('asan', 'ubsan')
USERS_ = ['alice', 'bob', 'carol', 'root', 'systab']

def cases(tier, seed):
    n = dict(quick=(110, 60, 40, 60), thorough=(2500, 1500, 800, 1500))[tier]
    for kind, k in zip(('hup', 'tick', 'all', 'edge'), n):
        for i in range(k):
            yield dict(kind=kind, seed=seed, i=i)

def mk(r, u, k, durs=(.2, 1.2, 5.3, 20.4, 47.6, 100.7)):
    l = dict(user=u, name='j%s%d' % (u, k), amp=r.random() < .55, mail=r.random() < .4, dur=r.choice(durs))
    if r.random() < .04 and len(durs) > 4:
        l['dur'] = 900.5
    if l['amp']:
        l['step'] = r.choice([1, 2, 3, 5, 10, 20])
        l['off'] = r.randint(0, l['step'] - 1)
    else:
        l['freq'] = r.choice([15, 60, 61, 200, 200, 600, 1800, 3600, 90000])
        l['first'] = r.choice([0, 1, 7, 30, 100, 600, 1500])
    cmd = '%s dur=%s st=%d' % (l['name'], l['dur'], 3 if l['mail'] else 0)
    op = ['exesev']
    if not l['mail']:
        op.append('mail(false)')
    if u == 'systab':
        op.append('runas(%s)' % r.choice(['dave', 'erin']))
    r.shuffle(op)
    if l['amp']:
        m = '*' if l['step'] == 1 else '%d-59/%d' % (l['off'], l['step'])
        l['text'] = '&%s %s * * * * %s' % (','.join(op), m, cmd)
    else:
        l['text'] = '@%s,first(%ds) %ds %s' % (','.join(op), l['first'], l['freq'], cmd)
    return l

def run_case(c, o):
    r = rng(c['seed'], 'p07', c['kind'], c['i'])
    kind = c['kind']
    variant = 'asan' if c['i'] % 3 else 'ubsan'
    S0 = 1600000000 + r.randint(0, 10 ** 7)
    S0 -= S0 % 60
    seq = [0]
    def new_line(u):
        seq[0] += 1
        return mk(r, u, seq[0], *([(.2, 1.2, 5.3, 20.4)] if kind == 'all' else []))
    with World(variant) as w:
        users = r.sample(USERS_, r.randint(2, 4))
        cur = {u: [] for u in users}            # as it is in force, per user: list of line dicts
        for u in users:
            if r.random() < .8:
                cur[u] = [new_line(u) for _ in range(r.randint(1, 6))]
                x = w.install(u, ''.join(l['text'] + '\n' for l in cur[u]), now=S0 - 50)
                if not o.sane(x, 'fcrontab'):
                    return
                if b'kipping' in x.err:
                    o.bad('install', 'valid lines refused', err=x.err.decode('latin-1'))
                    return
        # per line: seg = list of [from, to] in wall time of being in force; nxt: @-line's next due
        st = {}
        for u in users:
            for l in cur[u]:
                st[l['name']] = dict(l=l, new=True, rem=None)
        pend = []                                # changes made but not yet told: (user, lines or None, replaced?)
        s = float(S0) + r.choice([5.25, 13.5, 29.75])
        nsess = r.choice([1, 1, 2, 3])
        nst = 0
        hist = []
        for si in range(nsess):
            dur = r.choice([400, 900, 1500, 3600])
            base = s
            sc = []
            plan = []           # (t of the change on disk, user, how, lines)
            t = r.uniform(0, 40)
            disk = {u: list(cur[u]) for u in users}
            for p in pend:
                disk[p[0]] = list(p[2] or [])
            while True:
                t += r.choice([.002, 1, 3, 20, 61, 180, 400, 900])
                if kind == 'edge' and r.random() < .7:
                    q = 60 - base % 60
                    t = max(q, q + math.ceil((t - q) / 60) * 60)     # a minute boundary
                    t += r.choice([0, 0, -.01, .01, .5, -.5])
                if t > dur - (45 if kind == 'all' else 5):
                    break
                t = round(max(t, plan[-1][0] + .001 if plan else 0), 3)
                for u in r.sample(users, 1 if r.random() < .6 else r.randint(1, len(users))):
                    old = disk[u]
                    how = r.choice(['new', 'new', 'new', 'rm', 'renew'])
                    if how == 'rm':
                        if not old:
                            continue
                        sc.append((t, 'rm new.' + u))
                        sc.append((t + .0001, 'touch rm.' + u))
                        new = []
                    else:
                        new = [l for l in old if r.random() < .75]
                        new += [new_line(u) for _ in range(r.choice([0, 0, 1, 2, 3]))]
                        if not new:
                            new = [new_line(u)]
                        r.shuffle(new)
                        nst += 1
                        x, p = w.stage(u, ''.join(l['text'] + '\n' for l in new), 'n%d' % nst, now=int(base + t))
                        if not o.sane(x, 'fcrontab') or b'kipping' in x.err:
                            return
                        if how == 'renew':
                            sc.append((t, 'touch rm.' + u))
                        sc.append((t + .0001, 'cp %s new.%s' % (p, u)))
                    disk[u] = new
                    sc.append((t + .0001, 'mark c%d' % len(plan)))
                    plan.append([t + .0001, u, how, new])
                    o.count('changes')
                if r.random() < .25:
                    sc.append((t, 'touch ' + r.choice(['rm.nobody', 'new.nobody', 'x.y', 'new.', 'rm.', 'rm.erin'])))
                if r.random() < .15:
                    continue        # told later
                th = t + .001
                if kind == 'tick':
                    sc.append((th, 'tickact %d:sig=HUP' % r.randint(1, 60)))
                    if r.random() < .3:
                        sc.append((th + .0001, 'sig HUP'))
                        sc.append((th + .0001, 'tickact %d:sig=HUP' % r.randint(1, 40)))
                elif kind == 'all' and r.random() < .5:
                    sc.append((th, 'sig USR1'))
                else:
                    for _ in range(r.choice([1, 1, 1, 2, 5])):
                        sc.append((th, 'sig HUP'))
                    if r.random() < .05:
                        sc.append((th, 'sig CHLD'))
            tail = si < nsess - 1 or r.random() < .5
            if si < nsess - 1 and r.random() < .3:       # a request just as it is stopped
                sc.append((dur, 'sig HUP'))
            sc.append((dur, 'sig TERM'))
            run = w.daemon(sc, start=base, opts=['-s', str(r.choice([60, 1800]))])
            if not o.sane(run, 'daemon'):
                return
            if si:
                o.count('restarts')
            got = collections.defaultdict(list)
            for e in run.ev('exec'):
                got[name_of(e)].append(e['t'])
                o.count('starts')
            tterm = min([e['t'] for e in run.ev('sig') if e.get('sig') in ('TERM', 15)] or [dur])
            iterm = min([i_ for i_, e in enumerate(run.events) if e['ev'] == 'sig' and e.get('sig') in ('TERM', 15)] or [1e9])
            # when requests came, and what the daemon did on them
            req = sorted([e['t'] for e in run.ev('sig', 'sigtick') if e.get('sig') in ('HUP', 1)])
            o.count('tick_requests', len([1 for e in run.ev('sigtick')]))
            usr1 = sorted(e['t'] for e in run.ev('sig') if e.get('sig') in ('USR1', 10))
            idx = {}                # place of each change in the trace
            reqi = []               # requests: (place, time)
            for i_, e in enumerate(run.events):
                if e['ev'] == 'mark':
                    idx[e['m']] = i_
                elif e['ev'] in ('sig', 'sigtick') and e.get('sig') in ('HUP', 1, 'USR1', 10):
                    reqi.append((i_, e['t'], e.get('sig') in ('USR1', 10)))
            blocked = []
            logs = [(e['t'], e['msg']) for e in run.ev('log')]
            for k_, (x, m) in enumerate(logs):
                if m.startswith('Removing current configuration'):
                    y = [q for q, m in logs[k_:] if m.startswith('updating configuration')]
                    if y:
                        blocked.append((x, y[0]))
            o.count('reloads', len(req) + len(usr1))
            def unblock(t):                   # a HUP during a full reload is followed when that has ended
                for x, y in blocked:
                    if x - 1e-6 <= t < y:
                        return y
                return t
            reads = [(i_, e['t']) for i_, e in enumerate(run.events) if e['ev'] == 'log' and e['msg'].startswith('updating configuration')]
            for i_, t, full in reqi:
                q = [y for j, y in reads if j > i_]
                if i_ < iterm and t < tterm - .05 and not (q and t - 1e-6 <= q[0] <= unblock(t) + 1):
                    o.bad('reload-lost', 'a request to reload was not followed at once', at=t, read=q[:1], hist=hist[-1:])
                    return
            def eff_of(k):
                for i_, t in reads:
                    if i_ > idx.get('c%d' % k, 1e9):
                        return t
                return None
            # ---- changes in force: at the start, those pending
            segs = {}            # name -> [from, to, fresh?]  (session times)
            for u in users:
                for l in cur[u]:
                    segs.setdefault(l['name'], []).append([0., 1e18, False])
            def apply(t, u, hows, new):
                old = {l['name'] for l in cur[u]}
                reset = any(h in ('rm', 'renew') for h in hows)
                for l in cur[u]:
                    if l['name'] not in {x['name'] for x in new} or reset:
                        segs[l['name']][-1][1] = t
                        o.count('removed')
                    else:
                        o.count('kept')
                for l in new:
                    if l['name'] not in old or reset:
                        segs.setdefault(l['name'], []).append([t, 1e18, True])
                        st.setdefault(l['name'], dict(l=l, new=True, rem=None))
                cur[u] = list(new)
            pend0, pend = pend, []
            todo = collections.defaultdict(dict)       # effective time -> user -> [hows, lines]
            for k, (t_, u, how, new) in enumerate([(-1., u, h, n) for u, hs, n in pend0 for h in hs] + plan):
                e_ = 0. if t_ < 0 else eff_of(k - sum(len(x[1]) for x in pend0))
                q = todo[e_].setdefault(u, [[], None])
                q[0].append(how)
                q[1] = new
                # a removal asked for before, and not yet followed, comes first; a new version asked
                # for before a removal is gone
            for e_ in sorted(k for k in todo if k is not None):
                for u, (hows, new) in todo[e_].items():
                    apply(e_, u, hows, new)
                    o.sig(kind, tuple(sorted(set(hows))), len(new) == 0, e_ == 0)
            if None in todo:
                pend = [(u, hows, new) for u, (hows, new) in todo[None].items()]
            hist.append(dict(start=base, changes=[(round(a, 3), b, c_, [l['name'] for l in d]) for a, b, c_, d in plan][:12], req=req[:10], all=blocked[:5]))
            # ---- each line
            for n, sg in segs.items():
                l = st[n]['l']
                g = sorted(got.pop(n, []))
                if not check(l, st[n], sg, g, base, tterm, blocked, o, hist):
                    return
            if got:
                o.bad('alien', 'a job ran which is in no fcrontab in force', names=sorted(got), hist=hist[-1])
                return
            # ---- running jobs go on, are reaped and mailed
            reaped = {e['ctrl'] for e in run.ev('reap')}
            mailed = collections.Counter(e['job'] for e in run.ev('mail'))
            allreq = req + usr1
            for e in run.ev('exec'):
                l = st[name_of(e)]['l']
                over = any(e['t'] < q < e['t'] + l['dur'] for q in allreq)
                if over:
                    o.count('jobs_over_reload')
                    o.sig('over', l['amp'], l['mail'], n in [x['name'] for x in cur[l['user']]])
                if e['ctrl'] not in reaped and e['t'] + l['dur'] < tterm - 2:
                    o.bad('not-reaped', 'a job was not reaped', job=cmd_of(e), at=e['t'], over=over)
                    return
                if mailed[e['job']] != (1 if l['mail'] else 0):
                    o.bad('mail', 'the result of a job was mailed %d times' % mailed[e['job']], job=cmd_of(e), at=e['t'], over=over)
                    return
                o.count('mails', 1 if l['mail'] else 0)
            tend = run.events[-1]['t']
            s = base + tend + r.choice([.5, 3, 100, 5000])
            s = math.floor(s / 60) * 60 + 60 + r.choice([5.25, 13.5, 29.75])
        o.count('evaluations', len(st))
        o.sample = dict(case=c, lines=[v['l']['text'] for v in st.values()][:6], sessions=hist[:2])

def check(l, state, segs, got, base, tterm, blocked, o, hist):
    def bad(key, msg, **d):
        o.bad(key, msg, line=l['text'], got=[round(x, 3) for x in got[:8]], segs=segs, session=hist[-1], **d)
        return False
    inblk = lambda t: next(((x, y) for x, y in blocked if x - 1.01 <= t <= y + 1e-6), None)
    def win(t):
        """when something due at t may be started, and whether it must"""
        b = inblk(t)
        hi = max(t, 20) + 1.5
        if b and b[1] > b[0] + .5:
            return t, max(hi, b[1] + 1.5), False
        return t, hi, True
    # what was due while a full reload waited may be run when it ends
    late = lambda t: any(y - x > .5 and y - .01 <= t <= y + 1.5 for x, y in blocked)
    i = 0
    for fr, to, fresh in segs:
        to_ = min(to, tterm)
        if l['amp']:
            t = math.floor((base + fr) / 60) * 60 + 60 - base
            if abs(t - 60 - fr) < 1.01 and fresh:
                t -= 60                         # installed in the very second
                optional_first = True
            else:
                optional_first = False
            while t <= to_:
                if i < len(got) and got[i] < t - .01 and late(got[i]):
                    i += 1
                if round(base + t) // 60 % 60 % l['step'] == l['off'] % l['step']:
                    a, b, must = win(t)
                    if abs(t - to_) < 1.01 or optional_first or (b > to_):
                        must = False
                    if i < len(got) and a - .01 <= got[i] <= b:
                        i += 1
                    elif must:
                        return bad('missed', 'a line in force did not run when due', due=t)
                optional_first = False
                t += 60
            if i < len(got) and got[i] <= to_ and late(got[i]):
                i += 1
        else:
            if fresh or state['rem'] is None:
                lo, hi = fr + l['first'] - 1.01, fr + l['first'] + .01
                for x, y in blocked:                # counted from the request
                    if abs(y - fr) < .01:
                        lo = min(lo, x + l['first'] - 1.01)
            else:
                dl, d = state['rem']
                lo = max(0, dl - 2.01)
                hi = max(d, 0) + 1.01
                if dl < 2.01 - l['freq']:
                    hi = max(hi, l['freq'] + 1.01)
            while True:
                # the next start is due in [lo, hi]
                _, b, must = win(hi)
                bl = inblk(hi) or inblk(lo)
                if bl and bl[1] > bl[0] + .5:
                    must = True
                    b = max(b, bl[1] + 1.5 + l['freq'])
                if lo > to_ + .01:
                    break
                if i < len(got) and got[i] <= (to_ if to < tterm else to_ + .01):
                    if late(got[i]):
                        y = [q for q in blocked if q[1] - .01 <= got[i] <= q[1] + 1.5][-1]
                        if got[i] < lo - .01 and lo > y[1] + 1.5:
                            return bad('time', 'a line in force ran too early', at=got[i], due=(lo, hi))
                        lo, hi = y[0] + l['freq'] - 1.01, got[i] + l['freq'] + .01
                        i += 1
                        continue
                    if not lo - .01 <= got[i] <= b:
                        return bad('time', 'a line in force ran at another time than due', at=got[i], due=(lo, hi))
                    x = got[i]
                    i += 1
                    lo, hi = x + l['freq'] - 1.01, x + l['freq'] + .01
                    continue
                if b < to_ - .01:
                    return bad('missed', 'a line in force did not run when due', due=(lo, hi))
                break
            state['rem'] = (lo - to_, hi - to_) if to >= tterm else None
            if state['rem'] and blocked:
                # a full reload which waits freezes the daemon's clock: only that the line goes on is checked
                state['rem'] = (-1e9, max(hi - to_, l['freq'], l['first']))
        state['new'] = False
    if i < len(got):
        return bad('extra', 'a line ran when it was not due or not in force', at=got[i])
    return True

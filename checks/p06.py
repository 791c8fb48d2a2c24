"""P06: load average lines wait for the load, and not beyond their limit."""
from fc import *
import re

RULE = ('random &-, @- and %hourly/%daily lines with limits on the three load averages (lavgand/lavgor, until, '
        'strict, serial, lavgonce, noticenotrun) run by the real daemon on a virtual clock while the load moves '
        'around the limits; the trace is followed by a model of the waiting lines: each start must be allowed by '
        'the load or the passed delay, each wait must have a reason, each drop must be due. Reloads, removals and '
        'restarts with waiting lines are mixed in. Distinct = situations of a line (kind, options, how it ended).')
ASSUMPTIONS = ['jobs due within two seconds of the end of a run of the same line may or may not be queued']
MUST_OBSERVE = ('by_load', 'by_until', 'dropped', 'held', 'normal_starts', 'removed_waiting', 'requeued')
VARIANTS = ('ubsan', 'asan')
USERS_ = ('alice', 'bob', 'dave')

def cases(tier, seed):
    n = dict(quick=(60, 30, 30, 12), thorough=(1500, 700, 700, 200))[tier]
    for kind, k in zip(('mix', 'remove', 'restart', 'full'), n):
        for i in range(k):
            yield dict(kind=kind, seed=seed, i=i)

ZONES = {'Asia/Tokyo': -9, 'UTC': 0, 'Etc/GMT+5': 5, 'Pacific/Honolulu': 10}

def mk(r, u, k, ver, full=False, tzd=0):
    l = dict(user=u, name='j%s%d%s' % (u, k, 'v%d' % ver if ver else ''), exesev=False)
    l['kind'] = r.choice('&&@%%h') if not full else r.choice('&@')
    # the time of the line less that of the system, as tzdiff() of the file or timezone() of the line
    l['zone'] = None if tzd or l['kind'] == '@' or r.random() < .7 else r.choice(list(ZONES))
    l['tz'] = 3600 * (ZONES[l['zone']] if l['zone'] else tzd)
    l['dur'] = r.choice([1, 3, 10, 40]) + r.choice([.37, .61, .13])
    l['lav'] = [0, 0, 0]
    for i in range(3):
        if r.random() < .45:
            l['lav'][i] = r.choice([5, 10, 12, 20, 25])
    l['or'] = r.random() < .35
    l['lavg'] = any(l['lav']) and r.random() < .9
    if not l['lavg']:
        l['lav'] = [0, 0, 0]
    l['serial'] = l['lavg'] and r.random() < .25
    l['many'] = l['lavg'] and r.random() < (.25 if not full else .8)
    l['until'] = r.choice([40, 100, 200, 600, 3000]) if l['lavg'] and r.random() < .4 else 0
    l['strict'] = r.random() < .6
    l['notice'] = l['kind'] in '%h' and r.random() < .3
    if l['kind'] == '&':
        l['step'] = r.choice([2, 3, 5, 10, 20]) if not full else 1
        l['off'] = r.randint(0, l['step'] - 1)
    elif l['kind'] == '@':
        l['first'] = r.randint(0, 300)
        l['freq'] = r.choice([45, 60, 90, 200, 600]) if not full else r.choice([5, 20])
    elif l['kind'] == 'h':
        a = r.randint(0, 50)
        l['mins'] = sorted(set(range(a, min(59, a + r.choice([0, 1, 5, 20])) + 1)))
        if r.random() < .4:
            b = r.randint(0, 55)
            l['mins'] = sorted(set(l['mins']) | set(range(b, b + r.randint(1, 5))))
    else:
        # allowed hours and minutes of a day (UTC), near the start of the run
        l['mins'] = list(range(0, 60)) if r.random() < .5 else list(range(10, 30))
        l['hours'] = None
    return l

def ranges(v):
    out, i = [], 0
    while i < len(v):
        j = i
        while j + 1 < len(v) and v[j + 1] == v[j] + 1:
            j += 1
        out.append('%d-%d' % (v[i], v[j]) if j > i else '%d' % v[i])
        i = j + 1
    return ','.join(out)

def text(l, r):
    op = []
    if l['lavg']:
        v = ['%.1f' % (x / 10) if x % 10 else '%d' % (x // 10) for x in l['lav']]
        if r.random() < .3:
            op.append('lavg(%s)' % ','.join(v))
        else:
            op += ['%s(%s)' % (n, v[i]) for i, n in enumerate(('lavg1', 'lavg5', 'lavg15')) if l['lav'][i]]
        if l['or']:
            op.append('lavgor')
        elif r.random() < .3:
            op.append('lavgand')
        if l['many']:
            op.append('lavgonce(false)')
        if l['until']:
            op.append('until(%ds)' % l['until'])
    if l['serial']:
        op.append('serial')
    if l['strict'] and r.random() < .5:
        op.append('strict')
    if not l['strict']:
        op.append('strict(false)')
    if l['notice']:
        op.append('noticenotrun')
    if l['zone']:
        op.append('timezone(%s)' % l['zone'])
    cmd = '%s dur=%s' % (l['name'], l['dur'])
    if l['kind'] == '&':
        t = '&%s %s * * * * %s' % (','.join(op), '%d-59/%d' % (l['off'], l['step']) if l['step'] > 1 else '*', cmd)
    elif l['kind'] == '@':
        t = '@%s %ds %s' % (','.join(op + ['first(%ds)' % l['first']]), l['freq'], cmd)
    elif l['kind'] == 'h':
        t = '%%hourly%s %s %s' % (''.join(',' + x for x in op), ranges(l['mins']), cmd)
    else:
        t = '%%daily%s %s %s %s' % (''.join(',' + x for x in op), '*' if len(l['mins']) == 60 else ranges(l['mins']),
                                    ranges(l['hours']), cmd)
    l['text'] = t
    return t

def mailbody(e):
    return e['stdin'].encode('latin-1')

class Line:
    """state of a line in the model; all times are relative to the start of the session"""
    def __init__(self, l):
        self.l, self.wait, self.running, self.next, self.lastend = l, [], 0, None, -1e9

class Model:
    def __init__(self, o, S, M, Q, lav):
        self.o, self.S, self.M, self.Q, self.lav = o, S, M, Q, lav
        self.L = {}
        self.run = {}
        self.slot_since = -1e9
    def allowed(self, l, t):
        a = (self.S + t - l['tz']) // 60
        return (a % 60) in l['mins'] and (l['kind'] == 'h' or a // 60 % 24 in l['hours'])
    def next_allowed(self, l, t):
        x = ((self.S + t) // 60 + 1) * 60 - self.S
        for _ in range(3 * 1440):
            if self.allowed(l, x):
                return x
            x += 60
    def next_period(self, l, t):
        p = 3600 if l['kind'] == 'h' else 86400
        z = self.S - l['tz']
        return self.next_allowed(l, ((z + t) // p + 1) * p - z - 1)
    def end_interval(self, l, t):
        """start of the last allowed minute of the interval t is in"""
        x = (self.S + t) // 60 * 60 - self.S
        p = 3600 if l['kind'] == 'h' else 86400
        z = self.S - l['tz']
        end = ((z + t) // p + 1) * p - z
        while x + 60 < end and self.allowed(l, x + 60):
            x += 60
        return x
    def load_at(self, t):
        v = None
        for a, x in self.lav:
            if a <= t + 1e-6:
                v = x
            else:
                break
        return v
    def ok_load(self, l, v):
        c = [v[i] * 10 < l['lav'][i] - 1e-9 for i in range(3)]
        if l['or']:
            return any(c)
        return all(c[i] or l['lav'][i] == 0 for i in range(3))
    def ok_since(self, l, t):
        """since when the load allows l without a break, or None"""
        s = None
        for a, v in self.lav:
            if a > t:
                break
            if self.ok_load(l, v):
                s = a if s is None else s
            else:
                s = None
        return s
    def seen(self, d):
        """when a line due at d is looked at (the daemon sleeps first, up to 20 s)"""
        return d if d > 20 else next(w for w in self.wakes if w >= d)
    def nserial(self):
        return sum(self.L[n].l['serial'] for n in self.run.values() if n in self.L)
    def serial_ok(self, x):
        return not x.l['serial'] or self.nserial() < self.M
    def total(self):
        return sum(len(x.wait) for x in self.L.values())

    def add(self, name, t, now, maybe=False):
        """the line became due at t and was seen at `now`"""
        x, l = self.L[name], self.L[name].l
        if not l['lavg']:
            x.wait.append(dict(q=now, maybe=maybe or t - x.lastend < 2.5 or x.running > 0, until=None, drop=None))
            return
        if not l['many'] and any(not e['maybe'] for e in x.wait + [e for e in [x.cur] if e] if x.running == 0):
            self.o.count('already')
            return
        if not l['many'] and x.running and not x.wait:
            # it still ran when this was due: no new entry, unless it just ended
            self.o.count('already')
            return
        mb = maybe or (not l['many'] and (now - x.lastend < 2.5 or bool(x.wait)))
        e = dict(q=now, maybe=mb, until=None, drop=None)
        if l['kind'] in '%h' and l['strict']:
            d = self.end_interval(l, t)
            if l['until'] and now + l['until'] < d:
                e['until'] = now + l['until']
            else:
                e['drop'] = d
        elif l['until']:
            e['until'] = now + l['until']
        e['lim'] = e['until']
        x.wait.append(e)
    def exec(self, name, t, ctrl):
        x, l = self.L[name], self.L[name].l
        x.running += 1
        ns = self.nserial()
        self.run[ctrl] = name
        if not x.wait:
            self.o.bad('unexpected', 'a job was started which was not due and not waiting', job=l['text'], at=t)
            return
        e = x.wait[0]
        if not l['lavg']:
            x.wait.clear()
            self.o.count('normal_starts')
            return
        late = next((e for e in x.wait if e['until'] is not None and t >= e['until']), None)
        if self.ok_load(l, self.load_at(t)):
            if len(x.wait) > 1 and l['until']:
                # the entries of a line have no order: any of them may have been started
                x.wait.pop()
                lim = max([e['lim'] or 0 for e in x.wait])
                for y in x.wait:
                    y['lim'] = lim + l['until']
            else:
                x.wait.pop(0)
            if l['serial'] and ns >= self.M and not late:
                self.o.bad('slots', 'more serial load lines run at once than allowed', job=l['text'], at=t, allowed=self.M)
            if e['drop'] is not None and t > e['drop'] + 61:
                self.o.bad('after-interval', 'a strict line was started after the end of its interval', job=l['text'], at=t, end=e['drop'])
            self.o.count('by_load')
            if t - e['q'] > 1:
                self.o.count('held')
            self.o.sig(l['kind'], 'load', l['or'], l['serial'], l['many'], bool(l['until']), l['strict'], t - e['q'] > 1)
        elif late:
            x.wait.remove(late)
            self.o.count('by_until')
            self.o.sig(l['kind'], 'until', l['or'], l['serial'], l['many'], l['strict'])
        else:
            self.o.bad('load', 'a job was started though the load forbids it', job=l['text'], at=t, load=self.load_at(t), entry=x.wait[:3])
    def forget(self, t):
        pass
    def reaped(self, t, ctrl):
        n = self.run.pop(ctrl, None)
        if n in self.L:
            x = self.L[n]
            x.running -= 1
            x.lastend = t
            if x.l['serial']:
                self.slot_since = t
    def dropped(self, t, name):
        x = self.L[name]
        i = next((i for i, e in enumerate(x.wait) if e['drop'] is not None), None)
        if i is None:
            self.o.bad('drop', 'a line was dropped which has no limit to its wait', job=x.l['text'], at=t, waiting=x.wait)
            return
        e = x.wait.pop(i)
        if t < e['drop']:
            self.o.bad('drop-early', 'a line was dropped before the end of its interval', job=x.l['text'], at=t, end=e['drop'])
        x.next = self.next_allowed(x.l, int(t))
        p = 3600 if x.l['kind'] == 'h' else 86400
        if (self.S - x.l['tz'] + x.next) // p != (self.S - x.l['tz'] + e['q']) // p:
            x.ndrop = getattr(x, 'ndrop', 0) + 1       # it will not run at all in this period
        self.o.count('dropped')
        self.o.sig(x.l['kind'], 'drop', x.l['or'], x.l['serial'], bool(x.l['until']))
    def refused(self, t, name):
        n = self.total()
        x = self.L[name]
        if x.wait and x.wait[-1]['q'] >= t - 1.5:
            x.wait.pop()
            n -= 1
        else:
            self.o.bad('refused-alien', 'a job which was not due was refused', job=name, at=t)
        if n < self.Q:
            self.o.bad('refused', 'a job was refused though the load queue was not full', waiting=n, max=self.Q, at=t)
        self.o.count('refused')
    def check(self, t):
        """everything that must have happened before t has"""
        if sum(1 for x in self.L.values() if x.l['lavg'] for e in x.wait if not e['maybe'] and e['q'] < t - 3) > self.Q:
            self.o.bad('over-max', 'more lines wait than the queue may hold', at=t, max=self.Q)
            return False
        for n, x in self.L.items():
            l = x.l
            for e in list(x.wait):
                if not l['lavg']:
                    if t - max(e['q'], 20) > 2.5:
                        if not e['maybe']:
                            self.o.bad('held-up', 'a line without limits was not started when it was due', job=l['text'], due=e['q'], at=t)
                            return False
                        x.wait.remove(e)
                    continue
                if e['maybe']:
                    # it may not exist
                    if t > e['q'] + 70 and (e['until'] or e['drop'] or e['q']) + 100 < t:
                        s = self.ok_since(l, t)
                        if s is not None and t - max(s, e['q']) > 60 and self.serial_ok(x):
                            x.wait.remove(e)
                    continue
                s = self.ok_since(l, t)
                if s is not None and self.serial_ok(x):
                    a = max(s, e['q'], self.slot_since if l['serial'] else 0, 20)
                    if t - a > 31.5 + 1:
                        self.o.bad('not-started', 'a waiting line was not started though the load allows it', job=l['text'], since=a, at=t,
                                   load=self.load_at(t), entry=e)
                        return False
                if e['lim'] is not None and t > max(e['lim'], 20) + 33:
                    self.o.bad('until', 'a waiting line was not started after its until delay', job=l['text'], until=e['until'], at=t)
                    return False
                if e['drop'] is not None and t > max(e['drop'] + 60, 20) + 33:
                    self.o.bad('strict', 'a strict line still waits after the end of its interval', job=l['text'], end=e['drop'], at=t)
                    return False
        return True

def run_case(c, o):
    r = rng(c['seed'], 'p06', c['kind'], c['i'])
    kind = c['kind']
    variant = 'asan' if c['i'] % 3 == 0 else 'ubsan'
    S = 1600000000 + r.randint(0, 10 ** 7)
    S += 31 - S % 60
    M = r.choice([1, 1, 2, 3])
    Q = r.choice([30, 30, 11, 20, 6]) if kind == 'full' else 200
    opts = ['-m', str(M), '-q', str(Q), '-s', str(r.choice([300, 1800]))]
    lines = []
    tzd = {u: r.choice([0, 0, 2, -3, 7]) if u != 'dave' else 0 for u in USERS_}
    for u in USERS_:
        for k in range(r.randint(1, 6)):
            lines.append(mk(r, u, k, 0, kind == 'full', tzd[u]))
    def hours(l):
        if l['kind'] == '%':
            h = (S - l['tz']) // 3600 % 24
            l['hours'] = [(h + r.randint(0, 3)) % 24]
            if r.random() < .5 and l['hours'][0] < 23:
                l['hours'].append(l['hours'][0] + 1)
            if r.random() < .3:
                l['hours'] = sorted(set(l['hours']) | {(h + r.randint(2, 4)) % 24})
    nsess = 1 if kind != 'restart' else r.randint(2, 3)
    s0 = S
    state = None
    with World(variant) as w:
        for u in USERS_:
            mine = [l for l in lines if l['user'] == u]
            for l in mine:
                hours(l)
            x = w.install(u, ('!tzdiff(%d)\n' % tzd[u] if tzd[u] else '') + ''.join(text(l, r) + '\n' for l in mine), now=S)
            if not o.sane(x, 'fcrontab') or b'kipping' in x.err:
                o.bad('install', 'valid lines refused', err=x.err.decode('latin-1'))
                return
        for si in range(nsess):
            end = 60 * r.randint(30, 240) + r.choice([20.5, 33.5, 44.5])
            if kind == 'full':
                end = 3600.5
            # the load
            cur = [r.choice([0, .4, .5, 1, 1.1, 1.9, 2, 2.4, 3]) for _ in range(3)]
            lav = [(-1e9, cur)]
            sc = []
            t = 20.5
            while t < end - 1:
                t += r.choice([10, 29, 31, 45, 70, 200, 500, 1000])
                new = list(cur)
                for i in range(3):
                    if r.random() < .5:
                        new[i] = r.choice([0, .4, .49, .5, 1, 1.1, 1.19, 1.2, 1.9, 2, 2.4, 2.5, 3, 9])
                cur = new
                lav.append((t, cur))
                sc.append((t, 'lavg %s %s %s' % tuple(cur)))
            acts = []
            if kind in ('remove', 'mix') and si == 0:
                curl = [l for l in lines if l['user'] == 'dave']
                t = 45.25
                for v in range(r.randint(1, 4) if kind == 'remove' else 1):
                    t += 60 * r.randint(3, 60)
                    if t > end - 100:
                        break
                    if r.random() < .5 and curl:
                        sc += [(t, 'touch rm.dave'), (t + .001, 'sig HUP')]
                        acts.append((t + .001, []))
                        curl = []
                    else:
                        curl = [mk(r, 'dave', k, v + 1) for k in range(r.randint(1, 4))]
                        for l in curl:
                            hours(l)
                        x, p = w.stage('dave', ''.join(text(l, r) + '\n' for l in curl), 's%d' % v, now=int(S + t))
                        sc += [(t, 'cp %s new.dave' % p), (t + .001, 'sig HUP')]
                        acts.append((t + .001, curl))
            sc.append((end, 'sig TERM'))
            run = w.daemon(sc, start=s0, opts=opts, head=['lavg %s %s %s' % tuple(lav[0][1])])
            if not o.sane(run, 'daemon'):
                return
            m = Model(o, s0, M, Q, lav)
            for l in (lines if state is None else [l for l in state['L']]):
                x = m.L[l['name']] = Line(l)
                x.cur = None
                old = state['x'][l['name']] if state else None
                first_due(m, x, old, o)
            m.wakes = sorted({int(e['t']) for e in run.events if e['ev'] in ('exec', 'lavg') and e['t'] < 20} | {20})
            over = None
            for e in run.events:
                if e['ev'] not in ('exec', 'reap', 'log', 'sig', 'end'):
                    continue
                t = e['t']
                if over is not None:
                    if e['ev'] == 'reap':
                        m.reaped(t, e['ctrl'])
                    continue
                if not advance(m, t, o):
                    break
                while acts and acts[0][0] <= t + .0005:
                    ta, new = acts.pop(0)
                    o.count('reloads')
                    for n in [n for n, x in m.L.items() if x.l['user'] == 'dave']:
                        if any(y['q'] < ta - 1 and not y['maybe'] for y in m.L[n].wait):
                            o.count('removed_waiting')
                        m.gone = getattr(m, 'gone', {})
                        m.gone[n] = m.L.pop(n)
                    for l in new:
                        x = m.L[l['name']] = Line(l)
                        x.cur = None
                        first_due(m, x, None, o, int(ta))
                if e['ev'] == 'exec':
                    n = name_of(e)
                    if n not in m.L:
                        o.bad('alien', 'a job of a removed file (or an unknown one) was started', cmd=cmd_of(e), at=t)
                        break
                    m.exec(n, t, e['ctrl'])
                elif e['ev'] == 'reap':
                    m.reaped(t, e['ctrl'])
                elif e['ev'] == 'log':
                    y = re.match(r"Interval of execution exceeded : '(\S+) ", e['msg'])
                    if y:
                        if y.group(1) not in m.L:
                            o.bad('alien-drop', 'a line of a removed file was dropped', msg=e['msg'])
                            break
                        m.dropped(t, y.group(1))
                    y = re.match(r"Could not add job '(\S+) .* : lavg queue is full", e['msg'])
                    if y and y.group(1) in m.L:
                        m.refused(t, y.group(1))
                elif e['ev'] == 'sig' and e['sig'] == 'TERM':
                    over = t
                if o.viol:
                    break
            if o.viol:
                return
            # mails about dropped lines
            for n, x in m.L.items():
                if x.l['notice']:
                    k = sum(1 for e in run.events if e['ev'] == 'mail' and ("'%s " % x.l['name']).encode() in mailbody(e) and b'load average' in mailbody(e))
                    if k != getattr(x, 'ndrop', 0):
                        o.bad('notice', 'not one mail per dropped run', job=x.l['text'], drops=getattr(x, 'ndrop', 0), mails=k)
                    o.count('notice_mails', k)
            # state for the next session
            base = int(run.events[-1]['t'] if over is None else over)
            state = dict(L=[x.l for x in m.L.values()], x={n: dict(next=None if x.next is None else x.next - base, abs=None if x.next is None else x.next + s0,
                         wait=[y for y in x.wait], maybe=all(y['maybe'] for y in x.wait) or x.running > 0) for n, x in m.L.items()})
            s0 += int(run.events[-1]['t']) + r.choice([1, 30, 100, 3000])
            s0 += not s0 % 60
            o.count('sessions')
        o.sample = dict(case=c, M=M, lines=[l['text'] for l in lines][:8], loads=len(lav), by_load=o.stats['by_load'], by_until=o.stats['by_until'])

def first_due(m, x, old, o, base=0):
    l = x.l
    if l['kind'] == '@':
        x.next = base + l['first'] if old is None else max(0, old['next'])
    elif old is not None and old['abs'] > m.S:
        x.next = old['abs'] - m.S
    elif l['kind'] == '&':
        x.next = next_amp(m, l, base)
    else:
        x.next = m.next_allowed(l, base)
    if old and old['wait'] and l['lavg']:
        if l['kind'] in '%h' and l['strict']:
            if old['maybe']:
                x.fuzzy = True
            x.next = m.next_allowed(l, 0)
        else:
            o.count('requeued')
            x.wait.append(dict(q=0, maybe=old['maybe'], until=l['until'] or None, lim=l['until'] or None, drop=None))

def next_amp(m, l, t):
    x = ((m.S + t) // 60 + 1) * 60 - m.S
    while (m.S + x) // 60 % 60 % l['step'] != l['off']:
        x += 60
    return x

def advance(m, t, o):
    """apply what became due up to t, and the checks in between"""
    while True:
        n, x = min(((n, x) for n, x in m.L.items()), key=lambda y: m.seen(y[1].next), default=(None, None))
        d = m.seen(x.next) if x else 1e18
        if d > t + .0005:
            break
        if d > 20.5 and not m.check(d):
            return False
        l = x.l
        m.add(n, x.next, d)
        if l['kind'] == '@':
            x.next = d + l['freq']
        elif l['kind'] == '&':
            x.next = next_amp(m, l, d)
        else:
            x.next = m.next_period(l, x.next)
    return t <= 21 or m.check(t)

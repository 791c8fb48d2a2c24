"""P05: no overlap of a job with itself, bounded and fair serial queue."""
from fc import *
import heapq
import re

RULE = ('random mixes of serial and normal &- and @-lines (serialonce, exesev, run times from 1 s to hours, '
        '-m 1..5, -q 5..400) run by the real daemon on a virtual clock, with fork failures, slow forks, removal, '
        'reinstallation and replacement of files whose jobs wait or run, orderly restarts and crashes. A model queue '
        'fed with the due times of the calendar follows the trace: every start, drop and failure must be one the '
        'queue discipline allows, and every free slot must be used within 2.5 s. distinct = distinct '
        '(kind, -m, -q, deepest queue, drops, wrap-arounds).')
ASSUMPTIONS = ['lines due in the same second may be queued in any order', 'only whole-process faults: fork failure, crash, signals']
MUST_OBSERVE = ('serial_starts', 'normal_starts', 'queued', 'dropped', 'skipped', 'forkfails', 'reloads', 'restarts', 'growths')
VARIANTS = ('asan', 'ubsan')

def cases(tier, seed):
    n = dict(quick=(60, 30, 40, 40, 8), thorough=(900, 400, 700, 600, 60))[tier]
    for kind, k in zip(('mix', 'fail', 'remove', 'restart', 'huge'), n):
        for i in range(k):
            yield dict(kind=kind, seed=seed, i=i)

AMB = 1.3

class Model:
    def __init__(self, o, lines, M, Q, slack):
        self.o, self.M, self.Q, self.slack = o, M, Q, slack
        self.L = {l['name']: l for l in lines}
        self.q = []            # [due, name, maybe]
        self.run = {}          # ctrl -> name
        self.runat = {}        # ctrl -> (name, start)
        self.lastreap = {}     # name -> time
        self.lastrun = {}
        self.pend = []         # normal starts expected: [due, name, maybe]
        self.free_since = -1e9
        self.maxq = 0
        self.wrap = 0
        self.popped = 0
    def count(self, name):
        return sum(1 for e in self.q if e[1] == name and not e[2]) + sum(1 for n in self.run.values() if n == name)
    def fuzzy(self, name, t):
        """was the number of copies of this line uncertain around t?"""
        if any(e[1] == name and e[2] for e in self.q):
            return True
        return abs(self.lastreap.get(name, -1e9) - t) <= AMB + self.slack or abs(self.lastrun.get(name, -1e9) - t) <= AMB + self.slack
    def due(self, t, name, maybe=False):
        l = self.L[name]
        n = self.count(name)
        if l['serial']:
            lim = 255 if not l['once'] else 1
            if n >= lim:
                if not self.fuzzy(name, t):
                    self.o.count('skipped')
                    return
                maybe = True
            elif n >= lim - 1 and any(e[1] == name and e[2] for e in self.q):
                maybe = True
            self.q.append([t, name, maybe])
            self.o.count('queued')
            self.maxq = max(self.maxq, len(self.q))
        else:
            if n > 0 and not l['exesev'] or n >= 255:
                if not self.fuzzy(name, t):
                    self.o.count('skipped')
                    return
                maybe = True
            self.pend.append([t, name, maybe])
    def nserial(self):
        return sum(1 for n in self.run.values() if self.L[n]['serial'])
    def started(self, t, name, ctrl, real=True):
        l = self.L[name]
        if not self.take(t, name, 'started'):
            return
        if not real:
            return
        same = [c for c, n in self.run.items() if n == name]
        if same and not (l['exesev'] if not l['serial'] else not l['once']):
            self.o.bad('overlap', 'a job was started while it was still running', job=l['text'], at=t)
        self.run[ctrl] = name
        self.lastrun[name] = t
        if l['serial'] and self.nserial() > self.M:
            self.o.bad('too-many', 'more serial jobs run at once than allowed', at=t, allowed=self.M,
                       running=[n for n in self.run.values() if self.L[n]['serial']])
        self.o.count('serial_starts' if l['serial'] else 'normal_starts')
    def take(self, t, name, what):
        l = self.L[name]
        if not l['serial']:
            for e in self.pend:
                if e[1] == name:
                    self.pend.remove(e)
                    return True
            self.o.bad('unexpected', 'a job was %s that was not due, or whose run should have been skipped' % what, job=l['text'], at=t)
            return False
        ks = [i for i, e in enumerate(self.q) if e[1] == name]
        early = lambda k: [e for e in self.q[:k] if not e[2] and e[0] < self.q[k][0] - AMB]
        # (the first certain entry, else an uncertain one, of those the order allows)
        k = next((i for i in ks if not self.q[i][2] and not early(i)),
                 next((i for i in ks if not early(i)), ks[0] if ks else None))
        if k is None:
            self.o.bad('unexpected', 'a serial job was %s that was not waiting in the queue' % what, job=l['text'], at=t,
                       queue=[e[:2] for e in self.q[:8]])
            return False
        d = self.q[k][0]
        before = early(k)
        if before:
            self.o.bad('order', 'a serial job was %s before one which became due earlier' % what, job=l['text'], at=t,
                       due=d, earlier=[e[:2] for e in before[:8]])
        self.q = [e for i, e in enumerate(self.q) if i != k and not (i < k and e[2] and e[0] < d - AMB and e[1] != name)]
        self.popped += 1
        return True
    def dropped(self, t, name):
        ks = [i for i, e in enumerate(self.q) if e[1] == name and e[0] >= t - 25 - self.slack]
        if not ks:
            self.o.bad('drop-alien', 'a job which was not due was refused', at=t, job=name)
            return
        n = len(self.q) - 1
        self.q.pop(ks[-1])
        if n < self.Q:
            self.o.bad('drop-early', 'a serial job was refused though the queue was not full', at=t, waiting=n, max=self.Q)
        self.o.count('dropped')
    def reaped(self, t, ctrl):
        n = self.run.pop(ctrl, None)
        if n:
            self.lastreap[n] = t
            if self.L[n]['serial']:
                self.free_since = t
    def check(self, t, last):
        """invariants between two trace events: the state held from `last` to `t`"""
        if self.nserial() < self.M:
            c = [e for e in self.q if not e[2]]
            if c:
                since = max(c[0][0], self.free_since, last)
                if t - since > 2.5 + self.slack:
                    self.o.bad('stalled', 'a serial job waits though a slot is free', job=self.L[c[0][1]]['text'], due=c[0][0],
                               running=list(self.run.values()), allowed=self.M, since=since, at=t, waiting=len(c))
                    return False
        c = [e for e in self.q if not e[2] and max(e[0], 20) < t - 3 - self.slack]
        if len(c) > self.Q:
            self.o.bad('over-max', 'the serial queue holds more than its maximum', at=t, waiting=len(c), max=self.Q)
            return False
        for e in self.pend:
            if not e[2] and t - max(e[0], last if last < e[0] + 25 else 0) > 2.5 + self.slack:
                self.o.bad('missed', 'a job that is due and not running was not started', job=self.L[e[1]]['text'], due=e[0], at=t)
                return False
        self.pend = [e for e in self.pend if t - e[0] < 3 + self.slack or not e[2]]
        return True

def run_case(c, o):
    r = rng(c['seed'], 'p05', c['kind'], c['i'])
    kind = c['kind']
    variant = 'asan' if c['i'] % 3 == 0 else 'ubsan'
    S = 1600000000 + r.randint(0, 10 ** 7)
    S -= S % 60
    M = r.choice([1, 1, 1, 2, 3, 5])
    Q = r.choice([30, 30, 5, 6, 11, 12, 20, 21, 23, 50, 100])
    if kind == 'huge':
        M, Q = r.choice([1, 2]), r.choice([300, 400])
    hours = r.choice([1, 2, 3]) if kind != 'huge' else 3
    ncuts = 0
    lines = []
    crash = kind == 'restart' and r.random() < .4
    def mk(user, k, ver=0):
        # after a crash, when an @-line is due next is known only to the last save, and a job that
        # ran is run again through the serial queue
        amp = r.random() < .6 or crash
        serial = r.random() < .75 or crash
        l = dict(user=user, name='j%s%d%s' % (user, k, 'v%d' % ver if ver else ''), serial=serial, once=r.random() < .3,
                 exesev=r.random() < .3, amp=amp)
        l['dur'] = r.choice([1, 3, 10, 40, 90, 200, 600]) + r.choice([.37, .61, .13])
        if r.random() < .05:
            l['dur'] = 3000.3
        if amp:
            l['step'] = r.choice([1, 2, 2, 3, 5, 10])
            l['off'] = r.randint(0, l['step'] - 1)
        else:
            l['first'] = r.randint(0, 300)
            l['freq'] = r.choice([7, 20, 45, 60, 90, 200, 600])
        return l
    if kind == 'huge':
        lines = [dict(user='alice', name='jh', serial=True, once=False, exesev=False, amp=False, first=0, freq=5, dur=100.3),
                 dict(user='alice', name='ji', serial=True, once=False, exesev=False, amp=True, step=1, off=0, dur=2.3),
                 dict(user='bob', name='jk', serial=False, once=False, exesev=True, amp=False, first=3, freq=2, dur=3000.3)]
        lines = lines[:r.randint(1, 3)]
    else:
        for u in ('alice', 'bob', 'dave'):
            for k in range(r.randint(1, 7)):
                lines.append(mk(u, k))
    def text(ls):
        T = []
        for l in ls:
            op = []
            if l['serial']:
                op += ['serial', 'serialonce(%s)' % ('true' if l['once'] else 'false')]
            if l['exesev']:
                op.append('exesev')
            cmd = '%s dur=%s' % (l['name'], l['dur'])
            if l['amp']:
                t = '&%s %s * * * * %s' % (','.join(op), '%d-59/%d' % (l['off'], l['step']) if l['step'] > 1 else '*', cmd)
            else:
                t = '@%s %ds %s' % (','.join(op + ['first(%ds)' % l['first']]), l['freq'], cmd)
            l['text'] = t
            T.append(t)
        return '\n'.join(T) + '\n'
    slack = 0
    head = []
    if kind in ('mix', 'fail') and r.random() < .25:
        head.append('forkcost %s' % r.choice([.05, .2]))
        slack = 12
    end = hours * 3600.
    sc = [(end, 'sig TERM')]
    opts = ['-m', str(M), '-q', str(Q), '-s', '1800']
    acts = []            # (t, 'rm'|'same'|'new', lines)
    with World(variant) as w:
        for u in ('alice', 'bob', 'dave'):
            mine = [l for l in lines if l['user'] == u]
            if mine:
                x = w.install(u, text(mine), now=S)
                if not o.sane(x, 'fcrontab') or b'kipping' in x.err:
                    o.bad('install', 'valid lines refused', err=x.err.decode('latin-1'))
                    return
        for l in lines:
            l['from'], l['to'] = 0, 1e18
        if kind == 'fail':
            for _ in range(r.randint(1, 12)):
                sc.append((round(r.random() * end, 2), 'forkfail %d' % r.choice([1, 1, 2, 5])))
        if kind in ('remove', 'mix', 'fail'):
            cur = [l for l in lines if l['user'] == 'dave']
            t = 30.5
            for v in range(r.randint(1, 6) if kind == 'remove' else 1):
                t += 60 * r.randint(2, 35) + r.choice([0, 15, 15.3])
                if t > end - 100:
                    break
                what = r.choice(['rm', 'same', 'new'])
                if not cur:
                    what = 'new'
                if what == 'rm':
                    sc += [(t, 'touch rm.dave'), (t + .001, 'sig HUP')]
                    acts.append((t + .001, 'rm'))
                    for l in cur:
                        l['to'] = t
                    cur = []
                elif what == 'same':
                    x, p = w.stage('dave', text(cur), 's%d' % v, now=S + t)
                    sc += [(t, 'cp %s new.dave' % p), (t + .001, 'sig HUP')]
                    acts.append((t + .001, 'same'))
                else:
                    for l in cur:
                        l['to'] = t
                    cur = [mk('dave', k, v + 1) for k in range(r.randint(1, 5))]
                    for l in cur:
                        l['from'], l['to'] = t + .001, 1e18
                    x, p = w.stage('dave', text(cur), 's%d' % v, now=S + t)
                    sc += [(t, 'cp %s new.dave' % p), (t + .001, 'sig HUP')]
                    acts.append((t + .001, 'new'))
                    lines += cur
        if kind != 'huge':
            # a reload that changes nothing of these files
            x, p = w.stage('erin', '@ 3h e\n', 'e', now=S)
            te = 60 * r.randint(5, 50) + 31.25
            sc += [(te, 'cp %s new.erin' % p), (te + .001, 'sig HUP')]
        m = Model(o, lines, M, Q, slack)
        # a line for erin, to be known to the model
        m.L['e'] = dict(name='e', serial=False, once=False, exesev=False, amp=False, freq=10800, first=10800, text='e', user='erin')
        sessions = [(0, sc, 'sig TERM')]
        if kind == 'restart':
            sessions = []
            for k in range(r.randint(2, 4)):
                d = 60 * r.randint(5, 60) + r.choice([20.5, 33.3, 44.7])
                how = 'sig TERM' if not crash or r.random() < .4 else 'crash'
                sessions.append((r.choice([1, 100, 5000]), [(d, how)], how))
        nextat = {l['name']: None for l in lines}
        qs = []
        s0 = S
        for si, (gap, scen, how) in enumerate(sessions):
            if si:
                s0 += int(run.events[-1]['t']) + gap
            run = w.daemon(scen, start=s0, head=head, opts=opts)
            if not o.sane(run, 'daemon', ok=(0, 0) if how != 'crash' else (0, run.rc)):
                return
            T1 = max(t for t, _ in scen)
            if si:
                o.count('restarts')
            # due times of this session, relative to s0
            dues = []
            for l in lines:
                lo, hi = l['from'], min(l['to'], T1 + .01)
                if l['amp']:
                    t0 = s0 - s0 % 60
                    t = t0
                    while t <= s0 + hi:
                        if t > s0 + max(lo, -1e-9) and (t // 60 % 60) % l['step'] == l['off'] and t > s0:
                            dues.append((t - s0, l['name']))
                        t += 60
                else:
                    f = l['first'] if nextat[l['name']] is None else max(0, nextat[l['name']])
                    t = lo + f
                    if lo:
                        t = int(lo) + f      # the daemon counts in whole seconds
                    while t <= hi:
                        dues.append((t, l['name']))
                        t = max(t, 20) + l['freq'] if t < 20 else t + l['freq']
                    nextat[l['name']] = t - int(T1)
            dues.append((1e18, None))
            # requeued lines
            m.run, m.pend, m.lastreap, m.lastrun = {}, [], {}, {}
            m.free_since = -1e9
            m.q = [[0, n, mb] for n, mb in qs]
            dues.sort(key=lambda x: x[0])
            acts_ = list(acts) if si == 0 else []
            di = 0
            last = 20.0
            ok = True
            over = False
            for e in run.events:
                if e['ev'] not in ('exec', 'reap', 'log', 'sig', 'forkfail', 'end', 'crash'):
                    continue
                t = e['t']
                if over:
                    continue
                while dues[di][0] <= t + .0005 and ok:
                    d, n = dues[di]
                    if d < 20 and t < 20:
                        break
                    di += 1
                    l = m.L[n]
                    mb = abs(d - l['to']) < 2 or abs(d - l['from']) < 2 and l['from'] > 0
                    if d >= 20:
                        ok = ok and m.check(d, last)
                    m.due(d, n, mb)
                if not ok:
                    break
                if t > 20 + 1e-6:
                    ok = m.check(t, 20.)
                    if not ok:
                        break
                while acts_ and acts_[0][0] <= t + .0005:
                    _, what = acts_.pop(0)
                    o.count('reloads')
                    m.q = [x for x in m.q if m.L[x[1]]['user'] != 'dave' or (m.L[x[1]]['from'] > t - 2)]
                    m.pend = [x for x in m.pend if m.L[x[1]]['user'] != 'dave' or (m.L[x[1]]['from'] > t - 2)]
                    # running copies of the old file do not count for the new one
                    for k2, n2 in list(m.run.items()):
                        if m.L[n2]['user'] == 'dave' and what == 'same':
                            m.L[n2 + '#old'] = dict(m.L[n2], name=n2 + '#old')
                            m.run[k2] = n2 + '#old'
                    m.lastrun = {k2: v2 for k2, v2 in m.lastrun.items() if m.L[k2]['user'] != 'dave'}
                if e['ev'] == 'exec':
                    n = name_of(e)
                    if n not in m.L:
                        o.bad('alien', 'an unknown command ran', cmd=cmd_of(e))
                        return
                    m.started(t, n, e['ctrl'])
                elif e['ev'] == 'reap':
                    m.reaped(t, e['ctrl'])
                elif e['ev'] == 'log':
                    x = re.match(r"Could not add job : serial queue is full .* : '(\S+) ", e['msg'])
                    if x:
                        m.dropped(t, x.group(1))
                    x = re.match(r"Fork error : could not exec '(\S+) ", e['msg'])
                    if x:
                        m.take(t, x.group(1), 'consumed by a failed fork')
                        o.count('forkfails')
                elif e['ev'] == 'sig' and e['sig'] == 'TERM' or e['ev'] == 'crash':
                    over = True
                if o.viol:
                    break
            if o.viol:
                break
            o.count('deepest_%d' % (10 * (m.maxq // 10)))
            o.count('growths', max(0, (m.maxq - 1) // 10))
            # what waits now is put once into the queue of the next session
            seen = {}
            if how == 'crash':
                # what waited or ran at the last save (P08 decides whether saves are right)
                qs = []
                for u in ('alice', 'bob', 'dave'):
                    for x in (parse_spool(w.spool()[u])['lines'] if u in w.spool() else []):
                        if x.get('numexe'):
                            qs.append((x['shell'].decode().split()[0], False))
            else:
                for d, n, mb in m.q:
                    seen[n] = seen.get(n, True) and mb
                qs = list(seen.items())
            o.sig(kind, M, Q, m.maxq, o.stats['dropped'], m.popped // 10)
        o.sample = dict(case=c, M=M, Q=Q, hours=hours, lines=[l['text'] for l in lines][:10], deepest=m.maxq, started=o.stats['serial_starts'])

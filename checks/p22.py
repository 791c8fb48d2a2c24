"""P22: whatever a daemon has been through, it keeps nothing of it."""
from fc import *
import os
from p16 import L, UID, LS, LAVGQ, SERIALQ, EXEQ, DETAIL, RUNNOW, RUN, KILL, RENICE

RULE = ('the real daemon goes many times through the same cycle of random work and trouble (jobs of all kinds with and without output, failures to fork, start or mail, new, removed, damaged and huge fcrontabs, reloads, saves, clients of all '
        'kinds, hostile ones too, suspends, shortage of descriptors, failing system calls), each cycle ending with a quiet time at which descriptors, children, memory in use, timers and files are counted: they must come back to what they '
        'were. Distinct = (kinds of work in the cycle, outcome).')
ASSUMPTIONS = ['memory in use is what the allocator of the sanitizer counts; a leak must show in every one of the last cycles, each the same', 'a simulated libc shim keeps nothing between cycles']
MUST_OBSERVE = ('cycles', 'jobs', 'mails', 'reloads', 'connections', 'forkfails', 'badfiles', 'faults', 'probes', 'children')
VARIANTS = ('asan',)
NOW = 1600000000 - 1600000000 % 3600
CY = 1200

def cases(tier, seed):
    q = tier == 'quick'
    for kind, n in (('one', 90 if q else 900), ('mix', 90 if q else 4000), ('fault', 60 if q else 3000), ('damage', 60 if q else 2000)):
        for i in range(n):
            yield dict(kind=kind, seed=seed, i=i)

def hx(n):
    return ('line of output\n' * n)[:n].encode().hex()

JOBS = {
    'plain': lambda r: '& %d,%d,%d * * * * %s',
    'out': lambda r: '&mail %d,%d,%d * * * * %s out=' + hx(r.choice([1, 50, 300])),
    'err': lambda r: '& %d,%d,%d * * * * %s st=3 err=' + hx(40),
    'forced': lambda r: '&forcemail,mailto(bob) %d,%d,%d * * * * %s',
    'big': lambda r: '& %d,%d,%d * * * * %s big=' + str(r.choice([5000, 200000])),
    'killed': lambda r: '& %d,%d,%d * * * * %s sg=9 out=' + hx(9),
    'serial': lambda r: '&serial %d,%d,%d * * * * %s dur=30',
    'serials': lambda r: '&serial,serialonce(false) %d,%d,%d * * * * %s dur=50',
    'lavg': lambda r: '&lavg1(0.5),until(%ds) ' % r.choice([60, 200]) + '%d,%d,%d * * * * %s',
    'lavgs': lambda r: '&lavg1(0.5),strict,noticenotrun,until(120s) %d,%d,%d * * * * %s',
    'long': lambda r: '&exesev %d,%d,%d * * * * %s dur=200',
    'nomail': lambda r: '&nolog,mail(no) %d,%d,%d * * * * %s out=' + hx(9),
    'from': lambda r: '&mailfrom(me@here.org),mailto(bob) %d,%d,%d * * * * %s out=' + hx(9),
    'runas': lambda r: '&nice(3),runas(bob) %d,%d,%d * * * * %s',
    'env': lambda r: '\n'.join('V%d=%s' % (i, 'x' * i) for i in range(r.choice([1, 30]))) + '\n& %d,%d,%d * * * * %s',
    'tz': lambda r: '&timezone(Asia/Kolkata) ' + '%d,%d,%d * * * * %s',
    'jitter': lambda r: '&jitter(50) %d,%d,%d * * * * %s',
    'at': lambda r: '@first(30),volatile 20 %s' ,
    'random': lambda r: '%%hourly,random * %s',
}

def jobline(r, k, m, name):
    f = JOBS[k](r)
    if k == 'at':
        return '@ 20 %s' % name
    if k == 'random':
        return '%%hours,mins,random 0-59 0-23 * * * %s' % name if 0 else '%%mins,random * * * * * %s' % name if 0 else '& %d,%d,%d * * * * %s' % (m, m + 20, m + 40, name)
    return f % (m, m + 20, m + 40, name)

def table_of(r, u, kinds, tag):
    ls = []
    for n, k in enumerate(kinds):
        ls.append(jobline(r, k, r.randint(1, 7), '%s%s%d-%s' % (tag, u[0], n, k)))
    return '\n'.join(ls) + '\n'

WORK = ('jobs', 'reinstall', 'remove', 'reload', 'damaged', 'garbage', 'unknown', 'save', 'debug', 'ls', 'run', 'killjob', 'connclose', 'hang', 'unauth', 'badauth', 'hostile', 'flood', 'noread', 'forkfail', 'execfail', 'mailfail', 'nofile',
        'suspend', 'nofile2', 'many', 'baduser', 'hup')

def cycle(c, r, w, acts, stage, nid):
    """events of one cycle, times from 0"""
    e, cid = [], [0]
    def conn(t, uid):
        cid[0] += 1
        e.append((t, 'conn %%d+%d %d 1' % (cid[0], uid)))
        return cid[0]
    def send(t, k, b):
        e.append((t, 'send %%d+%d %s' % (k, b.hex())))
    def close(t, k):
        e.append((t, 'close %%d+%d' % k))
    t = 20.0
    for a in acts:
        t += r.choice([0, 1, 7.3, 20])
        t += .01
        x = t
        if x > 700:
            break
        if a in stage:
            for what, arg in stage[a]:
                e.append((x, '%s %s' % (what, arg)))
                x += .01
            e.append((x, 'sig HUP'))
        elif a == 'save':
            e.append((x, 'sig USR1'))
        elif a == 'debug':
            e += [(x, 'sig USR2'), (x + 5, 'sig USR2')]
        elif a == 'hup':
            e.append((x, 'sig HUP'))
        elif a in ('ls', 'run', 'killjob'):
            k = conn(x, r.choice([0, 2001, 2002]))
            for i in range(r.choice([1, 4])):
                b = {'ls': [L(r.choice([LS, LAVGQ, SERIALQ, EXEQ]), r.choice([-1, 2001, 0, 4999, 2002])), L(DETAIL, r.randint(0, nid))],
                     'run': [L(r.choice([RUN, RUNNOW]), r.randint(0, nid))], 'killjob': [L(KILL, r.choice([15, 9]), r.randint(0, nid)), L(RENICE, 3, r.randint(0, nid))]}[a]
                x += r.choice([.1, 1])
                send(x, k, r.choice(b))
            close(x + 2, k)
        elif a == 'connclose':
            for i in range(r.choice([1, 20])):
                k = conn(x, r.choice([0, 2001, 4999, -2]))
                close(x + r.choice([0, 0, .1]), k)
                x += .2
        elif a == 'hang':
            conn(x, 2001)
            k = conn(x + .1, 0)
            send(x + .2, k, L(LS, -1))
        elif a == 'unauth':
            for i in range(r.choice([1, 6])):
                k = conn(x, r.choice([4999, -2]))
                if r.random() < .6:
                    send(x + .1, k, b'alice\0')
                x += .3
        elif a == 'badauth':
            k = conn(x, -2)
            for i in range(r.choice([2, 13])):
                send(x + .1 + i * .2, k, r.choice([b'alice\0wrong\0', b'nobodyhere\0x\0', b'alice\0', b'bob\0pwbob\0']))
            close(x + 6, k)
        elif a == 'hostile':
            k = conn(x, r.choice([2003, -2]))
            for i in range(4):
                send(x + .1 + i * .2, k, bytes(r.getrandbits(8) for _ in range(r.choice([1, 8, 24, 300]))))
            if r.random() < .5:
                close(x + 2, k)
        elif a == 'flood':
            ks = [conn(x + i * .01, r.choice([0, 2001])) for i in range(35)]
            for k in ks:
                close(x + 3, k)
        elif a == 'noread':
            k = conn(x, 2001)
            e.append((x + .1, 'noread %%d+%d' % k))
            for i in range(3):
                send(x + .2, k, L(LS, 2001))
            if r.random() < .6:
                close(x + 9, k)
        elif a == 'forkfail':
            e.append((61 + 60 * r.randint(0, 5) - 1.5, 'forkfail %d' % r.choice([1, 3])))
        elif a == 'execfail':
            y = 60 * r.randint(1, 6)
            e += [(y - 1.5, 'childfail ' + r.choice(['setgid', 'initgroups', 'setuid', 'chdir', 'dup2', 'fork', 'pipe'])), (y + 20.5, 'childfail none')]
        elif a == 'nofile':
            y = 60 * r.randint(1, 6)
            e += [(y - 1.5, 'nofile %d' % r.choice([4, 6, 8])), (y + 10.5, 'nofile 1024')]
        elif a == 'nofile2':
            e.append((x, 'nofile %d' % r.choice([5, 7])))
            if 'reinstall' in stage:
                e += [(x + .05, '%s %s' % v) for v in stage['reinstall']]
            e.append((x + .1, 'sig USR1'))
            e.append((x + 5, 'nofile 1024'))
            e.append((x + 5.1, 'sig HUP'))
        elif a == 'suspend':
            e.append((x, 'suspend %d %d' % (CY, r.randint(0, 1))))        # so that each cycle sees the same minutes
        elif a == 'mailfail':
            pass
        elif a == 'many':
            pass
        elif a.startswith('tick'):
            e.append((60 * r.randint(1, 7) + r.choice([-.01, .3, 3]), 'tickact ' + a[5:]))
    return e, cid[0]

def one(c, o, r, w):
    run_mix(c, o, r, w, [WORK[c['i'] % len(WORK)]] * r.choice([1, 2]), 9)

def mix(c, o, r, w):
    run_mix(c, o, r, w, [r.choice(WORK) for _ in range(r.randint(3, 12))], 8)

def fault(c, o, r, w):
    a = [r.choice(WORK) for _ in range(r.randint(1, 5))]
    n = r.randint(1, 60)
    a += ['tick %d:err=%s' % (n, r.choice(['ENOSPC', 'EIO', 'EMFILE', 'ENOMEM', 'EINTR', 'EACCES']))]
    if r.random() < .4:
        a.append('tick %d:short=%d' % (n + r.randint(1, 40), r.randint(0, 20)))
    r.shuffle(a)
    run_mix(c, o, r, w, a, 7)

def damage(c, o, r, w):
    run_mix(c, o, r, w, [r.choice(['damaged', 'damaged', 'garbage', 'unknown'])] + r.sample(WORK, r.choice([0, 1])), 6)

def run_mix(c, o, r, w, acts, cycles):
    users = ['alice', 'bob', 'root']
    kinds = [k for k in JOBS if k not in ('at', 'random')]
    njobs = 0
    for u in users:
        js = [r.choice(kinds) for _ in range(r.randint(1, 5))]
        njobs += len(js)
        t = table_of(r, u, js, 'j')
        if u == 'alice' and 'noread' in acts:       # more than a socket holds
            t += ''.join('& 0 0 1 1 * much%d %s\n' % (i, 'x' * 150) for i in range(800))
        x = w.install(u, t, now=NOW)
        if not o.sane(x, 'fcrontab') or x.rc:
            raise RuntimeError(x.err)
    stage = {}
    def staged(u, text, name, cut=None):
        x, path = w.stage(u, text, name, now=NOW)
        if not o.sane(x, 'fcrontab') or x.rc or not path:
            raise RuntimeError(x.err)
        if cut is not None:
            real = os.path.join(w.root, 'spool', path)
            b = bytearray(open(real, 'rb').read())
            if r.random() < .5:
                b = b[:r.randrange(1, len(b))]
            else:
                for _ in range(r.choice([1, 5])):
                    b[r.randrange(len(b))] = r.getrandbits(8)
            open(real, 'wb').write(b)
        return path
    def same(u):
        return table_of(r, u, [r.choice(kinds) for _ in range(r.randint(1, 4))], 'k')
    for a in sorted(set(acts)):
        if a in ('reinstall', 'nofile2') and 'reinstall' not in stage:
            stage['reinstall'] = [('cp', staged('carol', same('carol'), 's1') + ' new.carol')]
        elif a == 'remove':
            stage[a] = [('cp', staged('dave', same('dave'), 's2') + ' new.dave'), ('sig', 'HUP'), ('touch', 'rm.dave')]
        elif a == 'reload':
            stage[a] = [('cp', staged('carol', same('carol'), 's3') + ' new.carol'), ('sig', 'HUP'), ('cp', staged('carol', same('carol'), 's4') + ' new.carol')]
        elif a == 'damaged':
            stage[a] = [('cp', staged('erin', same('erin'), 's5', cut=1) + ' new.erin')]
        elif a == 'garbage':
            p = w.root + '/work/garbage'
            open(p, 'wb').write(bytes(r.getrandbits(8) for _ in range(r.choice([0, 3, 200, 5000]))))
            os.chown(p, 2100, 2100)
            os.chmod(p, 0o600)
            stage[a] = [('cp', p + ' new.erin')]
        elif a == 'unknown':
            stage[a] = [('cp', staged('carol', same('carol'), 's6') + ' new.nobodyhere'), ('sig', 'HUP'), ('touch', 'rm.nobodyhere')]
        elif a == 'baduser':
            stage[a] = [('cp', staged('carol', same('carol'), 's7') + ' new.bob')]
        elif a == 'many':
            stage[a] = [('cp', staged('dave', ''.join('&serial %d * * * * m%d\n' % (i % 60, i) for i in range(200)), 's8') + ' new.dave'), ('sig', 'HUP'), ('touch', 'rm.dave')]
    ev, ncid = cycle(c, r, w, acts, stage, njobs + 3)
    sc = [(30, 'mark begin')]
    for k in range(cycles):
        for t, x in ev:
            if '%d+' in x:
                a, b = x.split('%d+', 1)
                n, rest = (b.split(' ', 1) + [''])[:2] if ' ' in b else (b, '')
                x = ('%s%d %s' % (a, (int(n) + k * ncid) % 10 ** 6, rest)).strip()
            sc.append((CY * k + t, x))
        # connections still open are closed by now; then the daemon has time to notice
        for i in range(1, ncid + 1):
            sc.append((CY * k + 1000 + i * .01, 'close %d' % (i + k * ncid)))
        sc.append((CY * k + 1150, 'probe'))
    if ncid * cycles > 500:
        return
    for k in range(cycles * 3):
        sc.append((k * CY / 3 + 100.5, 'lavg %s 1 1' % ('0.1' if k % 3 else '2.0')))
    sc.append((CY * cycles - 20, 'end'))
    sc.sort(key=lambda x: x[0])
    run = w.daemon([(t, x) for t, x in sc if not x.startswith('mark')], NOW, head=['lavg 0.1 1 1'] + (['mailstatus 75'] if 'mailfail' in acts else []), tz='UTC', timeout=120)
    if run.rc == 1 and run.logs('Unable to open current dir'):
        o.count('gave-up')          # it ends when it cannot read its directory at all
        return
    if not o.sane(run, 'daemon'):
        return
    judge(c, o, run, acts, cycles)

def judge(c, o, run, acts, cycles):
    ps = run.ev('probe')
    o.count('probes', len(ps))
    o.count('jobs', len(run.ev('exec')))
    o.count('mails', len(run.ev('mail')))
    o.count('children', len(run.ev('reap')))
    o.count('connections', len(run.ev('conn')))
    o.count('forkfails', len(run.ev('forkfail')))
    o.count('faults', len(run.ev('fault')) + len(run.ev('cfault')) + len([1 for e in run.events if e['ev'] == 'execfail']))
    o.count('reloads', len([1 for e in run.ev('sig') if e.get('sig') == 'HUP']))
    o.count('badfiles', sum(a in ('damaged', 'garbage', 'unknown', 'baduser') for a in acts))
    if len(ps) != cycles:
        o.bad('ended', 'the daemon did not live through the cycles', probes=len(ps), acts=acts, tail=run.events[-3:])
        return
    o.count('cycles', cycles)
    ctx = dict(acts=acts, probes=[(p['fds'], p['kids'], p['heap']) for p in ps])
    # the first two cycles fill what is kept for good (tables which grew, fcrontabs of the cycle)
    late = ps[2:]
    if any(p['kids'] for p in late):
        o.bad('children', 'children which ended are not reaped', **ctx)
    if late[-1]['fds'] > late[0]['fds'] or late[-1]['fds'] > ps[0]['fds'] + 1:
        o.bad('descriptors', 'descriptors are left open', **ctx)
    d = [b['heap'] - a['heap'] for a, b in zip(late, late[1:])]
    if all(x > 0 for x in d):
        o.bad('memory', 'memory in use grows at each cycle of the same work', growth=d, **ctx)
    o.sig(c['kind'], tuple(sorted({a.split()[0] for a in acts}))[:4])

def run_case(c, o):
    r = rng(c['seed'], 'p22', c['kind'], c['i'])
    w = World('asan')
    try:
        globals()[c['kind']](c, o, r, w)
    finally:
        w.close()

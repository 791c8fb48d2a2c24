"""P24: the running daemon is told of every change, in time, and nobody else is."""
from fc import *
import fc, os, re, signal, subprocess
from sim import FCRON_GID, FCRON_UID, setids_bin
from procs import Proc

RULE = ('every way to install, change and remove a fcrontab, by users and root, at every second of a minute, with pid files of every kind, with errors injected in the system calls, and with several '
        'fcronsighup interleaved at chosen system calls and during their wait (their users also trying to kill them); every kill() is recorded (who, what, when) and compared with what was documented; and '
        'real daemons are told by them and must run what was installed. Distinct = (operation, user, second, pid file), (fault), (schedule), (end to end history).')
ASSUMPTIONS = ['the documented delay is the one configured (5 s), none for root', 'kill() is recorded and only reaches the daemon of the scratch tree', 'the process which the pid file of a running daemon names is the daemon (see P21)']
MUST_OBSERVE = ('signals', 'rootsignals', 'hostile', 'faults', 'schedules', 'races', 'attacks', 'restarts', 'e2e', 'picked')
VARIANTS = ('asan', 'ubsan')
ANY = range(256)
NOW = 1600000020    # a full minute
DELAY = 5

def cases(tier, seed):
    q = tier == 'quick'
    for kind, n in (('op', 300 if q else 8000), ('pid', 100 if q else 2000), ('fault', 150 if q else 1500), ('race', 400 if q else 6000), ('e2e', 150 if q else 3000)):
        for i in range(n):
            yield dict(kind=kind, seed=seed, i=i)

def act(w, r, user, op, now, **kw):
    """a change of user's fcrontab; -> run"""
    t = '%s job%d\n' % (r.choice(['* * * * *', '@ 1', '0 0 1 1 *']), r.randrange(1000))
    p = w.root + '/work/f'
    open(p, 'w').write(t)
    os.chmod(p, 0o644)
    if op == '-':
        return w.fcrontab(['-'], user=user, stdin=t.encode(), now=now, **kw)
    if op == 'file':
        return w.fcrontab([p], user=user, now=now, **kw)
    if op == '-n':
        return w.fcrontab(['-n', p], user=user, now=now, **kw)
    if op == 'root-file':
        return w.fcrontab([p, user], user='root', now=now, **kw)
    if op == 'root-u':
        return w.fcrontab(['-u', user, p], user='root', now=now, **kw)
    if op == 'root-r':
        return w.fcrontab(['-r', user], user='root', now=now, **kw)
    if op == '-e':
        return w.fcrontab(['-e'], user=user, now=now, env=dict(VISUAL=w.root + '/bin/editor', EDITOR=w.root + '/bin/editor'), **kw)
    return w.fcrontab([op], user=user, now=now, **kw)

def prepare(w):
    w.install_setid()
    p = w.root + '/bin/editor'
    open(p, 'w').write('#!/bin/sh\necho "# changed" >> "$1"\n')
    os.chmod(p, 0o755)

def pidfile(w, s):
    p = w.root + '/run/fcron.pid'
    if os.path.lexists(p):
        os.unlink(p)
    if s is not None:
        open(p, 'w').write(s)
        os.chmod(p, 0o644)

def kills(run):
    return run.ev('kill')

def op(c, o, r, w):
    """one change: one signal to the daemon, in time"""
    prepare(w)
    pid = r.randrange(700000, 900000)
    pidfile(w, '%d%s' % (pid, r.choice(['\n', '\n', ''])))
    user = r.choice(['alice', 'bob', 'root', 'carol'])
    x = w.fcrontab(['-n', '-'], user=user, stdin=b'0 0 1 1 * old\n', now=NOW)
    if not o.sane(x, 'fcrontab') or x.rc:
        return o.bad('install', 'a first fcrontab is refused', err=x.err[-300:].decode('latin-1')) if x.rc else None
    for what in r.sample(['-', 'file', '-n', 'root-file', 'root-u', '-e', '-z'], 3) + [r.choice(['-r', 'root-r'])]:
        sec = r.choice([0, 1, 30, 44, 45, 46, 49, 50, 51, 54, 55, 56, 59, r.randrange(60)])
        t = NOW + 60 * r.randrange(1, 1000) + sec
        x = act(w, r, user, what, t)
        if not o.sane(x, 'fcrontab', ANY):
            return
        byroot = what.startswith('root') or user == 'root'
        d = dict(op=what, user=user, second=sec, rc=x.rc, err=x.err[-400:].decode('latin-1'))
        if x.rc:
            o.bad('install', 'a change is refused', **d)
            return
        K = kills(x)
        d['kills'] = K
        if not K:
            o.bad('none', 'the daemon is not told of a change', **d)
            return
        k = K[0]
        if len(K) > 1 or (k['pid'], k['sig']) != (pid, signal.SIGHUP):
            o.bad('other', 'something else than one SIGHUP to the daemon is sent', pid=pid, **d)
            return
        if k['euid'] != 0:
            o.bad('euid', 'the signal is sent without the right to', **d)
            return
        late = k['r'] - t
        if late < 0 or late > (0 if byroot else DELAY):
            o.bad('late', 'the daemon is told of a change too late', delay=late, **d)
            return
        if not byroot and late:
            m = re.search(r'account at (\d\d):(\d\d):(\d\d)', d['err'])
            if not m or (int(m[1]) * 3600 + int(m[2]) * 60 + int(m[3])) != k['r'] % 86400:
                o.bad('said', 'the time said is not the one of the signal', at=k['r'] % 86400, **d)
                return
        if os.path.exists(w.root + '/spool/fcrontab.sig'):
            o.bad('left', 'the lock file is left behind', **d)
            return
        o.count('rootsignals' if byroot else 'signals')
        o.sig('op', what, user == 'root', sec, late)
    # what changes nothing says nothing
    x = w.fcrontab(['-l'], user=user, now=NOW)
    if kills(x):
        o.bad('list', 'listing signals the daemon', kills=kills(x))

GOODPID = re.compile(r'\d+\s*\Z')
def pid(c, o, r, w):
    n = r.randrange(700000, 900000)
    s = r.choice([None, '', '\n', '0\n', '1\n', '-1\n', '-%d\n' % n, '%dabc\n' % n, 'abc\n', '0x10\n', '%d %d\n' % (n, n + 1), '99999999999\n', '4294967297\n', '%d\n' % (2**32 + n), '%d\n' % (2**64 + n),
                  '18446744073709551615\n', '-4294967295\n', '2147483648\n', '9' * 400, '\0%d\n' % n, '%d\0\n' % n, '+\n', '--5\n', '1e6\n', '%d.5' % n, '%d,%d' % (n, n + 1), 'pid=%d\n' % n, '%' * 20, '\n%d\n' % n,
                  'dir', 'link', 'mode', 'a' * 100000, '-', '- 1\n', '-0\n', '00\n', '01\n', '-2147483648\n', '-9223372036854775808\n'])
    p = w.root + '/run/fcron.pid'
    pidfile(w, None)
    if s == 'dir':
        os.mkdir(p)
    elif s == 'link':
        os.symlink(w.root + '/nowhere', p)
    elif s == 'mode':
        open(p, 'w').write('%d\n' % n)
        os.chmod(p, 0)
    elif s is not None:
        open(p, 'wb').write(s.encode('latin-1'))
        os.chmod(p, 0o644)
    user = r.choice(['alice', 'root'])
    x = w.cli('fcronsighup', [w.conf_path], user=user, now=NOW + r.randrange(60))
    if not o.sane(x, 'fcronsighup', ANY):
        return
    o.count('hostile')
    d = dict(pidfile=repr(s)[:200], user=user, rc=x.rc, err=x.err[-300:].decode('latin-1'), kills=kills(x))
    if kills(x):
        o.bad('hostile', 'a pid file which names no process makes fcronsighup signal', **d)
    elif not x.err.strip():
        o.bad('quiet', 'fcronsighup does not tell that the daemon cannot be told', **d)
    o.sig('pid', repr(s)[:12], user, x.rc)

def fault(c, o, r, w):
    """an error in a system call: the daemon is told all the same, or the user is"""
    n = r.randrange(700000, 900000)
    pidfile(w, '%d\n' % n)
    user = r.choice(['alice', 'alice', 'root'])
    t = NOW + r.randrange(60)
    x = w.cli('fcronsighup', [w.conf_path], user=user, now=t, ticklog=True)
    T = [e for e in x.ev('tick') if e['call'] not in ('getpwnam', 'getpwuid') and 'fcron.conf' not in e['what']]
    if not T or not o.sane(x, 'fcronsighup'):
        return
    e = r.choice([e for e in T if 'sig' in e['what']] * 3 + T)
    err = r.choice(['EMFILE', 'ENOSPC', 'EACCES', 'EIO', 'ENOENT', 'EINTR', 'ENOMEM', 'EROFS', 'EAGAIN'])
    x = w.cli('fcronsighup', [w.conf_path], user=user, now=t, tick='%d:err=%s' % (e['n'], err))
    if not o.sane(x, 'fcronsighup', ANY):
        return
    o.count('faults')
    d = dict(call=e['call'], path=e['what'], error=err, user=user, rc=x.rc, err=x.err[-400:].decode('latin-1'), logs=x.logs()[-5:], kills=kills(x))
    K = kills(x)
    if len(K) > 1 or [k for k in K if (k['pid'], k['sig']) != (n, 1)]:
        o.bad('fault-other', 'after an error something else than the daemon is signalled', pid=n, **d)
    elif K and K[0]['r'] - t > DELAY:
        o.bad('fault-late', 'after an error the daemon is told too late', **d)
    elif not K and 'sig' in e['what'] and e['call'] != 'fork':
        o.bad('fault-lost', 'the daemon is not told of a change because of the lock file', **d)
    elif not K and err != 'ENOENT' and not re.search(r'ERROR|not running|bort', d['err'] + '\n'.join(x.logs()) * (e['call'] != 'fork')) and not [l for l in x.logs() if 'Could not open' in l]:
        o.bad('fault-quiet', 'nobody is told that the daemon could not be', **d)
    o.sig('fault', e['call'], e['what'].rsplit('/', 1)[-1], err, user)

def race(c, o, r, w):
    pid = r.randrange(700000, 900000)
    pidfile(w, '%d\n' % pid)
    x = w.cli('fcronsighup', [w.conf_path], user='alice', now=NOW, ticklog=True)
    if not o.sane(x, 'fcronsighup') or not kills(x):
        return o.bad('none', 'the daemon is not signalled', err=x.err[-300:].decode('latin-1'))
    T = [e['n'] for e in x.ev('tick') if e['call'] in ('fork', 'open', 'fdopen', 'remove', 'unlink', 'fclose', 'close', 'fopen') and e['n'] > 6]
    procs, live, trail, started = [], [], [], {}
    seq = 0
    left = r.choice([2, 2, 3, 3, 4])
    segs = []       # (step, process, nth segment)
    attack = r.random() < .3
    hit = False
    restart = not attack and r.random() < .3    # the daemon is replaced by another one meanwhile
    pids = {}       # step -> pid
    while left or live:
        seq += 1
        if left and (not live or r.random() < .55):
            user = r.choice(['alice', 'alice', 'bob', 'carol'])
            tick = '%d:pause=x' % r.choice(T) if not restart and r.random() < .6 else None
            p = Proc(w, len(procs), lambda now=NOW + 60 * len(procs) + r.randrange(60), user=user, tick=tick, **kw: w.cli('fcronsighup', [w.conf_path], user=user, now=now, ticklog=True, tick=tick, **kw))
            p.user = user
            procs.append(p)
            started[p.n] = seq
            left -= 1
            trail.append('start %d (%s, %s)' % (p.n, user, tick))
            p.seg = 0
        else:
            p = r.choice(live)
            if restart and r.random() < .6:
                pid += 1
                pidfile(w, '%d\n' % pid)
                trail.append('daemon %d' % pid)
                o.count('restarts')
            if attack and p.why == 'sleep' and r.random() < .7:
                sig = r.choice(['KILL', 'STOP', 'INT', 'TERM', 'HUP'])
                u, g, gs = w.users[r.choice([p.user, 'bob'])]
                # (the other end of its pipe is read: a stopped process would keep it)
                q = subprocess.run([setids_bin(), str(u), str(u), str(g), str(g), '', '/', '/bin/kill', '-' + sig, str(p.pid)], stderr=subprocess.PIPE)
                trail.append('%s at %d' % (sig, p.n))
                o.count('attacks')
                if q.returncode == 0:
                    hit = True
                    if sig == 'STOP':
                        os.kill(p.pid, signal.SIGKILL)
            live.remove(p)
            p.resume()
            p.seg += 1
            trail.append('resume %d (%s)' % (p.n, p.why))
        segs.append((seq, p.n, p.seg))
        pids[seq] = pid
        if p.wait():
            live.append(p)
    for p in procs:
        p.thread.join(60)
        p.close()
        if p.exc or p.run is None:
            raise p.exc or Inconclusive('a process did not end')
    K = []          # (step, process)
    for p in procs:
        seg = 0
        if not o.sane(p.run, 'fcronsighup', ANY):
            return
        for e in p.run.events:
            if e['ev'] == 'pause':
                seg += 1
            if e['ev'] == 'kill':
                step = next(s for s, n, g in segs if n == p.n and g == seg)
                if (e['pid'], e['sig']) != (pids[step], 1):
                    return o.bad('race-other', 'something else than the running daemon is signalled', event=e, daemon=pids[step], trail=trail)
                K.append((step, p.n))
    o.count('schedules')
    o.count('races', len(procs) - 1)
    lost = [n for n, s in started.items() if not [k for k in K if k[0] >= s]]
    if lost:
        o.bad('killed' if hit else 'race-lost', 'a change is never told to the daemon when several are made at once' if not hit else 'a user can keep the daemon from being told', lost=lost, trail=trail, kills=K,
              errs=[p.run.err[-200:].decode('latin-1') for p in procs], logs=[p.run.logs()[-3:] for p in procs])
        return
    if os.path.exists(w.root + '/spool/fcrontab.sig') and not hit:
        o.bad('race-left', 'the lock file is left behind', trail=trail)
        return
    o.sig('race', tuple((g.split()[0], p) for g, p in zip(trail, [s[1] for s in segs])), tuple(p.why for p in procs), len(K))

def e2e(c, o, r, w):
    """the daemon itself picks up what the real tools install"""
    prepare(w)
    exe = os.path.join(w.bin, 'fcrontab')
    users = r.sample(['alice', 'bob', 'carol', 'root'], r.choice([1, 2, 3]))
    sc, t, want, trail = [], 30.0, {}, []
    k = 0
    for _ in range(r.choice([2, 4, 7])):
        t += r.choice([1.5, 6, 10, 40, 70, 130])
        u = r.choice(users)
        uid, gid, gs = w.users[u]
        by = 'root' if r.random() < .3 else u
        bu, bg, bgs = w.users[by]
        rm = r.random() < .25 and want.get(u)
        k += 1
        p = w.root + '/work/e%d' % k
        open(p, 'w').write('@first(0) 1 job%d\n* * * * * min%d\n' % (k, k))
        os.chmod(p, 0o644)
        args = (['-r'] if rm else [p]) + ([u] if by != u else [])
        sc.append((t, 'sh { ' + ' '.join([setids_bin(), str(bu), str(FCRON_UID), str(bg), str(FCRON_GID), "'%s'" % ','.join(map(str, bgs)), w.root + '/work', exe, '-c', w.conf_path] + args) + '; echo rc=$?; } 2>&1 | cat'))    # (waits for fcronsighup too)
        want.setdefault(u, []).append((t, None if rm else k, by == 'root' or u == 'root'))
        trail.append((t, u, by, 'remove' if rm else k))
    end = t + 200
    sc.append((end, 'sig TERM'))
    pidfile(w, None)
    d = w.daemon(sc, start=NOW)
    if not o.sane(d, 'daemon'):
        return
    sh = d.ev('sh')
    out = open(w.root + '/sh.out').read() if os.path.exists(w.root + '/sh.out') else ''
    if re.findall(r'rc=(\d+)', out) != ['0'] * len(sh):
        return o.bad('e2e-rc', 'a change while the daemon runs is refused', out=out[-600:], trail=trail)
    o.count('e2e')
    st = {}
    for e in d.ev('exec'):
        if 'role' in e and e['role'] == 'job' or 'job' in e:
            m = re.search(r'(job|min)(\d+)', ' '.join(e['argv']))
            if m:
                st.setdefault(int(m[2]), []).append(e['t'])
    for u, L in want.items():
        for i, (t0, k, byroot) in enumerate(L):
            t1 = L[i + 1][0] if i + 1 < len(L) else end
            if k is None:
                continue
            x = st.get(k, [])
            # a line which is due every minute runs in the first full minute after the delay, and no longer than the next change
            due = [m for m in range(int(t0) + DELAY + 2, int(t1) - 1) if (NOW + m) % 60 == 0]
            missed = [m for m in due if not [s for s in x if m <= s <= m + 2]]
            if missed:
                return o.bad('e2e-missed', 'a change is not picked up by the running daemon', user=u, fcrontab=k, at=t0, missed=missed, ran=x, trail=trail, logs=d.logs()[-20:], kills=d.ev('kill'))
            late = [s for s in x if s < t0 or s > t1 + DELAY + 2]
            if late:
                return o.bad('e2e-stale', 'a fcrontab which was replaced or removed still runs', user=u, fcrontab=k, replaced=t1, ran=late, trail=trail)
            o.count('picked', len(due))
    o.sig('e2e', tuple((b == a, x == 'remove') for _, a, b, x in trail), len(users))

def run_case(c, o):
    r = rng(c['seed'], 'p24', c['kind'], c['i'])
    with World('asan' if c['i'] % 2 == 0 else 'ubsan') as w:
        dict(op=op, pid=pid, fault=fault, race=race, e2e=e2e)[c['kind']](c, o, r, w)

"""P21: at most one daemon per spool, and a pid file which tells the truth."""
from fc import *
import fc, fcntl, json, os, re, signal, time
from sim import Inconclusive
from procs import Proc

RULE = ('real daemons on one configuration, each stopped and resumed at chosen system calls of its start, its run and its end, in random schedules, started beside a running one, after a crash at any system call '
        '(also with jobs of the dead daemon still running), on stale pid files of any content, and with errors in the calls on the pid file; what each runs and writes is put in one order and may never overlap, and the pid file is '
        'compared with the daemon in charge at every stop. Distinct = (schedule of starts, stops and ends) or (crash point) or (fault).')
ASSUMPTIONS = ['nobody else removes or replaces the pid file of a running daemon']
MUST_OBSERVE = ('second', 'undisturbed', 'schedules', 'stops', 'won', 'lost', 'crashes', 'recovered', 'orphans', 'stale', 'faults', 'ended')
VARIANTS = ('asan', 'ubsan')
ANY = range(256)
NOW = 1600000000

def cases(tier, seed):
    q = tier == 'quick'
    for kind, n in (('second', 60 if q else 3000), ('sched', 260 if q else 12000), ('crash', 100 if q else 5000), ('orphan', 40 if q else 1500), ('fault', 80 if q else 2500)):
        for i in range(n):
            yield dict(kind=kind, seed=seed, i=i)

def pid_of(w):
    try:
        return open(w.root + '/run/fcron.pid', 'rb').read()
    except OSError:
        return None

def setup(w, r, o):
    w.stub_sighup()
    for u in r.sample(['alice', 'bob', 'root'], 2):
        x = w.install(u, '* * * * * m-%s dur=%d\n@first(10) 1 f-%s dur=%d\n' % (u, r.choice([0, 5, 50, 50]), u, r.choice([0, 20, 170])), now=NOW)
        if not o.sane(x, 'fcrontab') or x.rc:
            raise RuntimeError(x.err)

def stale(r):
    return r.choice([None, None, '', '999999\n', '12', 'x' * 300, '999999999999999999\n1\n', '\0' * 50, '-1\n', 'abc\n%d\n' % os.getpid()])

def put(w, s):
    if s is not None:
        open(w.root + '/run/fcron.pid', 'w').write(s)

def daemon_pid(run):
    e = run.ev('start')
    return e[0].get('pid') if e else None

def jobs(run):
    return [e for e in run.ev('exec')]

def minutes(run, key, a, b):
    """did it run in each minute between the two instants?"""
    t = [e['r'] for e in jobs(run) if key in ' '.join(e['argv'])]
    return [m for m in range(int(a) // 60 * 60 + 60, int(b), 60) if not [x for x in t if m <= x < m + 5]]

def second(c, o, r, w):
    """others are started beside a running daemon"""
    setup(w, r, o)
    put(w, stale(r))
    own = w.root + '/own'
    exe = os.path.join(w.bin, 'fcron')
    sc, n = [], 0
    t = 15.5
    pre = 'stat -c %i.%s ../run/fifo; cat ../run/fcron.pid; '
    for k in range(r.choice([1, 2, 4])):
        t += r.choice([3, 20.25, 47, 61])
        s2 = w.root + '/scen-b%d' % k
        fg = r.random() < .5
        open(s2, 'w').write(('' if fg else 'bg 1\n') + 'at 400.0 sig TERM\n')
        tr = w.root + '/tr/b%d' % k
        args = r.choice([[], ['-s', '60'], ['-l', '5'], ['-m', '3'], ['-n']][:4])
        cmd = "env SIM_TRACE=%s SIM_SCENARIO=%s %s -c %s %s %s; echo rc=$?; cat ../run/fcron.pid; stat -c %%i ../run/fifo" % (tr, s2, exe, w.conf_path, ' '.join(args), '-f' if fg else '-b')
        sc.append((t, 'sh { echo begin $SIM_DAEMON; cat ../run/fcron.pid; stat -c %%i ../run/fifo; ls -l --full-time . | md5sum; %s; ls -l --full-time . | md5sum; } > ../sh%d 2>&1' % (cmd, k)))
        n += 1
    end = t + r.choice([30, 100, 200])
    sc.append((end, 'sig TERM'))
    d = w.daemon(sc, start=NOW)
    if not o.sane(d, 'daemon'):
        return
    for k in range(n):
        L = open(w.root + '/sh%d' % k, errors='replace').read().split('\n')
        what = dict(out=L[:20], nth=k)
        pid = L[0].split()[1]
        if L[1] != pid:
            return o.bad('pid', 'the pid file of a running daemon does not hold its pid', **what)
        try:
            fifo, sum1 = L[2], L[3]
            i = next(i for i, l in enumerate(L) if l.startswith('rc='))
        except StopIteration:
            raise RuntimeError(L)
        tr = w.root + '/tr/b%d' % k
        ev = [json.loads(l) for l in open(tr, encoding='latin-1')] if os.path.exists(tr) else []
        logs = [e['msg'] for e in ev if e['ev'] == 'log']
        what['logs'] = logs
        if [e for e in ev if e['ev'] in ('exec', 'mail', 'forked')]:
            return o.bad('two', 'a second daemon runs jobs', **what)
        end2 = [e for e in ev if e['ev'] == 'end']
        if L[i] == 'rc=0' or not [l for l in logs if re.search('lock', l)]:
            return o.bad('second', 'a second daemon does not end with an error', **what)
        if L[i + 1] != pid or L[i + 2] != fifo or L[i + 3] != sum1:
            return o.bad('disturbed', 'a second daemon disturbs the files of the running one', **what)
        o.count('second')
    # the first one has gone on as if nothing had happened
    for u in ('alice', 'bob', 'root'):
        if os.path.exists(w.root + '/spool/' + u):
            m = minutes(d, 'm-' + u, NOW, NOW + end)
            if m:
                return o.bad('stopped', 'the jobs of the running daemon are disturbed by a second one', missed=m, trail=sc)
    if pid_of(w) is not None:
        return o.bad('left', 'an orderly end leaves the pid file')
    o.count('undisturbed')
    o.count('ended')
    o.sig('second', n, len(jobs(d)) > 0)

def sched(c, o, r, w):
    setup(w, r, o)
    T = 150
    term = [(T, 'sig TERM')]
    # where there is to stop: the calls of a whole run (not of the first one, which has new files to take in)
    w.daemon(term, start=NOW - 1000, bg=False)
    x = w.daemon(term, start=NOW, ticklog=True, bg=False)
    if not o.sane(x, 'daemon'):
        return
    t = x.ev('tick')
    ini = [e['n'] for e in t if e['t'] < 25 and e['n'] > 2]
    fin = [e['n'] for e in t if e['t'] >= T]
    lock = [e['n'] for e in t if 'fcron.pid' in e['what']]
    near = [n for l in lock for n in (l - 1, l, l + 1, l + 2)]
    cl = [lambda: r.choice(ini), lambda: r.choice(near), lambda: r.choice(lock), lambda: r.choice(fin), lambda: r.choice(t)['n']]
    put(w, stale(r))
    procs, live, trail, segs = [], [], [], []
    left = r.choice([2, 2, 3, 3, 4])
    step = 0
    # half of them: one ends while the next one begins
    mid = [e['n'] for e in t if 30 < e['t'] < T]
    gone = [e['n'] for e in t if 'fcron.pid' in e['what'] and e['t'] >= T]
    first = [n for n in lock if n not in gone]
    plan, order = [], []
    if r.random() < .6:
        after = [n for n in fin if n > gone[0]] or fin
        plan = [[r.choice([r.choice(fin), gone[0], r.choice(after), after[0]])], [r.choice(first), r.choice(mid)], [r.choice(first), r.choice(mid)], []]
        left = r.choice([2, 3, 3])
        order = r.choice([['s', 's', 1, 0, 1], ['s', 's', 0, 1], ['s', 's', 0, 1, 's'], ['s', 's', 1, 0, 's'], ['s', 's', 's', 0, 1, 2], ['s', 's', 's', 0, 2, 1]])
    pids = {}
    while left or live:
        step += 1
        do = order.pop(0) if order else ''
        if do != 's':
            do = next((p for p in live if p.n == do), '')
        if left and (do == 's' or not do and (not live or r.random() < .5)):
            stops = plan.pop(0) if plan else sorted({r.choice(cl)() for _ in range(r.choice([0, 1, 2, 3]))})
            stops = sorted(set(stops))
            p = Proc(w, len(procs), lambda stops=stops, **kw: w.daemon(term, start=NOW + 1000 * len(procs), ticklog=True, oplog=True, bg=False, tick=','.join('%d:pause=x' % n for n in stops) or None, **kw))
            procs.append(p)
            left -= 1
            trail.append('start %d %s' % (p.n, stops))
        else:
            p = do if do and do != 's' else r.choice(live) if live else None
            if p is None:
                break
            live.remove(p)
            p.resume()
            p.seg += 1
            trail.append('resume %d' % p.n)
        segs.append((step, p.n, p.seg))
        if p.wait():
            live.append(p)
            o.count('stops')
        pids[step] = pid_of(w)
    for p in procs:
        p.thread.join(60)
        p.close()
        if p.exc or p.run is None:
            raise p.exc or Inconclusive('a daemon did not end')
    H = []
    for p in procs:
        if not o.sane(p.run, 'daemon', ANY):
            return
        seg = 0
        p.pid = None
        p.first = p.last = None     # first and last step in which it ran something or wrote to the spool
        p.acts = []
        p.termed = False
        mine = {g: s for s, n, g in segs if n == p.n}
        p.stop = {}
        for e in p.run.events:
            if e['ev'] == 'pause':
                p.stop[mine[seg]] = (len(p.acts) > 0, e['t'])
                seg += 1
            elif e['ev'] in ('exec', 'forked') or e['ev'] == 'op' and e['op'] in ('rename', 'unlink', 'openTS') and not re.search(r'run/|reboot|pid', e['a']):
                p.acts.append((mine[seg], e['ev'], str(e.get('a', e.get('argv', '')))[:60]))
            elif e['ev'] == 'start':
                p.pid = e.get('pid', 0)
        p.end = mine[max(mine)]
        p.won = p.run.rc == 0
        o.count('won' if p.won else 'lost')
    what = dict(trail=trail, acts=[(p.n, p.run.rc, p.acts[:1], p.acts[-1:]) for p in procs], logs=[[m for m in p.run.logs() if 'lock' in m or 'start' in m][:3] for p in procs])
    for p in procs:
        if not p.won and p.acts:
            return o.bad('loser', 'a daemon which ends with an error because of another one has run something', which=p.n, **what)
        for q in procs:
            # (one ends before the other begins to act)
            if p.n < q.n and p.acts and q.acts:
                a, b = (p, q) if p.acts[0][0] <= q.acts[0][0] else (q, p)
                if a.acts[-1][0] > b.acts[0][0]:
                    return o.bad('two', 'two daemons run at the same time', which=(a.n, b.n), first=[x for x in b.acts[:1]], after=[x for x in a.acts[-1:]], **what)
    if not [p for p in procs if p.won]:
        return o.bad('none', 'none of several daemons started runs', **what)
    for p in procs:
        for s, (acted, t) in p.stop.items():
            if p.won and acted and t < T:
                got = pids[s]
                if got is None or not re.fullmatch(rb'\d+\n', got) or int(got) != p.pid:
                    return o.bad('pid', 'the pid file does not hold the pid of the daemon which runs', step=s, pid=p.pid, file=repr(got), which=p.n, **what)
    if pid_of(w) is not None and procs[-1].won and segs[-1][1] == procs[-1].n:
        return o.bad('left', 'an orderly end leaves the pid file', file=repr(pid_of(w)), **what)
    o.count('schedules')
    o.count('ended', sum(p.won for p in procs))
    o.sig('sched', tuple(x.split('[')[0] for x in trail), tuple(p.run.rc for p in procs))

def runs_alone(o, w, what, key, start):
    """a new daemon has the spool to itself"""
    d = w.daemon([(100, 'sh cat ../run/fcron.pid > ../sh.pid; echo $SIM_DAEMON >> ../sh.pid'), (200, 'sig TERM')], start=start, head=['full 1'])
    if not o.sane(d, 'daemon', ANY):
        return False
    if d.rc != 0 or not jobs(d):
        o.bad(key, what, rc=d.rc, logs=d.logs()[:8])
        return False
    L = open(w.root + '/sh.pid').read().split('\n')
    if len(L) != 3 or L[0] != L[1]:
        o.bad('pid', 'the pid file does not hold exactly the pid of the running daemon', file=repr(L))
        return False
    for e in jobs(d):
        x = [f for f in e.get('fds', []) if not f[1] and 'fcron.pid' in f[2]]
        if x:
            o.bad('inherited', 'a job keeps the pid file of the daemon locked', fds=x)
            return False
    if pid_of(w) is not None:
        o.bad('left', 'an orderly end leaves the pid file')
        return False
    o.count('ended')
    return True

def crash(c, o, r, w):
    """killed anywhere: the next one starts"""
    setup(w, r, o)
    sc = [(150, 'sig TERM')]
    if c['i'] % 4 == 0:
        put(w, stale(r) or '')
        o.count('stale')
    else:
        if r.random() < .7:
            w.daemon(sc, start=NOW - 1000)
        x = w.daemon(sc, start=NOW, ticklog=True)
        t = x.ev('tick')
        if not o.sane(x, 'daemon') or not t:
            return
        e = r.choice(t + [e for e in t if 'fcron.pid' in e['what']] * 5)
        x = w.daemon(sc, start=NOW + 500, tick='%d:kill' % e['n'])
        o.count('crashes')
        o.sig('crash', e['call'], os.path.basename(e['what'])[:12])
    if runs_alone(o, w, 'after a crash no new daemon can be started', 'crash', NOW + 1000):
        o.count('recovered')

def settle(w, pid):
    """the death of a process, and what its children do with what they got from it, take some time on a busy machine"""
    end = time.time() + 4
    while time.time() < end:
        try:
            gone = open('/proc/%d/stat' % pid).read().rsplit(')', 1)[1].split()[0] in 'ZX'
        except (OSError, IndexError):
            gone = True
        if gone:
            try:
                with open(w.root + '/run/fcron.pid', 'r+') as f:
                    fcntl.flock(f, fcntl.LOCK_EX | fcntl.LOCK_NB)
                return
            except FileNotFoundError:
                return
            except OSError:
                pass
        time.sleep(.05)

def orphan(c, o, r, w):
    """the daemon is killed while a job of it runs on"""
    setup(w, r, o)
    p = Proc(w, 0, lambda **kw: w.daemon([(150, 'sig TERM')], start=NOW, bg=False, **dict(kw, env=dict(kw['env'], SIM_CTRLPAUSE='1'))))
    k = r.randrange(4)
    while True:
        if not p.wait():
            raise Inconclusive('no job was seen')
        if p.why == 'ctrl' and k == 0:
            break
        k -= 1
        p.resume()
    pid = int(pid_of(w))
    try:
        cmd = open('/proc/%d/comm' % pid).read()
    except OSError:
        cmd = ''
    if cmd.strip() != 'fcron':
        p.resume()
        return o.bad('pid', 'the pid file does not hold the pid of the daemon which runs', pid=pid)
    os.kill(pid, signal.SIGKILL)
    p.why = ''
    settle(w, pid)
    try:
        if runs_alone(o, w, 'after a crash no new daemon can be started as long as a job of the old one runs', 'orphan', NOW + 1000):
            o.count('orphans')
            o.sig('orphan', k)
    finally:
        p.resume()
        for _ in range(10):
            if not p.wait():
                break
            p.resume()
        p.close()

def fault(c, o, r, w):
    """errors around the pid file: the daemon ends with an error or all is as it should be"""
    setup(w, r, o)
    put(w, stale(r))
    sc = [(2, 'sh cat ../run/fcron.pid > ../sh.pid; echo + $SIM_DAEMON >> ../sh.pid'), (200, 'sig TERM')]
    x = w.daemon(sc, start=NOW, ticklog=True)
    if not o.sane(x, 'daemon'):
        return
    T = [e for e in x.ev('tick') if 'fcron.pid' in e['what']]
    e = r.choice(T)
    err = r.choice(['ENOSPC', 'EIO', 'EACCES', 'EMFILE', 'ENOMEM', 'EROFS', 'EINTR', 'ENOENT'])
    if os.path.exists(w.root + '/sh.pid'):
        os.unlink(w.root + '/sh.pid')
    put(w, r.choice([None, '9\n', '99999999\n']))
    x = w.daemon(sc, start=NOW + 500, tick=r.choice(['%d:err=%s' % (e['n'], err), '%d:full=ENOSPC' % e['n']]))
    if not o.sane(x, 'daemon', ANY):
        return
    o.count('faults')
    if os.path.exists(w.root + '/sh.pid'):
        got, me = open(w.root + '/sh.pid', encoding='latin-1').read().split('+ ')
        if int(re.match(r'\s*(\d*)', got)[1] or 0) != int(me):
            return o.bad('fault-pid', 'after an error a daemon runs with a pid file which is wrong', file=repr(got), pid=me, call=e['call'], error=err, logs=x.logs()[:6])
    elif x.rc == 0 or not x.logs():
        return o.bad('fault-quiet', 'after an error the daemon ends without telling', call=e['call'], error=err, rc=x.rc)
    o.sig('fault', e['call'], err, x.rc)

def run_case(c, o):
    r = rng(c['seed'], 'p21', c['kind'], c['i'])
    with World('asan' if c['i'] % 2 == 0 else 'ubsan') as w:
        dict(second=second, sched=sched, crash=crash, orphan=orphan, fault=fault)[c['kind']](c, o, r, w)

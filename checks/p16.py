"""P16: fcrondyn shows and does exactly what its user may see and asked for."""
from fc import *
import os, re, socket, struct, threading, time, calendar

RULE = ('random fcrontabs of several users and the system (plain, serial and load-dependent lines, with and without several instances), run by the real daemon while clients of several identities send random commands; every answer is '
        'compared with a model of what waits, runs and is due at that instant and of what the caller may see, and every start, signal and priority change must be the model\'s. The real fcrondyn is run against a server which records '
        'its requests and answers in pieces. Distinct = (command, caller, kind of line and state it was in, outcome).')
ASSUMPTIONS = ['the identity of a client is what the kernel says of its end of the socket']
MUST_OBSERVE = ('listings', 'listed', 'queued', 'running', 'denied', 'ran', 'skipped', 'signalled', 'reniced', 'rescheduled', 'orphans', 'long', 'requests', 'pieces')
VARIANTS = ('asan', 'ubsan')
NOW = 1600000000 - 1600000000 % 3600
UID = {'root': 0, 'alice': 2001, 'bob': 2002, 'carol': 2003, 'systab': -100}
WHO = {v: k for k, v in UID.items()}
LS, LAVGQ, SERIALQ, EXEQ, DETAIL, RUNNOW, RUN, KILL, RENICE = 101, 102, 103, 104, 105, 301, 302, 401, 402
END = b'\0\0\0'
NAMES = {LS: 'ls', LAVGQ: 'ls_lavgq', SERIALQ: 'ls_serialq', EXEQ: 'ls_exeq', DETAIL: 'detail', RUNNOW: 'runnow', RUN: 'run', KILL: 'kill', RENICE: 'renice'}

def cases(tier, seed):
    q = tier == 'quick'
    for kind, n in (('model', 260 if q else 9000), ('long', 16 if q else 200), ('client', 60 if q else 1500)):
        for i in range(n):
            yield dict(kind=kind, seed=seed, i=i)

class J:
    def __init__(s, r, u, k):
        s.u, s.name = u, 'j%s%d' % (u[0], k)
        s.dur = r.choice([0, 3, 40, 200, 900, 5000])
        s.kind = r.choice(['plain', 'plain', 'serial', 'lavg'])
        s.multi = r.random() < .3
        s.td = None
        opts = []
        if s.kind == 'plain':
            opts += ['exesev'] if s.multi else []
        elif s.kind == 'serial':
            opts.append('serial')
            opts.append('serialonce(%s)' % ('false' if s.multi else 'true'))
        else:
            s.lv = [r.choice([5, 10, 20]), 0, 0]
            opts.append('lavg1(%d.%d)' % (s.lv[0] // 10, s.lv[0] % 10))
            opts.append('lavgonce(%s)' % ('false' if s.multi else 'true'))
            s.until = r.choice([0, 0, 20000])
            if s.until:
                opts.append('until(20000s)')
        if s.kind == 'serial' and r.random() < .3:
            opts.append('exesev')
        # (these change nothing of what is listed and allowed)
        if r.random() < .4:
            opts.append('nice(%d)' % r.choice([1, 5, 10, 19] + [-5, -20] * (u in ('root', 'systab'))))
        if r.random() < .3:
            opts.append(r.choice(['mail(false)', 'nolog', 'noticenotrun(false)', 'mailto(bob)', 'erroronlymail']))
        if u in ('root', 'systab') and r.random() < .5:
            opts.append('runas(%s)' % r.choice(['alice', 'bob', 'root']))
        s.opts = opts
        o = []
        if s.kind == 'lavg':
            o.append('L' + ('' if s.multi else 'O'))
        if s.kind == 'serial':
            o.append('S' + ('' if s.multi else 'O'))
        if 'exesev' in opts:
            o.append('ES')
        s.ostr = ','.join(o)
        s.arg = r.choice(['', '', ' x', ' ' + 'y' * 40, ' ' + 'z' * 220]) if s.kind != 'lavg' else ''
        s.cmd = '%s dur=%d%s' % (s.name, s.dur, s.arg)
        if r.random() < .55:
            s.freq = r.randint(200, 4000)
            s.line = '@%s %ds %s' % (','.join(opts), s.freq, s.cmd)
        else:
            s.td = sorted(r.sample(range(60), r.randint(1, 4)))
            s.line = '&%s %s * * * * %s' % (','.join(opts), ','.join(map(str, s.td)), s.cmd)
        s.due = s.id = None
        s.nq = 0                    # queued instances
        s.run = []                  # (pid, end, rank)
        s.until_t = []
    def after(s, t):
        if s.td is None:
            return t + s.freq
        t = int(t) // 60 * 60 + 60
        while t // 60 % 60 not in s.td:
            t += 60
        return t
    def n(s):
        return s.nq + len(s.run)

def L(*a):
    return struct.pack('%dq' % len(a), *a)

def strings(data):
    """the texts of one answer, or None if it is not one complete answer"""
    if not data.endswith(END):
        return None
    body = data[:-3]
    if body.endswith(b'\0'):
        body = body[:-1]
    if b'\0\0' in body or b'\0\0\0\0' in data[-5:] and b'\0\0\0\0\0' in data[-6:]:
        return None
    return [x.decode('latin-1') for x in body.split(b'\0')]

def table(txt):
    """rows of a listing as dicts"""
    rows, head, extra = [], None, []
    for t in txt:
        for l in t.split('\n'):
            if not l:
                continue
            if l.startswith('ID '):
                head = [x.strip() for x in l.split('|')]
            elif head and re.match(r'\d+ *\|', l):
                v = l.split('|', len(head) - 1)
                d = dict(zip(head, [x.strip() if h != 'CMD' else x for h, x in zip(head, v)]))
                rows.append(d)
            else:
                extra.append(l)
    return head, rows, extra

def when(s):
    return calendar.timegm(time.strptime(s, '%Y-%m-%d %H:%M:%S'))

def stamp(t):
    return time.strftime('%Y-%m-%d %H:%M:%S', time.gmtime(t))

def model(c, o, r, w):
    users = ['root', 'alice', 'bob'] + (['systab'] if r.random() < .5 else [])
    jobs = []
    for u in users:
        js = [J(r, u, k) for k in range(r.randint(1, 4))]
        x = w.install(u, '\n'.join(j.line for j in js) + '\n', now=NOW)
        if not o.sane(x, 'fcrontab') or x.rc:
            raise RuntimeError('%s %s' % (x.err, [j.line for j in js]))
        jobs += js
    end = r.choice([4000, 9000])
    sc, cmds = [(25.001, 'conn 0 0 0'), (26.001, 'send 0 ' + L(LS, -1).hex())], []
    ids = len(jobs)
    clients = [(1, 0), (2, 2001), (3, 2002), (4, 2003)]
    for cid, uid in clients:
        sc.append((27.001 + cid / 1000, 'conn %d %d %d' % (cid, uid, uid)))
    n = r.randint(20, 60)
    seen, now_cid = {}, {}
    ts = sorted(r.sample(range(30, end - 60), n))
    rm = r.choice([None, None, None, end // 2])
    for k, t in enumerate(ts):
        cid, uid = r.choice(clients[:3] if r.random() < .93 else clients)
        op = r.choice([LS, LAVGQ, SERIALQ, EXEQ, EXEQ, DETAIL, RUNNOW, RUN, RUN, RUN, KILL, KILL, RENICE, 0])
        jid = r.choice([r.randrange(ids), r.randrange(ids), r.randrange(ids), ids + 3, -1, 10 ** 12])
        if k and r.random() < .45 and cmds[-1][3] in (RUN, RUNNOW) and 0 <= cmds[-1][4][0] < ids:
            # follow up on the job which was just run
            cid, uid, jid = prev[0], prev[1], cmds[-1][4][0]
            op, t = r.choice([KILL, RENICE, RENICE]), ts[k - 1] + .4
        prev = cid, uid
        if op in (LS, LAVGQ, SERIALQ, EXEQ):
            a = [r.choice([uid, uid, -1, 0, 2001, 2002, -100, 4999])]
        elif op == KILL:
            a = [r.choice([15, 9, 1, 2, 10, 12, 18, 18, 0, -5]), jid]
        elif op == RENICE:
            a = [r.choice([0, 5, 19, 20, -1, -1, -3, -5, -20, 21, -21]), jid]
        elif op:
            a = [jid]
        else:
            op, a = r.choice([(201, [0, 1]), (0, []), (-1, [4, 4]), (106, [0])])
        T = t + .1 + k / 1000
        if T - seen.get(cid, 27) > 590:         # closed, or about to be: another connection
            now_cid[cid] = 100 + k
            sc.append((T - .05, 'conn %d %d %d' % (now_cid[cid], uid, uid)))
        seen[cid] = T
        x = now_cid.get(cid, cid)
        cmds.append((T, x, uid, op, a))
        sc.append((T, 'send %d %s' % (x, L(op, *a).hex())))
    for t in range(60, end, 500):
        sc.append((t + .05, 'lavg %s 1 1' % r.choice(['0.2', '0.2', '1.4', '3.0'])))
    if rm:
        sc += [(rm + .06, 'touch rm.bob'), (rm + .07, 'sig HUP')]
    sc.append((end, 'end'))
    sc.sort(key=lambda x: x[0])
    run = w.daemon(sc, NOW, head=['lavg 1.4 1 1'], tz='UTC', timeout=100)
    if not o.sane(run, 'daemon'):
        return
    judge(o, run, jobs, cmds, rm, end, clients)

def judge(o, run, jobs, cmds, rm, end, clients):
    ctx = dict(lines=[(j.u, j.line) for j in jobs])
    answers = collections.defaultdict(bytes)
    last, lastcmd = {}, {}
    it = iter(cmds)
    bykey = {}
    order = collections.defaultdict(list)
    for T, cid, uid, op, a in cmds:
        order[cid].append((T, op, a))
    cur = {}
    for e in run.events:
        if e['ev'] == 'send':
            cur[e['cid']] = cur.get(e['cid'], -1) + 1
        elif e['ev'] == 'rsp':
            answers[e['cid'], cur.get(e['cid'], -1)] += e['data'].encode('latin-1')
            last.setdefault((e['cid'], cur.get(e['cid'], -1)), e['t'])
    def bad(key, msg, **kw):
        o.bad(key, msg, **dict(kw, **ctx))
    txt = strings(answers[0, 0])
    head, rows, extra = table(txt or [])
    byname = {j.name: j for j in jobs}
    for d in rows:
        j = byname.get(d['CMD'].split()[0])
        if j is None or j.id is not None or d['USER'] != j.u:
            bad('first-listing', 'the first listing of all jobs shows an unknown, repeated or misattributed job', row=d)
            return
        j.id, j.due = int(d['ID']), when(d['SCHEDULE'])
    if [j for j in jobs if j.id is None] or len({j.id for j in jobs}) != len(jobs):
        bad('first-listing', 'the first listing of all jobs misses some or gives the same id twice', rows=rows)
        return
    for j in jobs:
        if j.td is not None and j.due != j.after(NOW - 1) and j.due != j.after(NOW):
            bad('schedule-shown', 'the time shown is not the next one of the line', job=j.line, shown=stamp(j.due))
    byid = {j.id: j for j in jobs}
    pids = collections.defaultdict(list)
    lstart = []
    for e in run.events:
        if e['ev'] == 'exec':
            pids[name_of(e)].append((e['t'], e['job']))
    used = {k: 0 for k in byname}
    kills = [e for e in run.events if e['ev'] == 'kill']
    renices = [e for e in run.events if e['ev'] == 'renice']
    ki, ri = [0], [0]
    serialq, serial_running = [], []
    gone = []                    # pids of jobs no longer in an fcrontab
    alive = True
    rank = [0]

    def start(j, t):
        """the model says one instance starts at t: find it"""
        k = used[j.name]
        ok = k < len(pids[j.name]) and abs(pids[j.name][k][0] - t) < .9
        if not ok:
            bad('not-started', 'a job which should have started did not', job=j.line, at=t, seen=pids[j.name][k:k + 2])
            raise StopIteration
        used[j.name] += 1
        t0, pid = pids[j.name][k]
        rank[0] += 1
        j.run.append([pid, t0 + j.dur, rank[0]])
        return pid

    def serve(t):
        while serialq and not serial_running:
            j = serialq.pop(0)
            j.nq -= 1
            serial_running.append(start(j, t))

    def launch(j, t):
        """what being due, or run, does; returns what happened"""
        if j.kind == 'plain':
            if j.n() == 0 or j.multi:
                start(j, t)
                return 'started'
            return 'already'
        if j.n() and not j.multi:
            return 'already'
        if j.kind == 'serial':
            if len(serialq) >= 30:
                return 'full'
            j.nq += 1
            serialq.append(j)
            return 'queued'
        if sum(x.nq for x in jobs if x.kind == 'lavg') >= 30:
            return 'full'
        j.nq += 1
        j.until_t.append(int(t) + NOW + j.until if j.until else 0)
        return 'queued'

    # lavg starts are taken from the trace: they must be of a queued job
    ltl = sorted((t, n) for n in byname if byname[n].kind == 'lavg' for t, _ in pids[n])

    def lav_until(t):
        while ltl and ltl[0][0] <= t:
            x, n = ltl.pop(0)
            j = byname[n]
            if j.nq < 1:
                bad('not-queued', 'a load-dependent job started although it did not wait', job=j.line, at=x)
                raise StopIteration
            j.nq -= 1
            j.until_t.pop(0)
            start(j, x)

    def advance(t, strict):
        """everything which happens before t"""
        while True:
            nd = min((j.due - NOW for j in jobs if j.u != 'bob' or alive), default=1e18)
            ne = min([x[1] for j in jobs for x in j.run] + [x[1] for x in gone], default=1e18)
            nl = ltl[0][0] if ltl else 1e18
            m = min(nd, ne, nl)
            if m >= t:
                return
            if ne == m:
                for j in jobs:
                    for x in [x for x in j.run if x[1] == m]:
                        j.run.remove(x)
                        if x[0] in serial_running:
                            serial_running.remove(x[0])
                for x in [x for x in gone if x[1] == m]:
                    gone.remove(x)
                    if x[0] in serial_running:
                        serial_running.remove(x[0])
                serve(m)
            elif nd == m:
                for j in sorted(jobs, key=lambda j: j.due):
                    if j.due - NOW == m and (j.u != 'bob' or alive):
                        dues.append(j)
                # several due at once: any order among them is as good (plain jobs do not interact)
                ds = [j for j in jobs if j.due - NOW == m and (j.u != 'bob' or alive)]
                if len([j for j in ds if j.kind == 'serial']) > 1:
                    raise Ambiguous()
                for j in ds:
                    launch(j, m)
                    j.due = j.after(j.due)
                serve(m)
            else:
                lav_until(m)
    dues = []

    class Ambiguous(Exception):
        pass

    def expect(uid, op, a, T):
        """model one command; returns (key, problem) """
        raise NotImplementedError

    idx = collections.Counter()
    nontriv = 0
    try:
        for T, cid, uid, op, a in cmds:
            if rm and alive and rm + .06 < T:
                advance(rm + .07, 1)
                alive = False
                for j in jobs:
                    if j.u == 'bob':
                        gone += j.run
                        j.run = []
                        if j.kind == 'serial':
                            serialq = [x for x in serialq if x is not j]
                        j.nq = 0
                serve(rm + .07)
            advance(T, 0)
            k = idx[cid]
            idx[cid] += 1
            data = answers.get((cid, k), b'')
            root, me = uid == 0, WHO.get(uid)
            lab = NAMES.get(op, 'other')
            here = dict(at=T, caller=me, command=[lab] + a, answer=data.decode('latin-1')[:1500])
            txt = strings(data)
            if txt is None:
                bad('answer:' + lab, 'the answer is missing, incomplete or not one single answer', **here)
                return
            if last[cid, k] > T + 1:
                bad('late-answer', 'an answer came late', **here)
            live = [j for j in jobs if j.u != 'bob' or alive]
            head, rows, extra = table(txt)
            text = ''.join(txt)
            if op in (LS, LAVGQ, SERIALQ, EXEQ):
                o.count('listings')
                who = 'ALL' if a[0] == -1 else WHO.get(a[0])
                if not root and (who != me):
                    if rows:
                        bad('saw-others', 'a user was shown jobs of others', **here)
                    elif 'not allowed' not in text and 'Invalid' not in text:
                        bad('denial', 'a user was not told he may not list the jobs of others', **here)
                    o.count('denied')
                    o.sig(lab, me, 'denied', who)
                    continue
                if who is None:
                    if rows or 'Invalid user' not in text:
                        bad('unknown-user', 'a listing of an unknown user was not refused', **here)
                    continue
                sel = [j for j in live if who in ('ALL', j.u)]
                want = []
                for j in sel:
                    d = dict(ID=str(j.id), CMD=j.cmd)
                    if who == 'ALL':
                        d['USER'] = j.u
                    if op != LAVGQ:
                        d['SCHEDULE'] = stamp(j.due)
                    if op == LS:
                        want.append(d)
                    elif op == EXEQ:
                        want += [dict(d, PID=str(x[0])) for x in j.run]
                    elif op == SERIALQ and j.kind == 'serial':
                        want += [dict(d, INDEX=str(i)) for i, x in enumerate(serialq) if x is j]
                    elif op == LAVGQ and j.kind == 'lavg':
                        for ut in j.until_t:
                            want.append(dict(d, **{'LAVG 1,5,15 UNTIL       STRICT': '%.1f,0.0,0.0 %s' % (j.lv[0] / 10, stamp(ut) + ' Y' if ut else ' (no until set)')}))
                def norm(d):
                    d = dict(d)
                    full = d['CMD']
                    d['CMD'] = full if len(full) < 120 else full[:100]
                    for h in d:
                        if h.startswith('LAVG'):
                            d[h] = ' '.join(d[h].split())
                    return d
                A, B = canon(map(norm, rows)), canon(map(norm, want))
                if A != B:
                    bad('wrong:' + lab, 'a listing does not show exactly the jobs it should, as they are', want=B, got=A, **here)
                    return
                if not rows and 'No corresponding' not in text and not (op == EXEQ and root):
                    bad('wrong:' + lab, 'an empty listing does not say so', **here)
                if op == LS and [d['SCHEDULE'] for d in rows] != sorted(d['SCHEDULE'] for d in rows):
                    bad('order:ls', 'the listing is not in order of time', **here)
                if op == SERIALQ and [int(d['INDEX']) for d in rows] != sorted(int(d['INDEX']) for d in rows):
                    bad('order:serialq', 'the serial queue is not listed in order', **here)
                orph = [int(x) for l in extra for x in re.findall(r'no more in an fcrontab: pid (\d+)', l)]
                if op == EXEQ and sorted(orph) != (sorted(x[0] for x in gone) if root else []):
                    bad('orphans', 'the running jobs of a removed fcrontab are not shown to root (alone)', want=[x[0] for x in gone], **here)
                    return
                o.count('orphans', len(orph))
                o.count('listed', len(rows))
                if op != LS:
                    o.count('running' if op == EXEQ else 'queued', len(rows))
                if rows:
                    o.sig(lab, me, 'ALL' if who == 'ALL' else 'own' if who == me else 'other', min(len(rows), 4))
                continue
            if rows and op != DETAIL:
                bad('wrong:' + lab, 'a command which lists nothing answered with jobs', **here)
            if op not in NAMES:
                if 'Unknown command' not in text:
                    bad('unknown-command', 'an unknown command was not refused', **here)
                continue
            jid = a[-1]
            j = byid.get(jid)
            if j is not None and j not in live:
                j = None
            mine = j is not None and (root or j.u == me)
            state = 'none' if j is None else '%s%s%s' % (j.kind, '+run' * bool(j.run), '+q' * bool(j.nq))
            if op == DETAIL:
                want = [dict(ID=str(j.id), USER=j.u, OPTIONS=j.ostr, SCHEDULE=stamp(j.due), CMD=j.cmd)] if mine else []
                want = [dict(d, **{'R&Q': str(j.n())}) for d in want]
                if canon(rows) != canon(want):
                    bad('wrong:detail', 'the details of a job are wrong, or shown to one who may not see them', want=want, got=rows, **here)
                    return
                if not mine and 'No corresponding job' not in text:
                    bad('wrong:detail', 'a job which cannot be seen is not reported as unknown', **here)
                o.count('listed' if mine else 'denied')
                o.sig(lab, me, 'mine' if mine else 'not', state)
                continue
            if op in (RUN, RUNNOW):
                if not mine:
                    if 'No corresponding job' not in text:
                        bad('touched-others', 'running a job which does not exist or is not the caller\'s was not refused as such', **here)
                    o.count('denied')
                    o.sig(lab, me, 'denied', j is None)
                    continue
                res = launch(j, T)
                if op == RUNNOW:
                    j.due = j.after(j.due)
                    o.count('rescheduled')
                serve(T)
                said = {'started': 'started', 'already': 'already', 'queued': 'inserting', 'full': 'full'}[res]
                if said not in text and '(truncated)' not in text:
                    bad('answer-untrue', 'the answer does not tell what happened', happened=res, **here)
                o.count('skipped' if res == 'already' else 'ran')
                o.sig(lab, me == j.u, state, res)
                continue
            inst = [x for x in j.run] if mine else []
            if not inst:
                if 'No corresponding running job' not in text or '(The job may' not in text:
                    bad('touched-others', 'an action on a job which does not run or is not the caller\'s was not answered so', **here)
                o.count('denied')
                o.sig(lab, me, 'denied', state)
                continue
            ev = (kills, ki) if op == KILL else (renices, ri)
            valid = a[0] > 0 if op == KILL else -20 <= a[0] <= 20 and (root or a[0] >= 0)
            for x in inst:
                if not valid:
                    continue
                if ev[1][0] >= len(ev[0]) or abs(ev[0][ev[1][0]]['t'] - T) > 1:
                    bad('not-done:' + lab, 'nothing was done to a running job', pid=x[0], **here)
                    return
                ev[1][0] += 1
            did = [e for e in ev[0] if abs(e['t'] - T) < 1e-6]
            if sorted((e['pid'], e['sig' if op == KILL else 'val']) for e in did) != sorted((x[0], a[0]) for x in inst if valid):
                bad('wrong-target', 'the processes acted on are not those of the job named', want=[x[0] for x in inst], did=did, **here)
                return
            if valid and not all('process %d' % x[0] in text for x in inst) or not valid and 'Invalid arg' not in text:
                bad('answer-untrue', 'the answer does not tell what happened', **here)
            if valid and op == KILL and a[0] in (1, 2, 9, 15):
                for x in inst:
                    x[1] = T
                advance(T + 1e-6, 0)
            o.count('signalled' if op == KILL else 'reniced')
            o.sig(lab, me == j.u, state, valid, len(inst) > 1)
        if rm and alive:
            return
        advance(end - 2, 0)
    except StopIteration:
        return
    except Ambiguous:
        o.count('ambiguous')
        return
    if ki[0] != len(kills) or ri[0] != len(renices):
        bad('wrong-target', 'a process was signalled or reniced although nobody asked for it', kills=kills[ki[0]:], renices=renices[ri[0]:])
    for n, j in byname.items():
        rest = [x for x in pids[n][used[n]:] if x[0] < end - 2]
        if rest and j.kind != 'lavg':
            bad('extra-start', 'a job started although it was neither due nor asked for', job=j.line, at=rest)

def canon(ds):
    return sorted(str(sorted(norm2(d).items())) for d in ds)

def norm2(d):
    """long commands are shown cut"""
    d = dict(d)
    if len(d['CMD']) > 90:
        d['CMD'] = d['CMD'][:90]
    return d

def long(c, o, r, w):
    """listings longer than a socket holds, to readers fast and slow"""
    n = r.choice([250, 400, 900, 1000])
    x = w.install('alice', ''.join('@ %ds k%d %s\n' % (20000 + i, i, 'x' * r.choice([3, 60])) for i in range(n)), now=NOW)
    if not o.sane(x, 'fcrontab') or x.rc:
        raise RuntimeError(x.err)
    sc = [(30.1, 'conn 1 2001 2001'), (30.2, 'conn 2 0 0')]
    slow = r.random() < .7
    if slow:
        sc.append((30.3, 'noread 1'))
    sc += [(31.1, 'send 1 ' + L(LS, 2001).hex()), (32.1, 'send 2 ' + L(LS, -1).hex())]
    if slow:
        k = r.choice([40.1, 300.1])
        sc += [(k, 'doread 1')]
    sc += [(500.1, 'send 1 ' + L(DETAIL, 7).hex()), (501.1, 'send 2 ' + L(SERIALQ, 2001).hex()), (600, 'end')]
    run = w.daemon(sc, NOW, tz='UTC')
    if not o.sane(run, 'daemon'):
        return
    got = collections.defaultdict(bytes)
    for e in run.ev('rsp'):
        got[e['cid'], e['t'] > 500] += e['data'].encode('latin-1')
    for cid in (1, 2):
        t = strings(got[cid, False])
        head, rows, extra = table(t or [])
        if t is None or len(rows) != n or {d['CMD'].split()[0] for d in rows} != {'k%d' % i for i in range(n)}:
            o.bad('long-listing', 'a long listing is incomplete', jobs=n, rows=len(rows), slow=slow, ended=t is not None)
        t = strings(got[cid, True])
        if t is None or len(t) != 2:
            o.bad('long-next', 'the command after a long listing is not answered', got=got[cid, True][-300:].decode('latin-1'))
        o.count('long')
    o.sig('long', n, slow)

ARGS = ['ls', 'ls_exeq', 'ls_lavgq', 'ls_serialq', 'detail', 'run', 'runnow', 'kill', 'renice']
SIG = dict(hup=1, int=2, quit=3, kill=9, alrm=14, term=15, usr1=10, usr2=12, cont=18, stop=19, tstp=20)

def request(r, user):
    """a command as typed, what it means (None: must not be sent)"""
    uid = UID[user]
    op = r.choice(ARGS)
    code = {v: k for k, v in NAMES.items()}[op]
    sp = lambda: r.choice([' ', '  ', '\t'])
    if op.startswith('ls'):
        u = r.choice([None, 'alice', 'bob', 'root', 'systab', 'nobodyhere'])
        if u is None:
            return op + r.choice(['', ' ']), (code, -1 if uid == 0 else uid)
        return op + sp() + u, None if u == 'nobodyhere' else (code, UID[u])
    j = r.choice(['0', '7', '123456', '4000000000', 'x', '-3', ''])
    ok = j.isdigit()
    if op in ('detail', 'run', 'runnow'):
        return op + sp() + j, (code, int(j)) if ok else None
    if op == 'kill':
        s = r.choice(list(SIG) + ['TERM', 'Usr1', '9', '64', 'nosig', '0', '-1', '9x'])
        v = SIG.get(s.lower(), int(s) if s.isdigit() and int(s) else None)
    else:
        s = r.choice(['0', '5', '20', '21', '-5', '-20', '-21', 'x', '3x'])
        v = int(s) if re.fullmatch(r'-?\d+', s) else None
        if s == 'x':
            v = None
        if v is not None and (v > 20 or v < -20 or v < 0 and uid):
            v = None
    return op + sp() + s + sp() + j, (code, v, int(j)) if ok and v is not None else None

def client(c, o, r, w):
    w.install('alice', '@ 1d x\n', now=NOW)
    user = r.choice(['root', 'alice', 'bob'])
    inter = r.random() < .5
    reqs = [request(r, user) for _ in range(r.randint(2, 6) if inter else 1)]
    path = w.root + '/run/fifo'
    s = socket.socket(socket.AF_UNIX)
    s.bind(path)
    os.chmod(path, 0o777)
    s.listen(5)
    got, want_out, err = [], [], []
    plan = []
    for _ in range(8):
        # an answer, and how it is cut
        lines = ['%-5d|%s|%s' % (i, 'user', 'q' * r.randint(0, 150)) for i in range(r.choice([1, 3, 30, 60]))]
        style = r.choice(['nul', 'nl'])
        data = b''.join((l + '\n').encode() + (b'\0' if style == 'nul' else b'') for l in lines) + END
        cuts = sorted(r.sample(range(1, len(data)), min(r.choice([0, 1, 3, 10]), len(data) - 1)))
        if r.random() < .5:
            cuts = sorted(set(cuts + [len(data) - k for k in r.choice([[1], [2], [1, 2], [3], [2, 3]])]))
        if r.random() < .3:     # answers whose end falls around a multiple of the client's buffer
            pad = (1023 * r.randint(1, 3) + r.choice([1, 2, 3, 4])) - len(data)
            if 0 < pad:
                data = b'P' * (pad - 1) + b'\n' + data
                cuts = []
                lines = ['P' * (pad - 1)] + lines
        plan.append((lines, data, cuts))
    def serve():
        try:
            k, _ = s.accept()
            n = 0
            while True:
                b = k.recv(4096)
                if not b:
                    return
                got.append(b)
                lines, data, cuts = plan[n % len(plan)]
                n += 1
                p = 0
                for x in cuts + [len(data)]:
                    k.sendall(data[p:x])
                    p = x
                    time.sleep(.004)
        except OSError as e:
            err.append(e)
    th = threading.Thread(target=serve, daemon=True)
    th.start()
    try:
        if inter:
            x = w.cli('fcrondyn', ['-c', w.conf_path] + (['-i'] if r.random() < .5 else []), user, stdin=('\n'.join(q for q, _ in reqs) + r.choice(['\n', '\nquit\n', '\nq\n'])).encode(), timeout=25)
        else:
            x = w.cli('fcrondyn', ['-c', w.conf_path, '-x', reqs[0][0]], user, timeout=25)
    except Inconclusive:
        o.bad('client-hung', 'fcrondyn did not end although it was answered', requests=[q for q, _ in reqs], cuts=[(len(p[1]), p[2]) for p in plan])
        return
    finally:
        try:
            s.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        s.close()
    if not o.sane(x, 'fcrondyn', range(256)):
        return
    want = [L(*q) for _, q in reqs if q is not None]
    if got != want:
        o.bad('request', 'fcrondyn did not send exactly what was asked for', requests=reqs, got=[struct.unpack('%dq' % (len(b) // 8), b[:len(b) // 8 * 8]) for b in got], err=x.err[-400:].decode('latin-1'))
        return
    out = x.out.decode('latin-1')
    out = [l for l in out.split('\n') if l and not l.startswith('fcrondyn>')]
    exp = [l for n in range(len(want)) for l in plan[n][0] if l]
    if not inter and out != exp or inter and [l for l in out if l in set(exp)] != exp:
        o.bad('answer-shown', 'fcrondyn did not show the answer as it was', want=exp[:50], got=out[:50], cuts=[(len(p[1]), p[2]) for p in plan[:len(want)]])
    if not inter and (x.rc == 0) != bool(want):
        o.bad('client-status', 'the exit status of fcrondyn does not tell whether the command was accepted', request=reqs[0], rc=x.rc, err=x.err[-300:].decode('latin-1'))
    o.count('requests', len(want))
    o.count('pieces', sum(len(plan[n][2]) for n in range(len(want))))
    for q, v in reqs:
        o.sig('client', user == 'root', re.sub(r'\s+', ' ', q)[:40], v is None, inter)

def run_case(c, o):
    r = rng(c['seed'], 'p16', c['kind'], c['i'])
    w = World(r.choice(['asan', 'asan', 'ubsan']))
    try:
        globals()[c['kind']](c, o, r, w)
    finally:
        w.close()

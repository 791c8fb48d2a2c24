"""P17: clients of the control socket cannot crash, block, bypass or starve the daemon."""
from fc import *
import struct
from p16 import L, strings, table, END, UID, LS, LAVGQ, SERIALQ, EXEQ, DETAIL, RUNNOW, RUN, KILL, RENICE

RULE = ('the real daemon runs jobs every minute and every few seconds while many simulated clients (identified, unknown, or unable to prove who they are) send random, mutated, truncated, joined and huge messages, disconnect, stop reading, '
        'flood the list of connections, guess passwords or stay idle; every start must be on time, well-formed clients answered, nothing told or done to others, connections over the limit and after their limits closed, and passwords '
        'accepted exactly as a model of the failures says. Distinct = (kind, identity, class of message or limit, outcome).')
ASSUMPTIONS = ['the kernel is trusted for sockets and identities; encrypted passwords are simulated', 'limits are looked at when the daemon wakes up, here at least every minute']
MUST_OBSERVE = ('starts', 'hostile', 'answered', 'over-limit', 'refilled', 'passwords', 'accepted', 'locked', 'truncated', 'closed-unauth', 'closed-idle', 'kept', 'unread', 'torn')
VARIANTS = ('asan', 'ubsan')
NOW = 1600000000 - 1600000000 % 3600
SECRET = 'sEcReTj'
UNKNOWN, UNPROVEN = 4999, -2

def cases(tier, seed):
    q = tier == 'quick'
    for kind, n in (('fuzz', 110 if q else 4000), ('limit', 40 if q else 800), ('auth', 110 if q else 3000), ('idle', 50 if q else 1200), ('stream', 24 if q else 400)):
        for i in range(n):
            yield dict(kind=kind, seed=seed, i=i)

# ---- jobs which must keep running on time
def jobs(w, o, extra=0):
    for u, t in (('alice', '& * * * * * %s-min' % SECRET + '\n' + '@ 37s %s-freq\n' % SECRET + ''.join('@ 2d %s-%d %s\n' % (SECRET, k, 'x' * 60) for k in range(extra))),
                 ('root', '& * * * * * %s-root dur=20\n' % SECRET)):
        x = w.install(u, t, now=NOW)
        if not o.sane(x, 'fcrontab') or x.rc:
            raise RuntimeError(x.err)

def on_time(o, run, end, asked=(), late=1.0, **ctx):
    """each job exactly when it is due, and only then"""
    st = execs(run, 't')
    for n in ('min', 'root'):
        want = [t for t in range(60, int(end) - 1, 60)]
        got = sorted(st.pop('%s-%s' % (SECRET, n), []))
        ok = [t for t in got if t < end - 1.5]
        if len(ok) != len(want) or any(not -.1 < g - t < late for g, t in zip(ok, want)):
            o.bad('not-on-time', 'jobs did not run on time while clients were connected', job=n, want=want[:40], got=ok[:40], **ctx)
            return
        o.count('starts', len(ok))
    got = sorted(st.pop(SECRET + '-freq', []))
    gaps = [b - a for a, b in zip(got, got[1:])]
    if not got or got[0] > 60 or any(abs(g - 37) > 1 + late for g in gaps) or end - got[-1] > 42:
        o.bad('not-on-time', 'a job did not run at its frequency while clients were connected', got=got[:40], **ctx)
        return
    o.count('starts', len(got))
    for n in list(st):
        if n in asked:
            st.pop(n)
    if any(st.values()):
        o.bad('ran', 'a job started although nobody allowed to asked for it', got={k: v for k, v in st.items()}, **ctx)
    k = [e for e in run.events if e['ev'] in ('kill', 'renice')]
    if k:
        o.bad('signalled', 'a process was signalled or reniced although nobody allowed to asked for it', got=k[:5], **ctx)

def answers(run):
    d = collections.defaultdict(list)
    for e in run.ev('rsp'):
        d[e['cid']].append((e['t'], e['data'].encode('latin-1')))
    return d

def hostile(r):
    """(class, bytes) no client should send"""
    k = r.choice(['random', 'short', 'code', 'args', 'others', 'joined', 'huge', 'pass', 'nonul', 'empty', 'extra'])
    big = lambda: r.choice([0, 1, -1, 2 ** 31, 2 ** 32, -2 ** 31, 2 ** 63 - 1, -2 ** 63, r.getrandbits(62), -100, 4999, 2001, 70000])
    codes = [LS, LAVGQ, SERIALQ, EXEQ, DETAIL, RUNNOW, RUN, KILL, RENICE]
    if k == 'random':
        b = bytes(r.getrandbits(8) for _ in range(r.choice([1, 7, 8, 15, 16, 24, 100, 800, 4000])))
    elif k == 'short':
        b = L(r.choice(codes), 9, 0)[:r.randint(1, 23)]
    elif k == 'code':
        b = L(big(), big(), big())
    elif k == 'args':
        b = L(r.choice(codes), *[big() for _ in range(r.randint(0, 3))])
    elif k == 'others':
        c = r.choice(codes)
        j = r.randint(0, 3)
        b = L(c, 2001 if c in (LS, LAVGQ, SERIALQ, EXEQ) else j) if c not in (KILL, RENICE) else L(c, r.choice([9, 15, 5, 19]), j)
    elif k == 'joined':
        b = b''.join(L(r.choice(codes), big(), big()) for _ in range(r.randint(2, 90)))
    elif k == 'huge':
        b = r.choice([b'A', b'\0', b'\xff']) * r.choice([801, 5000, 60000])
    elif k == 'pass':
        b = r.choice([b'alice', b'root', b'nobodyhere', b'', b'carol']) + b'\0' + r.choice([b'', b'wrong', b'x' * 700]) + b'\0'
    elif k == 'nonul':
        b = r.choice([b'alice', b'root\0pwroo', b'root\0', b'A' * 799, b'alice\0' + b'p' * 794, b'alice\0' + b'p' * 900])
    elif k == 'empty':
        b = b'\0' * r.randint(1, 4)
    else:
        b = L(LS, 2003, 5, 6, 7) + b'zzz'
    return k, b

def fuzz(c, o, r, w):
    jobs(w, o)
    x = w.install('carol', '@ 2d mine\n', now=NOW)
    end = 900
    sc = [(25.001, 'conn 1 2001 2001'), (25.002, 'conn 2 0 0')]
    good = []
    for t in range(40, end - 20, r.choice([17, 40, 90])):
        cid = r.choice([1, 2])
        if t - max([g[0] for g in good if g[1] == 3 - cid], default=25) > 300:
            cid = 3 - cid               # neither is idle
        op, a, n = r.choice([(LS, 2001, 2), (LS, -1, 4), (EXEQ, 0, None), (DETAIL, 10 ** 6, 0), (99, 1, 0)])
        if cid == 1 and op in (LS, EXEQ):
            op, a, n = LS, 2001, 2
        T = t + r.choice([.3, .52, .0])
        good.append((T, cid, op, a, n))
        sc.append((T, 'send %d %s' % (cid, L(op, a).hex())))
    n = r.randint(2, 20)
    who, sent = {}, collections.Counter()
    for k in range(n):
        t = r.uniform(26, end * .8)
        cid = 10 + k
        uid = who[cid] = r.choice([2003, 2003, UNKNOWN, UNPROVEN])
        sc.append((t, 'conn %d %d %d' % (cid, uid, 4000)))
        for _ in range(r.choice([0, 1, 5, 30])):
            t += r.choice([0, 0, .0001, .2, 3, 40])
            if t > end - 10:
                break
            kind, b = hostile(r)
            if kind == 'huge' or r.random() < .1:
                p = r.choice([1, 8, 16, 600])
                if len(b) / p < 60:
                    for q in range(0, len(b), p):
                        sc.append((t, 'send %d %s' % (cid, b[q:q + p].hex())))
                        t += r.choice([0, .01])
                    continue
            sc.append((t, 'send %d %s' % (cid, b.hex())))
            sent[uid, kind] += 1
            if r.random() < .05:
                sc.append((t, r.choice(['noread', 'doread']) + ' %d' % cid))
        if r.random() < .5:
            sc.append((min(t + r.choice([0, .001, 5]), end - 5), 'close %d' % cid))
    sc.append((end, 'end'))
    sc.sort(key=lambda x: x[0])
    run = w.daemon(sc, NOW, tz='UTC', timeout=100)
    if not o.sane(run, 'daemon'):
        return
    ctx = dict(case=sorted(map(str, sent)))
    on_time(o, run, end, asked=('mine',), **ctx)
    ans = answers(run)
    for T, cid, op, a, n in good:
        d = [x for t, x in ans[cid] if T <= t < T + 1]
        txt = strings(b''.join(d))
        if txt is None:
            o.bad('starved', 'a well-formed client was not answered (completely) at once', at=T, client=cid, op=op, got=b''.join(d)[-200:].decode('latin-1'), **ctx)
            return
        if n is not None and len(table(txt)[1]) != n:
            o.bad('starved', 'a well-formed client got a wrong answer', at=T, op=op, want=n, got=txt, **ctx)
        o.count('answered')
    eofs = {e['cid'] for e in run.ev('eof')}
    if eofs & {1, 2}:
        o.bad('closed', 'a well-formed, active client was disconnected', got=sorted(eofs), **ctx)
    for cid, uid in who.items():
        d = b''.join(x for _, x in ans[cid])
        if SECRET.encode() in d:
            o.bad('leaked', 'a client was told of jobs it may not see', uid=uid, got=d[:600].decode('latin-1'), **ctx)
        if uid != 2003 and d.replace(b'0\0', b''):
            o.bad('unauth-answer', 'a client which did not prove who it is was answered something else than a refusal', uid=uid, got=d[:600].decode('latin-1'), **ctx)
        if uid == 2003 and d and b'\0' not in d:
            o.bad('unended', 'an answer has no end', got=d[:300].decode('latin-1'), **ctx)
    for (uid, kind), k in sent.items():
        o.count('hostile', k)
        o.sig('fuzz', uid, kind, min(k, 3))

def limit(c, o, r, w):
    jobs(w, o)
    end = 420
    sc, t, cid, op = [], 25.0, 0, []
    for _ in range(r.randint(30, 120)):
        t += r.choice([0, .001, .001, .5, 3, 6]) + 1e-4
        if t > end - 80:
            break
        if op and r.random() < .25:
            k = op.pop(r.randrange(len(op)))
            sc.append((t, 'close %d' % k))
        else:
            cid += 1
            op.append(cid)
            sc.append((t, 'conn %d %d %d' % (cid, r.choice([2001, 2003, 0]), 1)))
    for k in range(1, cid + 1):
        sc.append((end - 30 + k * .05, 'send %d %s' % (k, L(DETAIL, 10 ** 6).hex())))
    sc.append((end, 'end'))
    sc.sort(key=lambda x: x[0])
    run = w.daemon(sc, NOW, tz='UTC', timeout=100)
    if not o.sane(run, 'daemon'):
        return
    on_time(o, run, end)
    live, refused, over = [], set(), 0
    eof = {e['cid']: e['t'] for e in run.ev('eof')}
    was_full = False
    for e in run.events:
        if e['ev'] == 'conn':
            if e['ret']:
                refused.add(e['cid'])
            elif len(live) < 25:
                live.append(e['cid'])
                if was_full:
                    o.count('refilled')
            else:
                was_full = True
                over += 1
                refused.add(e['cid'])
                if e['cid'] not in eof or eof[e['cid']] > e['t'] + 1:
                    o.bad('over-limit', 'a connection over the limit was not closed', connected=len(live), at=e['t'], closed=eof.get(e['cid']))
                    return
        elif e['ev'] == 'cclose' and e['cid'] in live:
            live.remove(e['cid'])
    gone = [k for k in live if k in eof]
    if gone:
        o.bad('closed', 'a connection within the limits was closed', which=gone, n=len(live), at=[eof[k] for k in gone])
    ans = answers(run)
    dead = [k for k in live if strings(b''.join(d for _, d in ans[k])) is None]
    if dead:
        o.bad('starved', 'a client within the limit was not answered', which=dead, n=len(live))
    acc = {e['cid'] for e in run.ev('rsp')}
    if acc & refused:
        o.bad('over-limit', 'a client over the limit was served', which=sorted(acc & refused))
    o.count('over-limit', over)
    o.sig('limit', min(over, 20), len(live))

def auth(c, o, r, w):
    jobs(w, o)
    for u in ('bob', 'carol'):
        w.install(u, '@ 2d own-%s\n' % u, now=NOW)
    sc, T, cid, msgs, cmds = [], 30.1, 0, [], []
    fail, last, user = 0, -1e9, {}
    open_ = {}
    style = r.choice(['mix', 'mix', 'guess', 'guess', 'guess'])
    asked = []
    for _ in range(r.randint(15, 60)):
        # keep clear of the very second at which guessing is allowed again
        T += r.choice([.2, .2, 1, 5, 20] + ([61, 70, 130] if style == 'mix' or r.random() < .2 else []))
        while 58 <= int(T) - last <= 61:
            T += 1
        for k in [k for k in open_ if T - open_[k] > 50]:
            del open_[k]
        if not open_ or r.random() < .2 and len(open_) < 12:
            cid += 1
            open_[cid] = T
            user[cid] = None
            sc.append((T, 'conn %d %d 1' % (cid, r.choice([UNKNOWN, UNPROVEN]))))
            T += .05
        k = r.choice(list(open_))
        if user[k] is None:
            u = r.choice(['bob', 'carol', 'alice', 'root'])
            m = r.choice(['good'] + ['wrong'] * (5 if style == 'mix' else 9) + ['cut', 'cut', 'unknown', 'command'])
            good = ('pw' + u).encode()
            if style == 'guess' and m == 'good' and r.random() < .5:
                m = 'wrong'
            p = {'good': good, 'wrong': r.choice([b'', b'x', good[:-1], good + b'x', good[1:], good.upper(), b'Cpw' + u.encode(), b'w' * 60]), 'cut': b'', 'unknown': good, 'command': b''}[m]
            if m == 'unknown':
                u = r.choice(['nobodyhere', '', 'bobb', 'u' * 60, 'BOB'])
            b = u.encode() + b'\0' + p + b'\0'
            if m == 'cut':
                b = r.choice([u.encode(), u.encode() + b'\0', u.encode() + b'\0' + good, u.encode() + b'\0' + good[:-2], b'q' * 70, u.encode() + b'\0' + b'y' * 60])
            elif m == 'command':
                b = r.choice([L(LS, -1), L(RUN, 0), L(RUN, 3), L(KILL, 15, 0), L(RUNNOW, 1)])
            sent = b
            want = b'0\0'
            st = 'refused'
            if m in ('good', 'wrong'):
                if fail and int(T) - last >= 60:
                    fail = 0
                if fail >= 10:
                    st = 'locked'
                elif m == 'good':
                    want, st = b'1\0', 'accepted'
                    user[k] = u
                else:
                    fail += 1
                    last = int(T)
            elif m == 'cut':
                st = 'truncated'
            msgs.append((T, k, m, want, st, fail, u))
            sc.append((T, 'send %d %s' % (k, b.hex())))
        else:
            op, a = r.choice([(LS, UID[user[k]]), (LS, 2001), (LS, -1), (DETAIL, 10 ** 6)])
            cmds.append((T, k, user[k], op, a))
            sc.append((T, 'send %d %s' % (k, L(op, a).hex())))
    end = int(T) + 30
    sc.append((end, 'end'))
    sc.sort(key=lambda x: x[0])
    run = w.daemon(sc, NOW, tz='UTC', timeout=100)
    if not o.sane(run, 'daemon'):
        return
    on_time(o, run, end)
    ans = answers(run)
    closed = {e['cid']: e['t'] for e in run.ev('eof')}
    for T, k, m, want, st, nf, u in msgs:
        got = b''.join(d for t, d in ans[k] if T - .002 < t < T + .148)
        if got != want:
            o.bad('password:' + st, 'an attempt to prove an identity was not answered as it should', at=T, kind=m, failures=nf, got=got.decode('latin-1'), want=want.decode('latin-1'), closed=closed.get(k),
                  history=[(round(x[0], 1), x[2], x[4]) for x in msgs if x[0] <= T][-30:])
            return
        o.count('passwords')
        if st in ('locked', 'accepted', 'truncated'):
            o.count(st)
        o.sig('auth', m, st, min(nf, 10), u in ('root',))
    names = {'alice': 2, 'root': 1, 'bob': 1, 'carol': 1}
    for T, k, u, op, a in cmds:
        got = b''.join(d for t, d in ans[k] if T - .002 < t < T + .148)
        txt = strings(got)
        if txt is None:
            o.bad('starved', 'a client which gave its password was not answered', at=T, op=op, user=u, got=got.decode('latin-1'))
            return
        rows = table(txt)[1]
        n = 0
        if op == LS:
            n = 5 if a == -1 and u == 'root' else 2 if a == 2001 and u in ('root', 'alice') else names[u] if a == UID[u] else 0
        if len(rows) != n:
            o.bad('wrong-user', 'a client does not act as the user whose password it gave', user=u, op=op, arg=a, want=n, got=txt)
            return
        o.count('answered')

def idle(c, o, r, w):
    jobs(w, o)
    end = r.choice([700, 1500, 2000])
    sc, want = [], {}
    for cid in range(1, r.randint(3, 20)):
        t = t0 = round(r.uniform(25, end / 2), 2)
        uid = r.choice([2001, 0, 2003, UNKNOWN, UNPROVEN, UNKNOWN])
        known = uid in (2001, 0, 2003)
        sc.append((t, 'conn %d %d 1' % (cid, uid)))
        if known:
            for _ in range(r.choice([0, 0, 1, 3, 5])):
                g = r.choice([5, 100, 400, 590])
                if t + g < end - 5:
                    t += g
                    sc.append((t, 'send %d %s' % (cid, r.choice([L(DETAIL, 10 ** 6), L(LS, uid), b'xx', L(RUN, 10 ** 6)]).hex())))
            want[cid] = (uid, t, 600)
        else:
            for _ in range(r.choice([0, 0, 1, 6])):
                t += r.choice([1, 10, 30])
                if t < min(t0 + 300, end - 5):
                    sc.append((t, 'send %d %s' % (cid, r.choice([b'alice\0wrong\0', b'x', b'\0\0', b'nobodyhere\0x\0', b'alice\0']).hex())))
            want[cid] = (uid, t0, 60)
    sc.append((end, 'end'))
    sc.sort(key=lambda x: x[0])
    run = w.daemon(sc, NOW, tz='UTC', timeout=100)
    if not o.sane(run, 'daemon'):
        return
    on_time(o, run, end)
    eof = {e['cid']: e['t'] for e in run.ev('eof')}
    for cid, (uid, t, lim) in want.items():
        x = eof.get(cid)
        if x is not None and x < t + lim - 1.5:
            o.bad('closed-early', 'a connection was closed before its limit', uid=uid, since=t, closed=x, limit=lim)
            return
        # the daemon wakes up every minute at least, and its clock has seconds
        if t + lim + 40 < end and (x is None or x > t + lim + 39.5):
            o.bad('not-closed', 'a connection stayed open after its limit', uid=uid, since=t, closed=x, limit=lim, end=end)
            return
        o.count('kept' if x is None else 'closed-unauth' if lim == 60 else 'closed-idle')
        o.sig('idle', uid, x is not None)

def stream(c, o, r, w):
    """clients which ask for much and do not read it"""
    n = r.choice([300, 900])
    jobs(w, o, extra=n)
    end = 900
    sc, who = [], {}
    for k in range(1, r.randint(2, 14)):
        t = r.uniform(25, 300)
        uid = r.choice([2001, 0])
        sc.append((t, 'conn %d %d 1' % (k, uid)))
        sc.append((t + .1, 'noread %d' % k))
        m = r.choice([1, 1, 2, 5])
        for q in range(m):
            sc.append((t + .2 + q * r.choice([.001, 1]), 'send %d %s' % (k, L(LS, 2001).hex())))
        how = r.choice(['read', 'read', 'close', 'close', 'never'])
        x = t + r.choice([8, 100, 400])
        if how == 'read':
            sc.append((x, 'doread %d' % k))
        elif how == 'close':
            sc.append((x, 'close %d' % k))
        who[k] = (how, m, t)
    sc += [(840.1, 'conn 99 0 0'), (841.1, 'send 99 ' + L(DETAIL, 10 ** 7).hex()), (845, 'probe'), (end, 'end')]
    sc.sort(key=lambda x: x[0])
    run = w.daemon(sc, NOW, tz='UTC', timeout=100)
    if not o.sane(run, 'daemon'):
        return
    on_time(o, run, end, late=2.0)
    ans = answers(run)
    if strings(b''.join(d for _, d in ans[99])) is None:
        o.bad('starved', 'a well-formed client was not answered because of others', got=str(ans[99])[:300])
    for k, (how, m, t) in who.items():
        d = b''.join(d for _, d in ans[k])
        if how == 'read':
            rows = table([x for x in d.decode('latin-1').split('\0') if x])[1]
            # requests sent together may be read as one
            if not d.endswith(END) or len(rows) not in [(n + 2) * q for q in range(1, m + 1)]:
                o.bad('torn', 'what a slow client got in the end is incomplete', rows=len(rows), jobs=n + 2, requests=m, tail=d[-100:].decode('latin-1'))
                return
        o.count('unread' if how != 'read' else 'torn')
        o.sig('stream', how, m, n)

def run_case(c, o):
    r = rng(c['seed'], 'p17', c['kind'], c['i'])
    w = World(r.choice(['asan', 'asan', 'ubsan']))
    try:
        globals()[c['kind']](c, o, r, w)
    finally:
        w.close()

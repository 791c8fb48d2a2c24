"""P09: a damaged or hostile compiled fcrontab cannot crash, corrupt or subvert the daemon."""
from fc import *
import fc, os, struct, math

RULE = ('valid compiled fcrontabs are damaged (fields with other types, sizes, values, lengths, repeated, missing, reordered; bytes '
        'changed, cut, spliced; hostile owners) and given to the real daemon as spool file or as new file, next to a healthy one '
        'of another user, through start, reload, full reload, dump, save and restart; sanitizers watch, the healthy jobs must start '
        'on time and the jobs of the damaged file only as its owner. Distinct = (how it was damaged, how it came, what became of it).')
MUST_OBSERVE = ('healthy_starts', 'hostile_starts', 'refused', 'reloads', 'restarts', 'foreign_owner')
VARIANTS = ('asan', 'ubsan')

def cases(tier, seed):
    n = dict(quick=(420, 300, 160), thorough=(16000, 9000, 4000))[tier]
    for kind, k in zip(('field', 'byte', 'value'), n):
        for i in range(k):
            yield dict(kind=kind, seed=seed, i=i)

BASE = ['@first(5s) 60s h1 dur=.2', '&lavg(1,2,3),until(300s) * * * * * h2 dur=.2', '&serial,mailto(bob),nice(5) */2 * * * * h3 dur=.2',
        '%nightly * 21-23,3-5 h4', '%hours,bootrun,noticenotrun * 0-20 * * * h5 dur=.2', '@runatreboot,volatile,first(30s) 90s h6 dur=.2',
        '&timezone(Europe/Paris),jitter(10) * * * * * h7 dur=.2', '&exesev,runfreq(2),mailfrom(foo) * * * * * h8 dur=.2', '@lavgonce,lavg1(0.5) 3m h9',
        '&dayor(true),bootrun,runas(bob) * * 1 * 1 h10', '&runonce,runatreboot 0 0 1 1 * h11', '%weekly,strict 0 1 h12', '@until(10s),lavg(0,0,0.5) 45s h13',
        '@reboot h14 dur=1', '@hourly h15', '&serialonce,exesev(false) * * * * * h16 dur=1']

NUMS = [0, 1, -1, 2, 59, 60, 255, 256, 65535, 65536, 2 ** 31 - 1, 2 ** 31, -2 ** 31, 2 ** 32, 2 ** 62, 2 ** 63 - 1, -2 ** 63, 971859427200,
        971859427201, 10 ** 15, 4 * 10 ** 17]

def enc(f):
    return b''.join(struct.pack('<HH', t & 65535, n & 65535) + d for t, n, d in f)

def numfield(r, t, S):
    v = r.choice(NUMS + [S, S + 10, S - 10, S + 100000, r.getrandbits(64) - 2 ** 63])
    return (t, 8, v.to_bytes(8, 'little', signed=True))

def hurt(r, kind, data, S):
    f = [(t, len(d), d) for t, d in spool_fields(data)]
    what = []
    NUMT = (3, 2002, 2004, 2008, 2009, 2010, 2011, 2018, 2020, 2003, 2005, 4)
    if kind == 'byte':
        b = bytearray(data)
        for _ in range(r.choice([1, 1, 2, 5, 30])):
            k = r.choice(['flip', 'flip', 'cut', 'ins', 'del', 'splice', 'zero', 'tail'])
            what.append(k)
            if not b:
                break
            p = r.randrange(len(b))
            if k == 'flip':
                b[p] ^= 1 << r.randrange(8) if r.random() < .5 else r.randrange(1, 256)
            elif k == 'cut':
                del b[p:]
            elif k == 'ins':
                b[p:p] = bytes(r.randrange(256) for _ in range(r.choice([1, 2, 4, 8, 300])))
            elif k == 'del':
                del b[p:p + r.choice([1, 2, 4, 12, 100])]
            elif k == 'splice':
                q = r.randrange(len(b))
                b[p:p + 4] = b[q:q + r.choice([4, 12, 200])]
            elif k == 'zero':
                n = r.choice([4, 16, 512])
                b[p:p + n] = bytes(len(b[p:p + n]))
            else:
                b += bytes(r.randrange(256) for _ in range(r.choice([1, 3, 100, 5000])))
        return bytes(b), what
    if kind == 'value':
        for _ in range(r.choice([1, 2, 4, 8])):
            i = r.choice([i for i, x in enumerate(f) if x[0] in NUMT or 2012 <= x[0] <= 2017])
            t = f[i][0]
            what.append(t)
            if t in (2003, 2005, 2012, 2013, 2014, 2015, 2016, 2017):
                n = f[i][1]
                d = r.choice([bytes(n), b'\xff' * n, bytes(r.randrange(256) for _ in range(n))])
                f[i] = (t, n, d)
            else:
                f[i] = numfield(r, t, S)
        if r.random() < .3:
            i = r.choice([i for i, x in enumerate(f) if x[0] in (2000,)])
            f[i:i] = [numfield(r, r.choice(NUMT), S) for _ in range(r.randint(1, 3))]
        return enc(f), what
    for _ in range(r.choice([1, 1, 2, 4])):
        k = r.choice(['type', 'size', 'big', 'long', 'drop', 'dup', 'move', 'neg', 'odd', 'unknown', 'env', 'user', 'strings', 'trunc', 'empty', 'nul', 'unsafe', 'short'])
        what.append(k)
        i = r.randrange(len(f))
        t, n, d = f[i]
        if k == 'type':
            f[i] = (r.choice([x[0] for x in f] + [0, 1, 2, 3, 4, 1000, 2000, 9999, 65535]), n, d)
        elif k == 'size':
            f[i] = (t, r.choice([0, 1, 2, 7, 9, 16, 100, 4000, 32767, n + 1, max(0, n - 1)]), d)
        elif k == 'neg':
            f[i] = (t, r.choice([32768, 65535, 65534, 65528, 40000]), d)
        elif k == 'big':           # a field longer than what it is read into
            m = r.choice([9, 12, 24, 64, 600, 5000, 30000])
            f[i] = (t, m, bytes(r.choice([0, 255, 65]) for _ in range(m)))
        elif k == 'short':
            m = r.randint(0, 7)
            f[i] = (t, m, d[:m] + bytes(max(0, m - len(d))))
        elif k == 'long':
            m = r.choice([1020, 1021, 1024, 1025, 2000, 32767])
            f[i] = (r.choice([2001, 2006, 2007, 2019, 2021, 1000, 2]), m, b'A' * m)
        elif k == 'strings':
            c = [j for j, x in enumerate(f) if x[0] in (2001, 2006, 2007, 2019, 2021)]
            if c:
                j = r.choice(c)
                s = r.choice([b'', b'%s%n%s%n', b'-f', b'a b', b'\xff\xfe', b'root', b'nobody2', b'/etc/../x', b':/no/such', b'UTC' * 900, b'\n\nX: y', b"'"])
                f[j] = (f[j][0], len(s), s)
        elif k == 'unsafe':
            j = r.randrange(len(f))
            f[j:j] = [(2021, 6, b'-X|a b'), (2007, 5, b'-oQ/x')]
        elif k == 'drop':
            del f[i]
        elif k == 'dup':
            for _ in range(r.choice([1, 1, 50])):
                f.insert(i, f[i])
        elif k == 'move':
            x = f.pop(i)
            f.insert(r.randrange(len(f) + 1), x)
        elif k == 'odd':
            f.insert(i, (t, 0, b''))
        elif k == 'unknown':
            m = r.choice([0, 1, 8, 300, 5000])
            f.insert(i, (r.choice([5, 999, 1001, 2022, 2100, 30000, 65535]), m, bytes(m)))
        elif k == 'env':
            f.insert(min(3, len(f)), (1000, 0, r.choice([b'', b'NOEQ', b'=x', b'A=' + b'B' * 20000, b'USER=root', b'LOGNAME=x', b'SHELL=/x', b'HOME=', b'PATH=' + b'/a:' * 3000, b'LD_PRELOAD=x', b'A\0B=1', b'TZ=Europe/Paris', b'%s=%n'])))
            t, n, d = f[min(3, len(f) - 1)]
            f[min(3, len(f) - 1)] = (t, len(d), d)
        elif k == 'user':
            s = r.choice([b'root', b'bob', b'', b'nosuch', b'systab', b'../alice', b'x' * 3000, b'a.b'])
            for j, x in enumerate(f):
                if x[0] == 2:
                    f[j] = (2, len(s), s)
        elif k == 'trunc':
            b = enc(f)
            return b[:r.randrange(len(b))], what
        elif k == 'empty':
            f[i] = (t, 0, b'')
        elif k == 'nul':
            f[i] = (t, n, bytes(n))
        if not f:
            break
    return enc(f), what

def run_case(c, o):
    r = rng(c['seed'], 'p09', c['kind'], c['i'])
    kind = c['kind']
    variant = 'asan' if c['i'] % 3 else 'ubsan'
    S = 1600000000 + r.randint(0, 10 ** 7)
    S -= S % 60
    save = r.choice([60, 100, 1800])
    way = r.choice(['old', 'old', 'new', 'new', 'newroot', 'start', 'startroot', 'foreign'])
    with World(variant) as w:
        L = r.sample(BASE, r.randint(1, 8))
        if way in ('new', 'start'):
            L = [l.replace('runas(bob)', 'nice(3)') for l in L]
        env = r.sample(['FOO=bar', 'PATH=/bin', 'SHELL=/bin/sh', 'MAILTO=carol', '!timezone(Asia/Tokyo)'], r.randint(0, 3))
        x = w.stage('alice', '\n'.join(env + L) + '\n', 'a', now=S)
        if not o.sane(x[0], 'fcrontab'):
            return
        if not os.path.exists(w.root + '/stage-a/new.alice'):
            o.bad('install', 'a valid fcrontab was not installed', err=x[0].err.decode('latin-1'), lines=L, env=env)
            return
        good = open(w.root + '/stage-a/new.alice', 'rb').read()
        if r.random() < .6 and way in ('old', 'startroot', 'foreign'):
            # as saved by the daemon itself
            with World('ubsan') as w2:
                w2.install('alice', '\n'.join(env + L) + '\n', now=S - 4000)
                rn = w2.daemon([(3000.5, 'sig TERM')], start=S - 4000)
                if rn.rc == 0 and 'alice' in w2.spool():
                    good = w2.spool()['alice']
        bad_, what = hurt(r, kind, good, S)
        x = w.install('bob', '& * * * * * g1 dur=.2\n@first(10s) 100s g2 dur=.2\n&serial */5 * * * * g3 dur=.2\n', now=S)
        if not o.sane(x, 'fcrontab'):
            return
        x, good2 = w.stage('alice', '& * * * * * k1 dur=.2\n', 'b', now=S)
        p = w.root + '/hurt'
        open(p, 'wb').write(bad_)
        os.chmod(p, 0o600)
        sp = w.root + '/spool/'
        owner = 'alice' if way in ('new', 'start') else 'root'
        os.chown(p, *((2001, 2001) if owner == 'alice' else (0, 0)))
        sc = []
        if way in ('old', 'foreign'):
            os.rename(p, sp + 'alice')
            if way == 'foreign':            # a spool file which its user could have written
                u = r.choice([2001, 2002, 2100])
                os.chown(sp + 'alice', u, u)
                o.count('foreign_owner')
        elif way.startswith('start'):
            os.rename(p, sp + 'new.alice')
        else:
            if r.random() < .5:
                x, p2 = w.stage('alice', '\n'.join(L) + '\n', 'c', now=S)
                os.rename(w.root + '/stage-c/new.alice', sp + 'new.alice')
            sc += [(65.5, 'mv ../hurt new.alice'), (65.6, 'sig HUP')]
            o.count('reloads')
        restart = r.random() < .6
        fixit = r.random() < .5
        T = 400.5
        if r.random() < .5:
            sc.append((150.5, 'sig USR2'))
            sc.append((150.6, 'sig USR2'))
        if r.random() < .3:
            sc.append((200.5, 'sig USR1'))
            o.count('reloads')
        if fixit:
            sc += [(260.3, 'cp %s new.alice' % good2), (260.4, 'sig HUP')]
        sc.append((T, 'sig TERM' if r.random() < .8 else 'crash'))
        s = S + 5
        for si in range(2 if restart else 1):
            run = w.daemon(sc if si == 0 else [(200.5, 'sig TERM')], start=s, opts=['-s', str(save)], head=['defdur .2'])
            o.sig(kind, tuple(what)[:2], way, si, bool([m for m in run.logs() if 'h' in m and 'started' in m]))
            if not o.sane(run, 'daemon', ok=(0,) if sc[-1][1] != 'crash' or si else (0, run.rc)):
                return
            end = T if si == 0 else 200.5
            g = collections.defaultdict(list)
            for e in run.ev('exec'):
                n = name_of(e)
                if n in ('g1', 'g2', 'g3') and e['uid'][0] == 2002:
                    g[n].append(e['t'])
                    o.count('healthy_starts')
                    continue
                if n == 'k1':
                    continue
                o.count('hostile_starts')
                if owner == 'alice' and set(e['uid']) != {2001}:
                    o.bad('identity', 'a fcrontab of a user ran a job as another account', uid=e['uid'], job=cmd_of(e)[:80], way=way, what=what)
                    return
                if way == 'foreign':
                    o.bad('foreign', 'a spool file not owned by root was obeyed', job=cmd_of(e)[:80], what=what)
                    return
            if [m for m in run.logs() if 'not valid' in m or 'nvalid' in m or 'ould not' in m or 'annot' in m or 'ignored' in m or 'Error while' in m]:
                o.count('refused')
            # the healthy jobs
            t = 60 - s % 60
            k = 0
            while t < end - 2:
                if k < len(g['g1']) and t - .01 <= g['g1'][k] <= max(t, 20) + 2.5:
                    k += 1
                else:
                    o.bad('starved', 'a job of a healthy fcrontab did not start on time', due=t, got=g['g1'][:8], way=way, what=what, session=si)
                    return
                t += 60
            if k < len([x for x in g['g1'] if x < end - 2]):
                o.bad('extra', 'a job of a healthy fcrontab started when not due', got=g['g1'][:8], way=way, what=what)
                return
            n2 = [x for x in g['g2']]
            if si == 0 and not (n2 and n2[0] <= 22.5 and all(98 <= b - a <= 102.5 for a, b in zip(n2, n2[1:]))):
                o.bad('starved2', 'an @-line of a healthy fcrontab did not run on time', got=n2, way=way, what=what)
                return
            if fixit and si == 0:
                kk = [e['t'] for e in run.ev('exec') if name_of(e) == 'k1']
                if len(kk) < 2 or kk[0] > 297.5:
                    o.bad('stuck', 'a good fcrontab installed afterwards did not take effect', got=kk, way=way, what=what)
                    return
                bad2 = [cmd_of(e)[:40] for e in run.ev('exec') if e['t'] > 262.5 and name_of(e) not in ('g1', 'g2', 'g3', 'k1')]
                if bad2:
                    o.bad('remains', 'lines of a damaged fcrontab run on after it was replaced', jobs=bad2[:5], way=way, what=what)
                    return
            if si == 0:
                s = int(s + run.events[-1]['t'] + 30)
                s += 5 - s % 60 if s % 60 < 5 else 65 - s % 60
            else:
                o.count('restarts')
        o.sample = dict(case=c, way=way, damage=what, size=len(bad_))

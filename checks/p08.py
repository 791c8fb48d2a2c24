"""P08: saving state is atomic: a crash or a full disk never loses or corrupts a fcrontab."""
from fc import *
import fc, os, re, glob

RULE = ('three kinds of run of the real programs: the daemon with installations, replacements and removals on the way is killed, or '
        'given an error (ENOSPC, EIO, EINTR, EROFS...), a short write or a disk which stays full, at a chosen system call; fcrontab '
        'installing, replacing or removing is killed or given errors the same way; and fcrontabs go through chains of orderly '
        'sessions. After each the compiled fcrontabs in the spool are read by a parser of our own and must be one complete version, '
        'and a fresh daemon must start every line of exactly the version in force. Distinct = (program, call, object, fault, outcome).')
ASSUMPTIONS = ['a crash is the end of the process: what the kernel has accepted is kept']
MUST_OBSERVE = ('daemon_faults', 'cli_faults', 'kills', 'full', 'new_version', 'old_version', 'roundtrips', 'fields_same')
VARIANTS = ('asan', 'ubsan')
DOT = {'ann.lee': (2011, 2011, [])}

def cases(tier, seed):
    n = dict(quick=(18, 22, 50), thorough=(900, 800, 1500))[tier]
    for kind, k in zip(('daemon', 'cli', 'round'), n):
        for i in range(k):
            yield dict(kind=kind, seed=seed, i=i)

def version(r, u, v, big):
    """lines of one version: each can be told from every other, and starts within two minutes"""
    n = r.choice([1, 2, 5, 12]) if not big else r.choice([30, 60])
    u = re.sub(r'\W', '', u)
    L = {}
    for k in range(n):
        name = '%sv%dl%d' % (u, v, k)
        pad = 'x' * r.choice([0, 0, 10, 100, 400, 800]) if big or r.random() < .4 else ''
        form = r.choice(['&jitter(0) * * * * * %s', '@first(50s) 60s %s', '&jitter(0),exesev(false),mail(false) * * * * * %s',
                         '@first(45s),volatile 90s %s', '%%mins * * * * * %s',
                         '&jitter(0),mailto(carol),nice(3) * * * * * %s', '&jitter(0),timezone(Asia/Tokyo) * * * * * %s'])
        if form.startswith('%%mins'):
            form = '&jitter(0) * * * * * %s'
        L[name] = form % name + ' dur=.1 ' + pad
    T = ''.join(t.rstrip() + '\n' for t in L.values())
    E = ''.join('V%d_%d=%s\n' % (v, i, 'y' * r.choice([1, 30, 300])) for i in range(r.randint(0, 4)))
    return dict(v=v, names=set(L), text=E + T, nenv=len(E.splitlines()))

def names_of(data):
    f = parse_spool(data)
    return {l['shell'].split()[0].decode('latin-1') for l in f['lines']}, len(f['env'])

def whole(o, data, what, versions, where):
    """the file must parse and be exactly one of the versions"""
    try:
        n, ne = names_of(data)
    except (ValueError, KeyError) as ex:
        o.bad('torn', 'a compiled fcrontab is damaged', file=what, err=str(ex), where=where)
        return None
    for v in versions:
        if v['names'] == n and (ne == v['nenv']):
            return v
    o.bad('mixed', 'a compiled fcrontab is none of the versions', file=what, lines=sorted(n)[:10], where=where)
    return None

ERR = ['ENOSPC', 'EIO', 'EINTR', 'EDQUOT', 'EROFS', 'EACCES', 'EMFILE', 'ENOMEM']
CALLS = ('open', 'write', 'rename', 'remove', 'unlink', 'fdatasync', 'close', 'fchown', 'read', 'fopen', 'fclose', 'fflush', 'fputs', 'fdopen',
         'opendir', 'readdir', 'getpwnam', 'fork', 'select', 'mkstemp')

def fault(r, ticks):
    """(SIM_TICK, tick, action)"""
    w = [t for t in ticks if t['call'] in ('write', 'rename', 'fdatasync', 'remove', 'unlink') or (t['call'] in ('open', 'close') and '.tmp' in t['what'])]
    t = r.choice(w) if w and r.random() < .8 else r.choice(ticks)
    n = t['n']
    a = r.choice(['kill', 'kill', 'err', 'err', 'full', 'short', 'shortkill'])
    if a.startswith('short') and t['call'] != 'write':
        a = r.choice(['kill', 'err'])
    if a == 'err' and t['call'] in ('select', 'waitpid', 'readdir', 'getpwnam'):
        a = 'kill'
    if a == 'kill':
        return '%d:kill' % n, t, a
    if a == 'err':
        e = r.choice(ERR)
        return '%d:err=%s' % (n, e), t, e
    if a == 'full':
        return '%d:full=%s' % (n, r.choice(['ENOSPC', 'EIO', 'EDQUOT'])), t, a
    if a == 'short':
        return '%d:short=1' % n, t, a
    return '%d:short=1,%d:kill' % (n, n + 1), t, a

def short_what(t):
    w = os.path.basename(t['what'])
    return re.sub(r'(alice|bob|carol|dave|ann\.lee)', 'U', re.sub(r'fcr-\w+', 'fcr-', w))

def tidy(ticks):
    """temporary files of a killed fcrontab, in the real /tmp"""
    for p in {e['what'] for e in ticks if re.fullmatch(r'/tmp/fcr-\w{6}', e.get('what', ''))}:
        try:
            os.unlink(p)
        except OSError:
            pass

def started(o, run):
    return {n for n in execs(run) if n}

def fresh(o, w, S, expect, where):
    """a new daemon: every line of the expected versions is started, and nothing else.
    expect: {user: [possible versions]} -> {user: version}"""
    run = w.daemon([(150, 'end')], start=S, opts=['-s', '1800'])
    if not o.sane(run, 'daemon after the fault'):
        return None
    got = started(o, run)
    res = {}
    for u, vs in expect.items():
        uu = re.sub(r'\W', '', u)
        mine = {n for n in got if re.match(r'%sv\d+l' % uu, n)}
        for v in vs:
            if v['names'] == mine:
                res[u] = v
                break
        else:
            o.bad('lost', 'after a restart the lines which run are not those of one version', user=u, where=where,
                  started=sorted(mine)[:8], nstarted=len(mine), versions=[(v['v'], len(v['names'])) for v in vs], logs=run.logs()[:8])
            return None
    return res

NONE = dict(v=-1, names=set(), text='', nenv=0)

def daemon_case(c, o, r, variant):
    S = 1600000000 + r.randint(0, 10 ** 6) * 60
    dot = r.random() < .3
    u = 'ann.lee' if dot else 'alice'
    big = r.random() < .35
    with World(variant, users=DOT) as w:
        v0, v1 = version(r, u, 0, big), version(r, u, 1, big)
        b0, c1 = version(r, 'bob', 0, False), version(r, 'carol', 1, big)
        d0 = version(r, 'dave', 0, False)
        for n, v in ((u, v0), ('bob', b0), ('dave', d0)):
            x = w.install(n, v['text'], now=S - 60)
            if not o.sane(x, 'fcrontab') or b'kipping' in x.err:
                o.bad('install', 'valid lines refused', err=x.err.decode('latin-1'))
                return
        # as they are after a first session
        z = w.daemon([(70, 'sig TERM')], start=S, opts=['-s', '60'])
        if not o.sane(z, 'first session'):
            return
        _, pa = w.stage(u, v1['text'], 'a', now=S)
        _, pc = w.stage('carol', c1['text'], 'c', now=S)
        sc = [(30, 'mark a'), (30, 'cp %s new.%s' % (pa, u)), (30, 'sig HUP'), (50.5, 'mark b'), (50.5, 'touch rm.bob'), (50.5, 'sig HUP'),
              (80.25, 'mark c'), (80.25, 'cp %s new.carol' % pc), (80.25, 'sig HUP'), (130, 'sig USR1'), (200, 'sig TERM')]
        opts = ['-s', r.choice(['60', '70'])]
        snap = {n: (w.root + '/spool/' + n, open(w.root + '/spool/' + n, 'rb').read(), os.stat(w.root + '/spool/' + n)) for n in os.listdir(w.root + '/spool')}
        def restore():
            for n in os.listdir(w.root + '/spool'):
                os.unlink(w.root + '/spool/' + n)
            for n, (p, d, st) in snap.items():
                open(p, 'wb').write(d)
                os.chown(p, st.st_uid, st.st_gid)
                os.chmod(p, st.st_mode & 0o7777)
        dry = w.daemon(sc, start=S + 200, opts=opts, ticklog=True)
        if not o.sane(dry, 'session without a fault'):
            return
        ticks = [e for e in dry.events if e['ev'] == 'tick' and e['call'] in CALLS and e['n'] > 8]
        for k in range(12):
            restore()
            spec, t, act = fault(r, ticks)
            run = w.daemon(sc, start=S + 200, opts=opts, tick=spec)
            where = dict(spec=spec, call=t['call'], what=t['what'], at=t['t'])
            for s in run.san:
                o.bad('san:fault', 'sanitizer report', report=s[:2000], where=where)
            if run.rc in (96, 97, 98, 99) or run.rc is None or run.rc < 0:
                o.bad('end', 'the daemon ended badly', rc=run.rc, where=where, err=run.err[-500:].decode('latin-1'))
            if o.viol:
                return
            done = {e['m'] for e in run.events if e['ev'] == 'mark'}
            exp = {u: [v1] if 'a' in done else [v0], 'bob': [NONE] if 'b' in done else [b0], 'carol': [c1] if 'c' in done else [NONE], 'dave': [d0]}
            for n, data in w.spool().items():
                if n in (u, 'bob', 'dave', 'carol'):
                    vs = {u: [v0, v1], 'bob': [b0], 'dave': [d0], 'carol': [c1]}[n]
                    if whole(o, data, n, vs, where) is None:
                        return
            res = fresh(o, w, S + 1000, exp, where)
            if res is None:
                return
            o.count('daemon_faults')
            o.count('kills' if 'kill' in act else 'full' if act == 'full' else 'errors')
            o.count('new_version' if res[u] is v1 else 'old_version')
            o.sig('daemon', t['call'], short_what(t), act, res[u]['v'])
        o.count('evaluations', 12)
        o.sample = dict(case=c, user=u, lines=[len(v0['names']), len(v1['names'])], ticks=len(ticks))

def cli_case(c, o, r, variant):
    S = 1600000000 + r.randint(0, 10 ** 6) * 60
    u = r.choice(['alice', 'alice', 'ann.lee', 'root'])
    big = r.random() < .4
    how = r.choice(['file', 'file', 'stdin', 'stdin', 'n', 'z', 'r', 'empty'])
    loaded = r.random() < .6
    ver = r.random() < .85
    with World(variant, users=DOT) as w:
        v0, v1 = version(r, u, 0, big), version(r, u, 1, big)
        if how == 'z':
            v1 = v0
        if ver or how in ('z',):
            x = w.install(u, v0['text'], now=S - 60)
            if not o.sane(x, 'fcrontab'):
                return
            if loaded:
                z = w.daemon([(70, 'sig TERM')], start=S, opts=['-s', '60'])
                if not o.sane(z, 'first session'):
                    return
            old = v0
        else:
            old = NONE
            w.stub_sighup()
        new = {'r': NONE, 'empty': NONE}.get(how, v1)
        snap = {n: (w.root + '/spool/' + n, open(w.root + '/spool/' + n, 'rb').read(), os.stat(w.root + '/spool/' + n)) for n in os.listdir(w.root + '/spool')}
        def restore():
            for n in os.listdir(w.root + '/spool'):
                os.unlink(w.root + '/spool/' + n)
            for n, (p, d, st) in snap.items():
                open(p, 'wb').write(d)
                os.chown(p, st.st_uid, st.st_gid)
                os.chmod(p, st.st_mode & 0o7777)
        src = w.root + '/work/src'
        text = '# nothing\n' if how == 'empty' else v1['text']
        open(src, 'w').write(text)
        args, inp = {'file': ([src], b''), 'stdin': (['-'], text.encode()), 'n': (['-n', src], b''), 'z': (['-z'], b''), 'r': (['-r'], b''),
                     'empty': ([src], b'')}[how]
        dry = w.fcrontab(args, user=u, stdin=inp, now=S, ticklog=True)
        ticks = [e for e in dry.events if e['ev'] == 'tick' and e['n'] > 3]
        tidy(ticks)
        if not o.sane(dry, 'fcrontab'):
            return
        for k in range(9):
            restore()
            spec, t, act = fault(r, ticks)
            run = w.fcrontab(args, user=u, stdin=inp, now=S, tick=spec, ticklog=True)
            tl = [e for e in run.events if e['ev'] == 'tick']
            tidy(tl)
            where = dict(how=how, user=u, spec=spec, call=t['call'], what=t['what'], rc=run.rc, err=run.err[-300:].decode('latin-1'))
            for s in run.san:
                o.bad('san:cli', 'sanitizer report', report=s[:2000], where=where)
            if run.rc is None or run.rc < 0 or run.rc in (96, 97, 98, 99):
                o.bad('end', 'fcrontab ended badly', where=where)
            if o.viol:
                return
            for n, data in w.spool().items():
                if n in (u, 'new.' + u) and whole(o, data, n, [v0, v1], where) is None:
                    return
            exp = [old, new] if 'kill' in act else [new] if run.rc == 0 else [old, new]
            sp = w.spool()
            if how in ('n', 'z') and run.rc == 137 and 'rm.' + u in sp and 'new.' + u not in sp and old is not NONE:
                # between the order to forget the old version and the new version
                o.bad('forget-window', 'fcrontab -n or -z killed between forgetting the old version and giving the new one loses both', where=where)
                continue
            res = fresh(o, w, S + 1000, {u: exp}, where)
            if res is None:
                return
            o.count('cli_faults')
            o.count('kills' if 'kill' in act else 'full' if act == 'full' else 'errors')
            o.count('new_version' if res[u] is new else 'old_version')
            o.sig('cli', how, t['call'], short_what(t), act, run.rc, res[u] is new)
        o.count('evaluations', 9)

STATE = {'nextexe', 'remain', 'numexe'}
def round_case(c, o, r, variant):
    """orderly sessions: everything is read back as it was"""
    S = 1600000000 + r.randint(0, 10 ** 6) * 60
    with World(variant, users=DOT) as w:
        L = []
        for k in range(r.choice([1, 3, 10, 40])):
            op = []
            for cand in ('mailto(bob)', 'mail(false)', 'erroronlymail', 'nice(%d)' % r.randint(-20, 19), 'exesev', 'lavg(1,2.5,3)', 'lavgor', 'until(%dm)' % r.randint(1, 90),
                         'strict(false)', 'noticenotrun', 'bootrun', 'serial', 'serialonce(false)', 'lavgonce(false)', 'forcemail', 'nolog',
                         'mailfrom(me@x)', 'stdout', 'volatile', 'runatreboot', 'runatresume'):
                if r.random() < .15:
                    op.append(cand)
            name = 'j%d' % k
            kind = r.choice('&&@%')
            pad = 'p' * r.choice([0, 5, 120, 700])
            opt = ','.join(op)
            if kind == '&':
                if r.random() < .3:
                    op.append('timezone(Europe/Paris)')
                if r.random() < .3:
                    op.append('dayor')
                op.append('jitter(%d)' % r.choice([0, 0, 10]))
                # not due while the sessions last
                t = '&%s %d %d %d * * %s' % (','.join(op), r.randint(0, 59), r.randint(0, 23), 5 + (S // 86400 % 20), name)
                t = '&%s %d,%d %s * %d * %s' % (','.join(x for x in op if x != 'dayor'), r.randint(0, 20), r.randint(21, 59), '*', (time_mon(S) + 3) % 12 + 1, name)
            elif kind == '@':
                t = '@%s %dd%dm %s' % (','.join(op + ['first(%dh)' % r.randint(3, 90)]), r.randint(1, 40), r.randint(0, 59), name)
            else:
                op = [x for x in op if not x.startswith(('volatile', 'jitter'))]
                t = '%%monthly%s %d %d %d %s' % (''.join(',' + x for x in op), r.randint(0, 59), r.randint(0, 23), time_day(S), name)
            L.append(t + ' ' + pad)
        env = ['A%d=%s' % (i, 'v' * r.choice([0, 3, 50, 600])) for i in range(r.randint(0, 5))]
        tzd = r.choice([0, 0, 3, -5])
        u = r.choice(['alice', 'root', 'ann.lee'])
        text = ('!tzdiff(%d)\n' % tzd if tzd else '') + '\n'.join(env + [t.rstrip() for t in L]) + '\n'
        x = w.install(u, text, now=S - 60)
        if not o.sane(x, 'fcrontab') or b'kipping' in x.err:
            o.bad('install', 'valid lines refused', err=x.err.decode('latin-1'), text=text)
            return
        def read(n):
            return parse_spool(open(w.root + '/spool/' + n, 'rb').read())
        first = read('new.' + u)
        prev, pend = None, None
        t0 = S
        for si in range(r.randint(2, 4)):
            dur = r.choice([45, 90, 1900])
            sc = [(dur, 'sig TERM')]
            if r.random() < .4:
                sc.append((31, 'sig USR1'))
            run = w.daemon(sc, start=t0, opts=['-s', r.choice(['60', '1800'])])
            if not o.sane(run, 'session'):
                return
            f = read(u)
            if f['user'] != u or f['env'] != first['env'] or f['tzdiff'] != first['tzdiff'] or f['header'] != first['header']:
                o.bad('file-state', 'the file is not saved as it was read', before={k: str(first[k])[:200] for k in ('user', 'env', 'tzdiff')}, after={k: str(f[k])[:200] for k in ('user', 'env', 'tzdiff')})
                return
            def key(ls):
                return {l['shell']: l for l in ls}
            a, b = key(first['lines']), key(f['lines'])
            if set(a) != set(b) or len(f['lines']) != len(L):
                o.bad('lines', 'lines were lost or gained over a session', before=len(a), after=len(f['lines']))
                return
            for n in a:
                # lines which ran keep their definition too; runatreboot changes only its own state
                for k in set(a[n]) | set(b[n]):
                    if k in STATE:
                        continue
                    va, vb = a[n].get(k), b[n].get(k)
                    if k == 'option':
                        va, vb = (bytes(x & ~m for x, m in zip(v, (0, 2, 0, 0x40))) for v in (va, vb))   # run-if-late, hasrun: state
                    if va != vb and not (k in ('first',) and 'runatreboot' in n.decode('latin-1')):
                        o.bad('field', 'a field of a line is not saved as it was read', line=n[:80].decode('latin-1'), field=k, before=repr(va), after=repr(vb), text=[t[:100] for t in L if n.decode('latin-1').split()[0] in t.split()])
                        return
                    o.count('fields_same')
            if prev is not None:
                for n in b:
                    t = next(t for t in L if n.decode('latin-1').split()[0] in t.split())
                    if 'runatreboot' in t or 'volatile' in t or any(name_of(e) == n.decode('latin-1').split()[0] for e in run.events if e['ev'] == 'exec'):
                        continue
                    if t[0] in '&%':
                        if prev[n]['nextexe'] != b[n]['nextexe'] and 'jitter(10)' not in t:
                            o.bad('due', 'a line which was not due has another due time after a restart', line=t[:120], before=prev[n]['nextexe'], after=b[n]['nextexe'])
                            return
                    else:
                        d = (prev[n]['nextexe'] - pend) - (b[n]['nextexe'] - (t0 + dur)) - dur
                        if abs(d) > 2:
                            o.bad('delay', 'the remaining delay of an @-line changed over a restart', line=t[:120], by=d)
                            return
                    o.count('due_same')
            prev, pend = key(f['lines']), t0 + dur
            t0 += dur + r.choice([1, 500, 7200])
            o.count('roundtrips')
            o.sig('round', len(L), len(env), si, bool(tzd), u)

def time_mon(S):
    import time
    return time.gmtime(S).tm_mon - 1
def time_day(S):
    import time
    return (time.gmtime(S).tm_mday + 12) % 28 + 1     # not due while the sessions last

def run_case(c, o):
    r = rng(c['seed'], 'p08', c['kind'], c['i'])
    variant = 'asan' if c['i'] % 3 == 0 else 'ubsan'
    dict(daemon=daemon_case, cli=cli_case, round=round_case)[c['kind']](c, o, r, variant)

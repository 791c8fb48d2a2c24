"""P14: each job runs its command with the right account, environment and isolation."""
from fc import *
import os

RULE = ('random fcrontabs of root, users and the system (runas, nice, timezone, environment assignments, HOME and SHELL good and bad, odd '
        'commands) run by the real daemon with a hostile environment of its own; at each exec of a job or mailer the identity, groups, '
        'directory, environment, signals, session, descriptors and arguments of the process are recorded and compared with what the line '
        'denotes; kind fault lets one call of the job process fail. Distinct = (owner, account, features of the line) and each faulted call.')
ASSUMPTIONS = ['accounts, groups and passwords come from the shim', 'the recorded exec is the last step before the program would run']
MUST_OBSERVE = ('execs', 'mails', 'runas', 'faults', 'fallback_shell', 'fallback_home', 'foreground')
VARIANTS = ('asan', 'ubsan')
FAULTS = ['initgroups', 'setgid', 'setuid', 'getpwnam', 'chdir', 'fork', 'setsid', 'dup2', 'pipe', 'mkstemp', 'nice']
FATAL = FAULTS[:-1]

def cases(tier, seed):
    n = dict(quick=(700, 300), thorough=(6000, 3000))[tier]
    for kind, k in zip(('env', 'fault'), n):
        for i in range(k):
            yield dict(kind=kind, seed=seed, i=i)

CMDS = ['echo "a b" | cat > /dev/null', "x='%%y' \\; z", 'a && b || c &', 'true $HOME ${PATH} `id` $(id)', 'tab\tin the middle', 'caf\xe9 \xff\x80 end', '#not a comment',
        'a   b    c', '-c -l', '* * * * *', 'x' * 700, '!bang', '@at', 'semi ; colon', "quote ' single", 'q "double', 'back\\slash \\\\ two', '=value', '%d %s %n']

def val(r, root):
    return r.choice(['', 'bar', 'a b  c', 'x=y=z', '$HOME/bin:$PATH', "it's", 'caf\xe9', '/usr/local/bin:/opt/x', '*', '1', 'x' * 300, '-n', '#5', 'a\tb', '(){ :; }'])

def gen_file(r, w, u, k):
    """(text, [expected lines])"""
    T, L, env = [], [], {}
    nice0 = 0
    tz0 = None
    n = r.randint(1, 4)
    late = r.random() < .15
    def assign():
        c = r.random()
        if c < .15:
            name, v = 'HOME', r.choice(['/', w.root + '/work', w.root + '/nosuch', w.root + '/closed', '/usr'])
        elif c < .35:
            name, v = 'SHELL', r.choice(['/bin/bash', '/bin/sh', '/usr/bin/env', '/nonexistent/sh', w.root + '/passwd', ''])
        elif c < .45:
            name, v = 'PATH', val(r, w)
        elif c < .55:
            name, v = r.choice(['USER', 'LOGNAME', 'TZ', 'LEAK', 'LANG']), val(r, w)
        else:
            name, v = r.choice(['FOO', 'A_B', '_x', 'LONGNAME%d' % r.randint(0, 9), 'x1', 'CONTENT_TYPE']), val(r, w)
        q = r.choice(['', '', '"', "'"])
        if q and q in v:
            q = ''
        if not q:
            v = v.strip()
        if q == '' and v[:1] in '"\'' and v:
            v = 'v'
        if v and not q and v[0] == v[-1] and v[0] in '"\'':
            v = 'v'
        eq = r.choice(['=', ' = ', '= ', ' ='])
        T.append(name + eq + q + v + q)
        if name not in ('USER', 'LOGNAME'):     # those are not allowed, and ignored
            env[name] = v
    for _ in range(r.choice([0, 1, 2, 4, 7])):
        assign()
    if r.random() < .2:
        nice0 = r.randint(1, 19)
        T.append('!nice(%d)' % nice0)
    if r.random() < .15:
        tz0 = r.choice(['Asia/Tokyo', 'EST5'])
        T.append('!timezone(%s)' % tz0)
    for j in range(n):
        l = dict(name='j%s%d' % (k, j), user=u, runas='root' if u == 'systab' else u, nice=nice0, tz=tz0, mail=True)
        op = []
        if u in ('root', 'systab') and r.random() < .5:
            l['runas'] = r.choice(['alice', 'bob', 'carol', 'dave', 'root'])
            op.append('runas(%s)' % l['runas'])
        if r.random() < .3:
            l['nice'] = r.randint(-20, 19) if u in ('root', 'systab') else r.randint(0, 19)
            op.append('nice(%d)' % l['nice'])
        if r.random() < .2:
            l['tz'] = r.choice(['Europe/Paris', 'JST-9'])
            op.append('timezone(%s)' % l['tz'])
        if r.random() < .3:
            l['mail'] = False
            op.append(r.choice(['mail(false)', 'mail(0)', 'nomail'][:2]))
        elif r.random() < .2:
            op.append('forcemail')
        if r.random() < .1:
            op.append('stdout')
            l['stdout'] = True
        if r.random() < .1:
            op.append('nolog')
        if r.random() < .2:
            op.append('serial')
        r.shuffle(op)
        l['cmd'] = l['name'] + ' ' + r.choice(CMDS) if r.random() < .7 else l['name']
        if r.random() < .6:
            T.append('@%s 1 %s' % (','.join(op), l['cmd']))
        else:
            T.append('&%s * * * * * %s' % (','.join(op), l['cmd']))
        l['cmd'] = l['cmd'].rstrip()
        l['text'] = T[-1]
        L.append(l)
    if late:
        assign()           # an assignment counts for the whole file
    for l in L:
        l['env'] = env
    return '\n'.join(T) + '\n', L

def expected(w, l, confshell, daemonenv):
    acct = w.users[l['runas']]
    home = '%s/home/%s' % (w.root, l['runas'])
    e = dict(USER=l['runas'], LOGNAME=l['runas'], HOME=home, PATH='/usr/bin:/bin')
    if l['tz']:
        e['TZ'] = l['tz']
    e['SHELL'] = confshell or '/bin/sh'
    job = dict(e)
    job.update(l['env'])
    sh = job['SHELL']
    fb = sh == '' or not os.access(sh, os.X_OK)
    if fb:
        sh = confshell or '/bin/sh'
    job['SHELL'] = sh
    mail = dict(e, PATH=daemonenv.get('PATH', '/usr/bin:/bin'))
    return acct, job, mail, fb

def identity(o, w, l, e, what):
    uid, gid, gs = w.users[l['runas']]
    want = sorted(set([gid] + gs))
    if e['uid'] != [uid] * 3 or e['gid'] != [gid] * 3 or sorted(set(e['groups'])) != want:
        o.bad('identity-' + what, 'a %s has not the ids and groups of its account' % what, line=l['text'], account=[uid, gid, want], have=[e['uid'], e['gid'], e['groups']])
        return False
    return True

def fds(o, w, l, e, what):
    left = [f for f in e.get('fds', []) if not f[1] and f[0] > 2]
    if left:
        o.bad('descriptor-' + what, 'a descriptor of the daemon is open in a %s' % what, line=l['text'], fds=left)
        return False
    have = {f[0]: f for f in e['fds']}
    if any(n not in have for n in (0, 1, 2)):
        o.bad('stdio-' + what, 'a %s lacks one of its standard descriptors' % what, line=l['text'], fds=e['fds'])
        return False
    for n, f in have.items():
        if n < 3 and (w.root + '/spool/' in f[2] and what == 'job' or 'socket:' in f[2]):
            o.bad('stdio-' + what, 'a standard descriptor of a %s is a file of the daemon' % what, line=l['text'], fds=e['fds'])
            return False
    return True

def run_case(c, o):
    r = rng(c['seed'], 'p14', c['kind'], c['i'])
    variant = 'asan' if c['i'] % 3 == 0 else 'ubsan'
    confshell = r.choice(['/bin/sh', '/bin/sh', '/bin/bash', ''])
    with World(variant, conf=dict(shell=confshell)) as w:
        os.mkdir(w.root + '/closed', 0o700)
        for u in ('carol', 'dave'):
            if r.random() < .15:
                os.rmdir('%s/home/%s' % (w.root, u))
        S = 1600000000 + r.randint(0, 10 ** 6)
        users = r.sample(['alice', 'bob', 'carol', 'root', 'systab'], r.randint(1, 4))
        lines = {}
        for k, u in enumerate(users):
            t, L = gen_file(r, w, u, k)
            x = w.install(u, t, now=S - 5)
            if not o.sane(x, 'fcrontab'):
                return
            if b'kipping' in x.err or b'rror' in x.err or b'nvalid' in x.err:
                o.bad('install', 'valid lines refused', text=t[:600], err=x.err[-400:].decode('latin-1'))
                return
            lines.update((l['name'], l) for l in L)
        mask = r.choice([0o22, 0o22, 0o77, 0o27, 0])
        denv = dict(LEAK='secret', IFS='x', BASH_ENV='/x', ENV='/x', HOME='/daemonhome', USER='daemonuser', LOGNAME='daemon', SHELL='/daemonshell',
                    LANG='C', PATH=r.choice(['/a:/b:/bin', '/usr/sbin']), FCRON_X='1')
        fault = r.choice(FAULTS) if c['kind'] == 'fault' else None
        fg = r.random() < .25
        sc = [(200, 'sig TERM')]
        if fault:
            sc += [(50.5, 'childfail ' + fault), (100.5, 'childfail none')]
        if r.random() < .5:        # clients of the control socket, and a reload
            sc += [(r.uniform(1, 90), 'conn %d 2001 2001' % k) for k in range(r.randint(1, 3))] + [(r.uniform(1, 190), 'sig HUP')]
        old = os.umask(mask)
        try:
            run = w.daemon(sc, start=S, head=['full 1'], env=denv, bg=not fg, tz=r.choice(['UTC', 'Asia/Kolkata']))
        finally:
            os.umask(old)
        if not o.sane(run, 'daemon'):
            return
        if fg:
            o.count('foreground')
        seen = {}
        count = collections.Counter()
        for e in run.events:
            if e['ev'] in ('badexec', 'exec'):
                a = e['argv']
                l = lines.get(name_of(e)) if len(a) == 3 else None
                if l is None:
                    o.bad('command', 'a program was run that is in no fcrontab', argv=a, path=e['path'])
                    return
                seen[e['job']] = l
                count[l['name'], 51.1 < e['t'] < 100.4] += 1
                acct, env, menv, fb = expected(w, l, confshell, denv)
                def bad(key, msg, **d):
                    o.bad(key, msg, line=l['text'], owner=l['user'], **d)
                if not identity(o, w, l, e, 'job'):
                    return
                if a != [env['SHELL'], '-c', l['cmd']] or e['path'] != env['SHELL']:
                    return bad('argv', 'a job is not run by its shell with exactly its command', have=[e['path'], a], want=[env['SHELL'], '-c', l['cmd']])
                h = [x.split('=', 1) for x in e['env']]
                if len(dict(h)) != len(h) or dict(h) != env:
                    hd = dict(h)
                    return bad('env', 'a job has another environment than its file and account give it', extra={k: v for k, v in hd.items() if env.get(k) != v},
                               missing={k: v for k, v in env.items() if hd.get(k) != v}, twice=len(h) - len(hd))
                home = env['HOME']
                cwd = home
                if not os.path.isdir(home) or (home == w.root + '/closed' and acct[0] != 0):
                    cwd = '/'
                    o.count('fallback_home')
                if (e['cwd'] or '').rstrip('/') != cwd.rstrip('/') and not fault:
                    return bad('cwd', 'a job is not run in its home directory', have=e['cwd'], want=cwd)
                if e['nice'] != l['nice'] and not (fault == 'nice'):
                    return bad('nice', 'a job has the wrong nice value', have=e['nice'], want=l['nice'])
                if e['sigs'] or e['blocked']:
                    return bad('signals', 'a job starts with ignored or blocked signals', ignored=e['sigs'], blocked=e['blocked'])
                if not e['sidleader']:
                    return bad('session', 'a job is not in a session of its own')
                if e['umask'] != mask:
                    return bad('umask', 'a job has not the mask the daemon was started with', have=oct(e['umask']), want=oct(mask))
                if not fds(o, w, l, e, 'job'):
                    return
                out = {f[0]: f for f in e['fds']}
                if l['mail'] and not (fg and l.get('stdout')):
                    if 'pipe:' not in out[1][2] or out[1][2] != out[2][2]:
                        return bad('stdio', 'the output of a job that is to be mailed is not caught', fds=e['fds'])
                elif not fg and (out[1][2] != '/dev/null' or out[2][2] != '/dev/null'):
                    return bad('stdio', 'the output of a job without mail does not go to /dev/null', fds=e['fds'])
                if out[0][2] != '/dev/null':
                    return bad('stdin', 'a job does not read from /dev/null', fds=e['fds'])
                o.count('execs')
                o.count('runas', l['runas'] != l['user'] and l['user'] != 'systab')
                o.count('fallback_shell', fb)
                o.sig(l['user'], l['runas'], l['nice'] != 0, bool(l['tz']), fb, cwd == home, sorted(l['env'])[:3], fg)
            elif e['ev'] == 'mail':
                l = seen.get(e['job'])
                if l is None:
                    continue
                acct, env, menv, fb = expected(w, l, confshell, denv)
                if not identity(o, w, l, e, 'mailer') or not fds(o, w, l, e, 'mailer'):
                    return
                h = dict(x.split('=', 1) for x in e['env'])
                if h != menv:
                    o.bad('mail-env', 'the mailer has another environment than documented', line=l['text'], have=h, want=menv)
                    return
                o.count('mails')
            elif e['ev'] == 'cfault':
                o.count('faults')
                o.sig('fault', e['call'], e['role'])
        for n, l in lines.items():
            t1, t2 = count[n, False], count[n, True]
            # every minute from about 20..60 s on: at least at 1:40..3:20
            if t1 < 2:
                o.bad('notrun', 'a job was not run' + (' after a failure was over' if fault else ''), line=l['text'], fault=fault, owner=l['user'], log=run.logs()[-8:])
                return
            if t2 and fault in FATAL and not (fault in ('dup2', 'pipe', 'mkstemp') and (not l['mail'] or l.get('stdout'))) and fault != 'chdir':
                o.bad('ran-anyway', 'a job was run though a step of its preparation failed', line=l['text'], fault=fault)
                return
        o.count('evaluations', len(lines))
        o.sample = dict(case=c, users=users, fcrontab=[l['text'] for l in lines.values()][:6])

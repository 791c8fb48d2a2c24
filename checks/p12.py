"""P12: fcrontab installs, lists, edits and removes exactly what was asked."""
from fc import *
import fc, os, re, glob, signal
from p08 import tidy

RULE = ('histories of operations of the real fcrontab (install from file and standard input, -n, list, edit through scripted editors - change, rewrite by rename, no change, '
        'kill, removal, errors with correct/ignore/no answer -, reinstall, remove, wrong arguments; by users, by root for others and for the system fcrontab), with errors '
        'injected at system calls of some; after every operation the listing of every user must be the bytes of the model, no file of another user may have changed, and the '
        'real daemon must start exactly the lines of what is listed. Distinct = (operation, by, previous state, fault, outcome).')
ASSUMPTIONS = ['a fault is one failing system call; kills are in P08']
MUST_OBSERVE = ('ops', 'listed', 'daemon_runs', 'starts_ok', 'edits', 'unchanged_edits', 'aborted', 'refused', 'faults_failed', 'removed', 'reinstalled', 'bytes')
ANY = range(256)
VARIANTS = ('asan', 'ubsan')
UIDS = {'alice': 2001, 'bob': 2002, 'root': 0, 'systab': 0}

def cases(tier, seed):
    n = dict(quick=(120, 150, 16), thorough=(4000, 4000, 300))[tier]
    for kind, k in zip(('hist', 'fault', 'io'), n):
        for i in range(k):
            yield dict(kind=kind, seed=seed, i=i)

SERIAL = [0]
def text(r, u, bad=False):
    """(bytes, names started every minute)"""
    SERIAL[0] += 1
    tag = '%sv%d' % (u, SERIAL[0])
    L, names = [], set()
    n = r.choice([0, 1, 1, 2, 3, 3, 12])
    for i in range(n):
        k = '%sl%d' % (tag, i)
        names.add(k)
        L.append(r.choice(['* * * * * %s', '& * * * * * %s dur=.1', '&mail(no) * * * * * %s', '@first(40s),volatile 60s %s', '&jitter(0) * * * * * %s   with  spaces ',
                           '\t* * * * * %s \\\n  continued', '&bootrun(false) */1 0-23 * * 0-7 %s']) % k)
    for _ in range(r.choice([0, 0, 1, 4])):
        L.insert(r.randint(0, len(L)), r.choice(['# a comment', '#%s ' % tag, '', '   ', 'VAR=value', "V2 = ' q '", '!serial(false)', '#' + ''.join(chr(r.randint(128, 255)) for _ in range(9)),
                                              '# %s ' % ('x' * 900), '#\tt\x0b\x0c\x7f\x01']))
    if bad:
        L.insert(r.randint(0, len(L)), r.choice(['61 * * * * nope', 'garbage', '@ 5x nope', '&nice(77) * * * * * nope', '* * * * *', '* * * * * nul\0nul', '* * * * * ' + 'y' * 3000]))
    t = '\n'.join(L)
    t += r.choice(['\n', '\n', '\n', '', '\n\n', '\n#end', '\n\n\n# no newline'])
    if not r.randint(0, 6):
        t = '#%s\n' % tag + '#' + '\n#'.join('z' * r.choice([10, 500]) for _ in range(r.choice([1, 30, 300]))) + '\n' + t
    if t and not t.strip():
        t = '#\n'
    return t.encode('latin-1'), names

class Model:
    def __init__(self, w, o, r):
        self.w, self.o, self.r = w, o, r
        self.t = {u: (None, frozenset()) for u in UIDS}     # (source, names)
        self.trail = []
    def snap(self, u=None):
        d = self.w.root + '/spool/'
        out = {}
        for n in os.listdir(d):
            b = re.sub(r'^(new|rm)\.|(\.orig|\.prev)?(\.tmp)?$', '', n)
            if b != u:
                st = os.stat(d + n)
                out[n] = (open(d + n, 'rb').read(), st.st_uid, st.st_gid, st.st_mode)
        return out
    def fc(self, args, user, **kw):
        return self.w.fcrontab(args, user=user, now=self.now, **kw)
    def lists(self, where, users=None):
        """what -l says for every user"""
        res = {}
        for u in users or UIDS:
            by, a = (u, ['-l']) if u != 'systab' and self.r.random() < .7 else ('root', ['-l', '-u', u] if self.r.random() < .5 else ['-l', u])
            x = self.fc(a, by)
            if not self.o.sane(x, 'fcrontab -l'):
                return None
            none = b'has no fcrontab' in x.err
            if x.rc != 0 or (none and x.out):
                self.o.bad('list-failed', 'a listing fails', user=u, rc=x.rc, err=x.err[-300:].decode('latin-1'), where=where, trail=self.trail[-6:])
                return None
            res[u] = None if none else x.out
        return res
    def check_lists(self, where):
        g = self.lists(where)
        if g is None:
            return False
        for u, v in g.items():
            e = self.t[u][0]
            if v != e:
                self.o.bad('listed', 'the listing is not what was installed', user=u, where=where, listed=repr(v)[:300], expected=repr(e)[:300], trail=self.trail[-6:])
                return False
            self.o.count('listed')
            self.o.count('bytes', len(v or b''))
        return True
    def started(self, where):
        """names the daemon starts within two minutes"""
        run = self.w.daemon([(145, 'sig TERM')], start=self.now + 3)
        self.now += 400
        if not self.o.sane(run, 'daemon'):
            return None
        self.o.count('daemon_runs')
        self.last = run
        got = {}
        for e in run.ev('exec'):
            n = name_of(e)
            got.setdefault(re.match(r'[a-z]*', n).group().rstrip('v') if n else '?', set()).add(n)
            u = re.match(r'([a-z]+)v\d+l', n)
            if u and e['uid'][0] != UIDS.get(u.group(1), -1):
                self.o.bad('owner', 'a line runs as another user', line=n, uid=e['uid'], trail=self.trail[-6:])
                return None
        return got
    def check_daemon(self, where):
        got = self.started(where)
        if got is None:
            return False
        for u, (src, names) in self.t.items():
            if got.get(u, set()) != set(names):
                self.o.bad('scheduled', 'the lines which run are not those listed', user=u, where=where, started=sorted(got.get(u, set()))[:10], expected=sorted(names)[:10],
                           trail=self.trail[-6:], spool=sorted(os.listdir(self.w.root + '/spool')), logs=self.last.logs()[:10])
                return False
            self.o.count('starts_ok')
        if set(got) - set(self.t):
            self.o.bad('unknown', 'lines of nobody run', lines=[str(v)[:100] for k, v in got.items() if k not in self.t], trail=self.trail[-6:])
            return False
        return True

def editor(w, script):
    p = w.root + '/bin/editor'
    open(p, 'w').write('#!/bin/sh\n' + script + '\n')
    os.chmod(p, 0o755)

def op(m, r, fault=None, force=None):
    """one operation: (description, args, kwargs, user acted on, by, new state or None when nothing may change, must fail?)"""
    w = m.w
    u = r.choice(['alice', 'alice', 'bob', 'root', 'systab'])
    by = 'root' if u == 'systab' or r.random() < .3 else u
    tgt = [] if by == u else r.choice([['-u', u], [u]])
    k = force or r.choice(['file', 'file', 'stdin', 'remove', 'reinstall', 'edit', 'edit', 'edit', 'wrong', 'edit-bad', 'bad'])
    cur = m.t[u]
    p = w.root + '/work/in.%s' % by
    if k in ('file', 'stdin', 'bad'):
        b, names = text(r, u, bad=k == 'bad')
        new = (b, frozenset(names)) if names else (b, frozenset())
        opt = r.choice([[], [], [], ['-n'], ['-d']])
        if k == 'stdin' or (k == 'bad' and r.random() < .4):
            if tgt and tgt[0] != '-u':
                a = opt + ['-', u]
            else:
                a = opt + tgt + ['-']
            return k, a, dict(stdin=b), u, by, new, False
        open(p, 'wb').write(b)
        os.chmod(p, 0o644)
        pp = p if r.random() < .6 else os.path.basename(p)
        a = opt + ([pp, u] if tgt and tgt[0] != '-u' else tgt + [pp])
        return k, a, {}, u, by, new, False
    if k == 'remove':
        return k, r.choice([['-r'] + tgt, tgt + ['-r'] if tgt[:1] == ['-u'] else ['-r'] + tgt]), {}, u, by, (None, frozenset()), False
    if k == 'reinstall':
        return k, ['-z'] + tgt, {}, u, by, cur, cur[0] is None
    if k == 'wrong':
        a = r.choice([['-l', '-r'], ['-r', '-e'], ['-z', '-r'], ['-e', '-z'], [], [w.root + '/work/none'], [w.root + '/work'], ['-x'], ['-u'], ['/dev/null/x'], ['a', 'b', 'c'], ['-r', 'a', 'b'],
                      ['-r', '-u', 'nobody9'], ['-u', 'nobody9', p], ['-l', 'nobody9'], ['-', 'nobody9'], ['-c']])
        return k, a, dict(stdin=b'* * * * * wrongv1l1\n'), u, r.choice([by, u if u != 'systab' else by]), cur, True
    # editing
    b, names = text(r, u, bad=k == 'edit-bad')
    new = (b, frozenset(names))
    q = w.root + '/work/ed'
    open(q, 'wb').write(b)
    os.chmod(q, 0o644)
    e = r.choice(['cp', 'cp', 'cp', 'rename', 'nothing', 'kill', 'rm', 'same', 'append', 'dir', 'nothing0']) if k == 'edit' else r.choice(['i', 'c-fix', 'c-abort', 'eof', 'junk-i', 'c-c-fix', 'kill'])
    desc, stdin, exp, fail = 'edit:' + e, b'i\n' if e in ('append', 'same') else b'', new, False
    name = r.choice(['VISUAL', 'EDITOR', None])
    env = {}
    # something which shows that the editor saw the present text
    sc = 'cp "$1" %s/work/seen; chmod 666 %s/work/seen\n' % (w.root, w.root)
    if e == 'cp':
        sc += 'cat %s > "$1"' % q
    elif e == 'rename':
        sc += 'cp %s "$1.x"; mv -f "$1.x" "$1"' % q
    elif e == 'nothing':
        exp = cur
    elif e == 'nothing0':       # written, but never ended well
        sc += 'true "$1"; exit 0'
        exp = cur
    elif e == 'kill':
        sc += 'cat %s > "$1"; kill -9 $$' % q
        exp, fail = cur, True
    elif e == 'rm':
        sc += 'rm -f "$1"'
        exp, fail = cur, True
    elif e == 'dir':
        sc += 'rm -f "$1"; ln -s %s/work/none "$1"' % w.root
        exp, fail = cur, True
    elif e == 'same':           # same size, within the same second
        if not cur[0] or b'l' not in cur[0]:
            exp = cur
        else:
            c2 = cur[0].swapcase() if False else re.sub(rb'v(\d+)l', lambda x: b'v' + x.group(1)[::-1] + b'l' if x.group(1)[::-1][:1] != b'0' else x.group(), cur[0])
            if any(re.search(rb'v(\d+)l', l) is None for l in [n.encode() for n in cur[1]]):
                c2 = cur[0]
            open(q, 'wb').write(c2)
            exp = (c2, frozenset(re.sub(r'v(\d+)l', lambda x: 'v' + x.group(1)[::-1] + 'l' if x.group(1)[::-1][:1] != '0' else x.group(), n) for n in cur[1]))
            sc += 'cat %s > "$1"' % q
    elif e == 'append':
        base = cur[0] or b''
        if base and not base.endswith(b'\n'):
            base += b'\n'
        nm = '%sv9%dl0' % (u, SERIAL[0])
        open(q, 'wb').write(base + b'* * * * * ' + nm.encode() + b'\n')
        exp = (base + b'* * * * * ' + nm.encode() + b'\n', cur[1] | {nm})
        sc += 'cat %s > "$1"' % q
    elif e in ('i', 'junk-i'):
        sc += 'cat %s > "$1"' % q
        stdin = b'i\n' if e == 'i' else b'x\nyes please\n\ni\n'
    elif e in ('c-fix', 'c-c-fix'):
        b2, n2 = text(r, u)
        if not n2:
            b2, n2 = b'* * * * * %sv7%dl1\n' % (u.encode(), SERIAL[0]), {'%sv7%dl1' % (u, SERIAL[0])}
        open(q + '2', 'wb').write(b2)
        os.chmod(q + '2', 0o644)
        k2 = 1 if e == 'c-fix' else 2
        sc += 'n=$(cat %s/work/cnt 2>/dev/null || echo 0); n=$((n+1)); echo $n > %s/work/cnt; chmod 666 %s/work/cnt 2>/dev/null\n' % (w.root, w.root, w.root)
        sc += 'if [ $n -gt %d ]; then cat %s2 > "$1"; else cat %s > "$1"; fi' % (k2, q, q)
        stdin = b'c\n' * k2
        exp = (b2, frozenset(n2))
    elif e == 'c-abort':
        sc += 'n=$(cat %s/work/cnt 2>/dev/null || echo 0); n=$((n+1)); echo $n > %s/work/cnt; chmod 666 %s/work/cnt 2>/dev/null\n' % (w.root, w.root, w.root)
        sc += 'if [ $n -gt 1 ]; then kill -9 $$; else cat %s > "$1"; fi' % q
        stdin, exp, fail = b'c\n', cur, True
    elif e == 'eof':
        sc += 'cat %s > "$1"' % q
        stdin, exp, fail = r.choice([b'', b'x\nq\n']), cur, True
    for f in ('seen', 'cnt'):
        if os.path.exists(w.root + '/work/' + f):
            os.unlink(w.root + '/work/' + f)
    # '/bin/sh -c "EDITOR FILE"'
    editor(w, 'set -- "$1"\n' + sc)
    if name:
        env[name] = w.root + '/bin/editor'
        other = {'VISUAL': 'EDITOR', 'EDITOR': 'VISUAL'}[name]
        if name == 'VISUAL':
            env[other] = '/bin/false'
        elif r.random() < .5:
            env[other] = ''
    return desc, r.choice([['-e'] + tgt] * 3 + [['-e', '-n'] + tgt]), dict(stdin=stdin, env=env), u, by, exp, fail

def apply(m, r, force=None):
    """run one operation without faults and check it"""
    o, w = m.o, m.w
    desc, a, kw, u, by, new, fail = op(m, r, force=force)
    before = m.snap(u if desc != 'wrong' else None)
    m.trail.append((desc, by, u, a, (kw.get('stdin') or b'')[:40].decode('latin-1')))
    x = m.fc(a, by, **kw)
    if not o.sane(x, "fcrontab", ANY):
        return False
    m.now += r.choice([1, 5, 60])
    o.count('ops')
    if (x.rc != 0) != fail:
        o.bad('exit', 'an operation which should ' + ('be refused is not' if fail else 'work is refused'), op=m.trail[-1], rc=x.rc, err=x.err[-400:].decode('latin-1'), trail=m.trail[-6:])
        return False
    if m.snap(u if desc != 'wrong' else None) != before:
        b, c = before, m.snap(u if desc != 'wrong' else None)
        o.bad('others', "files of others have changed", op=m.trail[-1], files=sorted(k for k in set(b) | set(c) if b.get(k) != c.get(k)))
        return False
    if desc.startswith('edit'):
        s = w.root + '/work/seen'
        seen = open(s, 'rb').read() if os.path.exists(s) else None
        if desc in ('edit:cp', 'edit:append', 'edit:nothing', 'edit:kill', 'edit:rename', 'edit:i') and seen != (m.t[u][0] or b''):
            o.bad('editor', 'the editor was not given the present fcrontab', op=m.trail[-1], seen=repr(seen)[:200], present=repr(m.t[u][0])[:200], err=x.err[-300:].decode('latin-1'))
            return False
        o.count('edits')
        if desc in ('edit:nothing', 'edit:nothing0'):
            o.count('unchanged_edits')
        if fail:
            o.count('aborted')
    if fail:
        o.count('refused')
    if desc == 'remove' and m.t[u][0] is not None:
        o.count('removed')
    if desc == 'reinstall' and not fail:
        o.count('reinstalled')
    o.sig('op', desc, by == u, u == 'systab', m.t[u][0] is None, bool(m.t[u][1]), bool(new[1]))
    m.t[u] = new
    return True

def hist_case(c, o, r, variant):
    with World(variant) as w:
        w.stub_sighup()
        m = Model(w, o, r)
        m.now = 1600000000 + r.randint(0, 10 ** 5)
        for k in range(r.choice([2, 4, 6])):
            for _ in range(r.choice([1, 1, 2, 3])):
                if not apply(m, r):
                    return
                if r.random() < .5 and not m.check_lists('after ' + m.trail[-1][0]):
                    return
            if not m.check_lists('before the daemon') or not m.check_daemon('daemon') or not m.check_lists('after the daemon'):
                return

ERR = ['ENOSPC', 'EIO', 'EDQUOT', 'EROFS', 'EACCES', 'EMFILE', 'ENOMEM', 'EINTR']
def fault_case(c, o, r, variant):
    """an error at one system call of one operation: the old one, or the new one, whole; and the exit code tells"""
    with World(variant) as w:
        w.stub_sighup()
        m = Model(w, o, r)
        m.now = 1600000000
        for _ in range(r.choice([1, 3, 5])):
            if not apply(m, r, force=r.choice(['file', 'file', 'stdin', 'remove'])):
                return
        if r.random() < .6 and not m.check_daemon('before'):
            return
        import shutil
        while True:
            desc, a, kw, u, by, new, fail = op(m, r, force=r.choice(['file', 'stdin', 'remove', 'reinstall', 'edit']))
            if not fail and desc not in ('edit:nothing', 'edit:nothing0'):
                break
        sp, keep = w.root + '/spool', w.root + '/keep'
        def copy(s, d):
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(s, d, symlinks=True)
            os.chown(d, FCRON_UID, FCRON_GID)
            os.chmod(d, 0o770)
            for n in os.listdir(s):
                st = os.stat(s + '/' + n)
                os.chown(d + '/' + n, st.st_uid, st.st_gid)
        copy(sp, keep)
        x = m.fc(a, by, ticklog=True, **kw)
        ticks = x.ev('tick')
        tidy(ticks)
        if x.rc != 0 or not ticks:
            o.bad('exit', 'an operation which should work is refused', op=(desc, by, a), rc=x.rc, err=x.err[-300:].decode('latin-1'))
            return
        # from the first use of the arguments on
        for _ in range(3):
            copy(keep, sp)
            for f in ('seen', 'cnt'):
                if os.path.exists(w.root + '/work/' + f):
                    os.unlink(w.root + '/work/' + f)
            t = r.choice(ticks) if r.random() < .3 else r.choice([t for t in ticks if re.search(r'spool|new\.|rm\.|orig|fcr-|^[a-z]+$', t.get('what', ''))] or ticks)
            e = r.choice(ERR)
            if t['call'] in ('select', 'waitpid', 'readdir'):
                continue
            how = r.choice(['err', 'err', 'full', 'short']) if t['call'] == 'write' else 'err'
            tick = '%d:%s=%s' % (t['n'], how, e if how != 'short' else '1')
            before = m.snap(u)
            x = m.fc(a, by, tick=tick, ticklog=True, **kw)
            tidy(x.ev('tick'))
            if not o.sane(x, 'fcrontab given an error', ANY):
                return
            what = re.sub(r'fcr-\w+', 'fcr-', os.path.basename(t['what']))
            where = dict(op=desc, by=by, user=u, call=t['call'], what=what, fault=tick, rc=x.rc, err=x.err[-300:].decode('latin-1'))
            o.count('faults')
            if m.snap(u) != before:
                o.bad('others', 'files of others have changed', where=where)
                return
            old = m.t[u]
            g = m.lists('after a fault', [u])
            if g is None:
                return
            runs = m.started('after a fault')
            if runs is None:
                return
            got = runs.get(u, set())
            poss = [v for v in (old, new) if v[0] == g[u] and set(v[1]) == got]
            if not poss:
                o.bad('half', 'after an error neither the old nor the new fcrontab is listed and scheduled', where=where, listed=repr(g[u])[:200], started=sorted(got)[:8],
                      old=(repr(old[0])[:120], sorted(old[1])[:6]), new=(repr(new[0])[:120], sorted(new[1])[:6]), spool=sorted(os.listdir(sp)))
                return
            if x.rc == 0 and new not in poss:
                o.bad('not-done', 'an operation reports success but was not done', where=where, listed=repr(g[u])[:200])
                return
            o.count('faults_failed' if x.rc else 'faults_survived')
            o.sig('fault', desc, t['call'], re.sub(r'alice|bob|root|systab', 'U', what), e if how == 'err' else how, x.rc != 0, new in poss)

def io_case(c, o, r, variant):
    """errors of the standard streams and of the file given"""
    import subprocess
    with World(variant) as w:
        w.stub_sighup()
        m = Model(w, o, r)
        m.now = 1600000000
        if not apply(m, r, force='file'):
            return
        for u in ('alice', 'bob'):
            b, n = text(r, u)
            b = b or b'#\n'
            x = w.install(u, b, now=m.now)
            m.t[u] = (b, frozenset(n))
        u = r.choice(['alice', 'bob'])
        k = ['list-full', 'list-closed', 'stdin-dir', 'stdin-closed'][c['i'] % 4]
        uid, gid, gs = USERS[u]
        from sim import setids_bin
        tr = w._trace()
        base = [setids_bin(), str(uid), str(FCRON_UID), str(gid), str(FCRON_GID), ','.join(map(str, gs)), w.root + '/work', w.bin + '/fcrontab', '-c', w.conf_path]
        env = w.env(tr, {'SIM_START': repr(float(m.now))})
        if k == 'list-full':
            with open('/dev/full', 'wb') as f:
                p = subprocess.run(base + ['-l'], env=env, stdout=f, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=60)
            want = bool(m.t[u][0])
        elif k == 'list-closed':
            p = subprocess.run(['/bin/sh', '-c', 'exec "$@" >&-', 'x'] + base + ['-l'], env=env, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=60)
            want = bool(m.t[u][0])
        elif k == 'stdin-dir':
            p = subprocess.run(['/bin/sh', '-c', 'exec "$@" <%s' % w.root, 'x'] + base + ['-'], env=env, stderr=subprocess.PIPE, stdout=subprocess.DEVNULL, timeout=60)
            want = True
        else:
            p = subprocess.run(['/bin/sh', '-c', 'exec "$@" <&-', 'x'] + base + ['-'], env=env, stderr=subprocess.PIPE, stdout=subprocess.DEVNULL, timeout=60)
            want = None
        run = w._finish(tr, (p.returncode, b'', p.stderr, False))
        if not o.sane(run, 'fcrontab with odd streams', ANY):
            return
        o.count('io')
        o.sig('io', k, p.returncode)
        if want and p.returncode == 0:
            o.bad('io', 'an operation which could not be done reports success', how=k, err=p.stderr[-300:].decode('latin-1'))
            return
        if p.returncode == 0 and k == 'stdin-closed':
            return
        m.check_lists('after ' + k) and m.check_daemon('after ' + k)

from sim import FCRON_UID, FCRON_GID

def run_case(c, o):
    r = rng(c['seed'], 'p12', c['kind'], c['i'])
    SERIAL[0] = 0
    variant = 'asan' if c['i'] % 2 == 0 else 'ubsan'
    dict(hist=hist_case, fault=fault_case, io=io_case)[c['kind']](c, o, r, variant)

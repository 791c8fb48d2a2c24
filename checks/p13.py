"""P13: no user gains another's rights or touches another's files through fcron."""
from fc import *
import fc, os, re, stat, subprocess, shutil
from sim import FCRON_UID, FCRON_GID
import tab

RULE = ('users other than root drive the real fcrontab, with the real and effective ids its set-id bits give and real file permissions, through attacks: other users named in every '
        'way, files, links, FIFOs and devices the account may not read given as fcrontab or put in place of the edited file, runas and user names in every place, hostile '
        'environments and configuration files, hostile account names; after each, every file of others (content, owner, mode) must be unchanged, no output or listing may hold a '
        'secret of theirs, editors must have run as the caller with no foreign descriptor, the compiled lines must run as the caller; and the real daemon must start every '
        "line under its owner. What root may do is done too. Distinct = (attack, outcome).")
MUST_OBSERVE = ('attacks', 'denied', 'files_same', 'editors', 'own_ok', 'root_ok', 'runas_root', 'runas_denied', 'daemon_runs', 'jobs_as_owner')
VARIANTS = ('asan', 'ubsan')
ANY = range(256)
ODD = ['systab', 'rm.bob', 'new.bob', 'bob.orig', 'new.new.bob', 'rm.systab', 'new.systab', 'bob.tmp', 'new.bob.tmp', 'systab.orig', 'bob.orig.tmp', '.bob', 'bo b', 'b%sb', 'bob\\']

def cases(tier, seed):
    n = dict(quick=(150, 40, 40), thorough=(6000, 1200, 1200))[tier]
    for kind, k in zip(('attack', 'root', 'names'), n):
        for i in range(k):
            yield dict(kind=kind, seed=seed, i=i)

class Site:
    def __init__(self, w, o, r):
        self.w, self.o, self.r = w, o, r
        self.now = 1600000000
        self.secrets = {}
        w.stub_sighup()
        R = w.root
        def put(p, b, uid, gid, mode):
            open(p, 'wb').write(b)
            os.chown(p, uid, gid)
            os.chmod(p, mode)
        for n, (p, uid, gid, mode) in {
                'bobhome': (R + '/home/bob/secret', 2002, 2002, 0o600), 'bobtab': (R + '/home/bob/tab', 2002, 2002, 0o640), 'rootfile': (R + '/etc/shadow', 0, 0, 0o600),
                'fcronfile': (R + '/etc/fcronsecret', FCRON_UID, FCRON_GID, 0o640), 'group': (R + '/work/grpsecret', 0, FCRON_GID, 0o640), 'bobgrp': (R + '/home/bob/grp', 2002, 3002, 0o640)}.items():
            s = 'SECRET_%s_%d' % (n, r.randint(10 ** 6, 10 ** 7))
            self.secrets[n] = s
            put(p, ('* * * * * %s\n# %s\nS=%s\n%s\n' % (s, s, s, s)).encode(), uid, gid, mode)
        self.files = dict(bobhome=R + '/home/bob/secret', bobtab=R + '/home/bob/tab', rootfile=R + '/etc/shadow', fcronfile=R + '/etc/fcronsecret', group=R + '/work/grpsecret',
                          bobgrp=R + '/home/bob/grp', bobspool=R + '/spool/bob.orig', rootspool=R + '/spool/root.orig', bobnew=R + '/spool/new.bob', allow=R + '/etc/fcron.allow', spooldir=R + '/spool')
        # the fcrontabs of the others
        for u in ('bob', 'root', 'systab', 'alice'):
            s = 'TAB_%s_%d' % (u, r.randint(10 ** 6, 10 ** 7))
            if u != 'alice':
                self.secrets['tab' + u] = s
            x = w.install(u, '* * * * * %sjob dur=.1\n# %s\n' % (u, s), now=self.now)
            o.sane(x, 'fcrontab')
            os.unlink(R + '/work/in.' + u)
        if r.random() < .5:
            run = w.daemon([(5, 'sig TERM')], start=self.now + 1)
            o.sane(run, 'daemon')
        self.alice = {}
    def snap(self, mine='alice'):
        """everything under the scratch tree but the traces and what belongs to `mine`"""
        out = {}
        R = self.w.root
        for d, ds, fs in os.walk(R):
            ds[:] = [x for x in ds if os.path.join(d, x) not in (R + '/tr', R + '/san', R + '/home/' + mine, R + '/bin')]
            for f in fs + ds:
                p = os.path.join(d, f)
                st = os.lstat(p)
                if d == R + '/spool' and f in [x % mine for x in ('%s', 'new.%s', 'rm.%s', '%s.orig', '%s.orig.tmp', 'new.%s.tmp')]:
                    continue
                if d == R + '/work' and st.st_uid == USERS[mine][0]:
                    continue
                c = open(p, 'rb').read() if stat.S_ISREG(st.st_mode) else os.readlink(p) if stat.S_ISLNK(st.st_mode) else None
                out[p[len(R):]] = (c, st.st_uid, st.st_gid, st.st_mode)
        return out
    def leak(self, *texts):
        for n, s in self.secrets.items():
            for t in texts:
                if t and s.encode() in t:
                    return n
        return None
    def fc(self, args, user='alice', **kw):
        return self.w.fcrontab(args, user=user, now=self.now, **kw)
    def spool_of(self, u):
        R = self.w.root + '/spool/'
        out = []
        for n in ('new.' + u, u, u + '.orig'):
            try:
                out.append(open(R + n, 'rb').read())
            except OSError:
                pass
        return out

def editor(w, sc):
    p = w.root + '/bin/editor'
    open(p, 'w').write('#!/bin/sh\n' + sc + '\n')
    os.chmod(p, 0o755)

def attack(s, r):
    """(name, run, what it was, allowed?)"""
    w, R = s.w, s.w.root
    k = r.choice(['other', 'other', 'file', 'file', 'edit', 'edit', 'edit', 'runas', 'runas', 'env', 'conf', 'user-env', 'own', 'race'])
    ok = ''.join(['* * * * * aliceok\n'])
    mine = R + '/home/alice/tab'
    def put(t):
        open(mine, 'w').write(t)
        os.chown(mine, 2001, 2001)
        os.chmod(mine, 0o600)
    put(ok)
    env, stdin, a, cwd, deny = {}, b'', None, None, True
    victim = r.choice(['bob', 'root', 'systab', 'fcron'])
    if k == 'other':
        a = r.choice([['-l', '-u', victim], ['-r', '-u', victim], ['-z', '-u', victim], ['-e', '-u', victim], ['-l', victim], ['-r', victim], ['-z', victim], ['-e', victim],
                      ['-u', victim, mine], [mine, victim], ['-', victim], ['-u', victim, '-'], ['-u', victim, '-u', 'alice', '-r'], ['-u', 'alice', '-u', victim, '-l'],
                      ['-n', mine, victim], ['-r', '--', victim], ['-l', '-uroot'], ['-l', '../spool/bob'], ['-l', 'bob.orig'], ['-d', '-l', victim]])
        editor(w, 'echo "* * * * * evil" > "$1"')
        stdin = b'* * * * * evil\n'
    elif k == 'own':
        a, deny = r.choice([['-l'], [mine], ['-'], ['-z']]), False
        stdin = b'* * * * * aliceok\n'
    elif k == 'file':
        n = r.choice(list(s.files))
        t = s.files[n]
        how = r.choice(['direct', 'symlink', 'relative', 'hardlink', 'symlinkdir', 'dots', 'fd', 'spoolcwd'])
        if how == 'symlink':
            os.symlink(t, R + '/home/alice/l')
            os.lchown(R + '/home/alice/l', 2001, 2001)
            a = [R + '/home/alice/l']
        elif how == 'symlinkdir':
            os.symlink(os.path.dirname(t), R + '/home/alice/l')
            a = [R + '/home/alice/l/' + os.path.basename(t)]
        elif how == 'hardlink':
            if os.path.exists(t) and not os.path.isdir(t):
                os.link(t, R + '/home/alice/l')
            a = [R + '/home/alice/l']
        elif how == 'relative':
            a, cwd = [os.path.basename(t)], R + '/home/alice'
            os.path.exists(t) and os.symlink(t, R + '/home/alice/' + os.path.basename(t)) if os.path.basename(t) != 'tab' else None
            if os.path.basename(t) == 'tab':
                a = [t]
        elif how == 'dots':
            a = [R + '/home/alice/../../' + os.path.relpath(t, R)]
        elif how == 'fd':
            a = ['/proc/self/fd/%d' % r.randint(0, 9)]
        elif how == 'spoolcwd':
            a = [r.choice(['../spool/bob.orig', 'bob.orig', '/proc/self/cwd/bob.orig', '/proc/self/cwd/new.root', './root.orig'])]
        else:
            a = [t]
        if r.random() < .3:
            a = r.choice(['-d', '-n']).split() + a
        k = 'file:' + how
    elif k == 'edit':
        n = r.choice(list(s.files))
        t = s.files[n]
        e = r.choice(['symlink', 'hardlink', 'fifo', 'dir', 'ids', 'device', 'append', 'chmod', 'swap'])
        # what an editor run by fcrontab is and can see
        pre = 'mkdir -p %s/home/alice/ed; (cat /proc/self/status; ls -l /proc/self/fd) > %s/home/alice/ed/me 2>&1\n' % (R, R)
        pre += 'for f in %s; do cat $f; done > %s/home/alice/ed/read 2>/dev/null; for f in %s %s/spool/evil %s/etc/fcron.allow %s/run/x; do (echo evil >> $f) 2>/dev/null; done\n' % (
            ' '.join(s.files.values()), R, ' '.join(x for x in s.files.values() if x != R + '/spool'), R, R, R)
        if e == 'symlink':
            sc = 'rm -f "$1"; ln -s %s "$1"' % t
        elif e == 'hardlink':
            sc = 'rm -f "$1"; ln %s "$1"' % t
        elif e == 'fifo':
            sc = 'rm -f "$1"; mkdir "$1"'
        elif e == 'dir':
            sc = 'rm -f "$1"; mkdir "$1"; echo x > "$1/x"'
        elif e == 'device':
            sc = 'rm -f "$1"; ln -s /dev/zero "$1"'
        elif e == 'chmod':
            sc, deny = 'chmod 000 "$1"', True
        elif e == 'swap':
            sc = 'cat "$1" > %s/home/alice/x; mv %s/home/alice/x "$1"; echo "* * * * * aliceok" >> "$1"' % (R, R)
            deny = False
        elif e == 'append':
            sc, deny = 'echo "* * * * * aliceok" >> "$1"', False
        else:
            sc, deny = 'echo "* * * * * aliceok" > "$1"', False
        editor(w, pre + sc)
        a, stdin = ['-e'], b'i\n'
        if r.random() < .3:
            env['EDITOR'] = R + '/bin/editor'
        k = 'edit:' + e
    elif k == 'runas':
        v = r.choice(['root', 'bob', 'fcron', '0', '#0', 'daemon'])
        t = r.choice(['&runas(%s) * * * * * aliceok', '!runas(%s)\n* * * * * aliceok', '@runas(%s) 60s aliceok', '%%hourly,runas(%s) 0-59 aliceok', '&serial,runas(%s),mail(no) * * * * * aliceok',
                      '!serial(no),runas(%s)\n@ 60s aliceok\n* * * * * aliceok2', '&runas( %s) * * * * * aliceok', '!reset,runas(%s)\n* * * * * aliceok', '* * * * * %s aliceok',
                      'USER=%s\nLOGNAME=root\nHOME=/root\n* * * * * aliceok', '!mailto(%s)\n* * * * * aliceok', '&mailfrom(%s) * * * * * aliceok', '!runas(alice)\n&runas(%s) * * * * * aliceok',
                      '&runas(%s\\\n) * * * * * aliceok', '!runas(%s),runas(alice)\n* * * * * aliceok'])
        put(t.replace('%s', v).replace('%%', '%') + '\n* * * * * aliceok\n')
        a, deny = [mine], False
        k = 'runas:' + re.sub(r'[^a-z@&!%]', '', t)[:14]
    elif k == 'env':
        x = r.choice([{'USER': 'root', 'LOGNAME': 'root', 'HOME': '/root'}, {'PATH': R + '/home/alice/bin'}, {'SHELL': R + '/home/alice/bin/sh'}, {'TMPDIR': R + '/spool'}, {'IFS': '/'},
                      {'VISUAL': 'cat %s; true' % s.files['bobspool'], 'EDITOR': 'x'}, {'FCRONCONF': mine}, {'POSIXLY_CORRECT': '1'}, {'TZ': ':' + s.files['rootfile']}, {'ENV': mine}, {'BASH_ENV': mine},
                      {'SHELLOPTS': 'xtrace', 'PS4': '$(id)'}, {'LANG': '../../' + R, 'NLSPATH': s.files['rootfile']}])
        os.makedirs(R + '/home/alice/bin', exist_ok=True)
        for n in ('sh', 'fcronsighup', 'sendmail', 'editor'):
            open(R + '/home/alice/bin/' + n, 'w').write('#!/bin/sh\ncat %s > %s/home/alice/got 2>/dev/null; (id; cat /proc/self/status) > %s/home/alice/ran; exit 0\n' % (' '.join(s.files.values()), R, R))
            os.chmod(R + '/home/alice/bin/' + n, 0o755)
        os.chown(R + '/home/alice/bin', 2001, 2001)
        env.update(x)
        editor(w, 'echo "* * * * * aliceok" > "$1"')
        a, deny = r.choice([[mine], ['-l'], ['-e'], ['-z'], ['-', ], ['-r']]), None
        stdin = b'* * * * * aliceok\n'
        k = 'env:' + ','.join(x)
    elif k == 'conf':
        # a configuration file of the user's own: it decides the spool, the editor, the pid file...
        p = R + '/home/alice/conf'
        d = R + '/home/alice/spool'
        os.makedirs(d, exist_ok=True)
        t = ''.join('%s = %s\n' % kv for kv in dict(w.conf, **r.choice([{'fcronallow': '/dev/null', 'fcrondeny': '/dev/null'}, {'fcrontabs': d}, {'fcrontabs': R + '/home/bob'}, {'shell': R + '/home/alice/sh'},
                                                                    {'fcronallow': s.files['rootfile']}, {'fcrontabs': R + '/etc'}, {'editor': 'cat %s #' % s.files['bobspool']}])).items())
        open(p, 'w').write(t)
        how = r.choice(['own', 'link', 'writable', 'secret', 'dir', 'gid'])
        if how == 'own':
            os.chown(p, 2001, 2001)
        elif how == 'gid':
            os.chown(p, 2001, FCRON_GID)
        elif how == 'writable':
            os.chown(p, 0, FCRON_GID)
            os.chmod(p, r.choice([0o666, 0o646, 0o664]))
        elif how == 'secret':
            p = s.files[r.choice(list(s.files))]
        elif how == 'dir':
            p = d
        else:
            os.chown(p, 2001, 2001)
            os.symlink(p, R + '/home/alice/l')
            p = R + '/home/alice/l'
        a, deny = ['-c', p] + r.choice([[mine], ['-l'], ['-e'], ['-r'], ['-'], ['-z']]), None
        stdin = b'* * * * * aliceok\n'
        editor(w, 'echo "* * * * * aliceok" > "$1"')
        k = 'conf:' + how
    elif k == 'user-env':
        put(r.choice(['PATH=%s/home/alice/bin\nSHELL=%s/home/alice/sh\n* * * * * aliceok\n', 'LD_PRELOAD=%s/x\nUSER=root\nMAILTO=%s\n* * * * * aliceok\n', 'HOME=%s/root\nSHELL=%s/bin/su\n* * * * * aliceok\n'])
            % (R, R))
        a, deny = [mine], False
    else:       # race: the file given is exchanged while it is read
        editor(w, 'mv "$1" %s/home/alice/y; ln -s %s "$1"; (sleep .05; rm -f "$1"; mv %s/home/alice/y "$1") & exit 0' % (R, s.files['bobspool'], R))
        a, deny, stdin = ['-e'], None, b'i\n'
    return k, a, env, stdin, cwd, deny

def attack_case(c, o, r, variant):
    with World(variant) as w:
        s = Site(w, o, r)
        if o.viol:
            return
        os.makedirs(w.root + '/tmp', exist_ok=True)
        for _ in range(r.choice([4, 6, 8])):
            for f in ('l', 'secret', 'shadow', 'fcronsecret', 'grpsecret', 'grp', 'bob.orig', 'root.orig', 'new.bob', 'fcron.allow', 'spool', 'conf', 'got', 'ran', 'y', 'x'):
                p = w.root + '/home/alice/' + f
                if os.path.islink(p) or os.path.isfile(p):
                    os.unlink(p)
                elif os.path.isdir(p):
                    shutil.rmtree(p)
            shutil.rmtree(w.root + '/home/alice/ed', ignore_errors=True)
            os.makedirs(w.root + '/home/alice/bin', exist_ok=True)
            k, a, env, stdin, cwd, deny = attack(s, r)
            before = s.snap()
            links = {p: os.lstat(p).st_nlink for p in s.files.values() if os.path.lexists(p)}
            x = s.fc(a, stdin=stdin, env=env, cwd=cwd, timeout=40, ticklog=True)
            for e in x.events:
                m = re.fullmatch(r'/tmp/fcr-\w{6}', e.get('what', '')) if e['ev'] == 'tick' else None
                if m and os.path.lexists(e['what']):
                    # (links and directories put there by the editor)
                    (shutil.rmtree if os.path.isdir(e['what']) and not os.path.islink(e['what']) else os.unlink)(e['what'])
            if not o.sane(x, 'fcrontab', ANY):
                return
            what = dict(attack=k, args=a, rc=x.rc, err=x.err[-300:].decode('latin-1'), out=x.out[:200].decode('latin-1'))
            o.count('attacks')
            after = s.snap()
            if after != before:
                o.bad('touched', "files which are not the user's have changed", what=what,
                      files=[(f, str(before.get(f))[:150], str(after.get(f))[:150]) for f in sorted(set(before) | set(after)) if before.get(f) != after.get(f)][:5])
                return
            o.count('files_same', len(before))
            l = s.leak(x.out, x.err, *s.spool_of('alice'))
            if l:
                o.bad('leak', "a user sees the content of a file which may not be read", what=what, of=l)
                return
            for f in ('got', 'ed/read'):
                p = w.root + '/home/alice/' + f
                if os.path.exists(p):
                    l = s.leak(open(p, 'rb').read())
                    if l:
                        o.bad('rights', 'a program started by fcrontab could read what the user may not', what=what, of=l, by=f)
                        return
            for f in ('ed/me', 'ran'):
                p = w.root + '/home/alice/' + f
                if os.path.exists(p):
                    t = open(p).read()
                    m = re.search(r'Uid:\s*(\d+)\s+(\d+)\s+(\d+)\s+(\d+)\nGid:\s*(\d+)\s+(\d+)\s+(\d+)\s+(\d+)', t)
                    g = re.search(r'Groups:\s*([\d ]*)', t)
                    if not m or set(m.groups()) != {'2001'} or set(g.group(1).split()) - {'2001', '3001'}:
                        o.bad('identity', 'a program started by fcrontab has other ids than the user', what=what, ids=m and m.groups(), groups=g and g.group(1))
                        return
                    fds = re.findall(r' (\d+) -> (\S+)', t)
                    bad = [d for n, d in fds if d.startswith(w.root + '/') and '/home/alice' not in d and '/work' not in d]
                    if bad:
                        o.bad('fds', 'a program started by fcrontab has inherited descriptors', what=what, fds=bad)
                        return
                    o.count('editors')
            for e in x.ev('exec'):
                # what fcrontab starts: fcronsighup from its own place, or the editor
                f = e.get('file', '')
                if not f.startswith((w.root + '/bin/', '../bin/')) and f != '/bin/sh':
                    o.bad('exec', 'another program is started', what=what, file=f)
                    return
            if deny and x.rc == 0:
                o.bad('allowed', 'what only root or the owner may do is done', what=what)
                return
            if deny is False and x.rc != 0 and k != 'own':
                o.bad('refused', 'what the user may do is refused', what=what)
                return
            o.count('denied' if x.rc else 'own_ok')
            # whatever was compiled runs as the user
            for n in ('new.alice', 'alice'):
                p = w.root + '/spool/' + n
                if os.path.exists(p):
                    f = parse_spool(open(p, 'rb').read())
                    for l in f['lines']:
                        if l['runas'].rstrip(b'\0') != b'alice':
                            o.bad('runas', 'a line of a user runs as another', what=what, runas=str(l['runas']), line=str(l['shell'])[:100])
                            return
            if k.startswith('runas'):
                o.count('runas_denied')
            st = [os.stat(w.root + '/spool/' + n) for n in os.listdir(w.root + '/spool')]
            if any(x.st_mode & 0o7 or (x.st_mode & 0o077 and x.st_uid == 0 and x.st_gid != FCRON_GID) for x in st):
                o.bad('mode', 'a file of the spool is open to others', what=what, modes=[(n, oct(os.stat(w.root + '/spool/' + n).st_mode), os.stat(w.root + '/spool/' + n).st_uid) for n in os.listdir(w.root + '/spool')])
                return
            o.sig(k, x.rc != 0)
        run = w.daemon([(145, 'sig TERM')], start=s.now + 100)
        daemon_ok(o, run, {'alice': 2001, 'bob': 2002, 'root': 0, 'systab': 0}, ('bob', 'root', 'systab'))

def daemon_ok(o, run, owners, must):
    if not o.sane(run, 'daemon'):
        return False
    o.count('daemon_runs')
    seen = set()
    for e in run.ev('exec'):
        n = name_of(e)
        u = re.match(r'(alice|bob|root|systab|carol)', n)
        if not u and e['uid'] == [2001] * 3:
            continue        # what the fcrontab of alice says
        if not u or u.group(1) not in owners:
            o.bad('ran', 'a line which nobody may install runs', line=n, uid=e['uid'])
            return False
        if e['uid'] != [owners[u.group(1)]] * 3:
            o.bad('ran-as', 'a line runs as another user', line=n, uid=e['uid'])
            return False
        seen.add(u.group(1))
        o.count('jobs_as_owner')
    for u in must:
        if u not in seen:
            o.bad('lost', "the lines of another user do not run any more", user=u)
            return False
    return True

def root_case(c, o, r, variant):
    """what root may do works, and changes only the user named"""
    with World(variant) as w:
        w.stub_sighup()
        now = 1600000000
        o_ = o
        for u in ('alice', 'bob', 'root', 'systab'):
            o.sane(w.install(u, '* * * * * %sjob\n' % u, now=now), 'fcrontab')
        u = r.choice(['alice', 'bob', 'systab'])
        v = r.choice(['alice', 'bob', 'carol', 'root'])
        p = w.root + '/work/t'
        names = {'%s' % v: USERS[v][0]}
        t = r.choice(['&runas(%s) * * * * * xjob\n', '!runas(%s)\n* * * * * xjob\n', '@runas(%s),first(30s) 60s xjob\n', '!runas(bob)\n&runas(%s) * * * * * xjob\n'])
        t = t % v
        open(p, 'w').write(t)
        os.chmod(p, 0o644)
        who = r.choice([u, 'root'])
        a = [p] if who == 'root' else r.choice([['-u', who, p], [p, who]])
        x = w.fcrontab(a, user='root', now=now)
        if not o.sane(x, 'fcrontab of root'):
            return
        o.count('root_ok')
        run = w.daemon([(145, 'sig TERM')], start=now + 100)
        if not o.sane(run, 'daemon'):
            return
        o.count('daemon_runs')
        got = {}
        for e in run.ev('exec'):
            got.setdefault(name_of(e), set()).add(tuple(e['uid']))
        want = {k + 'job': {(uid,) * 3} for k, uid in dict(alice=2001, bob=2002, root=0, systab=0).items() if k != who}
        want['xjob'] = {(USERS[v][0],) * 3}
        if who not in ('root', 'systab') and got.get('xjob') == {(USERS[who][0],) * 3}:
            want['xjob'] = got['xjob']      # in the fcrontab of a user, the daemon keeps to that user
        if got != want:
            o.bad('root-runas', "lines of root's making do not run as asked", text=t, who=who, got=str(got), want=str(want), err=x.err[-300:].decode('latin-1'))
            return
        o.count('runas_root')
        o.sig('root', who, v, t[:6])
        # a fcrontab of another user's, with runas, handed over as a compiled file by the user: only root's may
        q = w.root + '/spool/' + r.choice(['new.bob', 'new.alice'])
        vic = os.path.basename(q)[4:]
        src = w.root + '/spool/' + (who if who in ('alice', 'bob') else 'root')
        if os.path.exists(src) and who == 'root':
            b = open(src, 'rb').read().replace(b'root', vic.encode()[:4].ljust(4, b'x'))
            open(q, 'wb').write(open(src, 'rb').read())
            os.chown(q, USERS[vic][0], FCRON_GID)
            os.chmod(q, 0o600)
            run = w.daemon([(145, 'sig TERM')], start=now + 1000)
            if not o.sane(run, 'daemon given a foreign compiled fcrontab'):
                return
            o.count('forged')
            n = [e for e in run.ev('exec') if name_of(e) == 'xjob']
            # root's own copy runs once a minute
            if any(tuple(e['uid']) not in ((USERS[v][0],) * 3, (USERS[vic][0],) * 3) for e in n):
                o.bad('forged', "a compiled fcrontab of root's put in the place of a user's is obeyed", runs=[(e['r'], e['uid']) for e in n][:6])

def names_case(c, o, r, variant):
    """accounts whose names look like the files of others"""
    odd = r.choice(ODD)
    with World(variant, users={odd: (2050, 2050, [])}) as w:
        w.stub_sighup()
        now = 1600000000
        for u in ('bob', 'root', 'systab', 'carol'):
            o.sane(w.install(u, '* * * * * %sjob\n# %s\n' % (u, 'SECRET_' + u), now=now), 'fcrontab')
        if r.random() < .5:
            o.sane(w.daemon([(5, 'sig TERM')], start=now + 1), 'daemon')
        def others():
            R = w.root + '/spool/'
            return {n: (open(R + n, 'rb').read(), os.stat(R + n).st_uid) for n in os.listdir(R) if re.fullmatch(r'(new\.)?(bob|root|systab|carol)(\.orig)?', n)}
        b = others()
        p = w.root + '/work/odd'
        open(p, 'w').write('* * * * * carolodd\n')
        os.chmod(p, 0o644)
        seq = []
        for _ in range(r.choice([1, 2, 4])):
            a = r.choice([[p], [p], ['-'], ['-r'], ['-l'], ['-z']])
            x = w.fcrontab(a, user=odd, now=now, stdin=b'* * * * * carolodd\n')
            if not o.sane(x, 'fcrontab of an odd name', ANY):
                return
            o.count('attacks')
            seq.append((a, x.rc))
            if others() != b:
                o.bad('odd-files', 'an account with an odd name changes the files of another', name=odd, seq=seq, files=[n for n in set(b) | set(others()) if b.get(n) != others().get(n)])
                return
            if b'SECRET' in x.out + x.err:
                o.bad('odd-leak', 'an account with an odd name sees the fcrontab of another', name=odd, seq=seq)
                return
            if r.random() < .5:
                run = w.daemon([(5, 'sig TERM')], start=now + 10)
                if not o.sane(run, 'daemon'):
                    return
                b = others()
        run = w.daemon([(145, 'sig TERM')], start=now + 200)
        if not o.sane(run, 'daemon'):
            return
        o.count('daemon_runs')
        got = {}
        for e in run.ev('exec'):
            got.setdefault(name_of(e), set()).add(e['uid'][0])
        odd_uid = got.pop('carolodd', {2050})
        if got != {'bobjob': {2002}, 'rootjob': {0}, 'systabjob': {0}, 'caroljob': {2003}} or odd_uid != {2050}:
            o.bad('odd-run', 'an account with an odd name changes what runs for others', name=odd, seq=seq, got=str(got), odd=str(odd_uid), spool=sorted(os.listdir(w.root + '/spool')), logs=run.logs()[:12])
            return
        o.count('odd')
        o.sig('odd', odd, str([(a[0][-2:], rc) for a, rc in seq])[:40])

def run_case(c, o):
    r = rng(c['seed'], 'p13', c['kind'], c['i'])
    variant = 'asan' if c['i'] % 2 == 0 else 'ubsan'
    dict(attack=attack_case, root=root_case, names=names_case)[c['kind']](c, o, r, variant)

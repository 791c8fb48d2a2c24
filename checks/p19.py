"""P19: fcron.conf is obeyed exactly, and only when it is root's."""
from fc import *
import fc, os, re, socket, stat, threading
from sim import FCRON_GID, FCRON_UID

RULE = ('configuration files of generated content (any subset of the names, any order and spacing, repeated names, comments, unknown names and parts of names, lines without value, too long or with NUL '
        'bytes, any last line) and of any owner, mode and place (default, -c, links, missing) are put before the real fcrontab, fcrondyn and fcron; the files they open, the directory used, the programs '
        'started (editor, shell, mailer) and the mail header are compared with an independent reading; every malformed line must be reported by its number. Distinct = (set of names given and how, kinds of odd lines) or (trust case, tool, outcome).')
ASSUMPTIONS = ['the last of several lines for one name counts']
MUST_OBSERVE = ('files', 'values', 'defaults', 'reports', 'fcrontab', 'daemon', 'fcrondyn', 'untrusted', 'bypass', 'editor', 'mails', 'jobs')
VARIANTS = ('asan', 'ubsan')
ANY = range(256)
NAMES = ['fcrontabs', 'pidfile', 'suspendfile', 'fifofile', 'fcronallow', 'fcrondeny', 'shell', 'sendmail', 'editor', 'maildisplayname']
NOW = 1600000000

def cases(tier, seed):
    n = dict(quick=500, thorough=12000)[tier]
    for i in range(n):
        yield dict(kind='values', seed=seed, i=i)
    for i in range(n):
        yield dict(kind='trust', seed=seed, i=i)

ODD = ['unknown', 'part', 'longer', 'case', 'novalue', 'noname', 'toolong', 'nul', 'joined', 'dotted']

def odd(r, kind, root):
    """one line which sets nothing and has to be reported"""
    n = r.choice(NAMES)
    v = r.choice([root + '/evil', '/evil/' + n, 'evil'])
    b = r.choice(['', ' ', '\t', '  '])
    if kind == 'unknown':
        return b + r.choice(['spool', 'path', 'mailto', 'debug', 'fcron', 'x', 'nice-value', 'a_b', '7up', 'user', 'SHELL2']) + r.choice([' = ', '=', '\t']) + v
    if kind == 'part':
        return b + n[:r.randrange(1, len(n))] + r.choice([' = ', '=']) + v
    if kind == 'longer':
        return b + n + r.choice(['s', '2', '_', '-x', 'file']) + r.choice([' = ', '=']) + v
    if kind == 'case':
        return b + r.choice([n.upper(), n.capitalize(), n[:-1] + n[-1].upper()]) + ' = ' + v
    if kind == 'novalue':
        return b + n + r.choice(['', ' ', '\t '])
    if kind == 'noname':
        return b + r.choice(['= ', '=', ': ', '/', '"%s" = ' % n, '$' + n + ' = ', '[%s]' % n, '.' + n + ' = ', ';' + n + ' = ', '!']) + v
    if kind == 'toolong':
        L = r.choice([1024, 1025, 1100, 2047, 2048, 3000, 70000])
        h = n + ' = ' + v + '/'
        return b + h + 'x' * (L - len(h))
    if kind == 'nul':
        l = n + ' = ' + v
        k = r.randrange(len(l) + 1)
        return l[:k] + '\0' + l[k:]
    if kind == 'joined':
        return b + n + r.choice([':', ',', '@', '"', '/', '+=', "'"]) + v
    return b + r.choice([n[:3] + '.' + n[3:], 'fcron.' + n, n + '.x', n[:2] + '\xe9' + n[2:], n + '#']) + ' = ' + v

def value(r, n, root, k):
    d = '%s/%s%s%d' % (root, '' if n == 'fcrontabs' else 'alt/', n, k)      # (the default paths are relative to the directory of the fcrontabs)
    if n == 'maildisplayname':
        return r.choice(['Cron Daemon', 'fcron', 'The "cron" of x, Ltd.', 'a = b', 'x@y', 'c/d "e"', "o'neil", '# not a comment', 'a\tb', 'n%d' % k, '(x)', 'q' * 100])
    if n == 'shell' and r.random() < .2:
        return r.choice(['/bin/bash', '/bin/sh'])
    if n == 'editor' and r.random() < .4:
        return d + r.choice([' -w', ' --wait -n', ' "a b"'])
    return d + r.choice(['', '', '', ' with blanks', '=x', '#y', '  two', '\ttab', '-' + 'l' * (30 if n == 'fifofile' else r.choice([30, 150, 200])), "'q'", '%s', '\\n'] if n != 'editor' else ['', '.x', '-' + 'l' * 100])

def text(r, root):
    """-> (bytes, {name: value}, [line numbers to report], kinds)"""
    L, val, bad, kinds = [], {}, [], set()
    some = r.choice([NAMES, r.sample(NAMES, r.randrange(1, 10)), r.sample(NAMES, 2)])
    todo = [('set', n) for n in some] + [('set', n) for n in r.sample(some, min(len(some), r.choice([0, 0, 1, 2])))]
    todo += [('odd', r.choice(ODD)) for _ in range(r.choice([0, 0, 1, 3, 7]))] + [('no', 0)] * r.choice([0, 2, 5])
    r.shuffle(todo)
    bl = lambda *x: r.choice(['', '', ' ', '\t', '   ', ' \t '] + list(x))
    for k, (what, n) in enumerate(todo):
        if what == 'set':
            v = val[n] = value(r, n, root, k)
            eq = r.choice([bl() + '=' + bl()] * 5 + [r.choice([' ', '\t', '   '])])
            if v[0] in '=' :
                eq = '='
            L.append(bl(' ' * r.choice([500, 2000])) + n + eq + v + bl('\r', ' ' * 3000, '\t' * 1100))
            kinds.add('bare' if '=' not in eq else 'eq')
        elif what == 'odd':
            L.append(odd(r, n, root))
            bad.append(len(L))
            kinds.add(n)
        else:
            n = r.choice(NAMES)
            L.append(bl() + r.choice(['', '#', '# %s = %s/evil' % (n, root), '#%s=%s/evil' % (n, root), '', '#' + 'c' * r.choice([900, 1020])]) + bl())
    return ('\n'.join(L) + r.choice(['\n', '\n', '', '\n\n', '\n \n'])).encode('latin-1'), val, bad, kinds

DEF = dict(fcrontabs='spool', pidfile='run/fcron.pid', suspendfile='run/suspend', fifofile='run/fifo', fcronallow='etc/fcron.allow', fcrondeny='etc/fcron.deny', shell='', sendmail='bin/sendmail', editor='bin/editor', maildisplayname='')

def expect(root, val):
    return {n: val.get(n, root + '/' + DEF[n] if DEF[n] else '') for n in NAMES}

def put(p, s, mode=0o755, own=None):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, 'w').write(s)
    os.chmod(p, mode)
    if own:
        os.chown(p, *own)

def tree(w, r, want):
    """what the configuration speaks of, and the same in the default places"""
    root = w.root
    for base in (want['fcrontabs'], root + '/spool'):
        os.makedirs(base, exist_ok=True)
        os.chown(base, FCRON_UID, FCRON_GID)
        os.chmod(base, 0o770)
    for n in ('pidfile', 'suspendfile', 'fifofile'):
        os.makedirs(os.path.dirname(want[n]), exist_ok=True)
    put(want['fcronallow'], 'alice\n', 0o640, (0, FCRON_GID))
    put(want['fcrondeny'], 'carol\n', 0o640, (0, FCRON_GID))
    for d in (root + '/alt', root + '/evil'):
        os.makedirs(d, exist_ok=True)
        os.chmod(d, 0o755)
    os.makedirs(root + '/home/bin', exist_ok=True)
    for p in (root + '/home/bin/sendmail', root + '/bin/sendmail', want['sendmail']):
        put(p, '#!/bin/sh\nexit 0\n')
    if want['shell'].startswith(root):
        put(want['shell'], '#!/bin/sh\nexit 0\n')
    e = want['editor'].split(' ')[0]
    put(e, '#!/bin/sh\nexit 0\n')

def same(root, p, q):
    """the path p a process used (relative to a directory below root, or absolute) is q"""
    if p.startswith('../'):
        p = root + p[2:]
    return os.path.normpath(p) == os.path.normpath(q)

def listen(paths):
    """which of these sockets is connected to"""
    got, socks = [], []
    def serve(p, s):
        while True:
            try:
                c, _ = s.accept()
            except OSError:
                return
            got.append(p)
            c.close()
    for p in dict.fromkeys(paths):
        s = socket.socket(socket.AF_UNIX)
        s.bind(p)
        os.chmod(p, 0o777)
        s.listen(5)
        socks.append((p, s))
        threading.Thread(target=serve, args=(p, s), daemon=True).start()
    return got, socks

def used(run, root, call, want, name):
    """the paths of ticks of these calls which are no other known file"""
    return [t['what'] for t in run.ev('tick') if t['call'] in call and same(root, t['what'], want[name])]

def values(c, o, r, w):
    root = w.root
    b, val, bad, kinds = text(r, root)
    want = expect(root, val)
    tree(w, r, want)
    how = r.choice(['-c', '-c', 'default', 'default', 'link'])
    conf = root + '/etc/fcron.conf'
    if how == '-c':
        conf = root + r.choice(['/alt/my.conf', '/alt/fcron conf', '/alt/' + 'n' * 60])
        os.unlink(root + '/etc/fcron.conf')
        open(root + '/etc/fcron.conf', 'w').write(''.join('%s = %s/evil/%s\n' % (n, root, n) for n in NAMES))
        os.chown(root + '/etc/fcron.conf', 0, FCRON_GID)
    elif how == 'link':
        os.unlink(conf)
        os.symlink(root + '/alt/linked', conf)
        conf = root + '/alt/linked'
    open(conf, 'wb').write(b)
    os.chown(conf, 0, FCRON_GID)
    os.chmod(conf, r.choice([0o644, 0o640, 0o444, 0o440, 0o755]))
    w.conf_path = conf
    C = how == '-c'
    o.count('files')
    o.count('values', len(val))
    o.count('defaults', 10 - len(val))
    what = dict(conf=repr(b)[:3000], how=how, want=want, bad=bad)

    def told(lines, tool):
        """(the notes are of the form FILE:LINE:, whatever they say)"""
        got = sorted({int(x) for l in lines for x in re.findall(r'(?:conf|linked|n{60}):(\d+):', l)})
        if got != bad:
            o.bad('reports', '%s reports other lines of its configuration file than the malformed ones' % tool, got=got, lines=[l[:200] for l in lines][:10], **what)
            return False
        for l in lines:
            if 'evil' in l:
                o.bad('leak', '%s shows the content of its configuration file' % tool, line=l[:300], **what)
                return False
        o.count('reports', len(bad))
        return True

    def wrong(name, tool, **kw):
        o.bad('value:' + name, '%s does not use the configured value of %s' % (tool, name), name=name, **dict(what, **kw))

    # --- fcrontab: install as alice
    w.stub_sighup()
    line = '@mail(true) 1 job out=6162'
    x = w.fcrontab(['-'], user='alice', stdin=(line + '\n').encode(), now=NOW, ticklog=True, conf=C)
    if not o.sane(x, 'fcrontab', ANY):
        return
    err = x.err.decode('latin-1')
    if not told(err.split('\n'), 'fcrontab'):
        return
    for n in ('fcronallow', 'fcrondeny'):
        if not used(x, root, ('fopen', 'open'), want, n):
            wrong(n, 'fcrontab', err=err[-400:], opened=[t['what'] for t in x.ev('tick') if t['call'] == 'fopen'])
            return
    if x.rc or not os.path.exists(want['fcrontabs'] + '/new.alice'):
        wrong('fcrontabs', 'fcrontab', rc=x.rc, err=err[-400:])
        return
    o.count('fcrontab')
    sg = [e for e in x.ev('exec') if 'sighup' in e['file']]
    if not sg or not same(root, sg[0]['argv'][1], conf if how == '-c' else root + '/etc/fcron.conf'):
        o.bad('sighup', 'fcronsighup is not started with the same configuration file', events=x.ev('exec'), **what)
        return
    if r.random() < .5:
        for u, rc in (('bob', False), ('carol', False)):
            x = w.fcrontab(['-l'], user=u, now=NOW, conf=C)
            if not o.sane(x, 'fcrontab', ANY):
                return
            if b'not allowed' not in x.err:
                wrong('fcronallow/deny', 'fcrontab', rc=x.rc, user=u, err=x.err[-300:].decode('latin-1'))
                return
    # --- the editor
    if r.random() < .6:
        x = w.fcrontab(['-e'], user='alice', now=NOW, conf=C)
        if not o.sane(x, 'fcrontab -e', ANY):
            return
        ed = [e for e in x.ev('exec') if 'sighup' not in e['file']]
        a = ed[0]['argv'] if ed else []
        cmd = ' '.join(a[2:3])
        i = cmd.rfind(' ')
        if not a or not same(root, cmd[:i], want['editor']) or not (ed[0]['file'] == (want['shell'] or '/bin/sh')):
            wrong('editor', 'fcrontab -e', argv=a, err=x.err[-300:].decode('latin-1'))
            return
        o.count('editor')
    # --- fcrondyn
    if r.random() < .5:
        got, socks = listen([want['fifofile'], root + '/run/fifo', root + '/evil/fifofile'])
        try:
            x = w.cli('fcrondyn', (['-c', conf] if C else []) + ['-x', 'ls'], user='alice', stdin=b'pwalice\n', now=NOW, timeout=30)
        finally:
            for p, s in socks:
                s.shutdown(socket.SHUT_RDWR)
                s.close()
                os.unlink(p)
        if not o.sane(x, 'fcrondyn', ANY):
            return
        if set(got) != {want['fifofile']}:
            wrong('fifofile', 'fcrondyn', got=got, err=x.err[-300:].decode('latin-1'))
            return
        o.count('fcrondyn')
    # --- the daemon
    sc = [(100, 'sig CONT'), (130, 'sig CONT'), (200, 'sig TERM')]
    d = w.daemon(sc, start=NOW, ticklog=True, conf=C, cwd=root + '/work', env=dict(SHELL='/evil/shell', EDITOR='/evil/editor', VISUAL='/evil/visual'))
    if not o.sane(d, 'daemon'):
        return
    if not told([l for l in d.logs() if 'Subject' not in l], 'fcron'):
        return
    o.count('daemon')
    t = d.ev('tick')
    if not used(d, root, ('open',), want, 'pidfile'):
        wrong('pidfile', 'fcron', opened=sorted({x['what'] for x in t if x['call'] == 'open'})[:20])
        return
    if not used(d, root, ('unlink', 'remove'), want, 'fifofile'):
        wrong('fifofile', 'fcron', removed=[x['what'] for x in t if x['call'] in ('unlink', 'remove')])
        return
    # (suspendfile is not used on Linux: only that giving it disturbs nothing is seen)
    if not os.path.exists(want['fcrontabs'] + '/alice') or not [e for e in d.ev('exec') if 'job out' in ' '.join(e['argv'])]:
        wrong('fcrontabs', 'fcron', logs=d.logs()[:20])
        return
    for p in [x['what'] for x in t] + [e['path'] for e in d.ev('exec', 'mail')]:
        if 'evil' in p:
            o.bad('evil', 'fcron uses a path of a line which sets nothing', path=p, **what)
            return
    for e in d.ev('exec'):
        if e['path'] != (want['shell'] or '/bin/sh'):
            wrong('shell', 'fcron', path=e['path'])
            return
        o.count('jobs')
    ms = d.ev('mail')
    if not ms and 'sendmail' not in val and [l for l in d.logs() if "exec '../bin/sendmail'" in l]:
        pass        # (relative to wherever it is started)
    elif not ms:
        wrong('sendmail', 'fcron', logs=d.logs()[:20])
        return
    for e in ms:
        if not (e['path'] == want['sendmail'] or 'sendmail' not in val and e['path'].endswith('bin/sendmail')):
            wrong('sendmail', 'fcron', path=e['path'])
            return
        dn = want['maildisplayname']
        if dn and set(dn) & set('()<>[].,:;@"\\'):
            dn = '"%s"' % dn.replace('"', '\\"')
        h = 'From: %s <alice@simhost>' % dn if dn else 'From: alice@simhost (fcron)'
        if e['stdin'].split('\n')[0] != h:
            wrong('maildisplayname', 'fcron', header=e['stdin'].split('\n')[0], expected=h)
            return
        o.count('mails')
    o.sig('values', how, tuple(sorted(val)) if len(val) < 3 else len(val), tuple(sorted(kinds)))

def trust(c, o, r, w):
    """a file which is not root's, or which others can write"""
    root = w.root
    w.stub_sighup()
    evil = ''.join('%s = %s/evil/%s\n' % (n, root, n) for n in NAMES).encode()
    os.makedirs(root + '/evil/fcrontabs')
    os.chown(root + '/evil/fcrontabs', FCRON_UID, FCRON_GID)
    os.chmod(root + '/evil', 0o755)
    put(root + '/evil/fcronallow', 'all\n', 0o644)
    put(root + '/evil/fcrondeny', '', 0o644)
    place = r.choice(['default', '-c', '-c'])
    kind = r.choice(['uid', 'gid', 'both', 'fcron', 'gw', 'ow', 'gow', 'ow-only', 'none', 'dir', 'link-own', 'relative', 'dev', 'unreadable'])
    sysconf = root + '/etc/fcron.conf'
    p = sysconf
    # the system's own configuration, which an unprivileged user must not get rid of: only alice may use fcron
    good = b'fcronallow = %s/good/allow\nfcrondeny = %s/good/deny\nfcrontabs = %s/good/spool\npidfile=%s/good/pid\nfifofile=%s/good/fifo\nsuspendfile=%s/good/suspend\n' % ((root.encode(),) * 6)
    put(root + '/good/allow', 'alice\n', 0o640, (0, FCRON_GID))
    put(root + '/good/deny', '', 0o640, (0, FCRON_GID))
    os.makedirs(root + '/good/spool')
    os.chown(root + '/good/spool', FCRON_UID, FCRON_GID)
    os.chmod(root + '/good/spool', 0o770)
    os.chmod(root + '/good', 0o755)
    if place == '-c':
        open(sysconf, 'wb').write(good)
        os.chown(sysconf, 0, FCRON_GID)
        os.chmod(sysconf, 0o644)
        p = root + '/work/' + r.choice(['my.conf', 'fcron.conf', 'x y'])
    elif kind in ('dir', 'relative', 'dev'):
        kind = 'ow'
    u, g, m = 0, FCRON_GID, 0o644
    bobu, bobg = w.users['bob'][:2]
    if kind in ('uid', 'both', 'relative'):
        u = bobu
    if kind == 'fcron':
        u = FCRON_UID
    if kind in ('gid', 'both'):
        g = r.choice([bobg, 0])
    if kind in ('gw', 'gow'):
        m |= 0o020
    if kind in ('ow', 'gow'):
        m |= 0o002
    if kind == 'ow-only':
        m = 0o642
    if kind == 'unreadable':
        m = 0o200
    arg = p
    if os.path.exists(p):
        os.unlink(p)
    if kind == 'none':
        pass
    elif kind == 'dir':
        os.mkdir(p)
    elif kind == 'dev':
        arg = r.choice(['/dev/null', '/dev/zero', '/dev/stdin'])
    else:
        q = p
        if kind == 'link-own':
            q = root + '/home/bob/conf'
            os.symlink(q, p)
            u = bobu
        open(q, 'wb').write(evil)
        os.chown(q, u, g)
        os.chmod(q, m)
    if kind == 'relative':
        arg = os.path.basename(p)
    w.conf_path = arg
    C = place == '-c'
    what = dict(kind=kind, place=place, uid=u, gid=g, mode=oct(m))
    o.count('untrusted')
    tool = r.choice(['fcrontab', 'fcrontab', 'fcrontab', 'fcrondyn', 'fcron', 'fcronsighup'])
    who = r.choice(['bob', 'bob', 'alice', 'root'])
    # (root reads what others cannot: then the file is as good as any)
    if kind == 'unreadable' and (who == 'root' or tool in ('fcron', 'fcronsighup')):
        kind = what['kind'] = 'gw'
        os.chmod(p, 0o664)
    os.makedirs(root + '/home/bin', exist_ok=True)
    # the daemons there might be
    socks = []
    got = []
    text = b'@first(0) 1 job\n'
    if tool == 'fcrontab':
        op = r.choice(['-', '-l', '-r', '-e'])
        x = w.fcrontab([op], user=who, stdin=text, now=NOW, ticklog=True, conf=C, cwd=root + '/work', env=dict(VISUAL='/bin/true'))
    elif tool == 'fcrondyn':
        got, socks = listen([root + '/good/fifo', root + '/run/fifo', root + '/evil/fifofile'])
        try:
            x = w.cli('fcrondyn', (['-c', arg] if C else []) + ['-x', 'ls'], user=who, stdin=('pw%s\n' % who).encode(), now=NOW, ticklog=True, timeout=30, cwd=root + '/work')
        finally:
            for q, s in socks:
                s.shutdown(socket.SHUT_RDWR)
                s.close()
                os.unlink(q)
    elif tool == 'fcronsighup':
        os.chmod(root + '/etc/fcron.allow', 0o644)
        os.chmod(root + '/etc/fcron.deny', 0o644)
        for d, pid in (('run/fcron.pid', 999001), ('evil/pidfile', 999002), ('good/pid', 999003)):
            put(root + '/' + d, '%d\n' % pid, 0o644)
        x = w.cli('fcronsighup', [arg] if C else [], user='root', now=NOW, ticklog=True, cwd=root + '/work')
    else:
        for d in ('spool', 'evil/fcrontabs', 'good/spool'):
            pass
        x = w.daemon([(50, 'sig CONT'), (100, 'sig TERM')], start=NOW, ticklog=True, conf=C, cwd=root + '/work')
    if not o.sane(x, tool, ANY):
        return
    out = x.out + x.err
    notes = x.err.decode('latin-1') + '\n'.join(x.logs())
    files = [t['what'] for t in x.ev('tick')]
    kills = [e['pid'] for e in x.ev('kill')]
    execs = [str(e.get('file', e.get('path'))) for e in x.ev('exec', 'mail')]
    left = os.listdir(root + '/evil/fcrontabs')
    if [f for f in files + execs + got if '/evil/' in f] or left or 999002 in kills:
        o.bad('obeyed', '%s obeys a configuration file which is not to be trusted' % tool, files=[f for f in files if 'evil' in f], left=left, got=got, kills=kills, **what)
        return
    if kind != 'none' and tool != 'fcronsighup' and p.split('/')[-1] not in notes and arg not in notes:
        o.bad('quiet', '%s does not tell that a configuration file is not used' % tool, notes=notes[-500:], **what)
        return
    if C:
        # named by the user: then nothing must happen at all, for the defaults are not the system's values
        acts = [f for f in files if f.endswith(('fcron.allow', 'fcron.pid', 'run/fifo', '.orig', 'new.' + who)) and not f.startswith(root + '/good')]
        if x.rc == 0 or os.listdir(root + '/spool') or got or 999001 in kills or acts:
            o.bad('bypass', '%s uses the default values instead of the configuration of the system' % tool, rc=x.rc, acts=acts, got=got, kills=kills, notes=notes[-400:], **what)
            return
        o.count('bypass')
    else:
        # the defaults are used
        allow = [f for f in files if same(root, f, root + '/etc/fcron.allow')]
        if tool == 'fcrontab' and not allow:
            o.bad('defaults', 'fcrontab does not use the default values', rc=x.rc, notes=notes[-400:], files=files[:20], **what)
            return
        if tool == 'fcrondyn' and set(got) != {root + '/run/fifo'}:
            o.bad('defaults', 'fcrondyn does not use the default values', rc=x.rc, got=got, notes=notes[-400:], **what)
            return
        if tool == 'fcronsighup' and kills[:1] != [999001]:
            o.bad('defaults', 'fcronsighup does not use the default values', rc=x.rc, kills=kills, notes=notes[-400:], **what)
            return
        if tool == 'fcron' and not [f for f in files if same(root, f, root + '/run/fcron.pid')]:
            o.bad('defaults', 'fcron does not use the default values', rc=x.rc, notes=notes[-400:], **what)
            return
    o.sig('trust', kind, place, tool, who, x.rc)

def run_case(c, o):
    r = rng(c['seed'], 'p19', c['kind'], c['i'])
    with World('asan' if c['i'] % 2 == 0 else 'ubsan', shell='') as w:
        (values if c['kind'] == 'values' else trust)(c, o, r, w)

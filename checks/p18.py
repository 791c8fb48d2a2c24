"""P18: the access files decide who may use fcrontab and fcrondyn, exactly."""
from fc import *
import fc, os, re, resource
from sim import FCRON_GID

RULE = ('allow and deny files of every presence, kind and content (names, parts of names, "all", comments, blanks, lines of any length, no last newline, other bytes; files missing, '
        'unreadable, directories, links; errors injected while they are opened or read) are put before the real fcrontab and fcrondyn run by every user and by root for others; who is let in is '
        'compared with the documented rule over the lines. Distinct = (state of the two files for the user, tool, outcome).')
ASSUMPTIONS = ['a name in a file beats "all", and deny beats allow, as the installed files say']
MUST_OBSERVE = ('decisions', 'allowed', 'refused', 'dyn', 'errors', 'by_root', 'systab', 'faults')
VARIANTS = ('asan', 'ubsan')
ANY = range(256)
WHO = ['alice', 'bob', 'root', 'carol', 'al', 'alice2', 'ann.lee', 'x-y_z', 'all2']
EXTRA = {'al': (2011, 2011, []), 'alice2': (2012, 2012, []), 'ann.lee': (2013, 2013, []), 'x-y_z': (2014, 2014, []), 'all2': (2015, 2015, [])}

def cases(tier, seed):
    for i in range(dict(quick=160, thorough=8000)[tier]):
        yield dict(kind='rule', seed=seed, i=i)

def entry(r, n):
    """one line which holds n, spelt somehow"""
    b = lambda: r.choice(['', '', '', ' ', '\t', '  \t ', ' ' * r.choice([1000, 1022, 1023, 1024, 1025, 2047, 5000])])
    return b() + n + b() + r.choice(['', '', '', '\r'])

def noise(r):
    n = r.choice(WHO)
    return r.choice(['', '   ', '\t', '# ' + n, '#' + n, '  #all', '#all', n[:-1], n + 'x', n + ' ' + r.choice(WHO), n.upper(), 'All', 'ALL', 'all ' + n, 'allx', 'al l', n + ',bob', n + ':', '@' + n, '"%s"' % n, '*', 'root,',
                     '# ' + 'x' * r.choice([1000, 1020, 1021, 1022, 1023, 2045, 4000]) + r.choice(['', ' ']) + r.choice([n, 'all']),
                     'y' * r.choice([1020, 1022, 1023, 1024, 2046]) + r.choice(['', ' ']) + r.choice([n, 'all']), n + '\0', '\0' + n, 'all\0x', '\xff', '\xef\xbb\xbf' + n, '-' + n, '+' + n, n + ' # comment', 'all # comment', '2001', '0', 'nobody', n + '\\'])

def content(r, names):
    L = [entry(r, n) for n in names] + [noise(r) for _ in range(r.choice([0, 0, 1, 3, 8]))]
    r.shuffle(L)
    t = '\n'.join(L) + r.choice(['\n', '\n', '', '\n\n'])
    return t.encode('latin-1')

def names(b):
    """the documented reading: one name by line, blanks around it do not count"""
    s = set()
    for l in b.split(b'\n'):
        l = l.strip(b' \t\r\f\v')
        if l and not l.startswith(b'#') and b'\0' not in l:
            s.add(l.decode('latin-1'))
    return s

def rule(u, a, d):
    """a, d: set of names, None when there is no file"""
    if d is not None and u in d:
        return False
    if a is not None and u in a:
        return True
    if d is not None and 'all' in d:
        return False
    if a is not None and 'all' in a:
        return True
    return a is None

def run_case(c, o):
    r = rng(c['seed'], 'p18', c['i'])
    variant = 'asan' if c['i'] % 2 == 0 else 'ubsan'
    with World(variant, users=EXTRA) as w:
        w.stub_sighup()
        F = {k: w.root + '/etc/fcron.' + k for k in ('allow', 'deny')}
        for _ in range(r.choice([3, 5])):
            st = {}
            for k, p in F.items():
                if os.path.islink(p) or os.path.isfile(p):
                    os.unlink(p)
                elif os.path.isdir(p):
                    os.rmdir(p)
                kind = r.choice(['text'] * 7 + ['none', 'none', 'empty'] + ['bad'] * (r.random() < .3))
                if kind == 'none':
                    if r.random() < .3:
                        os.symlink(w.root + '/etc/nowhere', p)
                    st[k] = None
                elif kind == 'bad':
                    how = r.choice(['mode', 'dir', 'loop', 'owner'])
                    if how == 'dir':
                        os.mkdir(p)
                    elif how == 'loop':
                        os.symlink(p, p)
                    else:
                        open(p, 'w').write('all\n' if k == 'allow' else '')
                        os.chmod(p, 0o000 if how == 'mode' else 0o600)
                    st[k] = 'unreadable:' + how
                else:
                    ns = [] if kind == 'empty' else r.sample(WHO, r.choice([0, 0, 1, 2, 4])) + (['all'] if r.random() < .4 else [])
                    b = b'' if kind == 'empty' else content(r, ns)
                    open(p, 'wb').write(b)
                    os.chown(p, 0, FCRON_GID)
                    os.chmod(p, r.choice([0o640, 0o644]))
                    st[k] = names(b)
            for u in r.sample(WHO, 4):
                by = 'root' if r.random() < .2 else u
                tool = 'fcrondyn' if by == u and r.random() < .3 else 'fcrontab'
                kw = {}
                bad = [k for k, v in st.items() if isinstance(v, str) and not (by == 'root' and v in ('unreadable:mode', 'unreadable:owner'))]
                # (root reads everything: then the files hold what was put there)
                eff = {k: ({'all'} if k == 'allow' else set()) if isinstance(v, str) else v for k, v in st.items()}
                fault = None
                if not bad and r.random() < .15:
                    k = r.choice([k for k in F if st[k] is not None] or ['allow'])
                    if st[k] is not None:
                        fault = (k, r.choice(['EACCES', 'EMFILE', 'ENFILE', 'EIO', 'ENOMEM', 'EINTR', 'EPERM', 'ELOOP', 'ENOTDIR']))
                if tool == 'fcrondyn':
                    go = lambda **kw: w.cli('fcrondyn', ['-c', w.conf_path, '-x', 'ls'], user=u, stdin=b'', now=1600000000, timeout=30, **kw)
                else:
                    a = ['-l'] if by == u else r.choice([['-l', u], ['-l', '-u', u], ['-r', u]])
                    go = lambda **kw: w.fcrontab(a, user=by, now=1600000000, **kw)
                if fault:
                    x = go(ticklog=True)
                    t = [e for e in x.ev('tick') if e['what'] == F[fault[0]] and e['call'] in ('fopen', 'open')]
                    if not t:
                        fault = None
                    else:
                        x = go(tick='%d:err=%s' % (t[0]['n'], fault[1]))
                        o.count('faults')
                if not fault:
                    x = go()
                if not o.sane(x, tool, ANY):
                    return
                told = b'is not allowed to use' in x.err
                if tool == 'fcrontab':
                    let = x.rc == 0
                else:
                    let = not told and (b'connect' in x.err or b'fcron' in x.err and b'could not open' not in x.err and b'could not read' not in x.err and b'passwd' not in x.err)
                what = dict(user=u, by=by, tool=tool, rc=x.rc, err=x.err[-300:].decode('latin-1'), allow=str(st['allow'])[:300], deny=str(st['deny'])[:300], fault=fault,
                            files={k: repr(open(p, 'rb').read())[:1500] for k, p in F.items() if os.path.isfile(p)})
                o.count('decisions')
                if bad or fault:
                    o.count('errors')
                    # a file which cannot be read grants nothing
                    if let and (fault or not rule(u, *[{} if k in bad else eff[k] for k in ('allow', 'deny')]) or 'deny' in bad or 'allow' in bad):
                        o.bad('unreadable', 'an access file which cannot be read lets a user in', what=what)
                        return
                    o.sig('bad', str(bad), str([st[k] for k in bad]), fault and fault[1], tool, let)
                    continue
                want = rule(u, eff['allow'], eff['deny'])
                if let != want:
                    o.bad('wrong', 'a user is %s against the rule' % ('let in' if let else 'refused'), what=what)
                    return
                if not let and not told:
                    o.bad('silent', 'a user is refused without being told', what=what)
                    return
                o.count('allowed' if let else 'refused')
                if tool == 'fcrondyn':
                    o.count('dyn')
                if by == 'root' and u != 'root':
                    o.count('by_root')
                c1 = lambda s: 'none' if s is None else ('n' if u in s else '') + ('a' if 'all' in s else '') + ('.' if s - {u, 'all'} else '')
                o.sig('rule', c1(eff['allow']), c1(eff['deny']), tool, by == u, u == 'root')
            # the system fcrontab is not a user
            if not any(isinstance(v, str) for v in st.values()):
                x = w.fcrontab(['-l', 'systab'], user='root', now=1600000000)
                if not o.sane(x, 'fcrontab', ANY):
                    return
                if x.rc != 0:
                    o.bad('systab', 'root is kept from the system fcrontab', err=x.err[-300:].decode('latin-1'), allow=str(st['allow'])[:200], deny=str(st['deny'])[:200])
                    return
                o.count('systab')

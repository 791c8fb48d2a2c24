"""fcrontabs from an abstract syntax: what the manual says a file denotes, and many ways to write it."""
import random
from sched import Field, RANGES, ORDER, MONS, DOWS, rand_field, star

# option -> bit of the compiled option field, and its value when the option is true
BITS = {'bootrun': (4, 1), 'serial': (5, 1), 'serialonce': (11, 1), 'lavgonce': (12, 0), 'exesev': (10, 1), 'mail': (7, 0), 'forcemail': (8, 1),
        'strict': (20, 0), 'noticenotrun': (21, 1), 'nolog': (22, 1), 'random': (23, 1), 'volatile': (24, 1), 'stdout': (25, 1),
        'erroronlymail': (26, 1), 'rebootreset': (27, 1), 'runatreboot': (28, 1), 'runonce': (29, 1), 'runatresume': (31, 1),
        'lavgor': (2, 1), 'dayor': (3, 1)}
DEFAULT = dict({k: False for k in BITS}, mail=True, strict=True, lavgonce=True)
SHORT = {'serial': 's', 'bootrun': 'b', 'first': 'f', 'runfreq': 'r', 'until': 'u', 'mail': 'm', 'nice': 'n'}
BOOLS = [k for k in BITS if k not in ('lavgor', 'dayor')]
CUTS = {'yearly': ('0', '0', '1', '1', '*'), 'annually': ('0', '0', '1', '1', '*'), 'monthly': ('0', '0', '1', '*', '*'), 'weekly': ('0', '0', '*', '*', '0'),
        'daily': ('0', '0', '*', '*', '*'), 'midnight': ('0', '0', '*', '*', '*'), 'hourly': ('0', '*', '*', '*', '*')}
LY = {'hourly': ('min',), 'midhourly': ('min',), 'daily': ('min', 'hour'), 'middaily': ('min', 'hour'), 'nightly': ('min', 'hour'),
      'weekly': ('min', 'hour'), 'midweekly': ('min', 'hour'), 'monthly': ('min', 'hour', 'mday'), 'midmonthly': ('min', 'hour', 'mday')}
# bits of the frequency: 13 mins, 14 hours, 15 days, 16 months, 17 days of week, 18 *ly, 19 mid
LYBITS = {'hourly': 14, 'daily': 15, 'nightly': 15, 'monthly': 16, 'weekly': 17}
SBITS = {'mins': (), 'hours': (13,), 'days': (13, 14), 'mons': (13, 14, 15), 'dow': (13, 14, 15, 16)}

def gen_time(r):
    """seconds of a time value"""
    return r.choice([r.randint(1, 59), 60 * r.randint(1, 600), 3600 * r.randint(1, 100), 86400 * r.randint(1, 50), 7 * 86400, 28 * 86400 * r.randint(1, 12),
                     r.randint(1, 10 ** 7)])

def write_time(r, t, plain=False):
    if t == 0:
        return r.choice(['0', '0s', '0h0'])
    parts, left = [], t
    for m, k in (('m', 28 * 86400), ('w', 7 * 86400), ('d', 86400), ('h', 3600)):
        if left >= k and r.random() < .6:
            q = left // k
            if r.random() < .2 and q > 1:
                q = r.randint(1, q)
            parts.append('%d%s' % (q, m))
            left -= q * k
    mins = ''
    if left >= 60 and (left % 60 == 0 or r.random() < .7):
        if left % 60 == 0:
            mins, left = '%d' % (left // 60), 0
        else:
            mins, left = '%d' % (left // 60), left % 60
    if left:
        parts.append('%ds' % left)
    r.shuffle(parts)
    return ''.join(parts) + mins

def lavgs(r):
    return r.choice([0, r.randint(1, 20), r.randint(1, 255), 10 * r.randint(1, 25)])

def write_lavg(r, v):
    c = ['%d.%d' % (v // 10, v % 10)]
    if v % 10 == 0:
        c += ['%d' % (v // 10)] * 2
    if v < 10:
        c += ['.%d' % v]
    x = r.choice(c)
    if '.' in x and v not in (0, 255) and r.random() < .3:
        x += r.choice(['0', '4', '49', '12'])
    return x

class Opt:
    """one option as set: name, value"""
    def __init__(self, name, val=None):
        self.name, self.val = name, val
    def apply(self, st):
        n, v = self.name, self.val
        if n in BITS:
            st[n] = v
            if n == 'mail' and not v:
                st['forcemail'] = False
            if n == 'forcemail' and v:
                st['mail'] = True
        elif n == 'mailto':
            if v:
                st['mailto'], st['mail'] = v, True
            else:
                st['mail'] = st['forcemail'] = False
        elif n == 'lavg':
            st['lavg'] = list(v)
        elif n in ('lavg1', 'lavg5', 'lavg15'):
            st['lavg'] = list(st['lavg'])
            st['lavg'][('lavg1', 'lavg5', 'lavg15').index(n)] = v
        elif n == 'reset':
            if v:
                rf = st['runfreq']
                st.clear()
                st.update(fresh(st_user(st)))
                del rf
        else:
            st[n] = v
    def write(self, r):
        n, v = self.name, self.val
        if n in BITS or n == 'reset':
            if n == 'dayor' and r.random() < .5:
                n, v = 'dayand', not v
            elif n == 'lavgor' and r.random() < .5:
                n, v = 'lavgand', not v
            if n in SHORT and r.random() < .5:
                n = SHORT[n]
            if v:
                return n + r.choice(['', '', '(true)', '(yes)', '(1)'])
            return n + r.choice(['(false)', '(no)', '(0)'])
        if n in SHORT and r.random() < .5:
            n = SHORT[n]
        if self.name in ('first', 'until'):
            return '%s(%s)' % (n, write_time(r, v))
        if n == 'lavg':
            return 'lavg(%s)' % ','.join(write_lavg(r, x) for x in v)
        if n.startswith('lavg'):
            return '%s(%s)' % (n, write_lavg(r, v))
        if n in ('runfreq', 'r', 'jitter'):
            return '%s(%s%d)' % (n, r.choice(['', '', '0']), v)
        return '%s(%s)' % (n, '' if v is None else v)

_user = ['alice']
def st_user(st):
    return _user[0]

def fresh(user):
    _user[0] = user
    d = dict(DEFAULT)
    d.update(runas=user, mailto=user, mailfrom=None, tz=None, first=None, until=0, nice=0, runfreq=0, jitter=0, lavg=[0, 0, 0])
    return d

def gen_opts(r, user, where, n):
    """where: '!', '&', '@', '%'"""
    out, seen = [], set()
    for _ in range(n):
        k = r.choice(BOOLS + ['lavgor', 'dayor'] + ['mailto', 'mailfrom', 'timezone', 'until', 'nice', 'jitter', 'lavg', 'lavg1', 'lavg5', 'lavg15', 'first', 'runfreq', 'runas', 'reset'])
        g = {'lavg1': 'lavg', 'lavg5': 'lavg', 'lavg15': 'lavg'}.get(k, k)
        if k == 'runas' and user != 'root' or k == 'runfreq' and where == '%':
            continue
        if where == '!' and k in ('runatreboot', 'runonce', 'volatile', 'rebootreset') and r.random() < .5:
            continue
        v = None
        if k in BITS:
            v = r.random() < .6
        elif k == 'reset':
            v = r.random() < .8
            if where != '!' and r.random() < .5:
                continue
        elif k == 'mailto':
            v = r.choice(['bob', 'carol', 'x@y.org', '', 'a.b-c_d@h'])
        elif k == 'mailfrom':
            v = r.choice(['me', 'me@here.org', None])
        elif k == 'timezone':
            v = r.choice(['Europe/Paris', 'Asia/Tokyo', 'UTC', None])
        elif k in ('first', 'until'):
            v = r.choice([0, gen_time(r)])
        elif k == 'nice':
            v = r.randint(-20 if user == 'root' else 0, 19)
        elif k == 'jitter':
            v = r.randint(0, 255)
        elif k == 'lavg':
            v = [lavgs(r), lavgs(r), lavgs(r)]
        elif k.startswith('lavg'):
            v = lavgs(r)
        elif k == 'runfreq':
            v = r.choice([2, 3, 255, 65535, r.randint(2, 65535)])
        elif k == 'runas':
            v = r.choice(['alice', 'bob', 'root'])
        out.append(Opt({'timezone': 'timezone'}.get(k, k), v))
    return out

def apply(opts, st):
    for o in opts:
        if o.name == 'timezone':
            st['tz'] = o.val
        else:
            o.apply(st)

# ---- fields
def spell(r, f):
    """another way to write the set of values of a field"""
    lo, hi = RANGES[f.name]
    vals = set(f.values())
    if f.name == 'dow':
        vals = {v % 7 for v in vals}
        hi = 6
    c = r.random()
    if c < .35 or not vals:
        return f.text()
    if vals == set(range(lo, hi + 1)):
        return r.choice(['*', '*', '%d-%d' % (lo, hi), '%d-%d' % (lo, RANGES[f.name][1]), '*/1'])
    L = sorted(vals)
    out = []
    if c < .5 and len(L) > (hi - lo) // 2:
        return '%d-%d' % (lo, RANGES[f.name][1]) + ''.join('~%d' % v for v in range(lo, hi + 1) if v not in vals)
    i = 0
    while i < len(L):
        j = i
        while j + 1 < len(L) and L[j + 1] == L[j] + 1:
            j += 1
        if j > i and r.random() < .7:
            j = r.randint(i + 1, j)
            out.append((L[i], L[j]))
            i = j + 1
        else:
            out.append((L[i],))
            i += 1
    r.shuffle(out)
    def num(v):
        if f.name == 'mon' and r.random() < .3:
            n = MONS[v - 1]
            return r.choice([n, n.upper(), n.capitalize()])
        if f.name == 'dow' and r.random() < .3:
            n = DOWS[v]
            return r.choice([n, n.upper(), n.capitalize()])
        return r.choice(['%d', '%d', '%02d']) % v
    return ','.join('-'.join(num(v) for v in t) for t in out)

class Line:
    """one entry"""
    def __init__(self, r, user, cmd):
        self.cmd, self.user = cmd, user
        self.kind = r.choice('&&&&@@@%%%s')
        self.opts, self.inline, self.runfreq, self.firstval = [], None, None, None
        if user == 'root' and r.random() < .1:
            self.inline = r.choice(['bob', 'alice'])
        k = self.kind
        if k != 's':
            self.opts = gen_opts(r, user, k, r.choice([0, 0, 1, 2, 5]))
        if k == '&':
            self.f = {n: rand_field(r, n) for n in ORDER}
            if not self.opts and r.random() < .2:
                self.runfreq = r.randint(2, 400)
        elif k == '@':
            self.freq = gen_time(r)
            if not self.opts and r.random() < .3:
                self.firstval = r.choice([0, gen_time(r)])
        elif k == 's':
            self.cut = r.choice(list(CUTS) + ['reboot', 'resume'])
        else:
            self.kw = r.choice(list(LY) + list(SBITS) * 2)
            if self.kw in LY:
                self.f = {n: rand_field(r, n) for n in LY[self.kw]}
            else:
                self.f = {n: rand_field(r, n) for n in ORDER}
                # an interval which is not the whole field, for the field of the keyword
                self.f['mon'] = Field('mon', [('r', 2, r.randint(4, 11), 1, [])])
            self.opts = [o for o in self.opts if o.name != 'reset']
            if self.kw in SBITS and self.kw in ('dow',):
                self.f['dow'] = Field('dow', [('r', 1, r.randint(2, 5), 1, [])])
                self.f['mday'] = star('mday')
                # with dayor every day would match: no interval
                self.opts.append(Opt('dayor', False))
    def expect(self, st):
        st = dict(st, lavg=list(st['lavg']))
        k = self.kind
        if k == '&' and self.runfreq:
            st['runfreq'] = self.runfreq
        apply(self.opts, st)
        if self.firstval is not None:
            st['first'] = self.firstval
        if self.inline:
            st['runas'] = self.inline
        e = dict(shell=self.cmd, runas=st['runas'], mailto=st['mailto'], mailfrom=st['mailfrom'], tz=st['tz'], lavg=st['lavg'], until=st['until'], nice=st['nice'],
                 jitter=st['jitter'])
        bits = {}
        for n, (b, v) in BITS.items():
            bits[b] = v if st[n] else 1 - v
        bits[1] = int(any(st['lavg']))
        bits[0] = int(k == '@' or k == 's' and self.cut in ('reboot', 'resume'))
        for b in range(13, 20):
            bits[b] = 0
        if k == '@':
            e.update(timefreq=self.freq, first=self.freq if st['first'] is None else st['first'])
        elif k == 's' and self.cut in ('reboot', 'resume'):
            bits[28 if self.cut == 'reboot' else 31] = 1
            bits[29] = 1
            bits[24] = 0
        else:
            if k == 's':
                V = {n: (set(range(RANGES[n][0], RANGES[n][1] + 1)) if x == '*' else {int(x)}) for n, x in zip(ORDER, CUTS[self.cut])}
            else:
                V = {n: set(self.f[n].values()) if n in self.f else set(range(RANGES[n][0], RANGES[n][1] + 1)) for n in ORDER}
            if V['dow'] & {0, 7}:
                V['dow'] |= {0, 7}
            e.update({n: frozenset(V[n]) for n in ORDER})
            e['runfreq'] = st['runfreq']
            if k == '%':
                e['runfreq'] = 1
                if self.kw in LY:
                    bits[18] = 1
                    base = self.kw[3:] if self.kw.startswith('mid') else self.kw
                    bits[LYBITS[base]] = 1
                    bits[19] = int(self.kw.startswith('mid') or self.kw == 'nightly')
                else:
                    for b in SBITS[self.kw]:
                        bits[b] = 1
        e['bits'] = bits
        return e
    def write(self, r, same=False):
        """text of the logical line"""
        sp = (lambda: ' ') if same else (lambda: r.choice([' ', ' ', '  ', '\t', ' \t ']))
        opts = [o.write(r) for o in self.opts]
        k = self.kind
        who = (self.inline + sp()) if self.inline else ''
        if k == 's':
            return '@' + self.cut + sp() + who + self.cmd
        if k == '@':
            if self.firstval is not None:
                t = '@' + (write_time(r, self.firstval) if r.random() < .6 else 'first(%s)' % write_time(r, self.firstval))
            else:
                t = '@' + ','.join(opts)
            return t + sp() + write_time(r, self.freq) + sp() + who + self.cmd
        F = sp().join(spell(r, self.f[n]) for n in ORDER if n in self.f)
        if k == '%':
            kw = self.kw
            if kw in ('nightly', 'middaily'):
                kw = r.choice(['nightly', 'middaily'])
            i = r.randint(0, len(opts)) if r.random() < .3 else 0
            return '%' + ','.join(opts[:i] + [kw] + opts[i:]) + sp() + F + sp() + who + self.cmd
        if self.runfreq:
            t = '&%d' % self.runfreq if r.random() < .5 else '&%s(%d)' % (r.choice(['r', 'runfreq']), self.runfreq)
        elif opts:
            t = '&' + ','.join(opts)
        else:
            t = r.choice(['', '&'])
            return t + (sp() if t and (F[0] != '*' or r.random() < .5) else '') + F + sp() + who + self.cmd
        return t + sp() + F + sp() + who + self.cmd

class Table:
    """items: ('opt', [Opt]) ('env', name, value) ('line', Line) ('tzdiff', n)"""
    def __init__(self, r, user, n=None, cmds=None):
        self.user, self.items = user, []
        n = n or r.choice([1, 3, 8, 20])
        self.cmds = []
        for i in range(n):
            while r.random() < .3:
                c = r.random()
                if c < .5:
                    o = gen_opts(r, user, '!', r.choice([1, 1, 2, 4]))
                    if o:
                        self.items.append(('opt', o))
                elif c < .9:
                    self.items.append(('env', r.choice(['A', 'B', 'PATH', 'SHELL', 'X_1', '_y', 'TEXT', 'MAILTO', 'MAILFROM']), None))
                    nm = self.items[-1][1]
                    v = r.choice(['bob', 'x@y.org']) if nm in ('MAILTO', 'MAILFROM') else r.choice(['/bin/sh', '/bin/bash']) if nm == 'SHELL' else \
                        r.choice(['1', 'a b  c', ' lead and trail  ', "it's", 'say "x" now', 'a=b', '', '#no', '/usr/bin:/bin', 'x' * r.randint(1, 200), 'caf\xe9', '\\n $HOME'])
                    self.items[-1] = ('env', nm, v)
                else:
                    self.items.append(('tzdiff', r.randint(-24, 24)))
            cmd = 'c%d%s' % (i, r.choice(['', ' -a "b c"  d', " 'q'", ' | tee /x', ' # no comment', ' %percent%', ' \\\\ back', ' * 5', '; x=1', ' caf\xe9', ' ' + 'z' * r.randint(1, 300)]))
            self.items.append(('line', Line(r, user, cmd)))
            self.cmds.append(cmd)
    def expect(self):
        st = fresh(self.user)
        env, tz, lines = {}, 0, {}
        for it in self.items:
            if it[0] == 'opt':
                apply(it[1], st)
            elif it[0] == 'tzdiff':
                tz = it[1]
            elif it[0] == 'env':
                if it[1] == 'MAILTO':
                    st['mailto'], st['mail'] = it[2], True
                elif it[1] == 'MAILFROM':
                    st['mailfrom'] = it[2]
                else:
                    env[it[1]] = it[2]
            else:
                lines[it[1].cmd] = it[1].expect(st)
        return env, tz, lines
    def write(self, r, noise=True):
        out = []
        def add(t, quoted=False):
            if noise:
                t = r.choice(['', '', ' ', '\t', '  \t']) + t
                if r.random() < .25:
                    for _ in range(r.randint(1, 4)):
                        p = r.randint(1, len(t))
                        # a backslash before would be another one
                        if t[p - 1] != '\\' and (p == len(t) or t[p] != '\\'):
                            t = t[:p] + '\\\n' + t[p:]
                    if t.endswith('\\\n'):
                        t = t[:-2]
                if r.random() < .3:
                    t += r.choice([' ', '   ', '\t'])
            out.append(t)
        for it in self.items:
            while noise and r.random() < .15:
                out.append(r.choice(['', '   ', '# comment', '\t# * * * * * not run', '#!serial']))
            if it[0] == 'opt':
                L = [o.write(r) for o in it[1]]
                if noise and len(L) > 1 and r.random() < .5:
                    i = r.randint(1, len(L) - 1)
                    add('!' + ','.join(L[:i]))
                    add('!' + ','.join(L[i:]))
                else:
                    add('!' + ','.join(L))
            elif it[0] == 'tzdiff':
                add('!tzdiff(%d)' % it[1])
            elif it[0] == 'env':
                v = it[2]
                need = v != v.strip() or (v[:1] in '"\'' and v)
                q = ''
                if need or (noise and r.random() < .4):
                    q = r.choice(['"', "'"])
                eq = r.choice(['=', ' = ', ' =', '= ', '\t=  ']) if noise else '='
                add(it[1] + eq + q + v + q)
            else:
                add(it[1].write(r, not noise))
        return '\n'.join(out) + ('\n' if not noise or r.random() < .8 or '\\' in out[-1][-1:] else '')

def read_line(l):
    """what a compiled line says, in the terms of expect()"""
    g = lambda k, d: l.get(k, d)
    opt = g('option', b'')
    bits = {b: (opt[b // 8] >> (b % 8)) & 1 for b in range(32)}
    s = lambda k: l[k].decode('latin-1') if k in l else None
    e = dict(shell=s('shell'), runas=s('runas'), mailto=s('mailto'), mailfrom=s('mailfrom') or None, tz=s('tz') or None, lavg=list(g('lavg', b'\0\0\0')), until=g('until', 0),
             nice=int.from_bytes(g('nice', b'\0'), 'little', signed=True), jitter=g('jitter', 0), bits=bits)
    if bits[0]:
        e.update(timefreq=g('timefreq', 0), first=g('first', None))
    else:
        for n, k, size in (('min', 'mins', 60), ('hour', 'hrs', 24), ('mday', 'days', 32), ('mon', 'mons', 12), ('dow', 'dow', 8)):
            d = g(k, b'')
            v = {i for i in range(min(size, 8 * len(d))) if d[i // 8] >> (i % 8) & 1}
            if n == 'mon':
                v = {i + 1 for i in v}
            if n == 'mday':
                v -= {0}
            e[n] = frozenset(v)
        e['runfreq'] = g('runfreq', 0)
    return e

"""P11: malformed fcrontabs are reported by line and never do harm."""
from fc import *
import fc, tab, re, os

RULE = ('invalid lines of every kind (values out of range, malformed fields, times, options, assignments, shortcuts, lines too long, bytes which are no text) are put '
        'between valid ones and compiled by the real fcrontab (ASan, UBSan): each must be reported with its file and line, none may be scheduled, and what is compiled '
        'must be that of the same file without them; and mutated or random bytes, and files with too many lines, are compiled: fcrontab must end in time without a '
        'report of the sanitizers, compile only values in range, and the real daemon must take the result without harm. Distinct = (class of invalid line) and (mutation, outcome).')
MUST_OBSERVE = ('bad_lines', 'reported', 'valid_kept', 'fuzzed', 'fuzz_compiled', 'fuzz_refused', 'many')
VARIANTS = ('asan', 'ubsan')

def cases(tier, seed):
    n = dict(quick=(1500, 700, 12), thorough=(6000, 5000, 60))[tier]
    for kind, k in zip(('bad', 'fuzz', 'many'), n):
        for i in range(k):
            yield dict(kind=kind, seed=seed, i=i)

def bad_field(r, n):
    lo, hi = RANGES[n]
    v = lambda: str(r.randint(lo, hi))
    c = ['%d' % (hi + 1), '%d' % r.randint(hi + 1, 99999), '99999999999999999999999', '4294967297', '-5', '%s-' % v(), '-%s' % v(), '%s,' % v(), ',%s' % v(), '%s,,%s' % (v(), v()),
         '*%s' % v(), '**', '%s-%s-%s' % (v(), v(), v()), '*/0', '*/', '*/x', '%s~%s' % (v(), v()), '*~', '*~%d' % (hi + 1), '%s-%d' % (v(), hi + 1), '%s-%d' % (v(), hi + 1000),
         'zzz', '%sx' % v(), '%s.5' % v(), '%s.0' % v(), '*.', '%s;%s' % (v(), v()), '*/%d' % (hi + 300), '1/2', '+1', '0x1', '%s-%s/' % (v(), v()), '?', 'L', '\\', '"1"']
    if n in ('mday', 'mon'):
        c += ['0', '0-3', '*~0'] * 2
    if n in ('mon', 'dow'):
        c += ['janu', 'monday', 'xyz', 'ja', 'f', '*/tue', '*/feb']
    if n in ('min', 'hour', 'mday'):
        c += ['jan', 'mon', 'mon-fri']
    return r.choice(c)

from sched import RANGES, ORDER, star

BADOPT = ['nice(21)', 'nice(20)', 'nice(-21)', 'nice(a)', 'nice', 'nice(1.5)', 'nice()', 'jitter(256)', 'jitter(-1)', 'jitter(99999999999)', 'jitter', 'lavg(1,2)', 'lavg(1,2,3,4)', 'lavg(1;2;3)',
          'lavg1(25.6)', 'lavg1(26)', 'lavg5(-1)', 'lavg15(x)', 'lavg1(1.2.3)', 'lavg1(.)', 'lavg', 'mail(maybe)', 'serial(2)', 'serial(', 'serial()', 'bootrun(tru)', 'bootrun(truely)',
          'until(x)', 'until(5x)', 'until()', 'until(1hm)', 'until', 'first(9999999999999999999w)', 'first(-1)', 'first()', 'first(5', 'mailto( bob)', 'mailto(bob )', 'mailto("bob")',
          "mailfrom('x')", 'mailto(bob', 'mailto', 'timezone', 'timezone( UTC)', 'exesev(1', 'lavgor(3)', 'reset(x)', 'strict(10)', 'random(01)', 'nolog(-1)',
          'runonce( true)', 'volatile(true )', 'serial(true)x', 'dayor(yesno)', 'lavg(1,2,x)', 'lavg(1,,3)', 'lavg(9,8,26)', 'first(m)', 'until(5m5m5x)', 'foo(1)', 'serialx(1)']
HALF = ('volatile(true )', 'serial(true)x', 'bootrun(truely)', 'dayor(yesno)', 'mailto(bob )', 'mailto(bob', 'exesev(1', 'first(5', 'until(5x)', 'until(5m5m5x)', 'lavg1(1.2.3)', 'lavg(1,2,3,4)', 'nice(1.5)', 'lavg(1;2;3)')
UNKNOWN = ['foo', 'serialx', 'seria', 'daily', 'hours', 'serialserialserialserial', 'x' * 40, 'Serial', '_b', 'tzdif']

def bad_line(r, user, i, tok):
    """(class, text): a line with something invalid, which must not be scheduled"""
    F = lambda: ' '.join('*' if r.random() < .6 else {'min': '5', 'hour': '3', 'mday': '7', 'mon': 'mar', 'dow': 'tue'}[n] for n in ORDER)
    c = r.choice(['field'] * 5 + ['few', 'nocmd', 'freq', 'freq', 'opt', 'opt', 'opt', 'cut', 'env', 'junk', 'long', 'nul', 'period', 'period', 'runfreq', 'global', 'global', 'unknown'])
    if c == 'field':
        n = r.choice(ORDER)
        fs = {k: '*' for k in ORDER}
        fs[n] = bad_field(r, n)
        t = ' '.join(fs[k] for k in ORDER) + ' ' + tok
        return 'field:' + n, '& ' + t
    if c == 'few':
        return c, r.choice(['', '& ', '&serial ', '&3 ']) + ' '.join(F().split()[:r.randint(1, 4)]).replace('mar', '3').replace('tue', '2') + ' ' + tok
    if c == 'nocmd':
        return c, r.choice(['* * * * *', '& 5 4 * * *', '5 4 3 2 1  ', '@ 5m  ', '@first(4) 3h', '%hourly *', '%daily,serial * 3-4', '@daily', '@reboot ', '@midnight\t', '&4 * * * * *', '%hours * 1-5 * * *'])
    if c == 'freq':
        return c, r.choice(['@ %s', '@ 0 %s', '@ 5x %s', '@ 1hm %s', '@first(x) 5 %s', '@ 99999999999999999w %s', '@-5 10 %s', '@ 5,6 %s', '@ 1.5h %s', '@5 %s', '@ h %s', '@first(3) %s', '@ 0s0h %s', '@ -1 %s',
                            '@5x 10 %s', '@99999999999m 5 %s', '@ 5 h%s'][:-1]) % tok
    if c == 'opt':
        b = r.choice(BADOPT)
        g = r.choice(['', 'serial,', 'mail(no),'])
        return 'opt:' + re.split(r'\W', b)[0], r.choice(['&%s%s * * * * * %s', '@%s%s 5m %s', '%%hourly,%s%s * %s', '&%s%s 3 2 * * 1 %s']) % (g, b, tok)
    if c == 'unknown':
        b = r.choice(UNKNOWN)
        if b in ('_b',):
            return 'unknown', '&serial,_b * * * * * ' + tok
        k = r.choice('&@%')
        return 'unknown!', {'&': '&serial,%s * * * * * %s', '@': '@serial,%s 5m %s', '%': '%%hourly,%s * %s'}[k] % (b if not (k == '%' and b in ('daily', 'hours')) else 'foo', tok)
    if c == 'cut':
        return c, r.choice(['@fortnightly %s', '@daily5 %s', '@Daily %s', '@hourly, %s', '@reboot() %s', '@yearlyyearlyyearlyyearly %s', '@monthly;%s', '@daily,serial %s', '@ daily %s', '@@daily %s']) % tok
    if c == 'env':
        return c, r.choice(['A', 'A B=%s', '=%s', "A='%s", 'A="%s', 'A="', "A='", 'A-B=%s', 'A%s', '-A=1', 'A "=" b', 'A:=%s'][:-1]).replace('%s', tok)
    if c == 'junk':
        return c, r.choice(['$X=1', '(x)', '/bin/%s', '\x01', '\xff\xfe', '-- * * * * *', '>x', '.', '\x7f * * * * * %s', '\xe9=1', '"* * * * * %s"', '[x]', '~%s']).replace('%s', tok)
    if c == 'long':
        n = r.choice([1023, 1024, 1025, 1100, 2047, 2048, 5000, 100000])
        t = '* * * * * %s ' % tok
        t += 'x' * (n - len(t))
        if r.random() < .5:
            p = sorted(r.sample(range(20, len(t) - 10), min(3, len(t) - 30)), reverse=True)
            for q in p:
                t = t[:q] + '\\\n' + r.choice(['', '* * * * * %scont ' % tok, '@ 1m %scont ' % tok, 'ENVX=%s ' % tok]) + t[q:]
        return c, t
    if c == 'nul':
        t = '* * * * * %s -a -b -c' % tok
        p = r.randint(1, len(t) - 1)
        return c, t[:p] + '\0' + t[p:]
    if c == 'period':
        return c, r.choice(['%% * * * * * %s', '%%foo * * * * * %s', '%%hours * 0-23 * * * %s', '%%hours * * * * * %s', '%%hourly %s', '%%daily * %s', '%%monthly * * %s', '%%mins * * * * * %s', '%%hourly 60 %s',
                            '%%daily 5 24 %s', '%%hourly,runfreq(3) 5 %s', '%%days * * 1-31 * * %s', '%%dow * * * * 0-6 %s', '%%mons * * * 1-12 * %s', '%%hourly,nice(77) 5 %s', '%%,hourly,first(x) 5 %s']) % tok
    if c == 'runfreq':
        return c, r.choice(['&0 * * * * * %s', '&1 * * * * * %s', '&65536 * * * * * %s', '&99999999999 * * * * * %s', '&5x * * * * * %s', '&runfreq(1) * * * * * %s', '&r(0) * * * * * %s', '&r(65536) * * * * * %s',
                            '&2.5 * * * * * %s', '&-3 * * * * * %s', '&r(-2) * * * * * %s', '&runfreq() * * * * * %s', '&r * * * * * %s']) % tok
    # (a value followed by something invalid may be set: it is reported, which is all that is promised for options of the whole file)
    b = r.choice([x for x in BADOPT if x not in HALF] + ['tzdiff(25)', 'tzdiff(-25)', 'tzdiff(x)', 'tzdiff', 'tzdiff(1.5)', 'runfreq(1)', 'runfreq(0)', 'runfreq(65536)', 'foo', 'daily'])
    return 'global:' + re.split(r'\W', b)[0], '!' + b

def compiled(f):
    """comparable content"""
    return (sorted(f['env']), f['tzdiff'], sorted((sorted((k, repr(v)) for k, v in l.items()) for l in f['lines'])))

def bad_case(c, o, r, variant):
    S = 1600000000
    user = r.choice(['alice', 'root'])
    T = tab.Table(r, user, n=r.choice([1, 3, 8]))
    # the valid lines, each of one or more physical lines
    valid = []
    for it in T.items:
        t = tab.Table.__new__(tab.Table)
        t.items = [it]
        valid.append(t.write(r, noise=False).rstrip('\n'))
    blocks = [(v, None) for v in valid]
    for k in range(r.choice([1, 1, 2, 5])):
        cl, t = bad_line(r, user, k, 'BADJ%dX' % k)
        # spaces etc. around
        blocks.insert(r.randint(0, len(blocks)), (t, cl))
    with World(variant) as w:
        w.stub_sighup()
        p = w.root + '/work/tab'
        def comp(text):
            open(p, 'wb').write(text.encode('latin-1'))
            os.chmod(p, 0o644)
            w.clear_spool() if hasattr(w, 'clear_spool') else [os.unlink(w.root + '/spool/' + n) for n in os.listdir(w.root + '/spool')]
            run = w.fcrontab([p], user=user, now=S)
            if not o.sane(run, 'fcrontab'):
                return None, None, run
            sp = w.spool().get('new.' + user)
            return (parse_spool(sp) if sp else None), run.err.decode('latin-1'), run
        ref, err0, _ = comp('\n'.join(valid) + '\n')
        if err0 is None:
            return
        if ref is None or re.search(r'tab:\d+:', err0):
            o.bad('valid', 'valid lines are refused', err=err0[-500:], text='\n'.join(valid)[:1500])
            return
        text, ranges, n = '', [], 1
        for t, cl in blocks:
            k = t.count('\n') + 1
            ranges.append((n, n + k - 1, cl, t))
            n += k
            text += t + '\n'
        f, err, run = comp(text)
        if err is None:
            return
        if f is None:
            o.bad('lost-all', 'invalid lines kept the valid ones from being installed', rc=run.rc, err=err[-600:], text=text[:1500])
            return
        rep = {int(x) for x in re.findall(re.escape(p) + r':(\d+):', err)}
        for a, b, cl, t in ranges:
            hit = any(a <= x <= b for x in rep)
            if cl is None:
                if hit:
                    o.bad('wrong-line', 'a valid line is reported', line=t[:200], err=err[-600:], text=text[:1500])
                    return
                o.count('valid_kept')
            else:
                o.count('bad_lines')
                if not hit:
                    o.bad('silent:' + cl, 'an invalid line is not reported with its number', line=t[:200], cls=cl, at=(a, b), err=err[-600:])
                    return
                o.count('reported')
                o.sig('bad', cl, t[:40] if cl.startswith(('field', 'opt', 'global')) else '')
        # lines with only an unknown option may be kept without it
        maybe = {'BADJ' + m for a, b, cl, t in ranges if cl == 'unknown!' for m in re.findall(r'BADJ(\d+X)', t)}
        f['lines'] = [l for l in f['lines'] if l['shell'].decode('latin-1') not in maybe]
        for l in f['lines']:
            if b'BADJ' in l['shell']:
                o.bad('scheduled', 'an invalid line is scheduled', shell=l['shell'][:100].decode('latin-1'), lines=[(t[:200], cl) for t, cl in blocks if cl], err=err[-500:])
                return
        if compiled(f) != compiled(ref):
            a, b = compiled(f), compiled(ref)
            d = [(str(x)[:400], str(y)[:400]) for x, y in zip(a[2], b[2]) if x != y][:1]
            o.bad('changed', 'invalid lines change what the valid ones mean', bad=[(t[:200], cl) for t, cl in blocks if cl], env=(a[0] != b[0]), n=(len(a[2]), len(b[2])), diff=d, text=text[:1200])

TOK = ['*', '&', '@', '%', '!', '(', ')', ',', '/', '~', '-', '.', '0', '9', '99999999999', '\\\n', '\\', '"', "'", '=', '\t', ' ', '\n', '\r', '\0', '\xff', 'serial', 'first(', 'nice(', 'lavg(', 'until(', 'mailto(', 'runas(',
       'timezone(', 'tzdiff(', 'hours', 'daily', '@reboot', 'jan', 'sun', 'm', 'w', 'd', 'h', 's', 'MAILTO=', 'root ', '%n%s%n', '#']
def mutate(r, b):
    b = bytearray(b)
    for _ in range(r.choice([1, 2, 4, 10, 40])):
        if not b:
            b = bytearray(b'*')
        p = r.randrange(len(b))
        c = r.random()
        if c < .2:
            b[p] = r.randrange(256)
        elif c < .35:
            del b[p:p + r.choice([1, 1, 3, 20])]
        elif c < .75:
            b[p:p] = r.choice(TOK).encode('latin-1')
        elif c < .85:
            q = r.randrange(len(b))
            b[p:p] = b[q:q + r.randint(1, 60)]
        elif c < .9:
            b[p:p] = r.choice(TOK).encode('latin-1') * r.choice([10, 300, 1100])
        else:
            b[p] = b[p] ^ (1 << r.randrange(8))
    return bytes(b)

def in_range(f):
    for l in f['lines']:
        e = tab.read_line(l)
        if not -20 <= e['nice'] <= 20 or not l['shell'] or not e['runas'] or e['mailto'] is None or e['until'] < 0 or e.get('first', 0) is not None and e.get('first', 0) < 0:
            return 'values', e
        if 'timefreq' in e and e['timefreq'] < 1:
            return 'frequency', e
        for n, k in (('mins', 60), ('hrs', 24), ('days', 32), ('mons', 12), ('dow', 8)):
            d = l.get(n, b'')
            if int.from_bytes(d, 'little') >> k:
                return 'bits of ' + n, e
    return None

def fuzz_case(c, o, r, variant):
    S = 1600000000
    user = r.choice(['alice', 'root'])
    with World(variant) as w:
        w.stub_sighup()
        p = w.root + '/work/tab'
        for k in range(10):
            c1 = r.random()
            if c1 < .75:
                b = tab.Table(r, user).write(r).encode('latin-1')
                b = mutate(r, b)
                how = 'mutated'
            elif c1 < .9:
                b = ''.join(r.choice(TOK) for _ in range(r.choice([3, 20, 200, 3000]))).encode('latin-1')
                how = 'tokens'
            else:
                b = bytes(r.randrange(256) for _ in range(r.choice([1, 30, 1000, 20000])))
                how = 'bytes'
            open(p, 'wb').write(b)
            os.chmod(p, 0o644)
            [os.unlink(w.root + '/spool/' + n) for n in os.listdir(w.root + '/spool')]
            opt = r.choice([[], [], ['-d'], ['-n']])
            run = w.fcrontab(opt + [p], user=user, now=S)
            if not o.sane(run, 'fcrontab'):
                o.viol and o.viol[-1].setdefault('text', repr(b[:3000])) if hasattr(o, 'viol') and isinstance(o.viol, list) and o.viol and isinstance(o.viol[-1], dict) else None
                return
            if run.rc not in (0, 1, 255):
                o.bad('end', 'fcrontab ended badly', rc=run.rc, err=run.err[-400:].decode('latin-1'), text=repr(b[:2000]))
                return
            o.count('fuzzed')
            sp = w.spool().get('new.' + user)
            if sp is None:
                o.count('fuzz_refused')
                o.sig(how, 'refused', run.rc)
                continue
            try:
                f = parse_spool(sp)
            except (ValueError, KeyError) as ex:
                o.bad('torn', 'what fcrontab compiled is not a complete fcrontab', err=str(ex), text=repr(b[:2000]))
                return
            bad = in_range(f)
            if bad:
                o.bad('range', 'a value out of range is compiled', what=bad[0], line=str(bad[1])[:600], text=repr(b[:2000]))
                return
            if any(b'\0' in l['shell'] for l in f['lines']):
                o.bad('nul', 'a command with a NUL', text=repr(b[:500]))
                return
            o.count('fuzz_compiled')
            o.sig(how, 'compiled', min(len(f['lines']), 5), min(len(f['env']), 3), bool(re.search(rb':\d+:', run.err)))
        o.count('evaluations', 10)
        d = w.daemon([(150, 'sig TERM')], start=S + 60)
        o.sane(d, 'daemon given what was compiled')

def many_case(c, o, r, variant):
    S = 1600000000
    user = r.choice(['alice', 'root']) if c['i'] % 3 else 'alice'
    with World(variant) as w:
        w.stub_sighup()
        p = w.root + '/work/tab'
        k = c['i'] % 6
        n = {0: 1023, 1: 1024, 2: 1025, 3: 1500, 4: 3, 5: 20}[k]
        lines = []
        if k == 4:      # too many lines without entries
            lines = ['# x'] * r.choice([10245, 10260, 30000])
        if k == 5:
            lines = ['A%d=1' % (i % 50) for i in range(3000)]
        lines += ['* * * * * m%d' % i for i in range(n)]
        open(p, 'w').write('\n'.join(lines) + '\n')
        os.chmod(p, 0o644)
        run = w.fcrontab([p], user=user, now=S)
        if not o.sane(run, 'fcrontab'):
            return
        err = run.err.decode('latin-1')
        sp = w.spool().get('new.' + user)
        got = len(parse_spool(sp)['lines']) if sp else 0
        told = 'maximum number' in err
        if (got < n) != told or (got < n and 'ignored' not in err):
            o.bad('many', 'lines beyond the limits are ignored silently, or the limit is reported though nothing is lost', wanted=n, compiled=got, user=user, err=err[-400:])
        if user == 'root' and got < n and len(lines) < 60000:
            o.bad('many-root', "root's lines are limited", wanted=n, compiled=got)
        o.count('many')
        o.sig('many', k, user, told)

def run_case(c, o):
    r = rng(c['seed'], 'p11', c['kind'], c['i'])
    variant = 'asan' if c['i'] % 2 == 0 else 'ubsan'
    dict(bad=bad_case, fuzz=fuzz_case, many=many_case)[c['kind']](c, o, r, variant)

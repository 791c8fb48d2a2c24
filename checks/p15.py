"""P15: job output is mailed whole, to the right recipient, exactly when it should be."""
from fc import *
import os, re

RULE = ('random fcrontabs (mail, mailto, MAILTO, mailfrom, forcemail, erroronlymail, runas, nolog, stdout, content type variables, long '
        'environments, display names, host names) whose jobs write random bytes to both outputs and end with random status or signal, run by '
        'the real daemon; every mail handed to the mailer is compared, header by header and byte by byte, with what the line asks for. '
        'Distinct = (options that decide, kind of output, end of job).')
ASSUMPTIONS = ['the mailer is a stand-in that records its arguments, ids and input']
MUST_OBSERVE = ('mails', 'none', 'zero_length', 'error_only', 'long_header', 'nul_bytes', 'big_output', 'unsafe_address', 'displayname')
VARIANTS = ('asan', 'ubsan')

def cases(tier, seed):
    n = dict(quick=(1300, 60), thorough=(9000, 600))[tier]
    for kind, k in zip(('mix', 'long'), n):
        for i in range(k):
            yield dict(kind=kind, seed=seed, i=i)

ADDR_OK = ['carol', 'someone@example.org', 'a,b', 'x+y@h', 'root']
ADDR_BAD = ['-oQ/tmp/x', 'a b', 'a;b', '|/bin/sh', '-C', 'a|b', 'x\ty']
HOSTILE = ['', 'x: y', 'a\rBcc: evil@example.org', '\x0bTo: x', '=?utf-8?q?x?=', 'caf\xe9', '%s%n%d', 'x' * 600, '<a> "b" \'c\'', 'a\x1b[0m']
DISPLAY = ['', '', '', 'Fcron Daemon', 'Foo, Bar', 'Foo "x" Bar', 'a.b@c', "O'Neil", 'F' * 200, 'x(y)']

def outbytes(r):
    c = r.random()
    if c < .2:
        return b''
    if c < .4:
        return bytes(r.randrange(256) for _ in range(r.choice([1, 3, 20, 100])))
    if c < .6:
        return b'line one\nline two\n'[:r.randint(1, 18)]
    if c < .7:
        return b'\0' * r.randint(1, 5) + b'x\n\0y'
    if c < .8:
        return b'.\nFrom x\n.\nTo: evil\n\n'
    if c < .9:
        return b'z' * r.choice([194, 195, 196, 197, 390, 391, 392]) + b'\n'
    return b'\n' * r.randint(1, 3)

def gen_file(r, w, u, k, kind):
    T, L = [], []
    env = {}
    d = dict(mailto='root' if u == 'systab' else u, mail=True, force=False, err=False, mailfrom=None)
    n = r.randint(2, 6)
    def opts(l, op):
        if r.random() < .25:
            v = r.random() < .4
            op.append('mail(%s)' % ('true' if v else 'false'))
            l['mail'] = v
            if not v:
                l['force'] = False
        if r.random() < .25:
            v = r.choice(ADDR_OK + ADDR_BAD)
            op.append('mailto(%s)' % v)
            l['mailto'] = v
            l['mail'] = True
        elif r.random() < .07:
            op.append('mailto()')
            l['mail'] = l['force'] = False
        if r.random() < .2:
            v = r.choice(ADDR_OK[:2] + ADDR_BAD[:3])
            op.append('mailfrom(%s)' % v)
            l['mailfrom'] = v
        if r.random() < .25:
            v = r.random() < .8
            op.append('erroronlymail(%s)' % ('true' if v else 'no'))
            l['err'] = v
        if r.random() < .25:
            v = r.random() < .8
            op.append('forcemail' + '(%s)' % ('1' if v else '0'))
            l['force'] = v
            if v:
                l['mail'] = True
    for _ in range(r.choice([0, 1, 3]) if kind == 'mix' else r.randint(30, 70)):
        name = r.choice(['FOO', 'BAR', 'x_y', 'CONTENT_TYPE', 'CONTENT_TRANSFER_ENCODING', 'SHELL'])
        v = r.choice(HOSTILE).strip()
        if kind == 'long':
            name = 'V%d' % len(T)
            v = 'v' * r.randint(500, 950)
        if name == 'SHELL':
            v = '/bin/bash'
        T.append('%s=%s' % (name, ('"%s"' % v) if '"' not in v else "x"))
        env[name] = v if '"' not in v else 'x'
    if r.random() < .2:
        v = r.choice(ADDR_OK + [''])
        T.append('MAILTO="%s"' % v)
        if v:
            d['mailto'], d['mail'] = v, True
        else:
            d['mail'] = d['force'] = False
    if r.random() < .15:
        v = r.choice(ADDR_OK[:2])
        T.append('MAILFROM=%s' % v)
        d['mailfrom'] = v
    if r.random() < .3:
        op = []
        opts(d, op)
        if op:
            T.append('!' + ','.join(op))
    for j in range(n):
        l = dict(d, name='j%s%d' % (k, j), user=u, runas='root' if u == 'systab' else u, env=env, stdout=False)
        op = []
        opts(l, op)
        if u in ('root', 'systab') and r.random() < .4:
            l['runas'] = r.choice(['alice', 'bob', 'carol'])
            op.append('runas(%s)' % l['runas'])
        if r.random() < .1:
            op.append('nolog')
        if r.random() < .1:
            op.append('stdout')
            l['stdout'] = True
        out, err = outbytes(r), outbytes(r) if r.random() < .4 else b''
        st, sg = r.choice([0, 0, 0, 1, 3, 127, 255]), 0
        big = 0
        if r.random() < .15:
            sg, st = r.choice([9, 11, 15, 1]), 0
        c = [l['name']]
        if out:
            c.append('out=' + out.hex())
        if err:
            c.append('err=' + err.hex())
        if r.random() < .08:
            big = r.choice([4096, 70000, 200000, 700000])
            c.append('big=%d' % big)
        if st:
            c.append('st=%d' % st)
        if sg:
            c.append('sg=%d' % sg)
        if len(' '.join(c)) > 700:
            c, out, err, st, sg, big = c[:1], b'', b'', 0, 0, 0
        h = r.choice(HOSTILE[:-3] + ['']) if r.random() < .4 else ''
        l['cmd'] = (' '.join(c) + ' ' + h).strip()
        if tok_in(h):
            l['cmd'] = ' '.join(c)
        l.update(out=out + err + (b'z' * 63 + b'\n') * -(-big // 64), st=st, sg=sg, big=big)
        T.append('@%s 1 %s' % (','.join(op), l['cmd']))
        l['text'] = T[-1]
        L.append(l)
    return '\n'.join(T) + '\n', L

def tok_in(h):
    return any(x in h for x in ('out=', 'err=', 'st=', 'sg=', 'big=', 'dur='))

def unsafe(a):
    return a[:1] == '-' or re.search(r'[ \t\n;|]', a)

def display(d):
    if not d:
        return ''
    if re.search(r'[()<>\[\].,:;@"\\]', d):
        return '"%s"' % d.replace('"', '\\"')
    return d

def run_case(c, o):
    r = rng(c['seed'], 'p15', c['kind'], c['i'])
    variant = 'asan' if c['i'] % 3 == 0 else 'ubsan'
    host = r.choice(['simhost', 'simhost', 'h' * 100, 'a.b.example.org'])
    conf = {}
    dn = r.choice(DISPLAY)
    if dn:
        conf['maildisplayname'] = dn
    with World(variant, conf=conf, host=host) as w:
        S = 1600000000 + r.randint(0, 10 ** 6)
        users = r.sample(['alice', 'bob', 'carol', 'root', 'systab'], r.randint(1, 3))
        lines = {}
        for k, u in enumerate(users):
            t, L = gen_file(r, w, u, k, c['kind'])
            x = w.install(u, t, now=S - 5)
            if not o.sane(x, 'fcrontab'):
                return
            if b'kipping' in x.err or b'rror' in x.err or b'nvalid' in x.err:
                o.bad('install', 'valid lines refused', text=t[:900], err=x.err[-600:].decode('latin-1'))
                return
            lines.update((l['name'], l) for l in L)
        fg = r.random() < .2
        run = w.daemon([(r.choice([70, 130, 190]), 'sig TERM')], start=S, bg=not fg, head=['full 1', 'mailstatus %d' % r.choice([0, 0, 1, 75])], env={'PATH': '/a:/b'})
        if not o.sane(run, 'daemon'):
            return
        jobs, mails = {}, collections.defaultdict(list)
        for e in run.events:
            if e['ev'] == 'exec':
                jobs[e['job']] = (lines.get(name_of(e)), e)
            elif e['ev'] == 'mail':
                mails[e['job']].append(e)
        for j, (l, e) in jobs.items():
            if l is None:
                o.bad('alien', 'a command that is in no fcrontab ran', argv=e['argv'])
                return
            ms = mails.pop(j, [])
            if not one(o, w, l, e, ms, fg, host, dn):
                return
        if mails:
            m = next(iter(mails.values()))[0]
            o.bad('mail-alone', 'a mail without a job', mail=m['stdin'][:600], log=run.logs()[-5:])
            return
        if len(jobs) < len(lines):
            o.bad('notrun', 'a job was not run', log=run.logs()[-8:])
            return
        o.count('evaluations', len(jobs))
        o.sample = dict(case=c, fcrontab=[l['text'][:200] for l in lines.values()][:6], host=host)

def one(o, w, l, e, ms, fg, host, dn):
    def bad(key, msg, **d):
        o.bad(key, msg, line=l['text'][:500], owner=l['user'], env={k: v[:80] for k, v in list(l['env'].items())[:8]}, **d)
        return False
    ok = l['st'] == 0 and l['sg'] == 0
    want = l['mail'] and not (fg and l['stdout']) and (l['force'] or (l['out'] and not l['err']) or not ok)
    o.sig(l['mail'], l['force'], l['err'], l['stdout'] and fg, bool(l['out']), l['big'] > 0, l['st'] != 0, l['sg'] != 0, l['mailto'] == l['user'], l['mailfrom'])
    if len(ms) != int(bool(want)):
        return bad('count', 'a job led to %d mails instead of %d' % (len(ms), bool(want)), output=len(l['out']), status=l['st'], signal=l['sg'])
    if not want:
        o.count('none')
        return True
    m = ms[0]
    o.count('mails')
    o.count('zero_length', not l['out'] and ok)
    o.count('error_only', l['err'] and not ok)
    o.count('nul_bytes', b'\0' in l['out'])
    o.count('big_output', l['big'] > 0)
    o.count('unsafe_address', bool(unsafe(l['mailto'])))
    o.count('displayname', bool(dn))
    mailto = l['user'] if unsafe(l['mailto']) else l['mailto']
    if mailto == 'systab':
        mailto = 'root'
    mto = [mailto]
    if unsafe(l['mailto']) and l['user'] == 'systab':
        mto.append('systab')
    if m['argv'][:-1] != [w.root + '/bin/sendmail', '-Ffcron', '-odi'] or m['argv'][-1] not in mto or m['path'] != w.root + '/bin/sendmail':
        return bad('argv', 'the mailer got the wrong arguments', have=m['argv'], want=mailto)
    uid, gid, gs = w.users[l['runas']]
    if m['uid'] != [uid] * 3 or m['gid'] != [gid] * 3 or sorted(set(m['groups'])) != sorted(set([gid] + gs)):
        return bad('identity', 'the mailer is not run with the rights of the account', have=[m['uid'], m['gid'], m['groups']], want=uid)
    if m['pos'] != 0:
        return bad('offset', 'the mailer does not read the mail from its start', pos=m['pos'])
    head, sep, body = m['stdin'].partition('\n\n')
    o.count('long_header', len(head) > 32768)
    H = head.split('\n')
    mfrom = l['runas'] if not l['mailfrom'] or unsafe(l['mailfrom']) else l['mailfrom']
    at = lambda a: a if '@' in a else a + '@' + host
    dm = display(dn)
    want_h = ['From: %s <%s>' % (dm, at(mfrom)) if dm else 'From: %s (fcron)' % at(mfrom), 'To: ' + at(m['argv'][-1]),
              'Subject: fcron <%s@%s> %s' % (l['user'], host, l['cmd']),
              'Content-Type: ' + (l['env']['CONTENT_TYPE'] if 'CONTENT_TYPE' in l['env'] else 'text/plain; charset=ANSI_X3.4-1968')]
    if 'CONTENT_TRANSFER_ENCODING' in l['env']:
        want_h.append('Content-Transfer-Encoding: ' + l['env']['CONTENT_TRANSFER_ENCODING'])
    want_h.append('Auto-Submitted: auto-generated')
    want_h += ['X-Cron-Env: <%s>' % x for x in e['env']]
    if sorted(H) != sorted(want_h):
        return bad('header', 'the header of a mail is not as documented', extra=[x[:300] for x in H if x not in want_h][:5], missing=[x[:300] for x in want_h if x not in H][:5])
    wb = l['out'].decode('latin-1')
    if l['sg']:
        wb += "Job '%s' terminated due to signal %d (mailing output)" % (l['cmd'], l['sg'])
    elif l['st']:
        wb += "Job '%s' terminated (exit status: %d) (mailing output)" % (l['cmd'], l['st'])
    if body != wb:
        k = next((i for i, (a, b) in enumerate(zip(body, wb)) if a != b), min(len(body), len(wb)))
        return bad('body', 'the mail does not carry all the output, byte for byte', length=len(body), want=len(wb), first_difference=k, have=body[max(0, k - 10):k + 60], want_=wb[max(0, k - 10):k + 60])
    return True

"""P10: what a valid fcrontab says is what is scheduled, whatever its layout."""
from fc import *
import fc, tab, re

RULE = ('fcrontabs generated from an abstract syntax which covers every documented form are written in several ways (blanks, comments, continuations, quotes, '
        'abbreviations, names, lists, ranges, units of time, order, global or local options) and compiled by the real fcrontab, which must not complain; '
        'every compiled field, option and variable must be what the manual says the text denotes, and the same for every way to write it. '
        'For some, the real daemon is run on two spellings: it must start the same commands, at the same times, with the same environment. '
        'Distinct = (kind of line, option or form, user).')
MUST_OBSERVE = ('lines', 'fields', 'spellings', 'runs', 'starts')
VARIANTS = ('asan', 'ubsan')

def cases(tier, seed):
    n = dict(quick=(1000, 60), thorough=(9000, 1500))[tier]
    for kind, k in zip(('text', 'run'), n):
        for i in range(k):
            yield dict(kind=kind, seed=seed, i=i)

def complaints(run):
    return [l for l in run.err.decode('latin-1').splitlines() if re.search(r':\d+:|rror|gnor|skipp|WARN|nvalid|must be', l) and ' INFO ' not in l]

def compile_(o, w, user, text, S):
    run = w.fcrontab(['-'], user=user, stdin=text.encode('latin-1'), now=S)
    if not o.sane(run, 'fcrontab'):
        return None
    c = complaints(run)
    if run.rc != 0 or c:
        o.bad('complaint', 'a valid fcrontab is complained about', rc=run.rc, lines=[text.split('\n')[max(0, int(m.group(1)) - 3):int(m.group(1))] for x in c[:2] for m in [re.search(r':(\d+):', x)] if m], err=c[:3] or run.err[-300:].decode('latin-1'), text=text[:3000])
        return None
    try:
        return parse_spool(w.spool()['new.' + user])
    except (KeyError, ValueError) as e:
        o.bad('none', 'nothing was compiled', err=str(e), text=text[:2000])
        return None

def text_case(c, o, r, variant):
    S = 1600000000
    user = r.choice(['alice', 'root', 'bob'])
    T = tab.Table(r, user)
    env, tz, lines = T.expect()
    with World(variant) as w:
        w.stub_sighup()
        for k in range(3):
            text = T.write(r, noise=k > 0)
            f = compile_(o, w, user, text, S)
            if f is None:
                return
            o.count('spellings')
            got = {}
            for e in f['env']:
                n, _, v = e.decode('latin-1').partition('=')
                got[n] = v
            if got != env:
                o.bad('env', 'the variables are not those assigned', want=env, got=got, text=text[:1500])
                return
            if f['tzdiff'] % 256 != tz % 256:
                o.bad('tzdiff', 'tzdiff is not the one given last', want=tz, got=f['tzdiff'])
                return
            if len(f['lines']) != len(lines):
                o.bad('lines', 'there are not as many lines as in the text', want=len(lines), got=len(f['lines']), text=text[:1500])
                return
            for l in f['lines']:
                g = tab.read_line(l)
                e = lines.get(g['shell'])
                if e is None:
                    o.bad('command', 'a command is not the one in the text', got=g['shell'], want=[x for x in lines][:5], text=text[:1500])
                    return
                for n in e:
                    if n == 'bits':
                        for b, v in e['bits'].items():
                            if g['bits'][b] != v:
                                o.bad('option:%d' % b, 'an option is not as the text says', option=[x for x in tab.BITS if tab.BITS[x][0] == b] or b, want=v,
                                      line=[x for x in text.splitlines() if g['shell'].split()[0] in x][:2], text=text[:3000])
                                return
                    elif g.get(n) != e[n]:
                        o.bad('field:' + n, 'a field is not what the text says', field=n, want=str(e[n])[:300], got=str(g.get(n))[:300],
                              line=[x for x in text.splitlines() if g['shell'].split()[0] in x][:2], text=text[:3000])
                        return
                    o.count('fields')
                o.count('lines')
        for it in T.items:
            if it[0] == 'line':
                for op in it[1].opts or [None]:
                    o.sig('text', it[1].kind, getattr(it[1], 'kw', getattr(it[1], 'cut', '')), op and op.name, user == 'root')
            elif it[0] == 'opt':
                for op in it[1]:
                    o.sig('global', op.name, str(op.val)[:5])
            else:
                o.sig(it[0], it[1])

def run_case_(c, o, r, variant):
    """two ways to write one fcrontab: the daemon does the same"""
    S = 1600000000 + r.randint(0, 400) * 86400 + r.randint(0, 86399)
    user = r.choice(['alice', 'bob'])
    T = tab.Table(r, user, n=r.choice([3, 6]))
    drop = {'random', 'jitter', 'lavg', 'lavg1', 'lavg5', 'lavg15'}     # chance, and the load which changes between the runs
    for it in T.items:
        if it[0] == 'opt':
            it[1][:] = [x for x in it[1] if x.name not in drop]
        elif it[0] == 'line':
            it[1].opts[:] = [x for x in it[1].opts if x.name not in drop]
            if it[1].kind == '&' and r.random() < .7:
                it[1].f['mday'] = it[1].f['mon'] = it[1].f['dow'] = None
                it[1].f.update({n: tab.star(n) for n in ('mday', 'mon', 'dow')})
    T.items = [it for it in T.items if it[0] != 'opt' or it[1]]
    res, dur = [], r.choice([7200, 7200, 40000])
    for k in range(2):
        with World(variant) as w:
            w.stub_sighup()
            text = T.write(r, noise=k > 0)
            if compile_(o, w, user, text, S - 60) is None:
                return
            run = w.daemon([(dur, 'end')], start=S)
            if not o.sane(run, 'daemon'):
                return
            ev = sorted((int(e['t']), cmd_of(e), tuple(sorted(x for x in e.get('env', []) if not x.startswith('FCV')))) for e in run.events if e['ev'] == 'exec')
            res.append((ev, text))
    o.count('runs', 2)
    o.count('starts', len(res[0][0]))
    if res[0][0] != res[1][0]:
        d = sorted(set(res[0][0]) ^ set(res[1][0]))[:4]
        o.bad('behaviour', 'two ways to write one fcrontab lead to different runs', n=[len(x[0]) for x in res], diff=[str(x)[:200] for x in d], a=res[0][1][:1500], b=res[1][1][:1500])
    o.sig('run', len(res[0][0]) > 0, user)

def run_case(c, o):
    r = rng(c['seed'], 'p10', c['kind'], c['i'])
    variant = 'asan' if c['i'] % 3 == 0 else 'ubsan'
    (text_case if c['kind'] == 'text' else run_case_)(c, o, r, variant)

"""P23: the containers keep every element, in order, under any sequence of operations."""
from fc import *
import json, os, re, subprocess
import build, p05, p06

RULE = ('the containers of the daemon (unordered lists of any element size, running jobs, jobs waiting for the load, environments) driven through random insertions, traversals with removals, insertions and early ends, copies, changes and '
        'growths, each result compared with a plain array, under sanitizers; the serial queue, the queue for the load and the queue of due jobs are followed in the real daemon by the models of P05 and P06 on other histories. '
        'Distinct = (container, sizes and growths reached, refusals).')
ASSUMPTIONS = ['the lists have no order: a traversal must give each element exactly once, in any order', 'fifo_list.c is used by no program and is left out']
MUST_OBSERVE = ('inserted', 'removed', 'traversals', 'growths', 'refused', 'changed', 'ended-early', 'inserted-in-traversal', 'copies', 'set', 'read', 'exported', 'queued', 'by_load', 'deep-serial')
VARIANTS = ('asan', 'ubsan')

def cases(tier, seed):
    q = tier == 'quick'
    for kind, n in (('list', 80 if q else 3000), ('exe', 30 if q else 1000), ('lavg', 40 if q else 1000), ('env', 60 if q else 2000)):
        for i in range(n):
            yield dict(kind=kind, seed=seed, i=i)
    for mod, sub, n in (('serial', 'mix', 14 if q else 300), ('serial', 'remove', 14 if q else 300), ('serial', 'fail', 6 if q else 100), ('serial', 'huge', 4 if q else 40),
                        ('load', 'mix', 8 if q else 200), ('load', 'remove', 8 if q else 200), ('load', 'full', 8 if q else 100)):
        for i in range(n):
            yield dict(kind=mod, sub=sub, seed=seed, i=i)

def run_case(c, o):
    if c['kind'] in ('serial', 'load'):
        m = p05 if c['kind'] == 'serial' else p06
        m.run_case(dict(kind=c['sub'], seed=c['seed'] + 7300, i=c['i']), o)
        if c['kind'] == 'serial':
            o.count('deep-serial')
        return
    r = rng(c['seed'], 'p23', c['kind'], c['i'])
    prog = build.build_lists(r.choice(['asan', 'ubsan']))
    k = dict(list=0, exe=1, lavg=2, env=3)[c['kind']]
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=1:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=1')
    try:
        p = subprocess.run([prog, str(k), str(r.getrandbits(40) + 1), str(20000 if k != 3 else 5000)], capture_output=True, timeout=120, env=env)
    except subprocess.TimeoutExpired:
        raise Inconclusive('lists')
    out = p.stdout.decode('latin-1').splitlines()
    for l in out:
        if l.startswith('BAD '):
            o.bad(c['kind'] + ':' + l.split()[1], l.split(' ', 2)[2], program='lists %d' % k)
            return
    saw = [json.loads(l[4:]) for l in out if l.startswith('SAW ')]
    if p.returncode or not saw or b'runtime error' in p.stderr or b'Sanitizer' in p.stderr:
        e = p.stderr.decode('latin-1')
        m = re.search(r'(\S+\.c):\d+.*runtime error|SUMMARY: \S+ (.*)', e)
        o.bad(c['kind'] + ':crash', 'the container crashed, leaked or did something undefined', rc=p.returncode, report=e[:2500])
        return
    for n, v in saw[0].items():
        if n != 'largest':
            o.count(n, v)
    o.sig(c['kind'], saw[0]['growths'] > 5, min(saw[0]['largest'] // 50, 6), saw[0]['refused'] > 0)

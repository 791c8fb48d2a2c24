"""Common driver of the checks: makes cases, runs them in parallel, matches violations against
KNOWN_FINDINGS, writes evidence and replay files, prints the verdict."""
import argparse, collections, hashlib, importlib, json, multiprocessing, os, random, re, signal, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
sys.path.insert(0, os.path.join(VERIF, 'checks'))
import sim
from sim import Inconclusive


class Out:
    """What one case observed."""
    def __init__(self):
        self.viol = []
        self.stats = collections.Counter()
        self.sigs = set()
        self.sample = None
    def bad(self, key, msg, **detail):
        self.viol.append(dict(key=key, msg=msg, detail=detail))
    def count(self, k, n=1):
        self.stats[k] += n
    def sig(self, *a):
        """a distinct, non-trivial situation this case observed"""
        self.sigs.add('|'.join(map(str, a)))
    def sane(self, run, what='run', ok=(0,)):
        """the generic part of every monitor: no sanitizer report, no hang, no unexpected end"""
        for s in run.san:
            self.bad('san:' + san_key(s), '%s: sanitizer report' % what, report=s[:3000])
        if not run.san and run.rc not in ok:
            k = {96: 'livelock', 97: 'badevent', 98: 'blocked', -24: 'cpu-loop'}.get(run.rc, 'exit%s' % run.rc)
            if k == 'badevent':
                raise RuntimeError('bad scenario event: %r' % [e for e in run.events if e['ev'] == 'badevent'])
            self.bad('end:' + k, '%s: ended with %s' % (what, k), err=run.err[-1500:].decode('latin-1'),
                     tail=run.events[-5:])
        return not self.viol


def san_key(s):
    m = re.search(r'(?:ERROR: \w+Sanitizer: |runtime error: )([^\n]*)', s)
    kind = m.group(1) if m else 'report'
    kind = re.sub(r'0x[0-9a-f]+|\d+', 'N', kind)[:60]
    fr = re.findall(r'#\d+ 0x\w+ in (\w+) [^\n]*?/([\w.-]+\.c):\d+', s)
    fr = [f for f in fr if f[1] not in ('shim.c',)]
    return '%s@%s' % (kind, fr[0][0] if fr else '?')


def known():
    """finding: property=<id> key=<key> <text>   /   fixed: property=<id> <commit> <text>"""
    r = collections.defaultdict(dict)
    try:
        for l in open(os.path.join(VERIF, 'KNOWN_FINDINGS')):
            m = re.match(r'finding: property=(\w+) key=(\S+) (.*)', l)
            if m:
                r[m.group(1)][m.group(2)] = m.group(3).strip()
    except OSError:
        pass
    return r

_mod = None

def _one(case):
    o = Out()
    tries = 0
    while True:
        tries += 1
        try:
            o = Out()
            _mod.run_case(case, o)
            return case, o.viol, dict(o.stats), o.sigs, o.sample, None
        except Inconclusive as ex:
            if tries >= 2:
                return case, [], {'inconclusive': 1}, set(), None, 'inconclusive: %s' % ex
        except Exception:
            return case, [], {}, set(), None, traceback.format_exc()


def _worker():
    # (the handler of the parent could leave a worker which is told to end waiting for ever)
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    signal.signal(signal.SIGINT, signal.SIG_DFL)


# seconds of real time after which no more cases are begun: once something was found, and in any case
LIMITS = dict(quick=(200, 720), thorough=(3600, 6 * 3600))


def rng(seed, *a):
    h = hashlib.sha256(repr((seed,) + a).encode()).digest()
    return random.Random(int.from_bytes(h[:8], 'big'))


def main():
    global _mod
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('FCV_JOBS', '8')))
    ap.add_argument('--only', help='run only cases whose kind matches')
    ap.add_argument('-n', type=int, default=0)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    pid = a.property
    t0 = time.time()
    _mod = importlib.import_module(pid.lower())
    sim.scratch_base()
    for v in getattr(_mod, 'VARIANTS', ('asan',)):
        sim.binaries(v)
    sim.setids_bin()
    build_s = time.time() - t0
    if a.replay:
        cases = [json.load(open(a.replay))['case']]
    else:
        cases = list(_mod.cases(a.tier, a.seed))
        if a.only:
            cases = [c for c in cases if re.search(a.only, c.get('kind', ''))]
        if a.n:
            cases = cases[:a.n]
    stats = collections.Counter()
    sigs, samples, errors, viols = set(), [], [], []
    done = 0
    kn = known().get(pid, {})
    stopped = False
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(a.jobs, _worker, maxtasksperchild=200) as pool:
        it = pool.imap_unordered(_one, cases, chunksize=1)
        w0 = time.time()
        while True:
            # (broken code may make every case slow: what was seen is enough then)
            el = time.time() - w0
            if el > (LIMITS[a.tier][0] if [1 for c, v in viols if v['key'] not in kn] else LIMITS[a.tier][1]):
                stopped = True
                pool.terminate()
                break
            try:
                case, viol, st, sg, sample, err = it.next(timeout=5)
            except multiprocessing.TimeoutError:
                continue
            except StopIteration:
                break
            done += 1
            stats.update(st)
            sigs |= sg
            if sample is not None and len(samples) < 400:
                samples.append(sample)
            if err:
                errors.append((case, err))
            for v in viol:
                viols.append((case, v))
        pool.close()
        pool.join()
    rng(a.seed, 'samples').shuffle(samples)
    samples = samples[:4]
    seen_known, new = {}, {}
    for case, v in viols:
        if v['key'] in kn:
            seen_known.setdefault(v['key'], (case, v))
        else:
            new.setdefault(v['key'], []).append((case, v))
    rc = 0
    for k in sorted(kn):
        # listed findings are reported whether or not this sample of cases hit them
        print('KNOWN-FINDING: property=%s %s [key=%s]%s' % (pid, kn[k], k, '' if k in seen_known else ' (not hit in this run)'))
    rd = os.path.join(VERIF, 'evidence', 'replay')
    for i, k in enumerate(sorted(new)):
        case, v = new[k][0]
        os.makedirs(rd, exist_ok=True)
        p = os.path.join(rd, '%s-%d.json' % (pid, i))
        json.dump(dict(property=pid, case=case, violation=v, seed=a.seed, occurrences=len(new[k])), open(p, 'w'),
                  indent=1, default=str)
        rc = 1
        if i < 20:
            print('  %s: %s (%d cases)' % (k, v['msg'], len(new[k])))
            if a.v:
                print(json.dumps(v['detail'], indent=1, default=str)[:6000])
        if i == 0:
            first = p
    hard = [(c, e) for c, e in errors if not e.startswith('inconclusive')]
    evals = stats.pop('evaluations', done)
    nonv = getattr(_mod, 'MUST_OBSERVE', ())
    missing = [k for k in nonv if not stats.get(k)] if not (a.replay or a.only or a.n) else []
    ev = dict(property=pid, tier=a.tier, seed=a.seed, level=getattr(_mod, 'LEVEL', 'exploration'),
              coverage=dict(evaluations=evals, cases_planned=len(cases), distinct_nontrivial=len(sigs), rule=_mod.RULE,
                            samples=samples or [cases[0] if cases else None], cases=done,
                            observed=dict(sorted(stats.items())),
                            inconclusive=len(errors) - len(hard), build_s=round(build_s, 1),
                            known_findings_hit=sorted(seen_known)),
              assumptions=list(getattr(_mod, 'ASSUMPTIONS', ())),
              wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s seed=%d: %d cases, %d evaluations, %d distinct situations, %.1f s; observed %s' % (
        pid, a.tier, a.seed, done, evals, len(sigs), time.time() - t0, dict(sorted(stats.items()))))
    if stopped:
        print('stopped after %d of %d cases: out of time' % (done, len(cases)))
    if rc:
        print('VIOLATION property=%s replay=%s' % (pid, first))
        return 1
    if hard:
        for c, e in hard[:3]:
            print('HARNESS ERROR in case %s\n%s' % (json.dumps(c, default=str)[:500], e))
        return 2
    if missing:
        print('HARNESS ERROR: this run observed no %s' % ', '.join(missing))
        return 2
    if errors:
        print('%d of %d cases inconclusive' % (len(errors), done))
        for c, e in errors[:3]:
            print('   %s: %s' % (json.dumps(c, default=str)[:300], e))
        if len(errors) * 10 > done:
            print('HARNESS ERROR: too many inconclusive cases')
            return 2
    return 0


if __name__ == '__main__':
    sys.modules.setdefault('runner', sys.modules['__main__'])
    sys.exit(main())

"""Scratch worlds for the monitored fcron binaries: directory tree, accounts, configuration,
running the command line tools, running the daemon under a scenario, reading traces."""
import resource
import glob, json, os, re, shutil, stat, subprocess, sys, tempfile, time, atexit, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'sim'))
import build as _build
from broker import Broker, nnp

FCRON_UID, FCRON_GID = 2100, 2100
USERS = {   # name: (uid, gid, supplementary groups)
    'root': (0, 0, [0]),
    'fcron': (FCRON_UID, FCRON_GID, []),
    'alice': (2001, 2001, [3001]),
    'bob': (2002, 2002, [3002, 3001]),
    'carol': (2003, 2003, []),
    'dave': (2004, 2004, []),
    'erin': (2005, 2005, []),
}
SAN_EXIT = 99
_roots = []
_mainpid = os.getpid()

def _cleanup():
    if os.getpid() == _mainpid:
        for r in _roots:
            shutil.rmtree(r, ignore_errors=True)
atexit.register(_cleanup)

_base = None
def scratch_base():
    """One scratch directory per check process, under /tmp, removed at exit."""
    global _base, _mainpid
    if _base is None:
        _mainpid = os.getpid()
        _base = tempfile.mkdtemp(prefix='fcv-', dir=os.environ.get('FCV_TMP', '/tmp'))
        os.chmod(_base, 0o755)
        _roots.append(_base)
        for s in (signal.SIGTERM, signal.SIGINT):
            signal.signal(s, lambda *a: sys.exit(3))
    return _base

class Inconclusive(Exception):
    pass

def binaries(variant='asan'):
    return _build.build(variant)

def setids_bin():
    d = binaries.dir if hasattr(binaries, 'dir') else None
    p = os.path.join(scratch_base(), 'setids')
    if not os.path.exists(p):
        t = p + '.%d' % os.getpid()
        subprocess.run(['gcc', '-O1', '-o', t, os.path.join(VERIF, 'sim', 'setids.c')], check=True)
        os.rename(t, p)
    return p

def stub_bin():
    p = os.path.join(scratch_base(), 'setidstub')
    if not os.path.exists(p):
        t = p + '.%d' % os.getpid()
        subprocess.run(['gcc', '-O1', '-w', '-o', t, os.path.join(VERIF, 'sim', 'setidstub.c')], check=True)
        os.rename(t, p)
    return p

def decode(s):
    return s.encode('latin-1')

class Run:
    """One finished process: exit code, output, trace events, sanitizer reports."""
    def __init__(self, rc, out, err, events, san, timeout=False):
        self.rc, self.out, self.err, self.events, self.san, self.timeout = rc, out, err, events, san, timeout
    def ev(self, *kinds):
        return [e for e in self.events if e['ev'] in kinds]
    def logs(self, pat=None):
        r = [e['msg'] for e in self.events if e['ev'] == 'log']
        return [m for m in r if re.search(pat, m)] if pat else r

class World:
    _n = 0
    def __init__(self, variant='asan', users=None, conf=None, host='simhost', shell='/bin/sh'):
        World._n += 1
        self.brokers = []
        self.bin = binaries(variant)
        self.variant = variant
        self.root = os.path.join(scratch_base(), 'w%d-%d' % (os.getpid(), World._n))
        self.users = dict(USERS)
        if users:
            self.users.update(users)
        self.host = host
        self.counter = 0
        r = self.root
        for d in ('', 'spool', 'run', 'etc', 'bin', 'home', 'san', 'tr', 'work'):
            os.mkdir(os.path.join(r, d), 0o755)
        os.chmod(r + '/san', 0o1777)
        os.chmod(r + '/tr', 0o1777)
        os.chmod(r + '/work', 0o1777)
        os.chown(r + '/spool', FCRON_UID, FCRON_GID)
        os.chmod(r + '/spool', 0o770)
        with open(r + '/passwd', 'w') as f:
            f.write('g:root:0\ng:fcron:%d\n' % FCRON_GID)
            for n, (u, g, gs) in self.users.items():
                h = '%s/home/%s' % (r, n)
                if '/' not in n:
                    os.makedirs(h, exist_ok=True)
                    os.chown(h, u, g)
                    os.chmod(h, 0o755)
                f.write('u:%s:%d:%d:%s:/bin/sh:%s:C%s\n' % (n, u, g, h, ','.join(map(str, gs)), 'pw' + n))
        os.chmod(r + '/passwd', 0o644)
        for n, c in (('allow', 'all\n'), ('deny', '')):
            p = '%s/etc/fcron.%s' % (r, n)
            open(p, 'w').write(c)
            os.chown(p, 0, FCRON_GID)
            os.chmod(p, 0o640)
        self.conf = dict(fcrontabs=r + '/spool', pidfile=r + '/run/fcron.pid',
                         suspendfile=r + '/run/suspend', fifofile=r + '/run/fifo',
                         fcronallow=r + '/etc/fcron.allow', fcrondeny=r + '/etc/fcron.deny',
                         shell=shell, sendmail=r + '/bin/sendmail', editor=r + '/bin/editor')
        if conf:
            self.conf.update(conf)
        self.write_conf()
        open(r + '/bin/sendmail', 'w').write('#!/bin/sh\nexit 0\n')
        os.chmod(r + '/bin/sendmail', 0o755)
        self.conf_path = r + '/etc/fcron.conf'

    def close(self):
        for b in self.brokers:
            b.close()
        shutil.rmtree(self.root, ignore_errors=True)
    def __enter__(self):
        return self
    def __exit__(self, *a):
        self.close()

    def write_conf(self, text=None, owner=(0, FCRON_GID), mode=0o644):
        p = self.root + '/etc/fcron.conf'
        if text is None:
            text = ''.join('%s = %s\n' % kv for kv in self.conf.items() if kv[1] is not None)
        open(p, 'wb').write(text if isinstance(text, bytes) else text.encode('latin-1'))
        os.chown(p, *owner)
        os.chmod(p, mode)

    def install_setid(self):
        """real set-id copies in root/bin, for the end-to-end paths"""
        for n, (u, g, m) in dict(fcrontab=(FCRON_UID, FCRON_GID, 0o6755), fcrondyn=(FCRON_UID, FCRON_GID, 0o6755),
                                 fcronsighup=(0, FCRON_GID, 0o4710)).items():
            p = self.root + '/bin/' + n
            shutil.copyfile(os.path.join(self.bin, n), p)
            os.chown(p, u, g)
            os.chmod(p, m)
            if n == 'fcronsighup' and nnp():
                # the kernel will not honour the bits: the same by way of a helper
                shutil.copyfile(stub_bin(), p)
                os.chmod(p, 0o710)
                self.brokers.append(Broker(p, os.path.join(self.bin, n), setids_bin(), u))

    def stub_sighup(self):
        p = self.root + '/bin/fcronsighup'
        open(p, 'w').write('#!/bin/sh\nexit 0\n')
        os.chmod(p, 0o755)

    def env(self, trace, extra=None):
        e = {'PATH': '/usr/local/bin:/usr/bin:/bin', 'SIM_ROOT': self.root, 'SIM_TRACE': trace,
             'SIM_PASSWD': self.root + '/passwd', 'SIM_HOST': self.host, 'LC_ALL': 'C',
             'ASAN_OPTIONS': 'log_path=%s/san/rep:detect_leaks=0:exitcode=%d:abort_on_error=0:'
                             'allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0' % (self.root, SAN_EXIT),
             'UBSAN_OPTIONS': 'log_path=%s/san/rep:print_stacktrace=1:exitcode=%d' % (self.root, SAN_EXIT)}
        if extra:
            e.update(extra)
        return e

    def _trace(self):
        self.counter += 1
        p = '%s/tr/%d' % (self.root, self.counter)
        open(p, 'w').close()
        os.chmod(p, 0o666)
        return p

    def san_reports(self):
        out = []
        for p in sorted(glob.glob(self.root + '/san/rep*')):
            try:
                out.append(open(p, errors='replace').read())
            except OSError:
                pass
            os.unlink(p)
        return out

    def _exec(self, cmd, env, stdin=b'', timeout=60, cwd=None, cpu=0):
        # a CPU limit tells an endless loop from a slow machine
        def lim():
            # whatever this check was started with: default signals, none blocked
            for n in range(1, 32):
                if n not in (signal.SIGKILL, signal.SIGSTOP):
                    signal.signal(n, signal.SIG_DFL)
            signal.pthread_sigmask(signal.SIG_SETMASK, [])
            if cpu:
                resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        try:
            p = subprocess.run(cmd, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               env=env, timeout=timeout, cwd=cwd, preexec_fn=lim)
            return p.returncode, p.stdout, p.stderr, False
        except subprocess.TimeoutExpired as ex:
            return None, ex.stdout or b'', ex.stderr or b'', True

    def _finish(self, trace, res):
        rc, out, err, to = res
        events = []
        with open(trace, encoding='latin-1') as f:
            for l in f:
                try:
                    events.append(json.loads(l))
                except ValueError:
                    events.append({'ev': 'truncated', 'raw': l[:200]})
        os.unlink(trace)
        return Run(rc, out, err, events, self.san_reports(), to)

    def cli(self, prog, args, user='root', stdin=b'', now=None, cwd=None, env=None, setid=True,
            tick=None, ticklog=False, timeout=60):
        """run a command line tool as `user`, with the ids its installed set-id bits would give"""
        u, g, gs = self.users[user]
        eu, eg = u, g
        if setid:
            eu, eg = {'fcrontab': (FCRON_UID, FCRON_GID), 'fcrondyn': (FCRON_UID, FCRON_GID),
                      'fcronsighup': (0, FCRON_GID)}.get(prog, (u, g))
        tr = self._trace()
        x = dict(env or {})
        if now is not None:
            x['SIM_START'] = repr(float(now)) if not isinstance(now, str) else now
        if tick:
            x['SIM_TICK'] = tick
        if ticklog:
            x['SIM_TICKLOG'] = '1'
            x['SIM_OPLOG'] = '1'
        e = self.env(tr, x)
        cmd = [setids_bin(), str(u), str(eu), str(g), str(eg), ','.join(map(str, gs)),
               cwd or self.root + '/work', os.path.join(self.bin, prog)] + list(args)
        res = self._exec(cmd, e, stdin, timeout, cpu=30)
        if res[3]:
            raise Inconclusive('%s timed out' % prog)
        return self._finish(tr, res)

    def fcrontab(self, args, user='root', **kw):
        return self.cli('fcrontab', (['-c', self.conf_path] if kw.pop('conf', True) else []) + list(args), user=user, **kw)

    def install(self, user, text, now=None, opts=(), as_user=None):
        """compile `text` with the real fcrontab into the spool"""
        p = self.root + '/work/in.%s' % user
        data = text if isinstance(text, bytes) else text.encode('latin-1')
        with open(p, 'wb') as f:
            f.write(data)
        os.chmod(p, 0o644)
        if not os.path.exists(self.root + '/bin/fcronsighup'):
            self.stub_sighup()
        return self.fcrontab(list(opts) + [p, user] if as_user is None else list(opts) + [p],
                             user=as_user or 'root', now=now)

    def stage(self, user, text, name, now=None, opts=()):
        """compile into a spool of its own; returns the staged new.<user> path (relative to the spool)"""
        st = self.root + '/stage-%s' % name
        os.mkdir(st)
        os.chown(st, FCRON_UID, FCRON_GID)
        os.chmod(st, 0o770)
        c = dict(self.conf)
        self.conf = dict(c, fcrontabs=st)
        self.write_conf()
        try:
            r = self.install(user, text, now=now, opts=opts)
        finally:
            self.conf = c
            self.write_conf()
        return r, '../stage-%s/new.%s' % (name, user)

    def spool(self):
        out = {}
        for n in sorted(os.listdir(self.root + '/spool')):
            p = self.root + '/spool/' + n
            try:
                out[n] = open(p, 'rb').read()
            except OSError:
                pass
        return out

    def daemon(self, scenario, start, opts=('-y',), head=(), env=None, tick=None, ticklog=False,
               oplog=False, tz=None, timeout=400, bg=True, cpu=60, conf=True, cwd=None):
        """run the daemon: scenario = [(t, event)], t in seconds of the machine's uptime clock
        from the start of this run; start = wall clock at t=0"""
        sc = self.root + '/scenario%d' % (self.counter + 1)
        L = list(head)
        if bg:
            L.append('bg 1')
        for t, e in sorted(scenario, key=lambda x: x[0]):
            L.append('at %.6f %s' % (t, e))
        with open(sc, 'w') as f:
            f.write('\n'.join(L) + '\n')
        tr = self._trace()
        x = {'SIM_SCENARIO': sc, 'SIM_START': repr(start) if not isinstance(start, str) else start}
        if tz is not None:
            x['TZ'] = tz
        else:
            x['TZ'] = 'UTC'
        if tick:
            x['SIM_TICK'] = tick
        if ticklog:
            x['SIM_TICKLOG'] = '1'
        if oplog:
            x['SIM_OPLOG'] = '1'
        if env:
            x.update(env)
        e = self.env(tr, x)
        o = [a for a in opts if a != '-y']      # syslog is the trace
        cmd = [os.path.join(self.bin, 'fcron')] + (['-c', self.conf_path] if conf else []) + o + (['-b'] if bg else ['-f', '-y'])
        res = self._exec(cmd, e, b'', timeout, cpu=cpu, cwd=cwd)
        run = self._finish(tr, res)
        if run.timeout:
            raise Inconclusive('daemon run did not finish in %d s of real time' % timeout)
        return run

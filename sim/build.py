#!/usr/bin/env python3
"""Builds the instrumented binaries from /repo's current working tree (never from a copy of
an older one), into /verif/.build/<hash>/<variant>/.  The hash covers every source the build
reads, so an unchanged tree is not rebuilt and a changed one always is."""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FCV_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')

MAIN = {
    'fcron': 'fcron cl subs mem save temp_file log database job conf u_list exe_list '
             'lavg_list env_list fcronconf mail filesubs select fcrondyn_svr suspend',
    'fcrontab': 'fcrontab cl subs mem save temp_file log fileconf allow read_string u_list '
                'env_list fcronconf mail filesubs',
    'fcrondyn': 'fcrondyn subs mem log allow read_string fcronconf mail filesubs',
    'fcronsighup': 'fcronsighup subs mem log allow fcronconf mail filesubs',
    'convert-fcrontab': 'convert-fcrontab cl subs mem save log u_list env_list fcronconf mail filesubs',
}

def object_lists():
    """The object lists come from /repo/Makefile.in (a refactoring may add a file), with the
    lists above as a fallback."""
    out = {k: v.split() for k, v in MAIN.items()}
    try:
        mk = open(os.path.join(REPO, 'Makefile.in')).read()
    except OSError:
        return out
    mk = mk.replace('\\\n', ' ')
    var = dict(re.findall(r'^(OBJS\w+)\s*:=\s*(.*)$', mk, re.M))
    def expand(s):
        for _ in range(4):
            s = re.sub(r'\$[({](OBJS\w+)[)}]', lambda m: var.get(m.group(1), ''), s)
        s = re.sub(r'\$[({]LIBOBJS[)}]', '', s)
        return [x[:-2] for x in s.split() if x.endswith('.o')]
    for prog, name in (('fcron', 'OBJSD'), ('fcrontab', 'OBJSTAB'), ('fcrondyn', 'OBJSDYN'),
                       ('fcronsighup', 'OBJSIG'), ('convert-fcrontab', 'OBJSCONV')):
        if name in var:
            l = expand(var[name])
            if l and all(os.path.exists(os.path.join(REPO, x + '.c')) for x in l):
                out[prog] = l
    return out

PATHS = dict(PIDFILE='../run/fcron.pid', REBOOT_LOCK='../run/reboot.lock',
             SUSPEND_FILE='../run/suspend', FIFOFILE='../run/fifo', ETC='../etc',
             FCRON_SHELL='/bin/sh', FCRON_CONF='fcron.conf', FCRONTABS='../spool',
             FCRON_ALLOW='fcron.allow', FCRON_DENY='fcron.deny',
             SENDMAIL='../bin/sendmail', FCRON_EDITOR='../bin/editor',
             MAILDISPLAYNAME='', BINDIREX='../bin')

WRAPS = ('time gettimeofday clock_gettime select poll ppoll pselect sleep usleep nanosleep '
         'fork vfork waitpid wait wait3 wait4 execle execve execv execl execlp kill killpg '
         'getloadavg timerfd_create timerfd_settime getsockopt accept accept4 setpriority nice '
         'getpwnam getpwuid getgrnam getspnam crypt initgroups gethostname syslog __syslog_chk vsyslog '
         'pipe pipe2 open open64 openat creat fopen fopen64 read write close rename remove unlink '
         'setuid setgid chdir opendir readdir fdatasync fsync fchown fchmod setsid ftruncate '
         'fclose fflush fputs send recv mkstemp fdopen dup2 getpid '
         'realloc_sim_unused').split()
WRAPS = [w for w in WRAPS if not w.endswith('_unused')]
WRAPS_CLI = ('time gettimeofday getpwnam getpwuid getgrnam getspnam crypt gethostname syslog '
             '__syslog_chk sleep fork kill open open64 creat fopen fopen64 read write close rename '
             'remove unlink fdatasync fsync fclose fflush fputs mkstemp waitpid execl execlp').split()

VARIANTS = {
    'asan': ['clang', '-g', '-O1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
             '-fno-sanitize-recover=all', '-w'],
    'ubsan': ['clang', '-g', '-O1', '-fsanitize=undefined', '-fno-sanitize-recover=all', '-w'],
}

def src_files():
    fs = sorted(glob.glob(os.path.join(REPO, '*.c')) + glob.glob(os.path.join(REPO, '*.h')))
    return fs + [os.path.join(REPO, 'config.h.in'), os.path.join(REPO, 'Makefile.in')]

def tree_hash():
    h = hashlib.sha256()
    for f in src_files() + sorted(glob.glob(os.path.join(VERIF, 'sim', '*'))):
        if os.path.isfile(f):
            h.update(os.path.basename(f).encode() + b'\0')
            h.update(open(f, 'rb').read())
            h.update(b'\0')
    return h.hexdigest()[:20]

def gen_config(path, extra_off=()):
    vals = {}
    for l in open(os.path.join(VERIF, 'sim', 'config_values.txt')):
        p = l.rstrip('\n').split(None, 1)
        vals[p[0]] = p[1] if len(p) > 1 else ''
    out = []
    for l in open(os.path.join(REPO, 'config.h.in')):
        m = re.match(r'^\s*#\s*undef\s+(\w+)', l)
        if m and m.group(1) in vals and m.group(1) not in extra_off:
            out.append('#define %s %s\n' % (m.group(1), vals[m.group(1)]))
        elif m:
            out.append('/* %s */\n' % l.strip())
        else:
            out.append(l)
    open(path, 'w').write(''.join(out))

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode:
        sys.stderr.write('BUILD FAILED: %s\n%s\n' % (' '.join(cmd), p.stdout[-4000:]))
        raise SystemExit(2)

def build(variant='asan', progs=('fcron', 'fcrontab', 'fcrondyn', 'fcronsighup', 'convert-fcrontab')):
    os.makedirs(BUILD, exist_ok=True)
    h = tree_hash()
    d = os.path.join(BUILD, h, variant)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(d, 'ok')):
            return d
        # keep at most the four most recent trees
        olds = sorted((x for x in glob.glob(os.path.join(BUILD, '*')) if os.path.isdir(x)), key=os.path.getmtime)
        for o in olds[:-3]:
            shutil.rmtree(o, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        gen_config(os.path.join(d, 'config.h'))
        flags = VARIANTS[variant] + ['-DHAVE_CONFIG_H', '-I', d, '-I', REPO]
        flags += ['-D%s="%s"' % kv for kv in PATHS.items()]
        ol = object_lists()
        objs = sorted(set(o for p in progs for o in ol[p]))
        jobs = [flags + ['-c', os.path.join(REPO, o + '.c'), '-o', os.path.join(d, o + '.o')] for o in objs]
        shim = VARIANTS[variant][:1] + ['-g', '-O1', '-Wall', '-fno-omit-frame-pointer']
        jobs.append(shim + ['-c', os.path.join(VERIF, 'sim', 'shim.c'), '-o', os.path.join(d, 'shim.o')])
        jobs.append(shim + ['-DSIM_CLI', '-c', os.path.join(VERIF, 'sim', 'shim.c'), '-o', os.path.join(d, 'shim_cli.o')])
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(run, jobs))
            links = []
            for p in progs:
                sim = p == 'fcron'
                w = ['-Wl,' + ','.join('--wrap=' + x for x in (WRAPS if sim else WRAPS_CLI))]
                links.append(VARIANTS[variant] + w + ['-o', os.path.join(d, p)] +
                             [os.path.join(d, o + '.o') for o in ol[p]] +
                             [os.path.join(d, 'shim.o' if sim else 'shim_cli.o'), '-lcrypt', '-lm'])
            list(ex.map(run, links))
        open(os.path.join(d, 'ok'), 'w').close()
    return d

def build_lists(variant='asan'):
    """the containers alone, driven by lists.c"""
    d = build(variant)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        out = os.path.join(d, 'lists')
        if not os.path.exists(out):
            flags = VARIANTS[variant] + ['-DHAVE_CONFIG_H', '-I', d, '-I', REPO] + ['-D%s="%s"' % kv for kv in PATHS.items()]
            run(flags + ['-Dmain=fcron_main', '-c', os.path.join(REPO, 'fcron.c'), '-o', os.path.join(d, 'fcron.nomain.o')])
            run(flags + ['-o', out + '.new', os.path.join(VERIF, 'sim', 'lists.c'), os.path.join(d, 'fcron.nomain.o')] +
                [os.path.join(d, o + '.o') for o in object_lists()['fcron'] if o != 'fcron'] + ['-lcrypt', '-lm'])
            os.rename(out + '.new', out)
    return out

if __name__ == '__main__':
    for v in (sys.argv[1:] or ['asan', 'ubsan']):
        print(build(v))

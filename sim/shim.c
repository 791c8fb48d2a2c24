/* Simulated kernel for the monitored binaries.
 *
 * The real fcron objects are linked with -Wl,--wrap for the libc entry points below.  When the
 * environment has SIM_ROOT the process runs against a virtual clock: select() moves time,
 * a scenario file injects signals, file changes, load averages, clock jumps, suspends,
 * clients and crashes at chosen virtual times or at a chosen n-th libc call ("tick"), job
 * processes really fork and really change user but stop at exec, where what the kernel would
 * have been asked to run is written to a trace.  Nothing is ever executed, killed or reniced
 * for real.  Everything observed goes to the JSON-lines file SIM_TRACE; the verdict is the
 * oracle's, elsewhere.  With -DSIM_CLI (fcrontab, fcrondyn, fcronsighup) only the account
 * database, the clock, fault injection and kill() recording are active.
 */
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <ctype.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <grp.h>
#include <limits.h>
#include <malloc.h>
#include <poll.h>
#include <pwd.h>
#include <shadow.h>
#include <signal.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/eventfd.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/timerfd.h>
#include <sys/types.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define R(ret, name, ...) extern ret __real_##name(__VA_ARGS__)
#define NS 1000000000LL
typedef long long i64;

R(time_t, time, time_t *);
R(int, gettimeofday, struct timeval *, void *);
R(int, clock_gettime, clockid_t, struct timespec *);
R(int, select, int, fd_set *, fd_set *, fd_set *, struct timeval *);
R(unsigned, sleep, unsigned);
R(pid_t, fork, void);
R(pid_t, waitpid, pid_t, int *, int);
R(int, kill, pid_t, int);
R(struct passwd *, getpwnam, const char *);
R(struct passwd *, getpwuid, uid_t);
R(struct group *, getgrnam, const char *);
R(struct spwd *, getspnam, const char *);
R(char *, crypt, const char *, const char *);
R(int, open, const char *, int, ...);
R(int, creat, const char *, mode_t);
R(FILE *, fopen, const char *, const char *);
R(ssize_t, read, int, void *, size_t);
R(ssize_t, write, int, const void *, size_t);
R(int, close, int);
R(int, rename, const char *, const char *);
R(int, remove, const char *);
R(int, unlink, const char *);
R(int, fdatasync, int);
R(int, fsync, int);
R(int, fclose, FILE *);
R(int, fflush, FILE *);
R(int, fputs, const char *, FILE *);
R(int, mkstemp, char *);
R(int, gethostname, char *, size_t);

static int active = 0;          /* SIM_ROOT is set */
static int role = 0;            /* 0 daemon, 1 job controller, 2 job */
static int trace_fd = -1;
static i64 vmono = 0, off_real = 0, off_boot = 0;
static bool cli_clock = false;
static char fake_hostname[300] = "simhost";

/* ---------------------------------------------------------------- trace */
static char *tb;
static size_t tn, tcap;
static void t_raw(const char *s, size_t n)
{
    if (tn + n + 1 > tcap) {
        tcap = (tn + n + 1) * 2;
        tb = realloc(tb, tcap);
    }
    memcpy(tb + tn, s, n);
    tn += n;
}
static void t_s(const char *s) { t_raw(s, strlen(s)); }
static void t_f(const char *fmt, ...)
{
    char b[512];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    t_raw(b, n < (int)sizeof b ? n : (int)sizeof b - 1);
}
static void t_strn(const char *s, size_t n)
{
    t_raw("\"", 1);
    for (size_t i = 0; i < n; i++) {
        unsigned char c = s[i];
        if (c < 0x20 || c > 0x7e || c == '"' || c == '\\')
            t_f("\\u%04x", c);
        else
            t_raw((char *)&c, 1);
    }
    t_raw("\"", 1);
}
static void t_str(const char *s)
{
    if (s == NULL)
        t_s("null");
    else
        t_strn(s, strlen(s));
}
static void t_begin(const char *ev)
{
    tn = 0;
    t_f("{\"ev\":\"%s\",\"t\":%lld.%09lld,\"r\":%lld.%09lld", ev, vmono / NS, vmono % NS,
        (vmono + off_real) / NS, (vmono + off_real) % NS);
}
static void t_key(const char *k) { t_f(",\"%s\":", k); }
static void t_end(void)
{
    int e = errno;
    t_s("}\n");
    if (trace_fd >= 0) {
        size_t o = 0;
        while (o < tn) {
            ssize_t w = __real_write(trace_fd, tb + o, tn - o);
            if (w <= 0)
                break;
            o += w;
        }
    }
    errno = e;
}
static void t_simple(const char *ev, const char *k, const char *v)
{
    t_begin(ev);
    if (k) {
        t_key(k);
        t_str(v);
    }
    t_end();
}

/* ---------------------------------------------------------------- ticks: fault injection */
struct tickact { long n; char act[16]; char arg[32]; };
static struct tickact acts[64];
static int nacts;
static long ticks;
static int ticklog;
static int in_shim;             /* calls made by the shim itself are not ticks */

#ifdef SIM_CLI
#define __real_getpid getpid
#else
extern pid_t __real_getpid(void);
#endif

static int errno_of(const char *s)
{
    static const struct { const char *n; int v; } tab[] = {
        {"ENOSPC", ENOSPC}, {"EIO", EIO}, {"EDQUOT", EDQUOT}, {"EROFS", EROFS}, {"EINTR", EINTR},
        {"ENOMEM", ENOMEM}, {"EMFILE", EMFILE}, {"ENFILE", ENFILE}, {"EAGAIN", EAGAIN},
        {"EACCES", EACCES}, {"ENOENT", ENOENT}, {"EPERM", EPERM}, {"EPIPE", EPIPE}, {NULL, 0} };
    for (int i = 0; tab[i].n; i++)
        if (!strcmp(tab[i].n, s))
            return tab[i].v;
    return EIO;
}
static int sig_of(const char *s)
{
    static const struct { const char *n; int v; } tab[] = {
        {"HUP", SIGHUP}, {"TERM", SIGTERM}, {"CHLD", SIGCHLD}, {"USR1", SIGUSR1},
        {"USR2", SIGUSR2}, {"CONT", SIGCONT}, {"PIPE", SIGPIPE}, {NULL, 0} };
    for (int i = 0; tab[i].n; i++)
        if (!strcmp(tab[i].n, s))
            return tab[i].v;
    return atoi(s);
}
/* one named call that fails in the children (job control process, job, mailer) */
static char childfail[32];
static int tick_child(const char *name)
{
    if (!active || in_shim || role == 0 || strcmp(childfail, name))
        return 0;
    t_begin("cfault");
    t_f(",\"role\":%d", role);
    t_key("call");
    t_str(name);
    t_end();
    return EPERM;
}
#define TICKC(name, bad) do { int te_ = tick_child(name); if (te_ > 0) { errno = te_; return bad; } } while (0)
/* returns 0, or an errno to fail with; -1 asks for a short transfer */
/* wait for the test to do something meanwhile */
static void do_pause(const char *why)
{
    const char *d = getenv("SIM_PAUSE");
    char p[PATH_MAX], b[32];
    if (!d)
        return;
    in_shim++;
    t_simple("pause", "why", why);
    snprintf(p, sizeof p, "%s.a", d);
    int fd = __real_open(p, O_WRONLY);
    if (fd >= 0) {
        int n = snprintf(b, sizeof b, "%d %.10s", (int)__real_getpid(), why);
        if (__real_write(fd, b, n) < 0)
            abort();
        __real_close(fd);
        snprintf(p, sizeof p, "%s.b", d);
        fd = __real_open(p, O_RDONLY);
        if (fd >= 0) {
            while (__real_read(fd, b, sizeof b) > 0) ;
            __real_close(fd);
        }
    }
    in_shim--;
}
static int tick(const char *name, const char *what)
{
    if (!active || in_shim || role != 0)
        return 0;
    ticks++;
    if (ticklog) {
        t_begin("tick");
        t_f(",\"n\":%ld", ticks);
        t_key("call");
        t_str(name);
        t_key("what");
        t_str(what ? what : "");
        t_end();
    }
    for (int i = 0; i < nacts; i++) {
        if (!strcmp(acts[i].act, "full")) {
            /* from this tick on nothing can be written any more */
            if (ticks < acts[i].n || (strcmp(name, "write") && strcmp(name, "fputs") && strcmp(name, "fflush") && strcmp(name, "fdatasync")))
                continue;
        }
        else if (acts[i].n != ticks)
            continue;
        if (!strcmp(acts[i].act, "kill")) {
            t_simple("crash", "at", name);
            _exit(137);
        }
        if (!strcmp(acts[i].act, "sig")) {
            t_simple("sigtick", "sig", acts[i].arg);
            raise(sig_of(acts[i].arg));
            return 0;
        }
        if (!strcmp(acts[i].act, "pause")) {
            do_pause("tick");
            return 0;
        }
        t_begin("fault");
        t_key("call");
        t_str(name);
        t_key("what");
        t_str(what ? what : "");
        t_key("err");
        t_str(acts[i].arg);
        t_end();
        if (!strcmp(acts[i].act, "short"))
            return -1;
        return errno_of(acts[i].arg);
    }
    return 0;
}
static void fd_path(int fd, char *out, size_t n)
{
    char p[64];
    snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
    ssize_t l = readlink(p, out, n - 1);
    out[l > 0 ? l : 0] = 0;
}
#define TICKF(name, what, bad) do { int te_ = tick(name, what); if (te_ > 0) { errno = te_; return bad; } } while (0)
static const char *fdw(int fd)
{
    static char b[PATH_MAX];
    if (!active || in_shim || role != 0 || !ticklog)
        return "";
    fd_path(fd, b, sizeof b);
    return b;
}
static int oplog;
static void t_op(const char *op, const char *a, const char *b, long r)
{
    if (!active || !oplog || in_shim || role != 0)
        return;
    int e = errno;
    t_begin("op");
    t_key("op");
    t_str(op);
    t_key("a");
    t_str(a);
    if (b) {
        t_key("b");
        t_str(b);
    }
    t_f(",\"ret\":%ld", r);
    t_end();
    errno = e;
}

/* ---------------------------------------------------------------- accounts */
struct acct { char name[160]; uid_t uid; gid_t gid; char home[256], shell[128], pw[160]; gid_t groups[8]; int ngroups; };
static struct acct accts[256];
static int naccts;
struct grp_ { char name[160]; gid_t gid; };
static struct grp_ grps[32];
static int ngrps;

static void load_accounts(const char *path)
{
    in_shim++;
    FILE *f = __real_fopen(path, "r");
    char l[1024];
    while (f && fgets(l, sizeof l, f)) {
        l[strcspn(l, "\n")] = 0;
        char *p = l, *tok[8];
        int n = 0;
        while (n < 8 && (tok[n] = strsep(&p, ":")) != NULL)
            n++;
        if (n >= 3 && !strcmp(tok[0], "g") && ngrps < 32) {
            snprintf(grps[ngrps].name, sizeof grps[0].name, "%s", tok[1]);
            grps[ngrps++].gid = atoi(tok[2]);
        }
        else if (n >= 8 && !strcmp(tok[0], "u") && naccts < 256) {
            struct acct *a = &accts[naccts++];
            snprintf(a->name, sizeof a->name, "%s", tok[1]);
            a->uid = strtoul(tok[2], NULL, 10);
            a->gid = strtoul(tok[3], NULL, 10);
            snprintf(a->home, sizeof a->home, "%s", tok[4]);
            snprintf(a->shell, sizeof a->shell, "%s", tok[5]);
            snprintf(a->pw, sizeof a->pw, "%s", tok[7]);
            char *g = tok[6], *e;
            while (a->ngroups < 8 && (e = strsep(&g, ",")) != NULL)
                if (*e)
                    a->groups[a->ngroups++] = atoi(e);
        }
    }
    if (f)
        __real_fclose(f);
    in_shim--;
}
static struct passwd *mkpw(struct acct *a)
{
    /* like the real calls: static storage, overwritten by the next call */
    static struct passwd pw;
    static struct acct copy;
    copy = *a;
    pw.pw_name = copy.name;
    pw.pw_passwd = "x";
    pw.pw_uid = copy.uid;
    pw.pw_gid = copy.gid;
    pw.pw_gecos = "";
    pw.pw_dir = copy.home;
    pw.pw_shell = copy.shell;
    return &pw;
}
struct passwd *__wrap_getpwnam(const char *n)
{
    if (!active)
        return __real_getpwnam(n);
    TICKF("getpwnam", n, NULL);
    TICKC("getpwnam", NULL);
    for (int i = 0; i < naccts; i++)
        if (!strcmp(accts[i].name, n))
            return mkpw(&accts[i]);
    errno = 0;
    return NULL;
}
struct passwd *__wrap_getpwuid(uid_t u)
{
    if (!active)
        return __real_getpwuid(u);
    TICKF("getpwuid", NULL, NULL);
    for (int i = 0; i < naccts; i++)
        if (accts[i].uid == u)
            return mkpw(&accts[i]);
    errno = 0;
    return NULL;
}
struct group *__wrap_getgrnam(const char *n)
{
    static struct group g;
    static char *none[1];
    if (!active)
        return __real_getgrnam(n);
    for (int i = 0; i < ngrps; i++)
        if (!strcmp(grps[i].name, n)) {
            g.gr_name = grps[i].name;
            g.gr_gid = grps[i].gid;
            g.gr_mem = none;
            return &g;
        }
    errno = 0;
    return NULL;
}
struct spwd *__wrap_getspnam(const char *n)
{
    static struct spwd sp;
    static struct acct copy;
    if (!active)
        return __real_getspnam(n);
    for (int i = 0; i < naccts; i++)
        if (!strcmp(accts[i].name, n)) {
            copy = accts[i];
            sp.sp_namp = copy.name;
            sp.sp_pwdp = copy.pw;
            return &sp;
        }
    return NULL;
}
char *__wrap_crypt(const char *k, const char *s)
{
    if (!active)
        return __real_crypt(k, s);
    static char b[700];
    snprintf(b, sizeof b, "C%.512s", k);        /* stored passwords are "C" + clear text */
    return b;
}
int __wrap_gethostname(char *b, size_t n)
{
    if (!active)
        return __real_gethostname(b, n);
    size_t l = strlen(fake_hostname);
    memcpy(b, fake_hostname, l + 1 < n ? l + 1 : n);
    if (l >= n) {
        errno = ENAMETOOLONG;
        return -1;
    }
    return 0;
}

/* ---------------------------------------------------------------- syslog */
static void do_syslog(int pri, const char *fmt, va_list ap)
{
    char b[8192];
    int e = errno;
    vsnprintf(b, sizeof b, fmt, ap);
    t_begin("log");
    t_f(",\"pri\":%d,\"role\":%d", pri & 7, role);
    t_key("msg");
    t_str(b);
    t_end();
    errno = e;
}
extern void __real_syslog(int, const char *, ...);
void __wrap_syslog(int pri, const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    do_syslog(pri, fmt, ap);
    va_end(ap);
}
void __wrap___syslog_chk(int pri, int flag, const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    do_syslog(pri, fmt, ap);
    va_end(ap);
}
void __wrap_vsyslog(int pri, const char *fmt, va_list ap) { do_syslog(pri, fmt, ap); }

/* ---------------------------------------------------------------- clock */
time_t __wrap_time(time_t *p)
{
    if (!active || (!cli_clock && trace_fd == -2))
        return __real_time(p);
    time_t v = (vmono + off_real) / NS;
    if (p)
        *p = v;
    return v;
}
int __wrap_gettimeofday(struct timeval *tv, void *tz)
{
    if (!active)
        return __real_gettimeofday(tv, tz);
    i64 v = vmono + off_real;
    tv->tv_sec = v / NS;
    tv->tv_usec = (v % NS) / 1000;
    return 0;
}

/* ---------------------------------------------------------------- files */
int __wrap_open(const char *p, int fl, ...)
{
    mode_t m = 0;
    if (fl & (O_CREAT | O_TMPFILE)) {
        va_list ap;
        va_start(ap, fl);
        m = va_arg(ap, mode_t);
        va_end(ap);
    }
    if (active && !strcmp(p, "/dev/tty")) {
        errno = ENXIO;
        return -1;
    }
    TICKF("open", p, -1);
    /* synchronous writes only cost time here; what they promise is checked on the trace */
    int r = __real_open(p, fl & ~(O_SYNC | O_DSYNC), m);
    t_op((fl & (O_CREAT | O_WRONLY | O_RDWR)) ? ((fl & O_TRUNC) ? ((fl & (O_SYNC | O_DSYNC)) ? "openTS" : "openT") :
         ((fl & (O_SYNC | O_DSYNC)) ? "openWS" : "openW")) : "openR", p, NULL, r);
    return r;
}
int __wrap_open64(const char *p, int fl, ...)
{
    va_list ap;
    va_start(ap, fl);
    mode_t m = va_arg(ap, mode_t);
    va_end(ap);
    return __wrap_open(p, fl, m);
}
int __wrap_creat(const char *p, mode_t m) { return __wrap_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
FILE *__wrap_fopen(const char *p, const char *m)
{
    TICKF("fopen", p, NULL);
    FILE *f = __real_fopen(p, m);
    t_op(strchr(m, 'w') ? "openT" : (strchr(m, 'a') || strchr(m, '+')) ? "openW" : "openR", p, NULL, f ? fileno(f) : -1);
    return f;
}
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }
ssize_t __wrap_read(int fd, void *b, size_t n)
{
    int e = tick("read", fdw(fd));
    if (e > 0) {
        errno = e;
        return -1;
    }
    if (e < 0 && n > 1)
        n = n / 2;
    return __real_read(fd, b, n);
}
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
    int e = tick("write", fdw(fd));
    if (e > 0) {
        errno = e;
        return -1;
    }
    if (e < 0 && n > 1)
        n = n / 2;
    ssize_t r = __real_write(fd, b, n);
    if (active && oplog && !in_shim && role == 0) {
        char w[PATH_MAX];
        fd_path(fd, w, sizeof w);
        t_op("write", w, NULL, r);
    }
    return r;
}
int __wrap_close(int fd)
{
    if (active && fd == trace_fd) {
        errno = EBADF;
        return -1;
    }
    if (active && fd < 250 && role == 0 && fcntl(fd, F_GETFD) < 0) {
        errno = EBADF;          /* the start-up sweep over closed descriptors is no tick */
        return -1;
    }
    tick("close", fdw(fd));
    return __real_close(fd);
}
int __wrap_rename(const char *a, const char *b)
{
    TICKF("rename", b, -1);
    int r = __real_rename(a, b);
    t_op("rename", a, b, r);
    return r;
}
int __wrap_remove(const char *a)
{
    TICKF("remove", a, -1);
    int r = __real_remove(a);
    t_op("unlink", a, NULL, r);
    return r;
}
int __wrap_unlink(const char *a)
{
    TICKF("unlink", a, -1);
    int r = __real_unlink(a);
    t_op("unlink", a, NULL, r);
    return r;
}
int __wrap_fdatasync(int fd)
{
    TICKF("fdatasync", fdw(fd), -1);
    if (active && oplog && role == 0) {
        char w[PATH_MAX];
        fd_path(fd, w, sizeof w);
        t_op("sync", w, NULL, 0);
    }
    return active ? 0 : __real_fdatasync(fd);
}
int __wrap_fsync(int fd)
{
    TICKF("fsync", fdw(fd), -1);
    if (active && oplog && role == 0) {
        char w[PATH_MAX];
        fd_path(fd, w, sizeof w);
        t_op("sync", w, NULL, 0);
    }
    return active ? 0 : __real_fsync(fd);
}
int __wrap_fclose(FILE *f)
{
    if (active && !in_shim && role == 0 && f) {
        int e = tick("fclose", fdw(fileno(f)));
        if (e > 0) {
            /* what a full disk does: buffered data is lost and the close reports it */
            __real_close(fileno(f));
            __real_fclose(f);
            errno = e;
            return EOF;
        }
    }
    return __real_fclose(f);
}
int __wrap_fflush(FILE *f)
{
    if (active && !in_shim && role == 0 && f && f != stderr && f != stdout) {
        int e = tick("fflush", fdw(fileno(f)));
        if (e > 0) {
            errno = e;
            return EOF;
        }
    }
    return __real_fflush(f);
}
int __wrap_fputs(const char *s, FILE *f)
{
    if (active && !in_shim && role == 0 && f && f != stderr && f != stdout) {
        int e = tick("fputs", fdw(fileno(f)));
        if (e > 0) {
            errno = e;
            return EOF;
        }
    }
    return __real_fputs(s, f);
}
int __wrap_mkstemp(char *t)
{
    TICKC("mkstemp", -1);
    TICKF("mkstemp", t, -1);
    return __real_mkstemp(t);
}

/* the options cannot come from the environment: a set-id process cannot read /proc/self/environ */
const char *__asan_default_options(void);
const char *__asan_default_options(void)
{
    return "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:handle_abort=1";
}
const char *__ubsan_default_options(void);
const char *__ubsan_default_options(void) { return "print_stacktrace=1:exitcode=99"; }
extern void __sanitizer_set_report_path(const char *) __attribute__((weak));

static void init_common(void)
{
    char *s;
    static char rep[PATH_MAX];
    if (__sanitizer_set_report_path && getenv("SIM_ROOT")) {
        snprintf(rep, sizeof rep, "%s/san/rep", getenv("SIM_ROOT"));
        __sanitizer_set_report_path(rep);
    }
    in_shim++;
    if ((s = getenv("SIM_TRACE")) != NULL) {
        int fd = __real_open(s, O_WRONLY | O_CREAT | O_APPEND, 0666);
        if (fd >= 0) {
            trace_fd = fcntl(fd, F_DUPFD_CLOEXEC, 900);
            __real_close(fd);
        }
    }
    if ((s = getenv("SIM_PASSWD")) != NULL)
        load_accounts(s);
    if ((s = getenv("SIM_START")) != NULL) {
        double d = strtod(s, NULL);
        i64 sec = (i64)d;
        off_real = sec * NS + (i64)((d - sec) * 1e9);
        cli_clock = true;
    }
    if ((s = getenv("SIM_HOST")) != NULL)
        snprintf(fake_hostname, sizeof fake_hostname, "%s", s);
    ticklog = getenv("SIM_TICKLOG") != NULL;
    oplog = getenv("SIM_OPLOG") != NULL;
    if ((s = getenv("SIM_TICK")) != NULL) {
        char b[2048], *p = b, *e;
        snprintf(b, sizeof b, "%s", s);
        while ((e = strsep(&p, ",")) != NULL && nacts < 64)
            if (sscanf(e, "%ld:%15[a-z]=%31s", &acts[nacts].n, acts[nacts].act, acts[nacts].arg) >= 2)
                nacts++;
    }
    active = 1;
    in_shim--;
}

#ifdef SIM_CLI
/* ================================================================ command line tools */
unsigned __wrap_sleep(unsigned s)
{
    if (!active)
        return __real_sleep(s);
    t_begin("sleep");
    t_f(",\"s\":%u", s);
    t_end();
    vmono += (i64)s * NS;
    do_pause("sleep");
    return 0;
}
pid_t __wrap_fork(void)
{
    if (active)
        TICKF("fork", NULL, -1);
    return __real_fork();
}
pid_t __wrap_waitpid(pid_t p, int *st, int o) { return __real_waitpid(p, st, o); }
int __wrap_kill(pid_t p, int sig)
{
    if (!active)
        return __real_kill(p, sig);
    t_begin("kill");
    t_f(",\"pid\":%d,\"sig\":%d,\"euid\":%d,\"ruid\":%d", p, sig, (int)geteuid(), (int)getuid());
    t_end();
    char *d = getenv("SIM_DAEMON");     /* only ever the simulated daemon of this scratch tree */
    if (d && p > 1 && atoi(d) == p && sig != SIGKILL)
        return __real_kill(p, sig);
    return 0;
}
extern int __real_execl(const char *, const char *, ...);
extern int __real_execlp(const char *, const char *, ...);
static int do_exec(const char *fn, const char *f, const char *a0, va_list ap, int path)
{
    char *argv[64];
    int n = 0;
    argv[n++] = (char *)a0;
    while (n < 63 && (argv[n] = va_arg(ap, char *)) != NULL)
        n++;
    argv[n] = NULL;
    if (active) {
        uid_t r, e, s;
        getresuid(&r, &e, &s);
        t_begin("exec");
        t_key("fn");
        t_str(fn);
        t_key("file");
        t_str(f);
        t_f(",\"uid\":[%d,%d,%d]", (int)r, (int)e, (int)s);
        gid_t gr, ge, gs;
        getresgid(&gr, &ge, &gs);
        t_f(",\"gid\":[%d,%d,%d]", (int)gr, (int)ge, (int)gs);
        t_key("argv");
        t_s("[");
        for (int i = 0; i < n; i++) {
            if (i)
                t_s(",");
            t_str(argv[i]);
        }
        t_s("]");
        t_end();
        role = 3;
    }
    return path ? execvp(f, argv) : execv(f, argv);
}
int __wrap_execl(const char *f, const char *a0, ...)
{
    va_list ap;
    va_start(ap, a0);
    int r = do_exec("execl", f, a0, ap, 0);
    va_end(ap);
    return r;
}
int __wrap_execlp(const char *f, const char *a0, ...)
{
    va_list ap;
    va_start(ap, a0);
    int r = do_exec("execlp", f, a0, ap, 1);
    va_end(ap);
    return r;
}
__attribute__((constructor)) static void init_cli(void)
{
    if (getenv("SIM_ROOT") == NULL)
        return;
    init_common();
    if (!cli_clock)
        off_real = (i64)__real_time(NULL) * NS;
}
#else
/* ================================================================ the daemon */
R(int, timerfd_create, int, int);
R(int, timerfd_settime, int, int, const struct itimerspec *, struct itimerspec *);
R(int, getsockopt, int, int, int, void *, socklen_t *);
R(int, accept, int, struct sockaddr *, socklen_t *);
R(int, setpriority, int, id_t, int);
R(int, nice, int);
R(int, initgroups, const char *, gid_t);
R(int, pipe, int *);
R(pid_t, setsid, void);
R(DIR *, opendir, const char *);
R(struct dirent *, readdir, DIR *);
R(int, fchown, int, uid_t, gid_t);
R(int, fchmod, int, mode_t);
R(int, ftruncate, int, off_t);
R(ssize_t, send, int, const void *, size_t, int);
R(ssize_t, recv, int, void *, size_t, int);
R(FILE *, fdopen, int, const char *);
R(int, dup2, int, int);
R(int, getloadavg, double *, int);

struct shared {
    int execd, dur_set;
    double dur;
    int st, sg;
    int jobpid, ctrlpid;
    i64 vmono;
    int exited_early;
};
static struct shared *sh;
static double lavg[3];
static int lavg_ret = 3;
static int bg;                  /* the first fork is the daemonising one */
static int forkfail;
static i64 forkcost = 2000000;
static i64 wakelat = 50000;
static int full;
static int next_pid = 100000;
static int tfd = -1;
static long nselect, select_guard = 2000000;
static i64 guard_t;
static long guard_n;
static int mail_status = 0;
static int sig_ret;           /* an event delivered a signal */
static double default_dur = 0;
static long fds_seen_max;

struct child {
    int told;                   /* its end was signalled */ int pid, jobpid; i64 done; int status; int reaped; double dur; };
static struct child *kids;
static int nkids, ckids;

struct event { i64 t; char *txt; };
static struct event *evs;
static int nevs, evi;

struct client { int cid, fd, uid, gid, read; };
static struct client cls[512];
static int ncls;
static int pend_uid[512], pend_gid[512], pend_cid[512], npend, ppend;
struct accepted { int fd, uid, gid; };
static struct accepted acc[1024];

static void load_scenario(const char *p)
{
    FILE *f = __real_fopen(p, "r");
    char *l = NULL;
    size_t cap = 0;
    ssize_t n;
    int cev = 0;
    while (f && (n = getline(&l, &cap, f)) > 0) {
        if (l[n - 1] == '\n')
            l[n - 1] = 0;
        if (!strncmp(l, "at ", 3)) {
            char *e;
            double t = strtod(l + 3, &e);
            if (nevs == cev) {
                cev = cev ? cev * 2 : 64;
                evs = realloc(evs, cev * sizeof *evs);
            }
            evs[nevs].t = (i64)(t * 1e9 + 0.5);
            while (*e == ' ')
                e++;
            evs[nevs++].txt = strdup(e);
        }
        else if (!strncmp(l, "bg ", 3)) bg = atoi(l + 3);
        else if (!strncmp(l, "full ", 5)) full = atoi(l + 5);
        else if (!strncmp(l, "forkcost ", 9)) forkcost = (i64)(atof(l + 9) * 1e9);
        else if (!strncmp(l, "wakelat ", 8)) wakelat = (i64)(atof(l + 8) * 1e9);
        else if (!strncmp(l, "mailstatus ", 11)) mail_status = atoi(l + 11);
        else if (!strncmp(l, "guard ", 6)) select_guard = atol(l + 6);
        else if (!strncmp(l, "pid ", 4)) next_pid = atoi(l + 4);
        else if (!strncmp(l, "defdur ", 7)) default_dur = atof(l + 7);
        else if (!strncmp(l, "lavg ", 5)) sscanf(l + 5, "%lf %lf %lf", &lavg[0], &lavg[1], &lavg[2]);
    }
    free(l);
    if (f)
        __real_fclose(f);
}

__attribute__((constructor)) static void init_daemon(void)
{
    char *s;
    if (getenv("SIM_ROOT") == NULL)
        return;
    init_common();
    in_shim++;
    sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if ((s = getenv("SIM_SCENARIO")) != NULL)
        load_scenario(s);
    t_begin("start");
    t_f(",\"pid\":%d", (int)__real_getpid());
    t_end();
    in_shim--;
}

int __wrap_clock_gettime(clockid_t c, struct timespec *ts)
{
    if (!active)
        return __real_clock_gettime(c, ts);
    i64 v;
    switch (c) {
    case CLOCK_REALTIME:
    case CLOCK_REALTIME_COARSE:
        v = vmono + off_real;
        break;
    case CLOCK_BOOTTIME:
        v = vmono + 5000 * NS + off_boot;
        break;
    case CLOCK_MONOTONIC:
    case CLOCK_MONOTONIC_COARSE:
    case CLOCK_MONOTONIC_RAW:
        v = vmono + 5000 * NS;
        break;
    default:
        return __real_clock_gettime(c, ts);
    }
    ts->tv_sec = v / NS;
    ts->tv_nsec = v % NS;
    return 0;
}
int __wrap_timerfd_create(int c, int fl)
{
    if (!active)
        return __real_timerfd_create(c, fl);
    tfd = eventfd(0, EFD_NONBLOCK | ((fl & TFD_CLOEXEC) ? EFD_CLOEXEC : 0));
    return tfd;
}
int __wrap_timerfd_settime(int fd, int fl, const struct itimerspec *n, struct itimerspec *o)
{
    return active ? 0 : __real_timerfd_settime(fd, fl, n, o);
}
int __wrap_getloadavg(double *d, int n)
{
    if (!active)
        return __real_getloadavg(d, n);
    if (lavg_ret < 0)
        return -1;
    for (int i = 0; i < n && i < 3; i++)
        d[i] = lavg[i];
    return n < 3 ? n : 3;
}
int __wrap_setpriority(int which, id_t who, int v)
{
    if (!active)
        return __real_setpriority(which, who, v);
    int known = 0;
    for (int i = 0; i < nkids; i++)
        if (!kids[i].reaped && kids[i].jobpid == (int)who && kids[i].done > vmono)
            known = 1;
    t_begin("renice");
    t_f(",\"which\":%d,\"pid\":%d,\"val\":%d,\"known\":%d", which, (int)who, v, known);
    t_end();
    if (!known) {
        errno = ESRCH;
        return -1;
    }
    return 0;
}
static int niceval;
int __wrap_nice(int n)
{
    if (!active)
        return __real_nice(n);
    TICKC("nice", -1);
    niceval += n;
    errno = 0;
    return niceval;
}
int __wrap_kill(pid_t p, int sig)
{
    int known = 0;
    if (!active)
        return __real_kill(p, sig);
    for (int i = 0; i < nkids; i++)
        if (!kids[i].reaped && kids[i].jobpid == p && kids[i].done > vmono) {
            known = 1;
            if (sig == SIGKILL || sig == SIGTERM || sig == SIGINT || sig == SIGHUP)
                kids[i].done = vmono;
        }
    t_begin("kill");
    t_f(",\"pid\":%d,\"sig\":%d,\"known\":%d", p, sig, known);
    t_end();
    if (!known) {
        errno = ESRCH;
        return -1;
    }
    for (int i = 0; i < nkids; i++)
        if (!kids[i].reaped && kids[i].jobpid == p && kids[i].done == vmono) {
            kids[i].told = 1;
            raise(SIGCHLD);
        }
    return 0;
}
int __wrap_killpg(pid_t p, int sig) { return __wrap_kill(-p, sig); }
int __wrap_initgroups(const char *n, gid_t g)
{
    if (!active)
        return __real_initgroups(n, g);
    TICKC("initgroups", -1);
    gid_t l[16];
    int c = 0;
    l[c++] = g;
    for (int i = 0; i < naccts; i++)
        if (!strcmp(accts[i].name, n))
            for (int k = 0; k < accts[i].ngroups; k++)
                l[c++] = accts[i].groups[k];
    return setgroups(c, l);
}
unsigned __wrap_sleep(unsigned s)
{
    if (!active)
        return __real_sleep(s);
    vmono += (i64)s * NS;
    return 0;
}
extern int __real_usleep(useconds_t);
int __wrap_usleep(useconds_t u)
{
    vmono += (i64)u * 1000;
    return 0;
}
extern int __real_nanosleep(const struct timespec *, struct timespec *);
int __wrap_nanosleep(const struct timespec *a, struct timespec *b)
{
    vmono += (i64)a->tv_sec * NS + a->tv_nsec;
    return 0;
}
pid_t __wrap_setsid(void)
{
    if (active && role == 0)
        return __real_getpid();
    TICKC("setsid", -1);
    return __real_setsid();
}

/* ---------------------------------------------------------------- processes */
static void status_from(int *st)
{
    if (sh->sg)
        *st = sh->sg & 0x7f;
    else
        *st = (sh->st & 0xff) << 8;
}
/* the process which only starts the daemon in the background has another pid */
pid_t __wrap_getpid(void)
{
    return active && role == 0 && bg ? 99 : __real_getpid();
}
pid_t __wrap_fork(void)
{
    if (!active)
        return __real_fork();
    if (role == 0) {
        if (bg) {
            bg = 0;
            return 0;
        }
        TICKF("fork", NULL, -1);
        if (forkfail > 0) {
            forkfail--;
            t_simple("forkfail", NULL, NULL);
            errno = EAGAIN;
            return -1;
        }
        vmono += forkcost;
        sh->execd = 0;
        sh->dur = default_dur;
        sh->st = sh->sg = 0;
        sh->ctrlpid = next_pid++;
        sh->jobpid = next_pid++;
        pid_t p = __real_fork();
        if (p == 0) {
            role = 1;
            alarm(60);
            return 0;
        }
        if (p < 0)
            return p;
        int st = 0;
        sigset_t all, old;
        sigfillset(&all);
        sigprocmask(SIG_BLOCK, &all, &old);
        while (__real_waitpid(p, &st, 0) < 0 && errno == EINTR) ;
        /* the real child's SIGCHLD is ours: the simulated one comes when the job ends */
        struct timespec z = { 0, 0 };
        sigset_t chld;
        sigemptyset(&chld);
        sigaddset(&chld, SIGCHLD);
        while (sigtimedwait(&chld, NULL, &z) > 0) ;
        sigprocmask(SIG_SETMASK, &old, NULL);
        if (nkids == ckids) {
            ckids = ckids ? ckids * 2 : 32;
            kids = realloc(kids, ckids * sizeof *kids);
        }
        struct child *k = &kids[nkids++];
        k->pid = sh->ctrlpid;
        k->jobpid = sh->jobpid;
        k->status = st;
        k->reaped = 0;
        k->told = sh->execd && sh->dur > 0 ? 0 : 1;
        k->dur = sh->execd ? sh->dur : 0;
        k->done = vmono + (i64)(k->dur * 1e9);
        t_begin("forked");
        t_f(",\"ctrl\":%d,\"job\":%d,\"status\":%d,\"execd\":%d,\"dur\":%f", k->pid, k->jobpid, st, sh->execd, k->dur);
        t_end();
        if (k->dur <= 0)
            raise(SIGCHLD);
        errno = 0;
        return k->pid;
    }
    if (role == 1) {
        TICKC("fork", -1);
        pid_t p = __real_fork();
        if (p == 0) {
            role = 2;
            alarm(60);
            return 0;
        }
        return sh->jobpid;
    }
    return __real_fork();
}
pid_t __wrap_vfork(void) { return __wrap_fork(); }

static i64 next_done(int want, int *idx)
{
    i64 best = INT64_MAX;
    *idx = -1;
    for (int i = 0; i < nkids; i++)
        if (!kids[i].reaped && (want <= 0 || kids[i].pid == want) && kids[i].done < best) {
            best = kids[i].done;
            *idx = i;
        }
    return best;
}
static void compact_kids(void)
{
    int j = 0;
    if (nkids < 256)
        return;
    for (int i = 0; i < nkids; i++)
        if (!kids[i].reaped)
            kids[j++] = kids[i];
    nkids = j;
}
static void apply_event(const char *e);
pid_t __wrap_waitpid(pid_t want, int *st, int opt)
{
    if (!active)
        return __real_waitpid(want, st, opt);
    if (role == 1 && getenv("SIM_CTRLPAUSE"))
        do_pause("ctrl");
    if (role == 0) {
        int idx;
        tick("waitpid", NULL);
        i64 d = next_done(want, &idx);
        if (idx < 0) {
            errno = ECHILD;
            return -1;
        }
        if (d > vmono) {
            if (opt & WNOHANG)
                return 0;
            while (evi < nevs && evs[evi].t <= d) {
                if (evs[evi].t > vmono)
                    vmono = evs[evi].t;
                apply_event(evs[evi++].txt);
                d = next_done(want, &idx);
                if (d <= vmono)
                    break;
            }
            if (d > vmono)
                vmono = d;
        }
        kids[idx].reaped = 1;
        if (st)
            *st = kids[idx].status;
        t_begin("reap");
        t_f(",\"ctrl\":%d,\"job\":%d,\"status\":%d,\"opt\":%d", kids[idx].pid, kids[idx].jobpid, kids[idx].status, opt);
        t_end();
        int p = kids[idx].pid;
        compact_kids();
        return p;
    }
    if (role == 1) {
        static int done = 0;
        if (done) {
            errno = ECHILD;
            return -1;
        }
        int s = 0;
        pid_t p;
        while ((p = __real_waitpid(-1, &s, 0)) < 0 && errno == EINTR) ;
        if (p < 0)
            return -1;
        done = 1;
        if (sh->execd)
            status_from(&s);
        if (st)
            *st = s;
        return sh->jobpid;
    }
    return __real_waitpid(want, st, opt);
}
pid_t __wrap_wait(int *st) { return __wrap_waitpid(-1, st, 0); }
pid_t __wrap_wait4(pid_t p, int *st, int o, struct rusage *r) { return __wrap_waitpid(p, st, o); }
pid_t __wrap_wait3(int *st, int o, struct rusage *r) { return __wrap_waitpid(-1, st, o); }
extern int __real_pipe2(int *, int);
int __wrap_pipe(int *p)
{
    TICKC("pipe", -1);
    TICKF("pipe", NULL, -1);
    return __real_pipe(p);
}
int __wrap_pipe2(int *p, int f)
{
    TICKF("pipe", NULL, -1);
    return __real_pipe2(p, f);
}

static void t_list(const char *k, char *const *v)
{
    t_key(k);
    t_s("[");
    for (int i = 0; v && v[i]; i++) {
        if (i)
            t_s(",");
        t_str(v[i]);
    }
    t_s("]");
}
static void t_identity(void)
{
    uid_t r, e, s;
    gid_t gr, ge, gs, l[64];
    char cwd[PATH_MAX];
    getresuid(&r, &e, &s);
    getresgid(&gr, &ge, &gs);
    t_f(",\"uid\":[%d,%d,%d],\"gid\":[%d,%d,%d],\"groups\":[", (int)r, (int)e, (int)s, (int)gr, (int)ge, (int)gs);
    int n = getgroups(64, l);
    for (int i = 0; i < n; i++)
        t_f("%s%d", i ? "," : "", (int)l[i]);
    t_s("]");
    t_key("cwd");
    t_str(getcwd(cwd, sizeof cwd));
}
static void t_process(void)
{
    mode_t m = umask(0);
    umask(m);
    t_f(",\"umask\":%d,\"nice\":%d,\"sidleader\":%d", (int)m, niceval, getsid(0) == __real_getpid());
    t_key("fds");
    t_s("[");
    int first = 1;
    for (int fd = 0; fd < 1024; fd++) {
        int fl = fcntl(fd, F_GETFD);
        if (fl < 0 || fd == trace_fd)
            continue;
        char p[PATH_MAX];
        fd_path(fd, p, sizeof p);
        t_f("%s[%d,%d,", first ? "" : ",", fd, (fl & FD_CLOEXEC) ? 1 : 0);
        t_str(p);
        t_f(",%d]", fcntl(fd, F_GETFL) & O_ACCMODE);
        first = 0;
    }
    t_s("],\"sigs\":[");
    first = 1;
    for (int s = 1; s < 32; s++) {
        struct sigaction sa;
        if (sigaction(s, NULL, &sa) == 0 && sa.sa_handler == SIG_IGN) {
            t_f("%s%d", first ? "" : ",", s);
            first = 0;
        }
    }
    sigset_t bl;
    sigprocmask(SIG_BLOCK, NULL, &bl);
    t_s("],\"blocked\":[");
    first = 1;
    for (int s = 1; s < 32; s++)
        if (sigismember(&bl, s)) {
            t_f("%s%d", first ? "" : ",", s);
            first = 0;
        }
    t_s("]");
}
static const char *tok(const char *cmd, const char *k)
{
    const char *p = cmd;
    size_t n = strlen(k);
    while ((p = strstr(p, k)) != NULL) {
        if ((p == cmd || p[-1] == ' ' || p[-1] == ';') && p[n] == '=')
            return p + n + 1;
        p += n;
    }
    return NULL;
}
static void emit_bytes(int fd, const char *hex)
{
    unsigned v;
    char b[4096];
    int n = 0;
    while (sscanf(hex, "%2x", &v) == 1 && isxdigit((unsigned char)hex[0]) && isxdigit((unsigned char)hex[1])) {
        b[n++] = v;
        hex += 2;
        if (n == sizeof b) {
            __real_write(fd, b, n);
            n = 0;
        }
    }
    if (n)
        __real_write(fd, b, n);
}
static int do_exec(const char *path, char *const *argv, char *const *envp)
{
    if (access(path, X_OK) != 0) {
        int e = errno;
        t_begin("execfail");
        t_f(",\"role\":%d,\"errno\":%d", role, e);
        t_key("path");
        t_str(path);
        t_list("argv", argv);
        t_end();
        errno = e;
        return -1;
    }
    if (role == 1) {            /* the mailer */
        t_begin("mail");
        t_f(",\"job\":%d", sh->jobpid);
        t_key("path");
        t_str(path);
        t_list("argv", argv);
        t_list("env", envp);
        t_identity();
        if (full)
            t_process();
        static char mb[1 << 20];
        size_t n = 0;
        ssize_t r;
        off_t pos = lseek(0, 0, SEEK_CUR);
        while (n < sizeof mb && (r = __real_read(0, mb + n, sizeof mb - n)) > 0)
            n += r;
        t_f(",\"pos\":%ld", (long)pos);
        t_key("stdin");
        t_strn(mb, n);
        t_end();
        _exit(mail_status);
    }
    const char *cmd = (argv[0] && argv[1] && argv[2]) ? argv[2] : "";
    const char *v;
    t_begin(role == 2 ? "exec" : "badexec");
    t_f(",\"job\":%d,\"ctrl\":%d,\"role\":%d", sh->jobpid, sh->ctrlpid, role);
    t_key("path");
    t_str(path);
    t_list("argv", argv);
    t_identity();
    if (full) {
        t_list("env", envp);
        t_process();
    }
    t_end();
    sh->execd = 1;
    if ((v = tok(cmd, "dur")) != NULL)
        sh->dur = atof(v);
    if ((v = tok(cmd, "st")) != NULL)
        sh->st = atoi(v);
    if ((v = tok(cmd, "sg")) != NULL)
        sh->sg = atoi(v);
    if ((v = tok(cmd, "out")) != NULL)
        emit_bytes(1, v);
    if ((v = tok(cmd, "err")) != NULL)
        emit_bytes(2, v);
    if ((v = tok(cmd, "big")) != NULL) {
        long n = atol(v);
        char line[64];
        memset(line, 'z', sizeof line);
        line[63] = '\n';
        for (long i = 0; i < n; i += 64)
            __real_write(1, line, 64);
    }
    _exit(0);
}
static int collect(const char *a0, va_list ap, char **argv, int max)
{
    int n = 0;
    argv[n++] = (char *)a0;
    while (n < max - 1 && (argv[n] = va_arg(ap, char *)) != NULL)
        n++;
    argv[n] = NULL;
    return n;
}
int __wrap_execle(const char *p, const char *a0, ...)
{
    char *argv[64];
    va_list ap;
    va_start(ap, a0);
    collect(a0, ap, argv, 64);
    char **envp = va_arg(ap, char **);
    va_end(ap);
    if (!active)
        return execve(p, argv, envp);
    return do_exec(p, argv, envp);
}
extern char **environ;
int __wrap_execl(const char *p, const char *a0, ...)
{
    char *argv[64];
    va_list ap;
    va_start(ap, a0);
    collect(a0, ap, argv, 64);
    va_end(ap);
    return do_exec(p, argv, environ);
}
int __wrap_execlp(const char *p, const char *a0, ...)
{
    char *argv[64];
    va_list ap;
    va_start(ap, a0);
    collect(a0, ap, argv, 64);
    va_end(ap);
    return do_exec(p, argv, environ);
}
int __wrap_execve(const char *p, char *const *a, char *const *e) { return do_exec(p, a, e); }
int __wrap_execv(const char *p, char *const *a) { return do_exec(p, a, environ); }
int __wrap_execvp(const char *p, char *const *a) { return do_exec(p, a, environ); }

/* ---------------------------------------------------------------- fcrondyn clients */
int __wrap_accept(int s, struct sockaddr *a, socklen_t *l)
{
    TICKF("accept", NULL, -1);
    int fd = __real_accept(s, a, l);
    if (active && fd >= 0 && fd < 1024) {
        acc[fd].fd = fd;
        if (ppend < npend) {
            acc[fd].uid = pend_uid[ppend];
            acc[fd].gid = pend_gid[ppend];
            t_begin("accepted");
            t_f(",\"cid\":%d,\"fd\":%d", pend_cid[ppend], fd);
            t_end();
            ppend++;
        }
    }
    return fd;
}
int __wrap_accept4(int s, struct sockaddr *a, socklen_t *l, int fl)
{
    int fd = __wrap_accept(s, a, l);
    if (fd >= 0 && (fl & SOCK_CLOEXEC))
        fcntl(fd, F_SETFD, FD_CLOEXEC);
    if (fd >= 0 && (fl & SOCK_NONBLOCK))
        fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK);
    return fd;
}
int __wrap_getsockopt(int fd, int lvl, int opt, void *v, socklen_t *l)
{
    if (active && lvl == SOL_SOCKET && opt == SO_PEERCRED && fd >= 0 && fd < 1024) {
        struct ucred c = { .pid = 4242, .uid = acc[fd].uid, .gid = acc[fd].gid };
        if (acc[fd].uid == -2) {
            errno = ENOPROTOOPT;
            return -1;
        }
        memcpy(v, &c, *l < sizeof c ? *l : sizeof c);
        return 0;
    }
    return __real_getsockopt(fd, lvl, opt, v, l);
}
ssize_t __wrap_send(int fd, const void *b, size_t n, int fl)
{
    if (active && role == 0 && !in_shim) {
        int e = tick("send", NULL);
        if (e > 0) {
            errno = e;
            return -1;
        }
        int f = fcntl(fd, F_GETFL);
        if (f >= 0 && !(f & O_NONBLOCK) && !(fl & MSG_DONTWAIT)) {
            struct pollfd p = { fd, POLLOUT, 0 };
            if (poll(&p, 1, 0) == 0) {
                t_simple("blocked", "in", "send");
                _exit(98);
            }
        }
    }
    return __real_send(fd, b, n, fl);
}
ssize_t __wrap_recv(int fd, void *b, size_t n, int fl)
{
    if (active && role == 0 && !in_shim) {
        int f = fcntl(fd, F_GETFL);
        if (f >= 0 && !(f & O_NONBLOCK) && !(fl & MSG_DONTWAIT)) {
            struct pollfd p = { fd, POLLIN, 0 };
            if (poll(&p, 1, 0) == 0) {
                t_simple("blocked", "in", "recv");
                _exit(98);
            }
        }
        int e = tick("recv", NULL);
        if (e > 0) {
            errno = e;
            return -1;
        }
    }
    return __real_recv(fd, b, n, fl);
}
static struct client *cl_find(int cid)
{
    for (int i = 0; i < ncls; i++)
        if (cls[i].cid == cid)
            return &cls[i];
    return NULL;
}
static void drain(void)
{
    static char b[65536];
    for (int i = 0; i < ncls; i++) {
        if (cls[i].fd < 0 || !cls[i].read)
            continue;
        for (;;) {
            ssize_t n = __real_recv(cls[i].fd, b, sizeof b, MSG_DONTWAIT);
            if (n > 0) {
                t_begin("rsp");
                t_f(",\"cid\":%d", cls[i].cid);
                t_key("data");
                t_strn(b, n);
                t_end();
            }
            else if (n == 0 || (n < 0 && errno != EAGAIN && errno != EINTR)) {
                t_begin("eof");
                t_f(",\"cid\":%d", cls[i].cid);
                t_end();
                __real_close(cls[i].fd);
                cls[i].fd = -1;
                break;
            }
            else
                break;
        }
    }
}

/* ---------------------------------------------------------------- events */
static int count_fds(void)
{
    int n = 0;
    for (int fd = 0; fd < 900; fd++)
        if (fcntl(fd, F_GETFD) >= 0)
            n++;
    for (int i = 0; i < ncls; i++)
        if (cls[i].fd >= 0 && cls[i].fd < 900)
            n--;
    return n;
}
extern size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
static size_t heap_bytes(void)
{
    if (__sanitizer_get_current_allocated_bytes)
        return __sanitizer_get_current_allocated_bytes();
    struct mallinfo2 m = mallinfo2();
    return m.uordblks + m.hblkhd;
}
static void copy_file(const char *a, const char *b)
{
    char tmp[PATH_MAX + 8], buf[65536];
    struct stat st;
    int i = __real_open(a, O_RDONLY);
    if (i < 0)
        return;
    fstat(i, &st);
    snprintf(tmp, sizeof tmp, "%s.simtmp", b);
    /* outside the spool, so that the daemon never sees it */
    snprintf(tmp, sizeof tmp, "../simtmp.%d", (int)__real_getpid());
    int o = __real_open(tmp, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    ssize_t n;
    while ((n = __real_read(i, buf, sizeof buf)) > 0)
        __real_write(o, buf, n);
    __real_fchown(o, st.st_uid, st.st_gid);
    __real_fchmod(o, st.st_mode & 07777);
    __real_close(i);
    __real_close(o);
    __real_rename(tmp, b);
}
extern char **environ;
static void run_sh(const char *cmd)
{
    char now[64], dm[64];
    snprintf(now, sizeof now, "%lld.%09lld", (vmono + off_real) / NS, (vmono + off_real) % NS);
    snprintf(dm, sizeof dm, "%d", (int)__real_getpid());
    setenv("SIM_START", now, 1);
    setenv("SIM_DAEMON", dm, 1);
    unsetenv("SIM_TICK");
    char *argv[] = { "sh", "-c", (char *)cmd, NULL };
    pid_t p;
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_addopen(&fa, 1, "../sh.out", O_WRONLY | O_CREAT | O_APPEND, 0666);
    posix_spawn_file_actions_adddup2(&fa, 1, 2);
    int st = -1;
    /* SIGCHLD blocked: this child is not the daemon's */
    sigset_t chld, old;
    sigemptyset(&chld);
    sigaddset(&chld, SIGCHLD);
    sigprocmask(SIG_BLOCK, &chld, &old);
    posix_spawnattr_t at;
    posix_spawnattr_init(&at);
    sigset_t none;
    sigemptyset(&none);
    posix_spawnattr_setsigmask(&at, &none);
    sigfillset(&none);
    posix_spawnattr_setsigdefault(&at, &none);
    posix_spawnattr_setflags(&at, POSIX_SPAWN_SETSIGMASK | POSIX_SPAWN_SETSIGDEF);
    if (posix_spawn(&p, "/bin/sh", &fa, &at, argv, environ) == 0)
        while (__real_waitpid(p, &st, 0) < 0 && errno == EINTR) ;
    struct timespec z = { 0, 0 };
    while (sigtimedwait(&chld, NULL, &z) > 0) ;
    sigprocmask(SIG_SETMASK, &old, NULL);
    posix_spawn_file_actions_destroy(&fa);
    posix_spawnattr_destroy(&at);
    t_begin("sh");
    t_f(",\"status\":%d", st);
    t_key("cmd");
    t_str(cmd);
    t_end();
}
static int hexval(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static void apply_event(const char *e)
{
    char a[PATH_MAX], b[PATH_MAX];
    double x, y, z;
    int i, u, g;
    in_shim++;
    if (!strncmp(e, "sig ", 4)) {
        t_simple("sig", "sig", e + 4);
        raise(sig_of(e + 4));
        sig_ret = 1;
    }
    else if (sscanf(e, "cp %4095s %4095s", a, b) == 2) {
        copy_file(a, b);
        t_simple("cp", "to", b);
    }
    else if (sscanf(e, "mv %4095s %4095s", a, b) == 2) {
        __real_rename(a, b);
        t_simple("mv", "to", b);
    }
    else if (sscanf(e, "rm %4095s", a) == 1) {
        __real_unlink(a);
        t_simple("rm", "path", a);
    }
    else if (sscanf(e, "touch %4095s", a) == 1) {
        __real_close(__real_open(a, O_CREAT | O_WRONLY, 0600));
        t_simple("touch", "path", a);
    }
    else if (!strncmp(e, "sh ", 3)) {
        run_sh(e + 3);
        sig_ret = 1;
    }
    else if (sscanf(e, "lavg %lf %lf %lf", &x, &y, &z) == 3) {
        lavg[0] = x;
        lavg[1] = y;
        lavg[2] = z;
        lavg_ret = 3;
        t_begin("lavg");
        t_f(",\"v\":[%f,%f,%f]", x, y, z);
        t_end();
    }
    else if (!strcmp(e, "lavgfail"))
        lavg_ret = -1;
    else if (sscanf(e, "jump %lf", &x) == 1) {
        off_real += (i64)(x * 1e9);
        t_simple("jump", NULL, NULL);
        if (tfd >= 0)
            eventfd_write(tfd, 1);
    }
    else if (a[0] = 0, sscanf(e, "suspend %lf %d %15s", &x, &i, a) >= 2) {
        off_real += (i64)(x * 1e9);
        off_boot += (i64)(x * 1e9);
        t_begin("suspend");
        t_f(",\"d\":%f,\"notify\":%d", x, i);
        t_end();
        if (i && tfd >= 0)
            eventfd_write(tfd, 1);
        if (a[0]) {             /* a signal at the same time */
            t_simple("sig", "sig", a);
            raise(sig_of(a));
            sig_ret = 1;
        }
    }
    else if (!strncmp(e, "childfail ", 10))
        snprintf(childfail, sizeof childfail, "%s", e + 10);
    else if (sscanf(e, "forkfail %d", &i) == 1)
        forkfail = i;
    else if (sscanf(e, "forkcost %lf", &x) == 1)
        forkcost = (i64)(x * 1e9);
    else if (sscanf(e, "nofile %d", &i) == 1) {
        struct rlimit rl;
        getrlimit(RLIMIT_NOFILE, &rl);
        rl.rlim_cur = i;
        setrlimit(RLIMIT_NOFILE, &rl);
    }
    else if (sscanf(e, "conn %d %d %d", &i, &u, &g) == 3) {
        struct sockaddr_un sa = { .sun_family = AF_UNIX };
        strcpy(sa.sun_path, "../run/fifo");
        int fd = socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
        int nf = fcntl(fd, F_DUPFD_CLOEXEC, 901);
        __real_close(fd);
        int r = connect(nf, (void *)&sa, sizeof sa);
        t_begin("conn");
        t_f(",\"cid\":%d,\"uid\":%d,\"ret\":%d,\"errno\":%d", i, u, r, r ? errno : 0);
        t_end();
        if (r == 0) {
            cls[ncls++] = (struct client) { i, nf, u, g, 1 };
            pend_uid[npend] = u;
            pend_gid[npend] = g;
            pend_cid[npend++] = i;
        }
        else
            __real_close(nf);
    }
    else if (sscanf(e, "noread %d", &i) == 1) {
        struct client *c = cl_find(i);
        if (c)
            c->read = 0;
    }
    else if (sscanf(e, "doread %d", &i) == 1) {
        struct client *c = cl_find(i);
        if (c)
            c->read = 1;
        drain();
    }
    else if (!strncmp(e, "send ", 5)) {
        char *q;
        i = strtol(e + 5, &q, 10);
        struct client *c = cl_find(i);
        while (*q == ' ')
            q++;
        size_t n = strlen(q) / 2;
        unsigned char *d = malloc(n + 1);
        for (size_t k = 0; k < n; k++)
            d[k] = hexval(q[2 * k]) << 4 | hexval(q[2 * k + 1]);
        ssize_t r = -1;
        if (c && c->fd >= 0)
            r = __real_send(c->fd, d, n, MSG_DONTWAIT | MSG_NOSIGNAL);
        t_begin("send");
        t_f(",\"cid\":%d,\"n\":%zd", i, r);
        t_end();
        free(d);
    }
    else if (sscanf(e, "close %d", &i) == 1) {
        struct client *c = cl_find(i);
        if (c && c->fd >= 0) {
            __real_close(c->fd);
            c->fd = -1;
        }
        t_begin("cclose");
        t_f(",\"cid\":%d", i);
        t_end();
    }
    else if (!strncmp(e, "mark ", 5))
        t_simple("mark", "m", e + 5);
    else if (!strcmp(e, "probe")) {
        int alive = 0;
        for (i = 0; i < nkids; i++)
            alive += !kids[i].reaped;
        t_begin("probe");
        t_f(",\"fds\":%d,\"heap\":%zu,\"kids\":%d,\"nselect\":%ld,\"ticks\":%ld", count_fds(), heap_bytes(), alive, nselect, ticks);
        t_end();
    }
    else if (!strncmp(e, "tickact ", 8)) {      /* relative to now */
        struct tickact *q = &acts[nacts];
        if (nacts < 64 && sscanf(e + 8, "%ld:%15[a-z]=%31s", &q->n, q->act, q->arg) >= 2) {
            q->n += ticks;
            nacts++;
        }
    }
    else if (!strcmp(e, "ticklog 1"))
        ticklog = 1;
    else if (!strcmp(e, "ticklog 0"))
        ticklog = 0;
    else if (!strcmp(e, "full 1"))
        full = 1;
    else if (!strcmp(e, "crash") || !strcmp(e, "end")) {
        drain();
        t_simple("end", "how", e);
        _exit(!strcmp(e, "end") ? 0 : 137);
    }
    else {
        t_simple("badevent", "txt", e);
        _exit(97);
    }
    in_shim--;
}

static int sim_select(int n, fd_set *r, fd_set *w, struct timeval *tv)
{
    i64 deadline = tv ? vmono + (i64)tv->tv_sec * NS + (i64)tv->tv_usec * 1000 : INT64_MAX;
    if (tv && (tv->tv_sec < 0 || tv->tv_usec < 0 || tv->tv_usec > 999999)) {
        t_begin("badtimeout");
        t_f(",\"sec\":%ld,\"usec\":%ld", (long)tv->tv_sec, (long)tv->tv_usec);
        t_end();
        errno = EINVAL;
        return -1;
    }
    nselect++;
    if (vmono - guard_t > 10 * NS) {
        guard_t = vmono;
        guard_n = 0;
    }
    if (++guard_n > 60000 || nselect > select_guard) {
        t_simple("livelock", NULL, NULL);
        _exit(96);
    }
    in_shim++;
    drain();
    sig_ret = 0;
    for (;;) {
        if ((r || w) && n > 0) {
            fd_set c, d;
            if (r)
                c = *r;
            if (w)
                d = *w;
            struct timeval z = { 0, 0 };
            int k = __real_select(n, r ? &c : NULL, w ? &d : NULL, NULL, &z);
            if (k != 0) {
                if (k > 0 && r)
                    *r = c;
                if (k > 0 && w)
                    *w = d;
                in_shim--;
                return k;
            }
        }
        int idx;
        i64 done = INT64_MAX;
        for (int i = 0; i < nkids; i++)
            if (!kids[i].reaped && !kids[i].told && kids[i].done < done)
                done = kids[i].done;
        if (done < vmono)       /* it ended while the daemon was busy */
            done = vmono;
        (void)idx;
        i64 ev = evi < nevs ? evs[evi].t : INT64_MAX;
        if (done <= ev && done <= deadline && done != INT64_MAX) {
            vmono = done;
            for (int i = 0; i < nkids; i++)
                if (kids[i].done <= vmono)
                    kids[i].told = 1;
            t_simple("chld", NULL, NULL);
            raise(SIGCHLD);
            in_shim--;
            errno = EINTR;
            return -1;
        }
        if (ev <= deadline && ev != INT64_MAX) {
            if (ev > vmono)
                vmono = ev;
            int before = nkids;
            (void)before;
            apply_event(evs[evi++].txt);
            if (sig_ret) {
                in_shim--;
                errno = EINTR;
                return -1;
            }
            continue;
        }
        if (deadline == INT64_MAX || evi >= nevs) {
            /* nothing more will ever happen in this scenario */
            t_simple("end", "how", "exhausted");
            _exit(0);
        }
        vmono = deadline + wakelat;
        if (r)
            FD_ZERO(r);
        if (w)
            FD_ZERO(w);
        if (tv)
            tv->tv_sec = tv->tv_usec = 0;
        in_shim--;
        return 0;
    }
}
/* sleep with signal mask m, atomically as the kernel does: a signal which is pending and not in m
 * ends the call at once */
static int masked_select(int n, fd_set *r, fd_set *w, struct timeval *tv, const sigset_t *m)
{
    sigset_t old, pend;
    int hit = 0, k, e;
    tick("select", "");
    if (!m)
        return sim_select(n, r, w, tv);
    sigpending(&pend);
    for (int i = 1; i < 32; i++)
        if (sigismember(&pend, i) == 1 && sigismember(m, i) == 0)
            hit = 1;
    sigprocmask(SIG_SETMASK, m, &old);
    if (hit) {
        errno = EINTR;
        k = -1;
    }
    else
        k = sim_select(n, r, w, tv);
    e = errno;
    sigprocmask(SIG_SETMASK, &old, NULL);
    errno = e;
    return k;
}
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv)
{
    if (!active || role != 0)
        return __real_select(n, r, w, x, tv);
    return masked_select(n, r, w, tv, NULL);
}
static int sim_poll(struct pollfd *p, nfds_t n, int to, const sigset_t *m);
int __wrap_poll(struct pollfd *p, nfds_t n, int to)
{
    extern int __real_poll(struct pollfd *, nfds_t, int);
    if (!active || role != 0 || in_shim)
        return __real_poll(p, n, to);
    return sim_poll(p, n, to, NULL);
}
static int sim_poll(struct pollfd *p, nfds_t n, int to, const sigset_t *m)
{
    fd_set r, w;
    FD_ZERO(&r);
    FD_ZERO(&w);
    int mx = -1;
    for (nfds_t i = 0; i < n; i++)
        if (p[i].fd >= 0) {
            if (p[i].events & (POLLIN | POLLPRI) || !(p[i].events & POLLOUT))
                FD_SET(p[i].fd, &r);
            if (p[i].events & POLLOUT)
                FD_SET(p[i].fd, &w);
            if (p[i].fd > mx)
                mx = p[i].fd;
        }
    struct timeval tv = { to / 1000, (to % 1000) * 1000 };
    int k = masked_select(mx + 1, &r, &w, to < 0 ? NULL : &tv, m);
    for (nfds_t i = 0; i < n; i++)
        p[i].revents = k <= 0 || p[i].fd < 0 ? 0 : (FD_ISSET(p[i].fd, &r) ? POLLIN : 0) | (FD_ISSET(p[i].fd, &w) ? POLLOUT : 0);
    return k;
}
extern int __real_ppoll(struct pollfd *, nfds_t, const struct timespec *, const sigset_t *);
extern int __real_pselect(int, fd_set *, fd_set *, fd_set *, const struct timespec *, const sigset_t *);
int __wrap_ppoll(struct pollfd *p, nfds_t n, const struct timespec *ts, const sigset_t *m)
{
    if (!active || role != 0 || in_shim)
        return __real_ppoll(p, n, ts, m);
    return sim_poll(p, n, ts ? ts->tv_sec * 1000 + ts->tv_nsec / 1000000 : -1, m);
}
int __wrap_pselect(int n, fd_set *r, fd_set *w, fd_set *x, const struct timespec *ts, const sigset_t *m)
{
    struct timeval tv;
    if (!active || role != 0 || in_shim)
        return __real_pselect(n, r, w, x, ts, m);
    if (ts) {
        tv.tv_sec = ts->tv_sec;
        tv.tv_usec = ts->tv_nsec / 1000;
    }
    return masked_select(n, r, w, ts ? &tv : NULL, m);
}

/* ---------------------------------------------------------------- more tick points */
DIR *__wrap_opendir(const char *p)
{
    TICKF("opendir", p, NULL);
    return __real_opendir(p);
}
struct dirent *__wrap_readdir(DIR *d)
{
    tick("readdir", NULL);
    return __real_readdir(d);
}
int __wrap_fchown(int fd, uid_t u, gid_t g)
{
    TICKF("fchown", fdw(fd), -1);
    return __real_fchown(fd, u, g);
}
int __wrap_fchmod(int fd, mode_t m)
{
    TICKF("fchmod", fdw(fd), -1);
    return __real_fchmod(fd, m);
}
int __wrap_ftruncate(int fd, off_t o)
{
    TICKF("ftruncate", fdw(fd), -1);
    return __real_ftruncate(fd, o);
}
FILE *__wrap_fdopen(int fd, const char *m)
{
    TICKF("fdopen", fdw(fd), NULL);
    return __real_fdopen(fd, m);
}
int __wrap_dup2(int a, int b) { TICKC("dup2", -1); return __real_dup2(a, b); }
R(int, setuid, uid_t);
int __wrap_setuid(uid_t u) { TICKC("setuid", -1); return __real_setuid(u); }
R(int, setgid, gid_t);
int __wrap_setgid(gid_t g) { TICKC("setgid", -1); return __real_setgid(g); }
R(int, chdir, const char *);
int __wrap_chdir(const char *p) { TICKC("chdir", -1); return __real_chdir(p); }
int __wrap_openat(int d, const char *p, int fl, ...)
{
    extern int __real_openat(int, const char *, int, ...);
    va_list ap;
    va_start(ap, fl);
    mode_t m = va_arg(ap, mode_t);
    va_end(ap);
    TICKF("open", p, -1);
    return __real_openat(d, p, fl, m);
}
#endif

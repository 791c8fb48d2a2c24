/* Drives the containers of the real code through random operations, against plain arrays.
 * lists KIND SEED OPS -> lines "BAD key text", then "SAW {json}" */
#include "fcron.h"
#include "u_list.h"
#include "exe_list.h"
#include "lavg_list.h"
#include "env_list.h"
#include <stdint.h>

#define MAXN 700
static uint64_t rs;
static uint64_t rnd(void)
{
    rs ^= rs << 13;
    rs ^= rs >> 7;
    rs ^= rs << 17;
    return rs * 2685821657736338717ULL >> 11;
}
static int R(int n) { return rnd() % n; }
static long adds, removes, removes_cur, travs, growths, refused, mods, early, addtrav, copies, sets, gets, exports, maxn;
static int bads;
static void bad(const char *k, const char *fmt, ...)
{
    va_list a;
    if (bads++ > 3)
        exit(0);
    printf("BAD %s ", k);
    va_start(a, fmt);
    vprintf(fmt, a);
    va_end(a);
    printf("\n");
    fflush(stdout);
}

/* ---- a list of entries of es bytes, and its model */
struct M {
    u_list_t *l;
    int es, n, max, kind, cap;
    unsigned char *v[MAXN];
    int mark[MAXN];             /* 0 to be seen, 1 seen, 2 added during this traversal */
};
static int find(struct M *m, const unsigned char *p, int notseen)
{
    for (int pass = 0; pass < 2; pass++)
        for (int i = 0; i < m->n; i++)
            if ((!notseen || m->mark[i] == (pass ? 2 : 0)) && !memcmp(m->v[i], p, m->es))
                return i;
    return -1;
}
static unsigned char *fresh(struct M *m)
{
    unsigned char *p = malloc(m->es);
    for (int i = 0; i < m->es; i++)
        p[i] = rnd();
    if (m->kind && m->es == sizeof(exe_t))
        ((exe_t *) p)->e_ctrl_pid = R(1 << 30);
    return p;
}
static void *first(struct M *m) { return m->kind == 1 ? (void *)exe_list_first(m->l) : m->kind == 2 ? (void *)lavg_list_first(m->l) : u_list_first(m->l); }
static void *next(struct M *m) { return m->kind == 1 ? (void *)exe_list_next(m->l) : m->kind == 2 ? (void *)lavg_list_next(m->l) : u_list_next(m->l); }
static void stop(struct M *m)
{
    if (m->kind == 1)
        exe_list_end_iteration(m->l);
    else if (m->kind == 2)
        lavg_list_end_iteration(m->l);
    else
        u_list_end_iteration(m->l);
}
static void rmcur(struct M *m)
{
    if (m->kind == 1)
        exe_list_remove_cur(m->l);
    else if (m->kind == 2)
        lavg_list_remove_cur(m->l);
    else
        u_list_remove_cur(m->l);
}
static void add(struct M *m, int mark)
{
    unsigned char *p = fresh(m), *q;
    if (m->n >= MAXN - 1) {
        free(p);
        return;
    }
    if (m->kind == 1 && R(2)) {
        memset(p, 0, m->es);
        ((exe_t *) p)->e_line = (struct cl_t *)(uintptr_t) (1 + R(1 << 20));
        q = (unsigned char *)exe_list_add_line(m->l, ((exe_t *) p)->e_line);
    }
    else if (m->kind == 1)
        q = (unsigned char *)exe_list_add(m->l, (exe_t *) p);
    else if (m->kind == 2 && R(2)) {
        memset(p, 0, m->es);
        ((lavg_t *) p)->l_line = (struct cl_t *)(uintptr_t) (1 + R(1 << 20));
        q = (unsigned char *)lavg_list_add_line(m->l, ((lavg_t *) p)->l_line);
    }
    else if (m->kind == 2)
        q = (unsigned char *)lavg_list_add(m->l, (lavg_t *) p);
    else
        q = u_list_add(m->l, p);
    int full = m->max > 0 && m->n >= m->max;
    if (full != (q == NULL))
        bad("maximum", "an insertion into a container of %d (at most %d) was %s", m->n, m->max, q ? "accepted" : "refused");
    if (q == NULL) {
        refused++;
        free(p);
        return;
    }
    if (memcmp(q, p, m->es))
        bad("inserted", "the element inserted is not the one which was given");
    if (R(4) == 0) {            /* changed through the pointer, as the daemon does */
        q[R(m->es)] ^= 1;
        memcpy(p, q, m->es);
        mods++;
    }
    adds++;
    m->v[m->n] = p;
    m->mark[m->n++] = mark;
    if (m->n > maxn)
        maxn = m->n;
    if (m->n > m->cap) {
        growths++;
        m->cap = m->n + 9;
    }
}
static void drop(struct M *m, int i)
{
    free(m->v[i]);
    m->n--;
    m->v[i] = m->v[m->n];
    m->mark[i] = m->mark[m->n];
}
static void size(struct M *m, const char *when)
{
    if (m->l->num_entries != m->n)
        bad("size", "the container says it holds %d elements %s, there should be %d", m->l->num_entries, when, m->n);
}
/* one traversal; what = chances of removal, insertion and early end */
static void walk(struct M *m, int prem, int padd, int pend)
{
    travs++;
    for (int i = 0; i < m->n; i++)
        m->mark[i] = 0;
    unsigned char *p;
    int steps = 0, n0 = m->n;
    for (p = first(m); p; p = next(m)) {
        int i = find(m, p, 1);
        if (i < 0) {
            bad(find(m, p, 0) < 0 ? "foreign" : "twice", "step %d of a traversal of %d elements (of %d bytes) gave one which is not there, or twice", steps, n0, m->es);
            stop(m);
            return;
        }
        m->mark[i] = 1;
        if (steps++ > 3 * MAXN) {
            bad("endless", "a traversal does not end");
            stop(m);
            return;
        }
        if (R(20) == 0) {
            p[R(m->es)] += 3;
            memcpy(m->v[i], p, m->es);
            mods++;
        }
        int a = padd && R(100) < padd, r = R(100) < prem;
        if (a && r && R(2)) {
            add(m, 2);
            addtrav++;
            a = 0;
        }
        if (r) {
            rmcur(m);
            drop(m, i);
            removes_cur++;
            size(m, "during a traversal with removals");
        }
        if (a) {
            add(m, 2);
            addtrav++;
        }
        if (pend && R(100) < pend) {
            stop(m);
            early++;
            return;
        }
    }
    for (int i = 0; i < m->n; i++)
        if (m->mark[i] == 0) {
            bad("lost", "a traversal of %d elements did not give all of them", n0);
            return;
        }
    size(m, "after a traversal");
}
static void generic(int kind, int ops)
{
    struct M *m = calloc(1, sizeof *m);
    m->kind = kind;
    if (kind == 1) {
        m->l = exe_list_init();
        m->es = sizeof(exe_t);
        m->cap = 6;
    }
    else if (kind == 2) {
        m->l = lavg_list_init();
        m->es = sizeof(lavg_t);
        m->max = m->l->max_entries;
        m->cap = 10;
        if (m->max <= 0)
            bad("maximum", "the queue for the load has no maximum");
        if (R(2))               /* option -q */
            m->max = m->l->max_entries = 5 + R(100);
    }
    else {
        int init = 1 + R(12), grow = 1 + R(12);
        m->es = R(3) ? 1 + R(40) : 1 + R(300);
        m->l = u_list_init(m->es, init, grow);
        m->cap = init;
        if (R(2))
            m->max = m->l->max_entries = 1 + R(60);
    }
    size(m, "when new");
    int goal = R(3) ? R(40) : R(MAXN - 20);
    for (int k = 0; k < ops; k++) {
        if (R(200) == 0)
            goal = R(4) ? R(50) : R(MAXN - 20);
        if (m->n < goal ? R(4) : !R(5))
            for (int i = 1 + R(R(8) ? 2 : 30); i--;)
                add(m, 0);
        size(m, "after insertions");
        switch (R(12)) {
        case 0:
            walk(m, 0, 0, 0);
            break;
        case 1:
            walk(m, R(100), 0, 0);
            break;
        case 2:
            walk(m, m->n > goal ? 90 : 5, R(2) ? 0 : 10, 0);
            break;
        case 3:
            walk(m, R(40), R(40), 1 + R(30));
            break;
        case 4:
            walk(m, 10, 0, 30);
            break;
        case 5:
            if (R(20) == 0)
                walk(m, 100, 0, 0);
            break;
        case 6:
            if (kind == 0 && u_list_is_iterating(m->l))
                bad("iterating", "an ended traversal is said to go on");
            if (kind == 0 && R(10) == 0) {
                u_list_t *c = u_list_copy(m->l), *old = m->l;
                copies++;
                if (R(2)) {     /* go on with the copy, the original is destroyed */
                    m->l = c;
                    u_list_destroy(old);
                }
                else
                    u_list_destroy(c);
                walk(m, 0, 0, 0);
            }
        }
        if (bads)
            return;
    }
    while (m->n)
        drop(m, 0);
    if (kind == 1)
        exe_list_destroy(m->l);
    else if (kind == 2)
        lavg_list_destroy(m->l);
    else
        u_list_destroy(m->l);
    free(m);
}

/* ---- environments */
struct E {
    env_list_t *l;
    int n;
    char *k[200], *v[200];
};
static const char *names[] = { "A", "AB", "B", "ABC", "PATH", "PATHX", "_", "a", "A1", "LONGNAME_OF_A_VARIABLE", "MAILTO", "M" };
static char *name(void)
{
    static char b[60];
    if (R(3))
        return strcpy(b, names[R(12)]);
    sprintf(b, "V%d", R(60));
    return b;
}
static char *value(void)
{
    static char b[3000];
    int n = R(4) ? R(12) : R(10) ? R(100) : R(2900);
    for (int i = 0; i < n; i++)
        b[i] = " =aZ/:\"'$%#"[R(11)];
    b[n] = 0;
    return b;
}
static int idx(struct E *e, const char *k)
{
    for (int i = 0; i < e->n; i++)
        if (!strcmp(e->k[i], k))
            return i;
    return -1;
}
static void echeck(struct E *e, const char *when)
{
    int seen[200] = { 0 }, c = 0;
    if (e->l->num_entries != e->n)
        bad("env-size", "an environment of %d variables says it has %d (%s)", e->n, e->l->num_entries, when);
    for (env_t * x = env_list_first(e->l); x; x = env_list_next(e->l)) {
        char *q = strchr(x->e_envvar, '=');
        int i = -1;
        if (q) {
            char *k = strndup(x->e_envvar, q - x->e_envvar);
            i = idx(e, k);
            free(k);
        }
        if (i < 0 || seen[i]++ || strcmp(q + 1, e->v[i])) {
            bad("env-walk", "a variable is wrong, unknown or there twice (%s): %.60s", when, x->e_envvar);
            env_list_end_iteration(e->l);
            return;
        }
        c++;
    }
    if (c != e->n)
        bad("env-walk", "%d variables of %d were given (%s)", c, e->n, when);
}
static void eset(struct E *e, int put)
{
    char *k = name(), *v = value(), b[4000];
    int over = R(2), i = idx(e, k);
    env_t *x;
    if (e->n >= 190 && i < 0)
        return;
    sprintf(b, "%s=%s", k, v);
    x = put ? env_list_putenv(e->l, b, over) : env_list_setenv(e->l, k, v, over);
    sets++;
    if (x == NULL) {
        bad("env-set", "a variable was refused");
        return;
    }
    if (i < 0) {
        e->k[e->n] = strdup(k);
        e->v[e->n++] = strdup(v);
        i = e->n - 1;
        if (e->n > maxn)
            maxn = e->n;
    }
    else if (over) {
        free(e->v[i]);
        e->v[i] = strdup(v);
    }
    sprintf(b, "%s=%s", k, e->v[i]);
    if (strcmp(x->e_envvar, b))
        bad("env-set", "setting a variable (overwrite=%d, known=%d) gave another entry or value", over, i < e->n - 1);
}
static void edestroy(struct E *e)
{
    env_list_destroy(e->l);
    while (e->n) {
        free(e->k[--e->n]);
        free(e->v[e->n]);
    }
}
static void env(int ops)
{
    struct E es[3] = { {0} };
    for (int i = 0; i < 3; i++)
        es[i].l = env_list_init();
    char none[1] = "";
    for (int k = 0; k < ops && !bads; k++) {
        struct E *e = es + R(3), *f = es + R(3);
        int i;
        switch (R(14)) {
        case 0: case 1: case 2: case 3:
            eset(e, 0);
            break;
        case 4: case 5: case 6: case 7:
            eset(e, 1);
            break;
        case 8: case 9: case 10: {
            char *n = name(), *v = env_list_getenv(e->l, n);
            i = idx(e, n);
            gets++;
            if ((i < 0) != (v == NULL) || v && strcmp(v, e->v[i]))
                bad("env-get", "the value of %s is %.40s, it should be %.40s", n, v ? v : "(none)", i < 0 ? "(none)" : e->v[i]);
            break;
        }
        case 11:
            if (env_list_getenv(e->l, none) || env_list_putenv(e->l, none, 1) || env_list_setenv(e->l, none, "x", 1))
                bad("env-empty", "a variable without a name was accepted");
            echeck(e, "as it is");
            break;
        case 12:
            if (e != f && R(3) == 0) {
                edestroy(f);
                f->l = env_list_copy(e->l);
                for (f->n = 0; f->n < e->n; f->n++) {
                    f->k[f->n] = strdup(e->k[f->n]);
                    f->v[f->n] = strdup(e->v[f->n]);
                }
                copies++;
                echeck(f, "copy");
                echeck(e, "copied");
            }
            break;
        case 13: {
            char **p = env_list_export_envp(e->l);
            int seen[200] = { 0 };
            exports++;
            for (i = 0; p[i]; i++) {
                char *q = strchr(p[i], '='), *n = strndup(p[i], q ? q - p[i] : 0);
                int j = idx(e, n);
                free(n);
                if (j < 0 || seen[j]++ || strcmp(q + 1, e->v[j]))
                    bad("env-export", "what is exported is not the environment");
                free(p[i]);
            }
            if (i != e->n)
                bad("env-export", "%d variables of %d are exported", i, e->n);
            free(p);
        }
        }
    }
    for (int i = 0; i < 3 && !bads; i++) {
        echeck(es + i, "at the end");
        edestroy(es + i);
    }
}

int main(int argc, char **argv)
{
    int kind = atoi(argv[1]);
    rs = strtoull(argv[2], NULL, 10) * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL;
    for (int i = 0; i < 20; i++)
        rnd();
    if (kind == 3)
        env(atoi(argv[3]));
    else
        generic(kind, atoi(argv[3]));
    printf("SAW {\"inserted\":%ld,\"removed\":%ld,\"traversals\":%ld,\"growths\":%ld,\"refused\":%ld,\"changed\":%ld,\"ended-early\":%ld,"
           "\"inserted-in-traversal\":%ld,\"copies\":%ld,\"set\":%ld,\"read\":%ld,\"exported\":%ld,\"largest\":%ld}\n",
           adds, removes + removes_cur, travs, growths, refused, mods, early, addtrav, copies, sets, gets, exports, maxn);
    return 0;
}

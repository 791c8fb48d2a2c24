/* setids RUID EUID RGID EGID GROUPS(comma) CWD PROG ARGS...: what exec of a set-id file leaves a process with */
#define _GNU_SOURCE
#include <grp.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <unistd.h>
int main(int argc, char **argv)
{
    gid_t g[32];
    int n = 0;
    if (argc < 8)
        return 120;
    char *p = argv[5], *e;
    while ((e = strsep(&p, ",")) && n < 32)
        if (*e)
            g[n++] = atoi(e);
    struct rlimit rl = { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
    if (strcmp(argv[6], "-") && chdir(argv[6]))
        return 121;
    gid_t rg = atoi(argv[3]), eg = atoi(argv[4]);
    uid_t ru = atoi(argv[1]), eu = atoi(argv[2]);
    if (setgroups(n, g) || setresgid(rg, eg, eg) || setresuid(ru, eu, eu))
        return 122;
    execv(argv[7], argv + 7);
    return 123;
}

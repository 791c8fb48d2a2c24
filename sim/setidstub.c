/* where the kernel does not honour set-id bits: asks the harness (socket $0.sock) to run a set-id program
 * with our arguments, environment, descriptors and real ids, and exits like it */
#define _GNU_SOURCE
#include <grp.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>
extern char **environ;
static char buf[1 << 18];
static size_t n = 4;
static void put(const char *fmt, ...)
{
    va_list a;
    va_start(a, fmt);
    int k = vsnprintf(buf + n, sizeof buf - n, fmt, a);
    va_end(a);
    n += k + 1;
    if (n >= sizeof buf)
        exit(124);
}
int main(int argc, char **argv)
{
    struct sockaddr_un s = { .sun_family = AF_UNIX };
    snprintf(s.sun_path, sizeof s.sun_path, "%s", "");
    char me[4096], cwd[4096], gl[1024] = "";
    ssize_t l = readlink("/proc/self/exe", me, sizeof me - 1);
    if (l < 0)
        return 124;
    me[l] = 0;
    if (!s.sun_path[0])
        snprintf(s.sun_path, sizeof s.sun_path, "%.90s.sock", me);
    uid_t ru, eu, su;
    gid_t rg, eg, sg, g[64];
    getresuid(&ru, &eu, &su);
    getresgid(&rg, &eg, &sg);
    int ng = getgroups(64, g);
    for (int i = 0; i < ng; i++)
        sprintf(gl + strlen(gl), "%s%d", i ? "," : "", (int)g[i]);
    put("%d", (int)ru);
    put("%d", (int)rg);
    put("%d", (int)eg);
    put("%s", gl);
    put("%s", getcwd(cwd, sizeof cwd) ? cwd : "-");
    put("%d", argc);
    for (int i = 0; i < argc; i++)
        put("%s", argv[i]);
    for (char **e = environ; *e; e++)
        put("%s", *e);
    unsigned len = n - 4;
    memcpy(buf, &len, 4);
    int fd = socket(AF_UNIX, SOCK_STREAM, 0);
    if (fd < 0 || connect(fd, (struct sockaddr *)&s, sizeof s))
        return 125;
    char c[CMSG_SPACE(3 * sizeof(int))] = "";
    struct iovec io = { buf, n };
    struct msghdr m = { .msg_iov = &io, .msg_iovlen = 1, .msg_control = c, .msg_controllen = sizeof c };
    struct cmsghdr *h = CMSG_FIRSTHDR(&m);
    h->cmsg_level = SOL_SOCKET;
    h->cmsg_type = SCM_RIGHTS;
    h->cmsg_len = CMSG_LEN(3 * sizeof(int));
    memcpy(CMSG_DATA(h), (int[]) { 0, 1, 2 }, 3 * sizeof(int));
    if (sendmsg(fd, &m, 0) != (ssize_t)n)
        return 126;
    unsigned char st = 127;
    if (read(fd, &st, 1) != 1)
        return 127;
    return st;
}

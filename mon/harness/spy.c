/* LD_PRELOAD: everything a tool could ask its surroundings gets another answer (SPY=seed), and is counted (SPY_LOG=file).
 * Only calls of the program itself arrive here, not those inside the C library. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/types.h>
#include <sys/utsname.h>
#include <time.h>
#include <unistd.h>
extern char **environ;
static long seed = -1;
static char *own(const char *name)
{
    int i; size_t n = strlen(name);
    for (i = 0; environ && environ[i]; i++)
        if (!strncmp(environ[i], name, n) && environ[i][n] == '=') return environ[i] + n + 1;
    return NULL;
}
static long next(const char *what)
{
    char *s;
    if (seed < 0) { s = own("SPY"); seed = s ? atol(s) : 1; }
    s = own("SPY_LOG");
    if (s)
    {
        int fd = open(s, O_WRONLY | O_CREAT | O_APPEND, 0666);
        if (fd >= 0) { if (write(fd, what, strlen(what)) < 0 || write(fd, "\n", 1) < 0) {} close(fd); }
    }
    seed = (seed * 1103515245 + 12345) & 0x7fffffff;
    return seed;
}
char *getenv(const char *name)
{
    static char *value[] = { "1", "0", "", "yes", "C", "/tmp", "100", "-1" };
    char what[200];
    snprintf(what, sizeof what, "getenv %s", name);
    return value[(next(what) >> 8) % 8];
}
char *secure_getenv(const char *name) { return getenv(name); }
time_t time(time_t *t) { time_t v = next("time") * 3; if (t) *t = v; return v; }
clock_t clock(void) { return next("clock"); }
clock_t times(struct tms *b) { clock_t v = next("times"); if (b) memset(b, v & 63, sizeof *b); return v; }
int gettimeofday(struct timeval *tv, void *tz) { if (tv) { tv->tv_sec = next("gettimeofday"); tv->tv_usec = seed % 1000000; } return 0; }
int clock_gettime(clockid_t id, struct timespec *ts) { if (ts) { ts->tv_sec = next("clock_gettime"); ts->tv_nsec = seed % 1000000000; } return 0; }
int getrusage(__rusage_who_t who, struct rusage *u) { memset(u, 0, sizeof *u); u->ru_utime.tv_sec = next("getrusage") % 100000; return 0; }
int rand(void) { return next("rand"); }
long random(void) { return next("random"); }
double drand48(void) { return next("drand48") / 2147483648.0; }
pid_t getpid(void) { return next("getpid") % 32768 + 2; }
pid_t getppid(void) { return next("getppid") % 32768 + 2; }
uid_t getuid(void) { return next("getuid") % 3; }
uid_t geteuid(void) { return next("geteuid") % 3; }
int isatty(int fd) { return next("isatty") >> 4 & 1; }
int gethostname(char *s, size_t n) { snprintf(s, n, "h%ld", next("gethostname")); return 0; }
int uname(struct utsname *u) { memset(u, 'a' + next("uname") % 26, sizeof *u); u->sysname[9] = u->nodename[9] = u->release[9] = u->version[9] = u->machine[9] = 0; return 0; }
char *getcwd(char *s, size_t n) { if (!s) s = malloc(n = 100); snprintf(s, n, "/d%ld", next("getcwd")); return s; }

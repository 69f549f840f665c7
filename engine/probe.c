// Preloaded into rustc: logs which environment variables are read, and which files are opened, by
// calls that come from the macro's shared library (its name is in PGMON_PROBE_LIB) to the file
// PGMON_PROBE_LOG. If PGMON_OTHER_MACHINE is set, such calls see another date, host name, user and
// number of processors.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <execinfo.h>
#include <fcntl.h>
#include <link.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/utsname.h>
#include <time.h>
#include <unistd.h>

extern char **environ;
static __thread int busy;

static const char *raw_env(const char *name) {
    size_t n = strlen(name);
    if (!environ) return 0;
    for (char **e = environ; *e; e++)
        if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
    return 0;
}

static int is_it(struct dl_phdr_info *i, size_t size, void *lib) {
    (void)size;
    return i->dlpi_name && strstr(i->dlpi_name, lib) != 0;
}

// Before that, a backtrace could disturb the start of the process
static int loaded(const char *lib) {
    static int yes;
    return yes || (yes = dl_iterate_phdr(is_it, (void *)lib));
}

static int from_macro(const char *lib) {
    if (!lib || !loaded(lib)) return 0;
    void *frames[64];
    int n = backtrace(frames, 64);
    for (int i = 0; i < n; i++) {
        Dl_info d;
        if (dladdr(frames[i], &d) && d.dli_fname && strstr(d.dli_fname, lib)) return 1;
    }
    return 0;
}

static void note(char kind, const char *what) {
    if (busy) return;
    busy = 1;
    const char *log = raw_env("PGMON_PROBE_LOG"), *lib = raw_env("PGMON_PROBE_LIB");
    if (log && from_macro(lib)) {
        char line[1100];
        int len = snprintf(line, sizeof line, "%c %.1024s\n", kind, what);
        int (*real)(const char *, int, ...) = dlsym(RTLD_NEXT, "open");
        int fd = real(log, O_WRONLY | O_APPEND | O_CREAT, 0644);
        if (fd >= 0) {
            if (write(fd, line, len) < 0) { }
            close(fd);
        }
    }
    busy = 0;
}

// Is this call to see another machine?
static int other(void) {
    if (busy || !raw_env("PGMON_OTHER_MACHINE")) return 0;
    busy = 1;
    int yes = from_macro(raw_env("PGMON_PROBE_LIB"));
    busy = 0;
    return yes;
}

#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) real = dlsym(RTLD_NEXT, #name)
#define LATER (401L * 86400 + 7 * 3600 + 1234)

int clock_gettime(clockid_t id, struct timespec *t) {
    REAL(int, clock_gettime, clockid_t, struct timespec *);
    int r = real(id, t);
    if (r == 0 && id == CLOCK_REALTIME && other()) t->tv_sec += LATER;
    return r;
}

time_t time(time_t *t) {
    struct timespec now;
    clock_gettime(CLOCK_REALTIME, &now);
    if (t) *t = now.tv_sec;
    return now.tv_sec;
}

int gettimeofday(struct timeval *restrict t, void *restrict tz) {
    (void)tz;
    struct timespec now;
    clock_gettime(CLOCK_REALTIME, &now);
    t->tv_sec = now.tv_sec;
    t->tv_usec = now.tv_nsec / 1000;
    return 0;
}

int gethostname(char *name, size_t len) {
    REAL(int, gethostname, char *, size_t);
    if (!other()) return real(name, len);
    snprintf(name, len, "other-machine");
    return 0;
}

int uname(struct utsname *u) {
    REAL(int, uname, struct utsname *);
    int r = real(u);
    if (r == 0 && other()) {
        snprintf(u->nodename, sizeof u->nodename, "other-machine");
        snprintf(u->release, sizeof u->release, "3.2.1");
    }
    return r;
}

uid_t getuid(void) {
    REAL(uid_t, getuid, void);
    return other() ? 54321 : real();
}

int sched_getaffinity(pid_t pid, size_t size, cpu_set_t *set) {
    REAL(int, sched_getaffinity, pid_t, size_t, cpu_set_t *);
    int r = real(pid, size, set);
    if (r == 0 && other()) {
        // the first one of them only
        int seen = 0;
        for (size_t i = 0; i < size * 8; i++)
            if (CPU_ISSET_S(i, size, set)) {
                if (seen) CPU_CLR_S(i, size, set);
                seen = 1;
            }
    }
    return r;
}

char *getenv(const char *name) {
    note('E', name);
    return (char *)raw_env(name);
}

char *secure_getenv(const char *name) {
    note('E', name);
    return (char *)raw_env(name);
}

int open64(const char *path, int flags, ...) {
    static int (*real)(const char *, int, ...);
    mode_t mode = 0;
    if (flags & (O_CREAT | O_TMPFILE)) {
        va_list ap;
        va_start(ap, flags);
        mode = va_arg(ap, mode_t);
        va_end(ap);
    }
    if (!real) real = dlsym(RTLD_NEXT, "open64");
    note('F', path);
    return real(path, flags, mode);
}

int stat64(const char *path, struct stat64 *buf) {
    static int (*real)(const char *, struct stat64 *);
    if (!real) real = dlsym(RTLD_NEXT, "stat64");
    note('F', path);
    return real(path, buf);
}

int statx(int dir, const char *restrict path, int flags, unsigned mask, struct statx *restrict buf) {
    static int (*real)(int, const char *, int, unsigned, struct statx *);
    if (!real) real = dlsym(RTLD_NEXT, "statx");
    if (path && *path) note('F', path);
    return real(dir, path, flags, mask, buf);
}

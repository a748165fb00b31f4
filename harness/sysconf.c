/* Linked into the program's test builds: the system's configuration file is
   looked for below the working directory of the invocation, so that checks can
   supply one without touching /etc (and whatever /etc has does not matter). */
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static const char *moved(const char *path) {
    return path && strcmp(path, "/etc/passgen.conf") == 0 ? "sysconf/passgen.conf" : path;
}
#define MODE(flags) \
    mode_t mode = 0; \
    va_list ap; \
    va_start(ap, flags); \
    if((flags) & (O_CREAT | O_TMPFILE)) mode = va_arg(ap, mode_t); \
    va_end(ap)

FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *path, const char *how) { return __real_fopen(moved(path), how); }
FILE *__real_fopen64(const char *, const char *);
FILE *__wrap_fopen64(const char *path, const char *how) { return __real_fopen64(moved(path), how); }
int __real_open(const char *, int, ...);
int __wrap_open(const char *path, int flags, ...) { MODE(flags); return __real_open(moved(path), flags, mode); }
int __real_open64(const char *, int, ...);
int __wrap_open64(const char *path, int flags, ...) { MODE(flags); return __real_open64(moved(path), flags, mode); }
int __real_openat(int, const char *, int, ...);
int __wrap_openat(int at, const char *path, int flags, ...) { MODE(flags); return __real_openat(at, moved(path), flags, mode); }
int __real_access(const char *, int);
int __wrap_access(const char *path, int how) { return __real_access(moved(path), how); }
int __real_stat(const char *, struct stat *);
int __wrap_stat(const char *path, struct stat *st) { return __real_stat(moved(path), st); }

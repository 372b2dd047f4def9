/* LD_PRELOAD: the system-wide configuration directories are looked for below $BXROOT. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <dirent.h>
#include <fcntl.h>
#include <stdarg.h>
#include <unistd.h>

static const char *map(const char *p, char *buf, size_t n)
{
    static const char *prefixes[] = { "/etc/xdg/boxes", "/usr/local/share/boxes", "/usr/share/boxes", NULL };
    const char *root = getenv("BXROOT");
    for (int i = 0; root && p && prefixes[i]; i++) {
        if (strncmp(p, prefixes[i], strlen(prefixes[i])) == 0) {
            snprintf(buf, n, "%s%s", root, p);
            return buf;
        }
    }
    return p;
}
#define REAL(name, type, ...) ((type (*)(__VA_ARGS__)) dlsym(RTLD_NEXT, name))
FILE *fopen(const char *p, const char *m) { char b[4096]; return REAL("fopen", FILE *, const char *, const char *)(map(p, b, sizeof b), m); }
FILE *fopen64(const char *p, const char *m) { char b[4096]; return REAL("fopen64", FILE *, const char *, const char *)(map(p, b, sizeof b), m); }
int stat(const char *p, struct stat *s) { char b[4096]; return REAL("stat", int, const char *, struct stat *)(map(p, b, sizeof b), s); }
int stat64(const char *p, struct stat64 *s) { char b[4096]; return REAL("stat64", int, const char *, struct stat64 *)(map(p, b, sizeof b), s); }
int lstat(const char *p, struct stat *s) { char b[4096]; return REAL("lstat", int, const char *, struct stat *)(map(p, b, sizeof b), s); }
int access(const char *p, int m) { char b[4096]; return REAL("access", int, const char *, int)(map(p, b, sizeof b), m); }
DIR *opendir(const char *p) { char b[4096]; return REAL("opendir", DIR *, const char *)(map(p, b, sizeof b)); }
int open(const char *p, int f, ...) { char b[4096]; va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a);
    return REAL("open", int, const char *, int, ...)(map(p, b, sizeof b), f, m); }
int open64(const char *p, int f, ...) { char b[4096]; va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a);
    return REAL("open64", int, const char *, int, ...)(map(p, b, sizeof b), f, m); }

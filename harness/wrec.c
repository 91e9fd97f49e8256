/* Write recorder: logs every stdio write, flush and fsync on files under a chosen directory, in program order,
 * so that the file as a crash would have left it can be rebuilt for any moment.
 * record: u8 type, u32 fid, u64 off, u32 len, bytes   (type O path, W data, S fsync, F fflush, M marker) */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static int logfd = -1;
static char dir[4096];
static size_t dirlen;
static struct { FILE *f; uint32_t id; int fd; } tab[256];
static int ntab;
static uint32_t nid;
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
static size_t (*r_fwrite)(const void *, size_t, size_t, FILE *);
static FILE *(*r_fopen)(const char *, const char *);
static int (*r_fsync)(int), (*r_fflush)(FILE *), (*r_fclose)(FILE *);

__attribute__((constructor)) static void init(void)
{
    r_fwrite = dlsym(RTLD_NEXT, "fwrite"); r_fopen = dlsym(RTLD_NEXT, "fopen64"); r_fsync = dlsym(RTLD_NEXT, "fsync");
    r_fflush = dlsym(RTLD_NEXT, "fflush"); r_fclose = dlsym(RTLD_NEXT, "fclose");
}

static void rec(char t, uint32_t id, uint64_t off, uint32_t len, const void *p)
{
    char h[17];
    if (logfd < 0) return;
    h[0] = t; memcpy(h + 1, &id, 4); memcpy(h + 5, &off, 8); memcpy(h + 13, &len, 4);
    if (write(logfd, h, 17) != 17 || (len && write(logfd, p, len) != (ssize_t)len)) abort();
}

void wrec_start(const char *d, const char *log)
{
    pthread_mutex_lock(&mx);
    strncpy(dir, d, sizeof dir - 1); dirlen = strlen(dir); ntab = 0; nid = 0;
    if (logfd >= 0) close(logfd);
    logfd = open(log, O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
    pthread_mutex_unlock(&mx);
}
void wrec_stop(void) { pthread_mutex_lock(&mx); if (logfd >= 0) close(logfd); logfd = -1; ntab = 0; pthread_mutex_unlock(&mx); }
void wrec_mark(uint64_t n) { pthread_mutex_lock(&mx); rec('M', 0, n, 0, 0); pthread_mutex_unlock(&mx); }

static int find(FILE *f) { for (int i = 0; i < ntab; ++i) if (tab[i].f == f) return i; return -1; }

FILE *fopen64(const char *p, const char *m)
{
    FILE *f = r_fopen(p, m);
    if (f && logfd >= 0 && dirlen && !strncmp(p, dir, dirlen) && (strchr(m, '+') || *m != 'r')) {
        pthread_mutex_lock(&mx);
        if (ntab < 256) { tab[ntab].f = f; tab[ntab].fd = fileno(f); tab[ntab].id = ++nid; ++ntab; rec('O', nid, 0, strlen(p), p); }
        pthread_mutex_unlock(&mx);
    }
    return f;
}
FILE *fopen(const char *p, const char *m) { return fopen64(p, m); }

size_t fwrite(const void *p, size_t s, size_t n, FILE *f)
{
    if (logfd >= 0) {
        pthread_mutex_lock(&mx);
        int i = find(f);
        if (i >= 0) rec('W', tab[i].id, ftello64(f), s * n, p);
        pthread_mutex_unlock(&mx);
    }
    return r_fwrite(p, s, n, f);
}
int fflush(FILE *f)
{
    int r = r_fflush(f);
    if (logfd >= 0 && f) {
        pthread_mutex_lock(&mx);
        int i = find(f);
        if (i >= 0) rec('F', tab[i].id, 0, 0, 0);
        pthread_mutex_unlock(&mx);
    }
    return r;
}
int fsync(int fd)
{
    int r = r_fsync(fd);
    if (logfd >= 0) {
        pthread_mutex_lock(&mx);
        for (int i = 0; i < ntab; ++i) if (tab[i].fd == fd) rec('S', tab[i].id, 0, 0, 0);
        pthread_mutex_unlock(&mx);
    }
    return r;
}
int fclose(FILE *f)
{
    pthread_mutex_lock(&mx);
    int i = find(f);
    if (i >= 0) { rec('F', tab[i].id, 0, 0, 0); tab[i] = tab[--ntab]; }
    pthread_mutex_unlock(&mx);
    return r_fclose(f);
}

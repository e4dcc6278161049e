/* Fork server shared by all drivers.
 * Reads cases from fd 0 (u32 length + payload), runs each one in a forked child with CPU/memory limits,
 * and answers on the original fd 1: u32 length + (status, code, response, captured stderr tail).
 * The payload is a list of fields (u32 length + bytes). */
#pragma once
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <unistd.h>
#include <errno.h>
#include <poll.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>

typedef struct { const char *data; uint32_t len; } Field;

static int srv_resp_fd = -1;  /* child: pipe to parent */
static int srv_out_fd = -1, srv_err_fd = -1;
static char *srv_buf; static size_t srv_len, srv_cap; /* pending response */

static void *srv_alloc(size_t n) { /* not counted by the allocator of the program under test */
    void *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) _exit(99);
    return p;
}
static void srv_write_all(int fd, const void *p, size_t n) {
    const char *c = p;
    while (n > 0) {
        ssize_t w = write(fd, c, n);
        if (w < 0) { if (errno == EINTR) continue; _exit(98); }
        c += w; n -= (size_t)w;
    }
}
static void srv_read_all(int fd, void *p, size_t n) {
    char *c = p;
    while (n > 0) {
        ssize_t r = read(fd, c, n);
        if (r < 0) { if (errno == EINTR) continue; _exit(97); }
        if (r == 0) _exit(0);
        c += r; n -= (size_t)r;
    }
}
/* ---- child side: responses are a list of fields too */
static void srv_flush(void) { srv_write_all(srv_resp_fd, srv_buf, srv_len); srv_len = 0; }
static void srv_raw(const void *p, size_t n) {
    if (n > srv_cap) { srv_flush(); srv_write_all(srv_resp_fd, p, n); return; }
    if (srv_len + n > srv_cap) srv_flush();
    memcpy(srv_buf + srv_len, p, n);
    srv_len += n;
}
static void put_bytes(const void *p, size_t n) { uint32_t l = (uint32_t)n; srv_raw(&l, 4); srv_raw(p, n); }
static void put_str(const char *s) { put_bytes(s, strlen(s)); }
static void put_int(long long v) { char b[32]; snprintf(b, sizeof b, "%lld", v); put_str(b); }
static void put_dbl(double v) { char b[64]; snprintf(b, sizeof b, "%a", v); put_str(b); }

/* what has been written to stdout/stderr since the last call */
static off_t srv_out_pos, srv_err_pos;
static void put_captured(int fd, off_t *pos) {
    off_t end = lseek(fd, 0, SEEK_END);
    if (end < *pos) end = *pos;
    size_t n = (size_t)(end - *pos);
    char *b = srv_alloc(n + 1);
    size_t got = 0;
    while (got < n) {
        ssize_t r = pread(fd, b + got, n - got, *pos + (off_t)got);
        if (r <= 0) break;
        got += (size_t)r;
    }
    *pos = end;
    put_bytes(b, got);
    munmap(b, n + 1);
}
static void put_outputs(void) {
    fflush(stdout);
    fflush(stderr);
    put_captured(srv_out_fd, &srv_out_pos);
    put_captured(srv_err_fd, &srv_err_pos);
}

/* zero-terminated copy that lives on the normal heap with exact size (so the sanitizer sees overruns) */
static char *field_dup(Field f) {
    char *s = malloc(f.len + 1);
    memcpy(s, f.data, f.len);
    s[f.len] = '\0';
    return s;
}
static bool field_is(Field f, const char *s) { return f.len == strlen(s) && memcmp(f.data, s, f.len) == 0; }

void run_case(size_t n, Field *fields); /* supplied by driver */
void warm_up(const char *arg);          /* supplied by driver, called once before the first case when DRV_WARM is set */

static long srv_rss_mb(pid_t pid) {
    char path[64], buf[128];
    snprintf(path, sizeof path, "/proc/%d/statm", (int)pid);
    int fd = open(path, O_RDONLY);
    if (fd < 0) return 0;
    ssize_t r = read(fd, buf, sizeof buf - 1);
    close(fd);
    if (r <= 0) return 0;
    buf[r] = 0;
    long a = 0, b = 0;
    if (sscanf(buf, "%ld %ld", &a, &b) != 2) return 0;
    return b * (sysconf(_SC_PAGESIZE) / 1024) / 1024;
}

static double srv_now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }

int main(void) {
    int reply = dup(1);
    long cpu_ms = getenv("DRV_CPU_MS") ? atol(getenv("DRV_CPU_MS")) : 10000;
    long wall_s = getenv("DRV_WALL_S") ? atol(getenv("DRV_WALL_S")) : 240;
    long mem_mb = getenv("DRV_MEM_MB") ? atol(getenv("DRV_MEM_MB")) : 1500;
    signal(SIGPIPE, SIG_IGN);
    static char outbuf[1 << 16], errbuf[1 << 16]; /* not on the heap: heap balance is measured */
    setvbuf(stdout, outbuf, _IOFBF, sizeof outbuf);
    setvbuf(stderr, errbuf, _IOFBF, sizeof errbuf);
    srv_cap = 1 << 16;
    srv_buf = srv_alloc(srv_cap);
    srv_out_fd = memfd_create("out", 0);
    srv_err_fd = memfd_create("err", 0);
    size_t acc_cap = 1 << 26;
    char *acc = srv_alloc(acc_cap);
    if (getenv("DRV_WARM")) { warm_up(getenv("DRV_WARM")); fflush(stdout); }
    for (;;) {
        uint32_t len;
        srv_read_all(0, &len, 4);
        char *payload = srv_alloc(len + 1);
        srv_read_all(0, payload, len);
        if (ftruncate(srv_out_fd, 0) || ftruncate(srv_err_fd, 0)) _exit(96);
        int p[2];
        if (pipe(p)) _exit(95);
        pid_t pid = fork();
        if (pid < 0) _exit(94);
        if (pid == 0) {
            close(p[0]);
            srv_resp_fd = p[1];
            int nul = open("/dev/null", O_RDONLY);
            dup2(nul, 0);
            lseek(srv_out_fd, 0, SEEK_SET); lseek(srv_err_fd, 0, SEEK_SET);
            dup2(srv_out_fd, 1);
            dup2(srv_err_fd, 2);
            fcntl(1, F_SETFL, O_APPEND); fcntl(2, F_SETFL, O_APPEND);
            close(reply);
            struct itimerval it = { { 0, 0 }, { cpu_ms / 1000, (cpu_ms % 1000) * 1000 } };
            setitimer(ITIMER_PROF, &it, NULL);
            struct rlimit rl = { 0, 0 };
            setrlimit(RLIMIT_CORE, &rl);
            size_t nf = 0;
            Field *fs = srv_alloc(sizeof(Field) * (len / 4 + 2));
            for (uint32_t i = 0; i + 4 <= len;) {
                uint32_t l; memcpy(&l, payload + i, 4);
                fs[nf++] = (Field){ payload + i + 4, l };
                i += 4 + l;
            }
            run_case(nf, fs);
            srv_flush();
            fflush(stdout); fflush(stderr);
            _exit(0);
        }
        close(p[1]);
        size_t got = 0;
        char verdict = 0;
        double t0 = srv_now();
        for (;;) {
            struct pollfd pf = { p[0], POLLIN, 0 };
            int r = poll(&pf, 1, 50);
            if (r > 0) {
                if (got == acc_cap) { verdict = 'M'; kill(pid, SIGKILL); break; }
                ssize_t k = read(p[0], acc + got, acc_cap - got);
                if (k <= 0) break;
                got += (size_t)k;
            }
            if (r == 0 || got > (1u << 22)) {
                if (srv_rss_mb(pid) > mem_mb || lseek(srv_out_fd, 0, SEEK_END) > (off_t)256 << 20) { verdict = 'M'; kill(pid, SIGKILL); }
                if (srv_now() - t0 > (double)wall_s) { verdict = 'W'; kill(pid, SIGKILL); }
            }
        }
        close(p[0]);
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        uint32_t code = 0;
        char status = 'O';
        if (WIFSIGNALED(st)) {
            code = (uint32_t)WTERMSIG(st);
            status = (code == SIGPROF) ? 'T' : 'S';
        } else if (WEXITSTATUS(st) != 0) {
            code = (uint32_t)WEXITSTATUS(st);
            status = 'X';
        }
        if (verdict) status = verdict;
        off_t eend = lseek(srv_err_fd, 0, SEEK_END);
        off_t estart = 0;
        uint32_t elen = (uint32_t)(eend > 16384 ? 16384 : eend);
        char *eb = srv_alloc(16384);
        ssize_t er = pread(srv_err_fd, eb, elen, estart);
        elen = er > 0 ? (uint32_t)er : 0;
        uint32_t rl = (uint32_t)got;
        uint32_t total = 1 + 4 + 4 + rl + 4 + elen;
        srv_write_all(reply, &total, 4);
        srv_write_all(reply, &status, 1);
        srv_write_all(reply, &code, 4);
        srv_write_all(reply, &rl, 4);
        srv_write_all(reply, acc, rl);
        srv_write_all(reply, &elen, 4);
        srv_write_all(reply, eb, elen);
        munmap(eb, 16384);
        munmap(payload, len + 1);
    }
}

/*
 * bxmc zygote: executes the real `boxes` main() once per request, in a forked child, under a controlled environment
 * (arguments, environment, stdin contents, working directory) and with optional controlled I/O schedules and faults.
 *
 * The sources of boxes are compiled unmodified from /repo's working tree; only main() is renamed to boxes_main() on
 * the compiler command line.  Requests come in on fd 0, responses go out on fd 1 (binary, little endian).
 *
 * request:   u32 magic, u32 nargs, {u32 len, bytes}*, u32 nenv, {..}*, str cwd, str stdin, u32 timeout_ms, u32 flags,
 *            i32 nchunks, u32 chunk sizes*, i32 in_err_at, i32 out_err_at, i32 out_step
 * response:  i32 status (exit code, or -signal), str stdout, str stderr
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

extern int boxes_main(int argc, char *argv[]);
extern char **environ;

const char *__asan_default_options(void) {
    return "detect_leaks=0:exitcode=99:abort_on_error=0:handle_abort=0:allocator_may_return_null=1:"
        "detect_stack_use_after_return=0:malloc_context_size=2";
}
const char *__ubsan_default_options(void) { return "halt_on_error=1:print_stacktrace=0:exitcode=99"; }

#define MAGIC 0x62786d63u
enum { F_COOKIE_IN = 1, F_COOKIE_OUT = 2, F_PERTURB = 4, F_STDIN_PIPE = 8 };

static void rd(void *p, size_t n) {
    char *c = p;
    while (n) {
        ssize_t k = read(0, c, n);
        if (k <= 0) _exit(0);
        c += k; n -= k;
    }
}
static void wr(const void *p, size_t n) {
    const char *c = p;
    while (n) {
        ssize_t k = write(1, c, n);
        if (k <= 0) _exit(0);
        c += k; n -= k;
    }
}
static uint32_t rd32(void) { uint32_t v; rd(&v, 4); return v; }
static char *rdstr(uint32_t *lenp) {
    uint32_t n = rd32();
    char *s = malloc(n + 1);
    rd(s, n); s[n] = 0;
    if (lenp) *lenp = n;
    return s;
}

/* ---- controlled I/O ------------------------------------------------------------------------------------------- */
static char *in_data; static uint32_t in_len, in_pos;
static uint32_t *in_chunks; static int in_nchunks, in_chunk_idx; static int in_err_at = -1;
static int out_err_at = -1, out_step = 0; static long out_pos;
static int real_out_fd = 1;
static uint32_t g_flags;

static ssize_t cookie_read(void *c, char *buf, size_t size) {
    (void) c;
    size_t n = in_len - in_pos;
    if (in_nchunks > 0) {   /* chunk schedule; the last chunk size repeats */
        uint32_t lim = in_chunks[in_chunk_idx < in_nchunks ? in_chunk_idx : in_nchunks - 1];
        in_chunk_idx++;
        if (n > lim) n = lim;
    }
    if (n > size) n = size;
    if (in_err_at >= 0 && in_pos + n >= (uint32_t) in_err_at) {   /* also instead of the end of the file */
        n = (uint32_t) in_err_at > in_pos ? in_err_at - in_pos : 0;
        if (n == 0) { errno = EIO; return -1; }
    }
    memcpy(buf, in_data + in_pos, n);
    in_pos += n;
    return n;
}
/* The size of the writes is set by the buffer of the stream (see step()). A short count returned here is an error for
 * the C library: it has already repeated short writes where these are possible. */
static ssize_t cookie_write(void *c, const char *buf, size_t size) {
    (void) c;
    size_t n = size, done = 0;
    int fail = 0;
    if (out_err_at >= 0 && out_pos + (long) n > out_err_at) {
        n = out_err_at > out_pos ? out_err_at - out_pos : 0;
        fail = 1;
    }
    while (done < n) {
        ssize_t k = write(real_out_fd, buf + done, n - done);
        if (k <= 0) return 0;
        done += k;
    }
    out_pos += n;
    if (fail) errno = ENOSPC;
    return n;
}
static FILE *step(FILE *f) {
    if (f && out_step > 0) setvbuf(f, malloc(out_step), _IOFBF, out_step);
    return f;
}

/* ---- redirection of system-wide config locations into a scratch directory ------------------------------------- */
static const char *redirect(const char *path, char *buf, size_t n) {
    static const char *pref[] = { "/etc/xdg/boxes", "/usr/local/share/boxes", "/usr/share/boxes", "/opt/bxmc-global",
        NULL };
    const char *root = getenv("BXMC_ROOT");
    if (root && path)
        for (int i = 0; pref[i]; i++)
            if (strncmp(path, pref[i], strlen(pref[i])) == 0) {
                snprintf(buf, n, "%s%s", root, path);
                return buf;
            }
    return path;
}
/* paths that behave as if permissions forbade reading them (the checks may run as root): exact, separated by ':' */
char *__real_realpath(const char *, char *);
static int denied(const char *path) {
    const char *l = getenv("BXMC_DENY");
    char full[4097];
    if (!l || !path || !__real_realpath(path, full)) return 0;
    path = full;
    size_t n = strlen(path);
    while (l && *l && n) {
        const char *e = strchrnul(l, ':');
        if ((size_t) (e - l) == n && memcmp(l, path, n) == 0) { errno = EACCES; return 1; }
        l = *e ? e + 1 : e;
    }
    return 0;
}
/* Whatever the program under test does: files are only written below the scratch directories of the checks, or to
 * devices which are harmless. */
static char scratch[4200];
static int write_refused(const char *path, const char *mode) {
    char dir[4200], full[4200];
    if (!path || !mode || !strpbrk(mode, "wa+")) return 0;
    if (strlen(path) > 4096) return 0;      /* fails anyway */
    if (strcmp(path, "/dev/full") == 0 || strcmp(path, "/dev/null") == 0) return 0;
    strcpy(dir, path);
    char *s = strrchr(dir, '/');
    if (s == dir) s[1] = 0; else if (s) *s = 0; else strcpy(dir, ".");
    if (!__real_realpath(dir, full)) return 0;   /* no such directory: fails anyway */
    size_t n = strlen(scratch);
    if (n && strncmp(full, scratch, n) == 0) return 0;
    errno = EACCES;
    return 1;
}
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *path, const char *mode) {
    char b[4096];
    const char *p = redirect(path, b, sizeof b);
    if (denied(p) || write_refused(p, mode)) return NULL;
    if ((g_flags & F_COOKIE_IN) && strstr(p, "BXMC-COOKIE-IN")) {
        cookie_io_functions_t f = { .read = cookie_read };
        return fopencookie(NULL, "r", f);
    }
    if ((g_flags & F_COOKIE_OUT) && strstr(p, "BXMC-COOKIE-OUT")) {
        real_out_fd = open(p, O_WRONLY | O_CREAT | O_TRUNC, 0644);
        cookie_io_functions_t f = { .write = cookie_write };
        return step(fopencookie(NULL, "w", f));
    }
    return __real_fopen(p, mode);
}
DIR *__real_opendir(const char *);
DIR *__wrap_opendir(const char *path) {
    char b[4096];
    const char *p = redirect(path, b, sizeof b);
    return denied(p) ? NULL : __real_opendir(p);
}
int __real_access(const char *, int);
int __wrap_access(const char *path, int m) {
    char b[4096];
    const char *p = redirect(path, b, sizeof b);
    return m != F_OK && denied(p) ? -1 : __real_access(p, m);
}
int __real_stat(const char *, struct stat *);
int __wrap_stat(const char *path, struct stat *s) { char b[4096]; return __real_stat(redirect(path, b, sizeof b), s); }
char *__real_realpath(const char *, char *);
char *__wrap_realpath(const char *path, char *r) { char b[4096]; return __real_realpath(redirect(path, b, sizeof b), r); }

#ifndef BXMC_PERTURB
#define BXMC_PERTURB 0xA5
#endif
#ifdef BXMC_STEPS
/* number of control flow edges taken by the code of boxes */
static uint64_t steps;
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b);
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { (void) a; (void) b; }
void __sanitizer_cov_trace_pc_guard(uint32_t *g);
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { (void) g; steps++; }
static void report_steps(void) {
    char b[64];
    int n = snprintf(b, sizeof b, "BXMC-STEPS=%llu\n", (unsigned long long) steps);
    fflush(stderr);
    if (write(2, b, n) != n) _exit(121);
}
#endif

/* ---- main loop ------------------------------------------------------------------------------------------------- */
static void send_fd(int fd) {
    struct stat st;
    fstat(fd, &st);
    uint32_t n = st.st_size > (64 << 20) ? (64 << 20) : st.st_size;
    char *b = malloc(n + 1);
    uint32_t done = 0;
    while (done < n) {
        ssize_t k = pread(fd, b + done, n - done, done);
        if (k <= 0) break;
        done += k;
    }
    wr(&n, 4); wr(b, n);
    free(b);
}

int main(void) {
    signal(SIGPIPE, SIG_IGN);
    const char *t = getenv("BXMC_TMP");
    if (t && !__real_realpath(t, scratch)) scratch[0] = 0;
    int fin = memfd_create("in", 0), fout = memfd_create("out", 0), ferr = memfd_create("err", 0);
    for (;;) {
        uint32_t magic = rd32();
        if (magic != MAGIC) return 3;
        uint32_t na = rd32();
        char **av = calloc(na + 1, sizeof(char *));
        for (uint32_t i = 0; i < na; i++) av[i] = rdstr(NULL);
        uint32_t ne = rd32();
        char **ev = calloc(ne + 1, sizeof(char *));
        for (uint32_t i = 0; i < ne; i++) ev[i] = rdstr(NULL);
        char *cwd = rdstr(NULL);
        free(in_data);
        in_data = rdstr(&in_len);
        uint32_t timeout = rd32();
        g_flags = rd32();
        in_nchunks = (int) rd32();
        free(in_chunks);
        in_chunks = calloc(in_nchunks + 1, 4);
        for (int i = 0; i < in_nchunks; i++) in_chunks[i] = rd32();
        in_err_at = (int) rd32();
        out_err_at = (int) rd32();
        out_step = (int) rd32();

        if (ftruncate(fin, 0) || ftruncate(fout, 0) || ftruncate(ferr, 0)) return 4;
        lseek(fin, 0, SEEK_SET); lseek(fout, 0, SEEK_SET); lseek(ferr, 0, SEEK_SET);
        if (!(g_flags & F_COOKIE_IN)) {
            if (in_len && pwrite(fin, in_data, in_len, 0) != (ssize_t) in_len) return 5;
        }
        pid_t pid = fork();
        if (pid == 0) {
            struct itimerval it = { .it_value = { timeout / 1000, (timeout % 1000) * 1000 } };
            signal(SIGPIPE, SIG_DFL);
            struct rlimit rl = { 32 << 20, 32 << 20 };
            setrlimit(RLIMIT_FSIZE, &rl);
            rl.rlim_cur = rl.rlim_max = 0;
            setrlimit(RLIMIT_CORE, &rl);
#ifndef BXMC_ASAN
            rl.rlim_cur = rl.rlim_max = 2ul << 30;
            setrlimit(RLIMIT_AS, &rl);
            if (g_flags & F_PERTURB) mallopt(M_PERTURB, BXMC_PERTURB);
#endif
            dup2(fin, 0); dup2(fout, 1); dup2(ferr, 2);
            close(fin); close(fout); close(ferr);
            if (cwd[0] && chdir(cwd)) _exit(120);
            environ = ev;
            if (g_flags & F_COOKIE_IN) {
                cookie_io_functions_t f = { .read = cookie_read };
                stdin = fopencookie(NULL, "r", f);
            }
            if (g_flags & F_COOKIE_OUT) {
                real_out_fd = dup(1);
                cookie_io_functions_t f = { .write = cookie_write };
                stdout = step(fopencookie(NULL, "w", f));
            }
#ifdef BXMC_STEPS
            atexit(report_steps);
#endif
            setitimer(ITIMER_REAL, &it, NULL);
            exit(boxes_main((int) na, av));
        }
        int st = 0;
        if (pid < 0) { int s = -2000; wr(&s, 4); uint32_t z = 0; wr(&z, 4); wr(&z, 4); }
        else {
            while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
            int s = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
            wr(&s, 4);
            send_fd(fout);
            send_fd(ferr);
        }
        for (uint32_t i = 0; i < na; i++) free(av[i]);
        for (uint32_t i = 0; i < ne; i++) free(ev[i]);
        free(av); free(ev); free(cwd);
    }
}

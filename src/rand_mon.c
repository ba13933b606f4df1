// C12: the library's own random source against a simulated random device. Every system entry point through which
// OS randomness can be read is replaced: the device is one infinite stream of distinguishable bytes shared by all threads
// and processes, its answers follow a script of faults, and every byte handed out must be a stream byte used exactly once.
#define _GNU_SOURCE
#include "gen.h"
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdatomic.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/sysmacros.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

int randombytes(unsigned char *out, unsigned long long n);
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
int CAT(crypto_kem_keypair_Frodo, SIZE)(unsigned char *pk, unsigned char *sk);
int CAT(crypto_kem_enc_Frodo, SIZE)(unsigned char *ct, unsigned char *ss, const unsigned char *pk);
int CAT(crypto_kem_dec_Frodo, SIZE)(unsigned char *ss, const unsigned char *ct, const unsigned char *sk);

#define STREAM_MAX (256u << 20)
enum { A_FULL, A_ONE, A_HALF, A_LESS1, A_EOF, A_EINTR, A_EAGAIN, A_EIO, A_N };
static const char *ANAME[] = {"full", "1 byte", "half", "n-1", "0 bytes", "EINTR", "EAGAIN", "EIO"};
typedef struct {
    _Atomic uint64_t pos;          // next byte of the device stream
    _Atomic uint64_t reads, faults, opens, openfaults, bytes, overlong;
    uint64_t key;
    uint8_t out[8][4096];          // results of forked children
    int rc[8];
} shared_t;
static shared_t *D;
static uint8_t *used;              // per stream byte: handed out already (shared mapping)
static __thread int script[64], scriptn, scripti, oscript[64], oscriptn, oscripti, randact;
static __thread long streak, ostreak; static __thread int streak_act, ostreak_act; // so many equal answers in a row first
static __thread prng rp;
static __thread int inlib;
static int HUGE_MODE;
// what this thread's reads delivered during the current call
static __thread struct { uint64_t pos; uint64_t len; } dlog[1 << 16];
static __thread int dlogn;
#define FAKEFD_BASE 4000
static _Atomic int nfd;
static int lowfd = -1;             // >= 0: the device opens as this descriptor (a process started with standard descriptors closed)

static inline uint8_t sbyte(uint64_t pos)
{
    uint64_t z = (pos >> 3) * 0x9e3779b97f4a7c15ULL + D->key;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z ^= z >> 27;
    return (uint8_t)(z >> (8 * (pos & 7)));
}
static long raw(long nr, long a, long b, long c, long d, long e, long f)
{
    register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
    long r;
    __asm__ volatile("syscall" : "=a"(r) : "a"(nr), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
static ssize_t serve(uint8_t *b, size_t n)
{
    D->reads++;
    int a = A_FULL;
    if (streak > 0) { streak--; a = streak_act; }
    else if (scripti < scriptn) a = script[scripti++];
    else if (randact && rndn(&rp, 3) == 0) a = (int)rndn(&rp, A_N);
    if (a != A_FULL) D->faults++;
    switch (a) {
    case A_EOF: return 0;
    case A_EINTR: errno = EINTR; return -1;
    case A_EAGAIN: errno = EAGAIN; return -1;
    case A_EIO: errno = EIO; return -1;
    case A_ONE: if (n > 1) n = 1; break;
    case A_HALF: n = (n + 1) / 2; break;
    case A_LESS1: if (n > 1) n--; break;
    }
    if (n > 0x7ffff000) n = 0x7ffff000; // the kernel's limit
    if (!HUGE_MODE && n > (8u << 20)) { D->overlong++; n = 8u << 20; }
    uint64_t pos = atomic_fetch_add(&D->pos, n);
    if (HUGE_MODE) {
        size_t i = 0;
        for (; i < n && ((pos + i) & 7); i++) b[i] = sbyte(pos + i);
        for (; i + 8 <= n; i += 8) { uint64_t v = ((pos + i) >> 3) * 0x9e3779b97f4a7c15ULL + D->key; v = (v ^ (v >> 30)) * 0xbf58476d1ce4e5b9ULL; v ^= v >> 27; memcpy(b + i, &v, 8); }
        for (; i < n; i++) b[i] = sbyte(pos + i);
    } else {
        if (pos + n > STREAM_MAX) { fprintf(stderr, "stream exhausted\n"); _exit(3); }
        for (size_t i = 0; i < n; i++) b[i] = sbyte(pos + i);
    }
    D->bytes += n;
    if (dlogn < (int)(sizeof dlog / sizeof *dlog)) { dlog[dlogn].pos = pos; dlog[dlogn++].len = n; }
    return (ssize_t)n;
}
static int isdev(const char *p) { return p && (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random")); }
static int devopen(void)
{
    D->opens++;
    int a = 0;
    if (ostreak > 0) { ostreak--; a = ostreak_act; }
    else if (oscripti < oscriptn) a = oscript[oscripti++];
    else if (randact && rndn(&rp, 4) == 0) a = 1 + (int)rndn(&rp, 4);
    if (a) { static const int E[] = {0, ENOENT, EMFILE, EINTR, EACCES}; D->openfaults++; errno = E[a]; return -1; }
    if (lowfd >= 0) return lowfd;
    return FAKEFD_BASE + (int)atomic_fetch_add(&nfd, 1) % 64;
}
#define ISFAKE(fd) (((fd) >= FAKEFD_BASE && (fd) < FAKEFD_BASE + 64) || (inlib && lowfd >= 0 && (fd) == lowfd))
#define MODEARG mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int fl, ...) { MODEARG if (inlib && isdev(p)) return devopen(); return (int)raw(SYS_openat, AT_FDCWD, (long)p, fl, m, 0, 0); }
int open64(const char *p, int fl, ...) { MODEARG if (inlib && isdev(p)) return devopen(); return (int)raw(SYS_openat, AT_FDCWD, (long)p, fl, m, 0, 0); }
int openat(int d, const char *p, int fl, ...) { MODEARG if (inlib && isdev(p)) return devopen(); return (int)raw(SYS_openat, d, (long)p, fl, m, 0, 0); }
int openat64(int d, const char *p, int fl, ...) { MODEARG if (inlib && isdev(p)) return devopen(); return (int)raw(SYS_openat, d, (long)p, fl, m, 0, 0); }
int __open_2(const char *p, int fl) { return open(p, fl); }
int __open64_2(const char *p, int fl) { return open(p, fl); }
int __openat_2(int d, const char *p, int fl) { return openat(d, p, fl); }
int __openat64_2(int d, const char *p, int fl) { return openat(d, p, fl); }
ssize_t read(int fd, void *b, size_t n) { if (ISFAKE(fd)) return serve(b, n); return raw(SYS_read, fd, (long)b, (long)n, 0, 0, 0); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t cap) { if (n > cap) violation("overflow", "read of %zu bytes into an object of %zu", n, cap); return read(fd, b, n); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { if (ISFAKE(fd)) return serve(b, n); return raw(SYS_pread64, fd, (long)b, (long)n, o, 0, 0); }
int close(int fd) { if (ISFAKE(fd)) return 0; return (int)raw(SYS_close, fd, 0, 0, 0, 0, 0); }
int fstat(int fd, struct stat *st)
{
    if (!ISFAKE(fd)) return (int)raw(SYS_fstat, fd, (long)st, 0, 0, 0, 0);
    memset(st, 0, sizeof *st); st->st_mode = S_IFCHR | 0666; st->st_rdev = makedev(1, 9); return 0;
}
int fcntl(int fd, int c, ...)
{
    va_list ap; va_start(ap, c); long a = va_arg(ap, long); va_end(ap);
    return ISFAKE(fd) ? 0 : (int)raw(SYS_fcntl, fd, c, a, 0, 0, 0);
}
ssize_t getrandom(void *b, size_t n, unsigned fl) { if (inlib) return serve(b, n); return raw(SYS_getrandom, (long)b, (long)n, fl, 0, 0, 0); }
int getentropy(void *b, size_t n)
{
    if (!inlib) return raw(SYS_getrandom, (long)b, (long)n, 0, 0, 0, 0) == (long)n ? 0 : -1;
    uint8_t *p = b;
    if (n > 256) { errno = EIO; return -1; }
    int s = scripti; scripti = scriptn; // no short results from getentropy
    while (n) { ssize_t r = serve(p, n); if (r > 0) { p += r; n -= (size_t)r; } }
    scripti = s < scriptn ? scriptn : s;
    return 0;
}
long syscall(long nr, ...)
{
    long a[6]; va_list ap; va_start(ap, nr);
    for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
    va_end(ap);
    if (inlib && nr == SYS_getrandom) return serve((uint8_t *)a[0], (size_t)a[1]);
    if (nr == SYS_read && ISFAKE(a[0])) return serve((uint8_t *)a[1], (size_t)a[2]);
    if (inlib && nr == SYS_openat && isdev((const char *)a[1])) return devopen();
    if (inlib && nr == SYS_open && isdev((const char *)a[0])) return devopen();
    return raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}
static ssize_t ck_read(void *c, char *b, size_t n) { (void)c; return serve((uint8_t *)b, n); }
FILE *fopen(const char *p, const char *mode)
{
    if (inlib && isdev(p)) { if (devopen() < 0) return NULL; cookie_io_functions_t io = {ck_read, NULL, NULL, NULL}; return fopencookie(NULL, mode, io); }
    static FILE *(*real)(const char *, const char *);
    if (!real) real = (FILE *(*)(const char *, const char *))dlsym(RTLD_NEXT, "fopen");
    return real(p, mode);
}
FILE *fopen64(const char *p, const char *mode) { return fopen(p, mode); }

static uint64_t ncalls, nbytes, nscen, nmatch_exact, nmatch_search;
static hset scen;
// marks len stream bytes from pos as handed out; 0 if one was already
static int claim(uint64_t pos, uint64_t len)
{
    for (uint64_t i = 0; i < len; i++) if (__atomic_exchange_n(&used[pos + i], 1, __ATOMIC_RELAXED)) return 0;
    return 1;
}
static int account(const uint8_t *b, size_t n, const char *what)
{
    uint64_t tot = 0; int exact = 1; size_t o = 0;
    for (int i = 0; i < dlogn; i++) tot += dlog[i].len;
    if (tot == n) {
        for (int i = 0; i < dlogn && exact; i++) for (uint64_t k = 0; k < dlog[i].len; k++, o++) if (b[o] != sbyte(dlog[i].pos + k)) { exact = 0; break; }
    } else exact = 0;
    if (exact) {
        __atomic_add_fetch(&nmatch_exact, 1, __ATOMIC_RELAXED);
        for (int i = 0; i < dlogn; i++) if (!claim(dlog[i].pos, dlog[i].len)) { violation("reuse", "%s: a device byte was handed out twice", what); return 0; }
        return 1;
    }
    // not what this call read, in order: look for the bytes anywhere in what the device has served and was not yet handed out
    __atomic_add_fetch(&nmatch_search, 1, __ATOMIC_RELAXED);
    uint64_t end = D->pos, lo = end > (4u << 20) ? end - (4u << 20) : 0;
    for (o = 0; o < n;) {
        uint64_t best = 0, bp = 0;
        for (uint64_t p = lo; p < end; p++) {
            if (used[p] || sbyte(p) != b[o]) continue;
            uint64_t l = 1;
            while (o + l < n && p + l < end && !used[p + l] && sbyte(p + l) == b[o + l]) l++;
            if (l > best) { best = l; bp = p; if (o + l == n) break; }
        }
        if (best < 4 && best < n - o) {
            char hex[80] = ""; hexcat(hex, sizeof hex, b + o, n - o < 16 ? n - o : 16);
            int old = 0; for (uint64_t p = lo; p + 8 <= end && o + 8 <= n; p++) { int k = 0; while (k < 8 && sbyte(p + (uint64_t)k) == b[o + (size_t)k]) k++; if (k == 8) { old = 1; break; } }
            violation(old ? "reuse" : "notfresh", "%s: bytes at offset %zu of %zu (%s) are %s", what, o, n, hex, old ? "device bytes that were handed out before" : "not bytes the random device delivered");
            return 0;
        }
        if (best == 0) { violation("notfresh", "%s: byte at offset %zu of %zu is not from the random device", what, o, n); return 0; }
        claim(bp, best);
        o += best;
    }
    return 1;
}
static uint8_t *GP; static size_t GPN; // a region ending at an inaccessible page
static void describe(char *out, size_t cap)
{
    out[0] = 0;
    if (lowfd >= 0) snprintf(out, cap, "device opens as descriptor %d; ", lowfd);
    if (ostreak) snprintf(out + strlen(out), cap - strlen(out), "%ld opens fail; ", ostreak);
    if (streak) snprintf(out + strlen(out), cap - strlen(out), "%ld times read %s; ", streak, ANAME[streak_act]);
    for (int i = 0; i < oscriptn; i++) { size_t l = strlen(out); snprintf(out + l, cap - l, "open fails; "); }
    for (int i = 0; i < scriptn; i++) { size_t l = strlen(out); snprintf(out + l, cap - l, "read %s; ", ANAME[script[i]]); }
}
// one call of n bytes under the current script: buffer flush against an inaccessible page, canary in front
static int one(size_t n, int fill)
{
    char w[512]; describe(w, sizeof w);
    uint8_t *b = GP + GPN - n;
    size_t pre = GPN - n < 64 ? GPN - n : 64;
    memset(b - pre, 0xA5, pre); memset(b, fill, n);
    dlogn = 0;
    inlib = 1; int rc = randombytes(b, n); inlib = 0;
    __atomic_add_fetch(&ncalls, 1, __ATOMIC_RELAXED); __atomic_add_fetch(&nbytes, n, __ATOMIC_RELAXED);
    char what[700]; snprintf(what, sizeof what, "randombytes(%zu) under [%s]", n, w);
    if (rc != 0) { violation("gaveup", "%s: reported failure although the device recovers", what); return 0; }
    for (size_t i = 0; i < pre; i++) if ((b - pre)[i] != 0xA5) { violation("outside", "%s: wrote before the buffer", what); return 0; }
    return account(b, n, what);
}
static void *thr(void *arg)
{
    long id = (long)arg;
    rp = prng_mk(77, (uint64_t)id); randact = 1;
    prng p = prng_mk(78, (uint64_t)id);
    uint8_t b[600 + 16];
    for (int k = 0; k < 400; k++) {
        size_t n = rndn(&p, 600);
        memset(b, 0x5a, sizeof b); dlogn = 0;
        inlib = 1; int rc = randombytes(b, n); inlib = 0;
        __atomic_add_fetch(&ncalls, 1, __ATOMIC_RELAXED); __atomic_add_fetch(&nbytes, n, __ATOMIC_RELAXED);
        if (rc) { violation("gaveup", "randombytes(%zu) in a thread reported failure although the device recovers", n); return NULL; }
        for (int i = 0; i < 16; i++) if (b[n + (size_t)i] != 0x5a) { violation("outside", "randombytes(%zu) in a thread wrote past the buffer", n); return NULL; }
        char w[64]; snprintf(w, sizeof w, "randombytes(%zu) in thread %ld", n, id);
        if (!account(b, n, w)) return NULL;
    }
    return NULL;
}
static void setup(uint64_t seed)
{
    D = mmap(NULL, sizeof *D, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    used = mmap(NULL, STREAM_MAX, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    D->key = seed * 0x5851f42d4c957f2dULL + 1;
    GPN = 4u << 20;
    GP = mmap(NULL, GPN + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(GP + GPN, 4096, PROT_NONE);
}
static void note_scen(size_t n)
{
    uint64_t h = fnv(1469598103934665603ULL, script, sizeof(int) * (size_t)scriptn);
    h = fnv(h ^ 0x55, oscript, sizeof(int) * (size_t)oscriptn); h = fnv(h, &n, sizeof n);
    hset_add(&scen, h); nscen++;
}

int main(int argc, char **argv)
{
    const char *mode = argv[1];
    uint64_t seed = strtoull(argv[2], 0, 10); int depth = atoi(argv[3]);
    setup(seed);
    prng p = prng_mk(seed, 12);
    if (!strcmp(mode, "lengths")) {
        int fill = 0;
        for (int f = 0; f < A_N; f++) for (size_t n = 0; n <= (size_t)depth; n++) {
            scriptn = f ? 1 : 0; script[0] = f; scripti = 0;
            note_scen(n);
            if (!one(n, fill ^= 0xff)) return 0;
        }
        size_t big[] = {4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 131071, 131072, 262145, 1048575, 1048576, 1048577, 4194300};
        for (int i = 0; i < (int)(sizeof big / sizeof *big); i++) for (int f = 0; f < A_N; f++) {
            if (D->pos + 3 * big[i] > STREAM_MAX) break;
            scriptn = f ? 2 : 0; script[0] = f; script[1] = A_HALF; scripti = 0; note_scen(big[i]);
            if (!one(big[i], fill ^= 0xff)) return 0;
        }
    } else if (!strcmp(mode, "faults")) { // every fault sequence up to the given length, then random longer ones
        size_t lens[] = {1, 2, 3, 16, 32, 48, 64, 65, 80, 200};
        long total = 1;
        for (int d = 0; d < depth; d++) total *= A_N;
        for (int d = 1, cnt = A_N; d <= depth; d++, cnt *= A_N)
            for (int c = 0; c < cnt; c++) {
                size_t n = lens[(size_t)c % (sizeof lens / sizeof *lens)];
                int v = c; scriptn = d; scripti = 0;
                for (int i = 0; i < d; i++, v /= A_N) script[i] = v % A_N;
                note_scen(n);
                if (!one(n, c & 255)) return 0;
            }
        for (int k = 0; k < 3000; k++) {
            scriptn = 5 + (int)rndn(&p, 50); scripti = 0;
            int only = rndn(&p, 2) ? -1 : (int)rndn(&p, A_N);
            for (int i = 0; i < scriptn; i++) script[i] = only >= 0 && rndn(&p, 8) ? only : (int)rndn(&p, A_N);
            size_t n = rndn(&p, 300); note_scen(n);
            if (!one(n, k & 255)) return 0;
        }
    } else if (!strcmp(mode, "opens")) { // the first call of a process, in forked children
        int depth4 = 1;
        for (int i = 0; i < depth; i++) depth4 *= 4;
        for (int d = 0, cnt = 4; d <= depth; d++, cnt *= 4) for (int c = 0; c < cnt; c++) {
            int v = c / 4; oscriptn = d; oscripti = 0;
            for (int i = 0; i < d; i++, v /= 4) oscript[i] = 1 + v % 4;
            scriptn = (int)rndn(&p, 3); scripti = 0;
            for (int i = 0; i < scriptn; i++) script[i] = (int)rndn(&p, A_N);
            size_t n = 1 + rndn(&p, 300); note_scen(n);
            fflush(stdout);
            pid_t pid = fork();
            if (!pid) { lowfd = c % 4 < 3 ? c % 4 : -1; alarm(60); int ok = one(n, 0x33); scriptn = 0; ok = ok && one(40, 0x44); fflush(stdout); _exit(ok ? 0 : 1); }
            int st; waitpid(pid, &st, 0);
            ncalls += 2; nbytes += n + 40;
            if (WIFSIGNALED(st)) { char w[512]; describe(w, sizeof w); violation(WTERMSIG(st) == SIGALRM ? "hang" : "crash", "randombytes(%zu) under [%s]: killed by signal %d", n, w, WTERMSIG(st)); return 0; }
            if (st) return 0;
        }
        (void)depth4;
    } else if (!strcmp(mode, "long")) { // long outages, and many calls
        static const long L[] = {7, 8, 9, 10, 11, 15, 16, 17, 20, 25, 30, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 512, 999, 1000, 1001, 1024, 1025, 2000, 3000, 4097, 10000, 32769, 65537};
        for (int i = 0; i < (int)(sizeof L / sizeof *L) && L[i] <= 600 * depth; i++) { // the first call of a process
            ostreak = L[i]; ostreak_act = 1 + i % 4; note_scen(1000000 + (size_t)L[i]);
            fflush(stdout);
            pid_t pid = fork();
            if (!pid) { alarm(200); int ok = one(77, 0x33); ok = ok && one(40, 0x44); fflush(stdout); _exit(ok ? 0 : 1); }
            int st; waitpid(pid, &st, 0); ncalls += 2;
            if (WIFSIGNALED(st)) { char w[512]; describe(w, sizeof w); violation(WTERMSIG(st) == SIGALRM ? "hang" : "crash", "randombytes(77) under [%s]: killed by signal %d", w, WTERMSIG(st)); return 0; }
            if (st) return 0;
        }
        ostreak = 0;
        for (int i = 0; i < (int)(sizeof L / sizeof *L); i++) for (int a = A_ONE; a < A_N; a++) {
            if (a == A_HALF || a == A_LESS1 || (L[i] > 2000 * depth && a != A_EINTR) || L[i] > 12000 * depth) continue;
            size_t n = a == A_ONE ? (size_t)L[i] + 20 : 1 + rndn(&p, 300);
            streak = L[i]; streak_act = a; scriptn = 2; scripti = 0; script[0] = A_HALF; script[1] = A_EAGAIN;
            note_scen(n * 16 + (size_t)a);
            if (!one(n, 0x21 + a)) return 0;
        }
        streak = 0; scriptn = 0;
        for (long k = 0; k < 150000L * depth; k++) { if (!one(1 + (size_t)(k * 7 % 61), (int)k)) return 0; nscen++; }
    } else if (!strcmp(mode, "fork")) { // bytes of parent and children never coincide, wherever the fork falls
        for (int k = 0; k < depth; k++) {
            int pre = (int)rndn(&p, 4), par = (int)rndn(&p, 3), kids = 1 + (int)rndn(&p, 4);
            size_t n = 1 + rndn(&p, 512);
            if (k == 0) pre = 0;
            scriptn = 0; oscriptn = 0;
            for (int i = 0; i < pre; i++) if (!one(1 + rndn(&p, 200), 1)) return 0;
            fflush(stdout);
            pid_t pid[4];
            for (int j = 0; j < kids; j++) {
                pid[j] = fork();
                if (!pid[j]) {
                    rp = prng_mk(seed + (uint64_t)k, (uint64_t)j); randact = 1;
                    dlogn = 0;
                    inlib = 1; int rc = randombytes(D->out[j], n); inlib = 0;
                    D->rc[j] = rc;
                    char w[64]; snprintf(w, sizeof w, "randombytes(%zu) in forked child %d", n, j);
                    int ok = rc == 0 && account(D->out[j], n, w);
                    fflush(stdout); _exit(ok ? 0 : 1);
                }
            }
            for (int i = 0; i < par; i++) if (!one(n, 2)) return 0;
            int bad = 0;
            for (int j = 0; j < kids; j++) { int st; waitpid(pid[j], &st, 0); if (st) { bad = 1; if (WIFSIGNALED(st)) violation("crash", "forked child killed by signal %d", WTERMSIG(st)); else if (D->rc[j]) violation("gaveup", "randombytes in a forked child reported failure"); } ncalls++; nbytes += n; }
            if (bad) return 0;
            if (n >= 16) for (int i = 0; i < kids; i++) for (int j = 0; j < i; j++) if (!memcmp(D->out[i], D->out[j], n)) { violation("reuse", "two forked processes got the same %zu random bytes", n); return 0; }
            scriptn = pre; oscriptn = par; note_scen(n * 8 + (size_t)kids); scriptn = oscriptn = 0;
        }
    } else if (!strcmp(mode, "threads")) {
        int T = 16; pthread_t t[16];
        for (int r = 0; r < depth; r++) {
            for (long i = 0; i < T; i++) pthread_create(&t[i], NULL, thr, (void *)(i + r * 100 + (long)seed * 10000));
            for (int i = 0; i < T; i++) pthread_join(t[i], NULL);
            if (VIOLATIONS) return 0;
            nscen += (uint64_t)T;
        }
        for (uint64_t i = 0; i < nscen; i++) hset_add(&scen, i + 1);
    } else if (!strcmp(mode, "huge")) { // requests past the 31- and 32-bit limits
        HUGE_MODE = 1;
        uint64_t lens[] = {(1ull << 31) + 5, (1ull << 32) + 7, (1ull << 31) - 1, 1ull << 32, (1ull << 31)};
        for (int i = 0; i < depth && i < 5; i++) {
            uint64_t n = lens[i];
            uint8_t *m = mmap(NULL, n + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (m == MAP_FAILED) { fprintf(stderr, "no address space\n"); return 3; }
            uint8_t *b = m + 16; m[15] = b[n] = 0x77;
            uint64_t p0 = D->pos; dlogn = 0;
            scriptn = i == 0 ? 0 : 3; script[0] = A_EINTR; script[1] = A_HALF; script[2] = A_LESS1; scripti = 0;
            note_scen(n);
            inlib = 1; int rc = randombytes(b, n); inlib = 0;
            ncalls++; nbytes += n;
            if (rc != 0) { munmap(m, n + 8192); continue; } // refusing is honest
            if (m[15] != 0x77 || b[n] != 0x77) violation("outside", "randombytes(%llu) wrote outside the buffer", (unsigned long long)n);
            uint64_t bad = n;
            for (uint64_t k = 0; k < n; k += (k & 4095) < 4000 && k > 65536 && k + 65536 < n ? 61 : 1) if (b[k] != sbyte(p0 + k)) { bad = k; break; }
            if (bad < n) violation("short", "randombytes(%llu) reported success but byte %llu (device served %llu bytes) is not the fresh device byte", (unsigned long long)n, (unsigned long long)bad, (unsigned long long)(D->pos - p0));
            munmap(m, n + 8192);
        }
    } else if (!strcmp(mode, "kem")) { // the API on top of a faulty device: keys and ciphertexts must be those of the stream bytes
        oracle *o = or_new(SIZE, atoi(argv[4]), 0); or_inter *t = or_inter_new(o);
        uint8_t *pk = malloc(o->pkb), *sk = malloc(o->skb), *ct = malloc(o->ctb), ss[32], ss2[32];
        uint8_t *pk2 = malloc(o->pkb), *sk2 = malloc(o->skb), *ct2 = malloc(o->ctb), rb[256];
        for (int k = 0; k < depth; k++) {
            for (int op = 0; op < 3; op++) {
                scriptn = 1 + (int)rndn(&p, 12); scripti = 0;
                for (int i = 0; i < scriptn; i++) script[i] = (int)rndn(&p, A_N);
                oscriptn = k == 0 && op == 0 ? 3 : 0; oscripti = 0; oscript[0] = 1; oscript[1] = 3; oscript[2] = 2;
                note_scen((size_t)op);
                uint64_t d0 = D->pos; dlogn = 0; inlib = 1;
                int rc = op == 0 ? CAT(crypto_kem_keypair_Frodo, SIZE)(pk, sk) : op == 1 ? CAT(crypto_kem_enc_Frodo, SIZE)(ct, ss, pk) : CAT(crypto_kem_dec_Frodo, SIZE)(ss2, ct, sk);
                inlib = 0; ncalls++;
                size_t want = op == 0 ? o->rnd_key : op == 1 ? o->rnd_enc : 0, got = 0;
                if (rc) { violation("gaveup", "operation %d reported failure although the device recovers", op); return 0; }
                for (int i = 0; i < dlogn; i++) for (uint64_t q = 0; q < dlog[i].len && got < 256; q++) rb[got++] = sbyte(dlog[i].pos + q);
                if (got < want || (op == 2 && D->pos != d0)) { violation("draw", "operation %d drew %zu bytes from the device, %zu needed", op, got, want); return 0; }
                for (int i = 0; i < dlogn; i++) claim(dlog[i].pos, dlog[i].len);
                nbytes += got;
                if (op == 0) { or_keypair(o, rb, pk2, sk2, t); if (memcmp(pk, pk2, o->pkb) || memcmp(sk, sk2, o->skb)) { violation("kem", "the key pair is not the one of the %zu device bytes delivered during the call", got); return 0; } }
                if (op == 1) { or_enc(o, pk, rb, ct2, ss2, t); if (memcmp(ct, ct2, o->ctb) || memcmp(ss, ss2, (size_t)o->cb)) { violation("kem", "the ciphertext is not the one of the %zu device bytes delivered during the call", got); return 0; } }
                if (op == 2 && memcmp(ss, ss2, (size_t)o->cb)) { violation("kem", "decapsulation disagrees"); return 0; }
            }
        }
    } else return 3;
    stat_out("\"evaluations\":%llu,\"distinct\":%llu,\"scenarios\":%llu,\"bytes_checked\":%llu,\"device_reads\":%llu,\"device_faults\":%llu,\"device_opens\":%llu,\"open_faults\":%llu,\"max_requested\":%llu,\"exact_matches\":%llu,\"search_matches\":%llu",
             (unsigned long long)ncalls, (unsigned long long)scen.n, (unsigned long long)nscen, (unsigned long long)nbytes, (unsigned long long)D->reads, (unsigned long long)D->faults,
             (unsigned long long)D->opens, (unsigned long long)D->openfaults, (unsigned long long)D->pos, (unsigned long long)nmatch_exact, (unsigned long long)nmatch_search);
    sample_out("%s: %llu scripted scenarios, %llu device reads (%llu faulty), %llu opens (%llu failing)", mode, (unsigned long long)nscen, (unsigned long long)D->reads, (unsigned long long)D->faults, (unsigned long long)D->opens, (unsigned long long)D->openfaults);
    return 0;
}

// C13: the API under a failing random source, a failing crypto provider and failing allocations. Every call position is made to fail
// in turn; each operation runs in a forked child, and must return non-zero or abort - never success (for allocations, which
// the provider may survive: never success with a wrong result).
#include "gen.h"
#include <openssl/evp.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

static __thread int inlib;
static long evp_calls, evp_fail = -1, evp_mode;   // counts every interposed provider call
static char evp_name[64];
static long mal_calls, mal_fail = -1, mal_span = 1;

// the random source: fails with the given code at given positions, otherwise serves the stream
static int rb_code = 1, rb_partial, rb_transient = 0;
static uint8_t served[4096]; static size_t nserved; // bytes of successful calls
int randombytes(unsigned char *out, unsigned long long n)
{
    int call = RS.calls++;
    if (RS.fail_at >= 0 && (rb_transient ? call == RS.fail_at : call >= RS.fail_at)) {
        if (rb_partial) for (unsigned long long i = 0; i < (rb_partial == 2 ? n : n / 2); i++) out[i] = (uint8_t)(RS.buf[(RS.pos + i) % RS.len]);
        return rb_code;
    }
    for (unsigned long long i = 0; i < n; i++) { out[i] = RS.buf[RS.pos++ % RS.len]; if (nserved < sizeof served) served[nserved++] = out[i]; }
    return 0;
}

#define REAL(ret, name, args) static ret(*real) args; if (!real) real = (ret(*) args)dlsym(RTLD_NEXT, #name);
static int failing(const char *name)
{
    if (!inlib) return 0;
    if (evp_calls++ != evp_fail) return 0;
    snprintf(evp_name, sizeof evp_name, "%s", name);
    return 1;
}
EVP_CIPHER_CTX *EVP_CIPHER_CTX_new(void) { REAL(EVP_CIPHER_CTX *, EVP_CIPHER_CTX_new, (void)) if (failing("EVP_CIPHER_CTX_new")) return NULL; return real(); }
#define IA (EVP_CIPHER_CTX * c, const EVP_CIPHER *t, ENGINE *e, const unsigned char *k, const unsigned char *iv)
int EVP_EncryptInit_ex IA { REAL(int, EVP_EncryptInit_ex, (EVP_CIPHER_CTX *, const EVP_CIPHER *, ENGINE *, const unsigned char *, const unsigned char *)) int f = failing("EVP_EncryptInit_ex"); if (f && !evp_mode) return 0; int r = real(c, t, e, k, iv); return f ? 0 : r; }
int EVP_CipherInit_ex(EVP_CIPHER_CTX *c, const EVP_CIPHER *t, ENGINE *e, const unsigned char *k, const unsigned char *iv, int enc) { REAL(int, EVP_CipherInit_ex, (EVP_CIPHER_CTX *, const EVP_CIPHER *, ENGINE *, const unsigned char *, const unsigned char *, int)) if (failing("EVP_CipherInit_ex")) return 0; return real(c, t, e, k, iv, enc); }
int EVP_EncryptInit(EVP_CIPHER_CTX *c, const EVP_CIPHER *t, const unsigned char *k, const unsigned char *iv) { REAL(int, EVP_EncryptInit, (EVP_CIPHER_CTX *, const EVP_CIPHER *, const unsigned char *, const unsigned char *)) if (failing("EVP_EncryptInit")) return 0; return real(c, t, k, iv); }
int EVP_EncryptInit_ex2(EVP_CIPHER_CTX *c, const EVP_CIPHER *t, const unsigned char *k, const unsigned char *iv, const OSSL_PARAM p[]) { REAL(int, EVP_EncryptInit_ex2, (EVP_CIPHER_CTX *, const EVP_CIPHER *, const unsigned char *, const unsigned char *, const OSSL_PARAM *)) if (failing("EVP_EncryptInit_ex2")) return 0; return real(c, t, k, iv, p); }
#define UA (EVP_CIPHER_CTX * c, unsigned char *o, int *ol, const unsigned char *i, int il)
int EVP_EncryptUpdate UA { REAL(int, EVP_EncryptUpdate, (EVP_CIPHER_CTX *, unsigned char *, int *, const unsigned char *, int)) int f = failing("EVP_EncryptUpdate"); if (f && evp_mode == 0) { if (ol) *ol = 0; return 0; } int r = real(c, o, ol, i, f && evp_mode == 2 && il >= 32 ? il / 32 * 16 : il); return f ? 0 : r; }
int EVP_CipherUpdate UA { REAL(int, EVP_CipherUpdate, (EVP_CIPHER_CTX *, unsigned char *, int *, const unsigned char *, int)) if (failing("EVP_CipherUpdate")) return 0; return real(c, o, ol, i, il); }
int EVP_EncryptFinal_ex(EVP_CIPHER_CTX *c, unsigned char *o, int *ol) { REAL(int, EVP_EncryptFinal_ex, (EVP_CIPHER_CTX *, unsigned char *, int *)) if (failing("EVP_EncryptFinal_ex")) return 0; return real(c, o, ol); }
void *malloc(size_t n)
{
    extern void *__libc_malloc(size_t);
    if (inlib) { long k = mal_calls++; if (mal_fail >= 0 && k >= mal_fail && k < mal_fail + mal_span) return NULL; }
    return __libc_malloc(n);
}

static impl m; static oracle *o; static or_inter *t;
static uint8_t *pk, *sk, *ct, ss[32], *pk1, *sk1, *ct1, ss1[32], *pk2, *sk2, *ct2, ss2[32], rnd[256];
typedef struct { long evp, mal; int rc, same, calls; char name[64]; } report;
static report *R;
static const char *OPN[] = {"keypair", "enc", "dec"};

// runs the operation in a child; returns the wait status
static int child(int op)
{
    memset(R, 0, sizeof *R); R->rc = -999;
    fflush(stdout);
    pid_t pid = fork();
    if (!pid) {
        FILE *f = freopen("/dev/null", "w", stderr); (void)f;
        alarm(30);
        int fa = RS.fail_at; rs_set(rnd, sizeof rnd); RS.fail_at = fa; nserved = 0;
        evp_calls = mal_calls = 0; inlib = 1;
        int rc = op == 0 ? m.keypair(pk1, sk1) : op == 1 ? m.enc(ct1, ss1, pk) : m.dec(ss1, ct, sk);
        inlib = 0;
        mal_fail = -1;
        R->rc = rc; R->evp = evp_calls; R->mal = mal_calls; R->calls = RS.calls;
        memcpy(R->name, evp_name, sizeof evp_name);
        // is the result the correct one for the bytes the random source really delivered?
        if (op == 0) { or_keypair(o, served, pk2, sk2, t); R->same = nserved >= o->rnd_key && !memcmp(pk1, pk2, o->pkb) && !memcmp(sk1, sk2, o->skb); }
        if (op == 1) { or_enc(o, pk, served, ct2, ss2, t); R->same = nserved >= o->rnd_enc && !memcmp(ct1, ct2, o->ctb) && !memcmp(ss1, ss2, (size_t)o->cb); }
        if (op == 2) R->same = !memcmp(ss1, ss, (size_t)o->cb);
        _exit(0);
    }
    int st; waitpid(pid, &st, 0);
    return st;
}
static long ev, aborted, errored, survived, timeouts, npos;
// judge one faulty run. correct_ok: success with the correct result is acceptable
static int judge(int op, int st, int correct_ok, int crash_ok, const char *what)
{
    ev++; npos++;
    if (WIFSIGNALED(st)) {
        int s = WTERMSIG(st);
        if (s == SIGALRM) { timeouts++; return 1; }
        if (s == SIGABRT || crash_ok) { aborted++; return 1; }
        violation("crash", "%s with %s: the process died with signal %d instead of reporting the failure", OPN[op], what, s);
        return 0;
    }
    if (WEXITSTATUS(st) != 0 || R->rc == -999) { aborted++; return 1; } // exit()
    if (R->rc != 0) { errored++; return 1; }
    if (correct_ok && R->same) { survived++; return 1; }
    violation("success", "%s with %s returned success%s", OPN[op], what, correct_ok ? " with a wrong result" : "");
    return 0;
}

int main(int argc, char **argv)
{
    m = impl_load(argv[1], atoi(argv[2]));
    int shake = !strcmp(argv[3], "shake"); uint64_t seed = strtoull(argv[4], 0, 10); int stride = atoi(argv[5]);
    o = or_new(m.n, shake, 0); t = or_inter_new(o);
    pk = malloc(o->pkb); pk1 = malloc(o->pkb); pk2 = malloc(o->pkb); sk = malloc(o->skb); sk1 = malloc(o->skb); sk2 = malloc(o->skb);
    ct = malloc(o->ctb); ct1 = malloc(o->ctb); ct2 = malloc(o->ctb);
    R = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    prng p = prng_mk(seed, 13);
    rndbuf(&p, rnd, sizeof rnd); or_keypair(o, rnd, pk, sk, t);
    rndbuf(&p, rnd, 32); or_enc(o, pk, rnd, ct, ss, t);
    rndbuf(&p, rnd, sizeof rnd);
    RS.fail_at = -1;
    long total[3], mtotal[3]; int rcalls[3];
    for (int op = 0; op < 3; op++) { // fault-free runs: how many provider calls, allocations and draws there are
        int st = child(op);
        if (!WIFEXITED(st) || WEXITSTATUS(st) || R->rc || !R->same) { fprintf(stderr, "fault-free %s failed: status %d rc %d same %d\n", OPN[op], st, R->rc, R->same); return R->rc == 0 && WIFEXITED(st) ? 0 * printf("{\"ev\":\"violation\",\"key\":\"baseline\",\"detail\":\"%s without any fault gives a wrong result\"}\n", OPN[op]) : 3; }
        total[op] = R->evp; mtotal[op] = R->mal; rcalls[op] = R->calls;
    }
    char w[300];
    // the random source
    static const int codes[] = {1, -1, 2, 255, 256, 512, 65536, -256, 0x7fffffff, (int)0x80000000};
    for (int op = 0; op < 2; op++)
        for (int at = 0; at < rcalls[op]; at++) for (int ci = 0; ci < 10; ci++) for (int part = 0; part < 3; part++) for (int tr = 0; tr < 2; tr++) {
            RS.fail_at = at; rb_code = codes[ci]; rb_partial = part; rb_transient = tr;
            snprintf(w, sizeof w, "the random source returning %d on draw %d%s%s", codes[ci], at, part ? " after filling (part of) the buffer" : "", tr ? " once" : "");
            if (!judge(op, child(op), tr, 0, w)) goto out;
        }
    RS.fail_at = -1;
    // the crypto provider: every call position, three ways of failing
    for (int op = 0; op < 3; op++)
        for (long k = 0; k < total[op]; k += (k >= 6 && k + 6 < total[op]) ? stride : 1) for (evp_mode = 0; evp_mode < 3; evp_mode++) {
            evp_fail = k;
            int st = child(op);
            snprintf(w, sizeof w, "the crypto provider failing at call %ld of %ld (mode %ld)", k, total[op], evp_mode);
            if (!judge(op, st, 0, 0, w)) goto out;
        }
    evp_fail = -1; evp_mode = 0;
    // allocations, one at a time and from one point on
    for (int op = 0; op < 3; op++)
        for (long k = 0; k < mtotal[op] + 1 && k < 400; k++) for (int all = 0; all < 2; all++) {
            mal_fail = k; mal_span = all ? 1L << 40 : 1;
            int st = child(op);
            snprintf(w, sizeof w, "allocation %ld of %ld failing%s", k, mtotal[op], all ? " and all later ones" : "");
            if (!judge(op, st, 1, 1, w)) goto out;
        }
out:
    stat_out("\"evaluations\":%ld,\"distinct\":%ld,\"aborted\":%ld,\"error_returned\":%ld,\"survived_correctly\":%ld,\"timeouts\":%ld,\"provider_call_positions\":%ld,\"allocation_positions\":%ld,\"draw_positions\":%d", ev, npos, aborted, errored, survived, timeouts,
             total[0] + total[1] + total[2], mtotal[0] + mtotal[1] + mtotal[2], rcalls[0] + rcalls[1]);
    sample_out("%s: %ld+%ld+%ld provider calls, %ld faulty runs: %ld aborted, %ld returned an error, %ld survived with the correct result", argv[2], total[0], total[1], total[2], ev, aborted, errored, survived);
    return 0;
}

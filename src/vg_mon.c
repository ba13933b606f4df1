// memcheck taint monitor on production builds: secrets are marked undefined; memcheck reports branches and addresses
// that depend on them. usage (under valgrind): vg_mon LIB.so N SEED ITERS
#include "common.h"
#include <valgrind/memcheck.h>
__thread rstream RS; long VIOLATIONS;
static int op; static size_t CB; static uint8_t rb[128]; static size_t rpos;
int randombytes(unsigned char *out, unsigned long long n)
{
    for (unsigned long long i = 0; i < n; i++, rpos++) {
        out[i] = rb[rpos % 128];
        if (op == 1 || rpos < 2 * CB) VALGRIND_MAKE_MEM_UNDEFINED(out + i, 1);
    }
    return 0;
}
int main(int argc, char **argv)
{
    int n = atoi(argv[2]); uint64_t seed = strtoull(argv[3], 0, 0); long iters = atol(argv[4]), evals = 0;
    size_t lq = n == 640 ? 15 : 16, pkb = 16 + lq * (size_t)n, ctb = lq * ((size_t)n + 8), skb; CB = n == 640 ? 16 : n == 976 ? 24 : 32;
    skb = 2 * CB + pkb + 16 * (size_t)n;
    impl M = impl_load(argv[1], n);
    uint8_t *pk = malloc(pkb), *sk = malloc(skb), *ct = malloc(ctb), *ss = malloc(CB);
    if (!RUNNING_ON_VALGRIND) return 3;
    setvbuf(stdout, NULL, _IOLBF, 0);
    for (long it = 0; it < iters; it++) {
        prng P = prng_mk(seed, (uint64_t)it);
        rndbuf(&P, rb, 128); op = 0; rpos = 0; unsigned e0 = VALGRIND_COUNT_ERRORS, e;
        static const char *N[] = {"key generation", "encapsulation", "decapsulation (genuine)", "decapsulation (altered)", "decapsulation (other key)"};
        M.keypair(pk, sk); VALGRIND_MAKE_MEM_DEFINED(pk, pkb); VALGRIND_MAKE_MEM_DEFINED(sk, skb);
        for (int s = 0; s < 5; s++) {
            if (s == 1) { op = 1; rpos = 0; rndbuf(&P, rb, 128); M.enc(ct, ss, pk); VALGRIND_MAKE_MEM_DEFINED(ct, ctb); VALGRIND_MAKE_MEM_DEFINED(ss, CB); }
            if (s >= 2) {
                op = 2;
                if (s == 3) ct[rndn(&P, (uint32_t)ctb)] ^= (uint8_t)(1u << rndn(&P, 8));
                if (s == 4) { rndbuf(&P, sk + CB + pkb, 16 * (size_t)n); rndbuf(&P, sk, CB); }
                VALGRIND_MAKE_MEM_UNDEFINED(sk, CB); VALGRIND_MAKE_MEM_UNDEFINED(sk + CB + pkb, 16 * (size_t)n);
                M.dec(ss, ct, sk);
                VALGRIND_MAKE_MEM_DEFINED(sk, skb); VALGRIND_MAKE_MEM_DEFINED(ss, CB);
            }
            evals++;
            e = VALGRIND_COUNT_ERRORS;
            if (e != e0) { violation("secret-dependent", "%s: memcheck reports %u secret-dependent branch(es) or address(es) in the production build (n=%d lib=%s)", N[s], e - e0, n, argv[1]); e0 = e; }
        }
    }
    stat_out("\"evaluations\":%ld,\"distinct\":%ld,\"memcheck_calls\":%ld", evals, evals, evals);
    return 0;
}

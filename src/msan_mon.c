// MemorySanitizer monitor (no uninstrumented dependency). usage: msan_mon def|taint N SEED ITERS
//  def:   outputs are poisoned before each call and must be fully defined after it; any use of undefined data in a
//         branch or address is reported by MemorySanitizer itself
//  taint: secrets are poisoned (marked undefined), so MemorySanitizer reports any branch, address or divisor that
//         depends on them; outputs are then released for inspection
#include "common.h"
#include <sanitizer/msan_interface.h>
#ifndef SIZE
#error SIZE
#endif
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
int CAT(crypto_kem_keypair_Frodo, SIZE)(unsigned char *pk, unsigned char *sk);
int CAT(crypto_kem_enc_Frodo, SIZE)(unsigned char *ct, unsigned char *ss, const unsigned char *pk);
int CAT(crypto_kem_dec_Frodo, SIZE)(unsigned char *ss, const unsigned char *ct, const unsigned char *sk);
#define LOGQ (SIZE == 640 ? 15 : 16)
#define CB (SIZE == 640 ? 16 : SIZE == 976 ? 24 : 32)
#define PKB (16 + LOGQ * SIZE)
#define CTB (LOGQ * SIZE + LOGQ * 8)
#define SKB (CB + PKB + 16 * SIZE + CB)
long VIOLATIONS;
static prng P; static int taint, op; static size_t rpos; static uint8_t rbuf[128];
int randombytes(unsigned char *out, unsigned long long n)
{
    for (unsigned long long i = 0; i < n; i++, rpos++) {
        out[i] = rbuf[rpos % 128];
        if (taint && (op == 1 || rpos < 2 * CB)) __msan_poison(out + i, 1);
    }
    return 0;
}
static long evals, calls, defbytes;
static void defined(const char *what, const char *opn, uint8_t *p, size_t n, long it)
{
    long x = __msan_test_shadow(p, n);
    if (x >= 0) { violation("undefined-output", "%s: byte %ld of %zu of the %s is not defined (n=%d iter=%ld)", opn, x, n, what, SIZE, it); __msan_unpoison(p, n); }
    defbytes += (long)n;
}
static void field(uint8_t *b, size_t n)
{
    switch (rndn(&P, 5)) { case 0: memset(b, 0, n); break; case 1: memset(b, 0xff, n); break; case 2: memset(b, 0x80, n); break; default: rndbuf(&P, b, n); }
}
int main(int argc, char **argv)
{
    taint = !strcmp(argv[1], "taint"); uint64_t seed = strtoull(argv[3], 0, 0); long iters = atol(argv[4]);
    setvbuf(stdout, NULL, _IOLBF, 0);
    for (long it = 0; it < iters; it++) {
        P = prng_mk(seed, (uint64_t)it);
        uint8_t *pk = malloc(PKB), *sk = malloc(SKB), *ct = malloc(CTB), *ss = malloc(CB), *hpk = malloc(PKB);
        field(rbuf, CB); field(rbuf + CB, CB); field(rbuf + 2 * CB, 128 - 2 * CB);
        op = 0; rpos = 0; __msan_poison(pk, PKB); __msan_poison(sk, SKB);
        printf("{\"ev\":\"at\",\"op\":\"key generation\",\"iter\":%ld}\n", it);
        CAT(crypto_kem_keypair_Frodo, SIZE)(pk, sk); calls++;
        if (!taint) { defined("public key", "key generation", pk, PKB, it); defined("secret key", "key generation", sk, SKB, it); }
        __msan_unpoison(pk, PKB); __msan_unpoison(sk, SKB);
        memcpy(hpk, pk, PKB);
        if (it % 3 == 1) field(hpk + 16, PKB - 16);
        if (it % 3 == 2) field(hpk, PKB);
        for (int e = 0; e < 2; e++) {
            field(rbuf, 128); op = 1; rpos = 0; __msan_poison(ct, CTB); __msan_poison(ss, CB);
            printf("{\"ev\":\"at\",\"op\":\"encapsulation\",\"iter\":%ld}\n", it);
            CAT(crypto_kem_enc_Frodo, SIZE)(ct, ss, e ? pk : hpk); calls++;
            if (!taint) { defined("ciphertext", "encapsulation", ct, CTB, it); defined("shared secret", "encapsulation", ss, CB, it); }
            __msan_unpoison(ct, CTB); __msan_unpoison(ss, CB);
        }
        for (int d = 0; d < 4; d++) {
            op = 2;
            if (d == 1) ct[rndn(&P, CTB)] ^= (uint8_t)(1u << rndn(&P, 8));
            if (d == 2) field(ct, CTB);
            if (d == 3) { field(sk, CB); field(sk + CB, PKB); field(sk + CB + PKB, 16 * SIZE); field(sk + CB + PKB + 16 * SIZE, CB); }
            if (taint) { __msan_poison(sk, CB); __msan_poison(sk + CB + PKB, 16 * SIZE); }
            __msan_poison(ss, CB);
            printf("{\"ev\":\"at\",\"op\":\"decapsulation\",\"iter\":%ld}\n", it);
            CAT(crypto_kem_dec_Frodo, SIZE)(ss, ct, sk); calls++;
            if (!taint) defined("shared secret", "decapsulation", ss, CB, it);
            __msan_unpoison(ss, CB); __msan_unpoison(sk, SKB);
        }
        evals += 7;
        free(pk); free(sk); free(ct); free(ss); free(hpk);
        if (VIOLATIONS > 10) break;
    }
    if (taint) sample_out("n=%d: secrets (s, seedSE, message, S) marked undefined during keygen, encaps and decaps (accepting, altered, hostile ciphertext, hostile key)", SIZE);
    else sample_out("n=%d: outputs poisoned before and tested after every call; %ld output bytes tested", SIZE, defbytes);
    stat_out("\"evaluations\":%ld,\"calls\":%ld,\"distinct\":%ld,\"output_bytes_tested\":%ld", evals, calls, evals, defbytes);
    return 0;
}

// Concurrency monitor. usage: thr_mon N aes|shake SEED THREADS ITERS own|rng
//  linked with the library: own = library with its own random source (first-use race included), round trips checked;
//  LIB given by LIBSO environment = production build, per-thread random streams, every result compared with the model.
#include "gen.h"
#include <dirent.h>
#include <pthread.h>
#include <unistd.h>
static impl M; static int n, gs, T, own; static long iters; static uint64_t SEED; static long evals, calls; static pthread_barrier_t bar; static int go;
static uint8_t *shpk, *shsk; static size_t PKB, SKB, CTB, CB; static hset HS, RB; static pthread_mutex_t mu_ = PTHREAD_MUTEX_INITIALIZER;
#ifdef LINKED
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
int CAT(crypto_kem_keypair_Frodo, SIZE)(unsigned char *pk, unsigned char *sk);
int CAT(crypto_kem_enc_Frodo, SIZE)(unsigned char *ct, unsigned char *ss, const unsigned char *pk);
int CAT(crypto_kem_dec_Frodo, SIZE)(unsigned char *ss, const unsigned char *ct, const unsigned char *sk);
int randombytes(unsigned char *buf, unsigned long long len);
long VIOLATIONS; __thread rstream RS;
#endif
static int nfds(void)
{
    int c = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return -1;
    while (readdir(d)) c++;
    closedir(d); return c;
}
static void *worker(void *a)
{
    long id = (long)(intptr_t)a; prng P = prng_mk(SEED, 77 + (uint64_t)id);
    uint8_t *pk = malloc(PKB), *sk = malloc(SKB), *ct = malloc(CTB), ss[32], ss2[32];
#ifndef LINKED
    oracle *O = or_new(n, gs, 0); or_inter *I = or_inter_new(O); uint8_t *pk2 = malloc(PKB), *sk2 = malloc(SKB), *ct2 = malloc(CTB), r[80], mu[32], ss3[32];
#endif
    long my = 0, bad = 0; uint64_t h = 1;
    pthread_barrier_wait(&bar);
    for (long it = 0; it < iters && bad < 3; it++) {
#ifdef LINKED
        M.keypair(pk, sk); my++;
        // the random source alone, from all threads at once
        if (it == 0) for (int q = 0; q < 200; q++) {
            size_t len = 16 + rndn(&P, 49); uint8_t rb[64] = {0}; int rc = randombytes(rb, len); my++;
            if (rc) { bad++; violation("concurrent-result", "thread %ld: randombytes fails (%d) when %d threads run", id, rc, T); break; }
            static const uint8_t zz[16]; uint64_t v; memcpy(&v, rb, 8);
            pthread_mutex_lock(&mu_); int dup = !hset_add(&RB, v); pthread_mutex_unlock(&mu_);
            if (dup || !memcmp(rb + len - 16, zz, 16)) { bad++; violation("concurrent-result", "thread %ld: randombytes returns %s when %d threads run", id, dup ? "bytes another call returned" : "unfilled bytes", T); break; }
        }
        for (int e = 0; e < 2; e++) {
            const uint8_t *upk = e ? shpk : pk, *usk = e ? shsk : sk;
            if (e && !__atomic_load_n(&go, __ATOMIC_ACQUIRE)) continue;
            M.enc(ct, ss, upk); M.dec(ss2, ct, usk); my += 2;
            if (memcmp(ss, ss2, CB)) { bad++; violation("concurrent-result", "thread %ld: round trip disagrees when %d threads run (n=%d)", id, T, n); }
            h = fnv(h, ct, 64);
            ct[rndn(&P, (uint32_t)CTB)] ^= 1; M.dec(ss2, ct, usk); my++;
            if (!memcmp(ss, ss2, CB)) { bad++; violation("concurrent-result", "thread %ld: altered ciphertext accepted when %d threads run (n=%d)", id, T, n); }
        }
        // thread 0 publishes one key pair for everybody
        if (id == 0 && it == 0) { memcpy(shpk, pk, PKB); memcpy(shsk, sk, SKB); __atomic_store_n(&go, 1, __ATOMIC_RELEASE); }
#else
        rndbuf(&P, r, 80); rndbuf(&P, mu, 32);
        rs_set(r, O->rnd_key); M.keypair(pk, sk); rs_set(mu, O->rnd_enc); M.enc(ct, ss, it & 1 ? shpk : pk); M.dec(ss2, ct, it & 1 ? shsk : sk); my += 3;
        or_keypair(O, r, pk2, sk2, I); or_enc(O, it & 1 ? shpk : pk2, mu, ct2, ss3, I);
        if (memcmp(pk, pk2, PKB) || memcmp(sk, sk2, SKB)) { bad++; violation("concurrent-result", "thread %ld iteration %ld: key generation gives a wrong result when %d threads run (n=%d lib=%s)", id, it, T, n, M.path); }
        else if (memcmp(ct, ct2, CTB) || memcmp(ss, ss3, CB)) { bad++; violation("concurrent-result", "thread %ld iteration %ld: encapsulation gives a wrong result when %d threads run (n=%d lib=%s)", id, it, T, n, M.path); }
        else if (memcmp(ss2, ss3, CB)) { bad++; violation("concurrent-result", "thread %ld iteration %ld: decapsulation gives a wrong result when %d threads run (n=%d lib=%s)", id, it, T, n, M.path); }
        h = fnv(h, ct, 64);
#endif
    }
    pthread_mutex_lock(&mu_); calls += my; evals += my; hset_add(&HS, h); pthread_mutex_unlock(&mu_);
    return NULL;
}
int main(int argc, char **argv)
{
    n = atoi(argv[1]); gs = !strcmp(argv[2], "shake"); SEED = strtoull(argv[3], 0, 0); T = atoi(argv[4]); iters = atol(argv[5]);
    setvbuf(stdout, NULL, _IOLBF, 0);
    size_t lq = n == 640 ? 15 : 16; CB = n == 640 ? 16 : n == 976 ? 24 : 32; PKB = 16 + lq * (size_t)n; CTB = lq * ((size_t)n + 8); SKB = 2 * CB + PKB + 16 * (size_t)n;
    shpk = malloc(PKB); shsk = malloc(SKB);
#ifdef LINKED
    M.keypair = CAT(crypto_kem_keypair_Frodo, SIZE); M.enc = CAT(crypto_kem_enc_Frodo, SIZE); M.dec = CAT(crypto_kem_dec_Frodo, SIZE); M.path = "linked";
#else
    M = impl_load(getenv("LIBSO"), n);
    { oracle *O = or_new(n, gs, 0); or_inter *I = or_inter_new(O); uint8_t r[80]; prng P = prng_mk(SEED, 1); rndbuf(&P, r, 80); or_keypair(O, r, shpk, shsk, I); } // also initialises the model before the threads start
#endif
    int f0 = nfds();
    pthread_barrier_init(&bar, NULL, (unsigned)T);
    pthread_t *t = calloc((size_t)T, sizeof *t); pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 16u << 20);
    for (long i = 0; i < T; i++) if (pthread_create(&t[i], &at, worker, (void *)(intptr_t)i)) return 3;
    for (int i = 0; i < T; i++) pthread_join(t[i], NULL);
    int f1 = nfds();
#ifdef LINKED
    if (f0 >= 0 && f1 > f0 + 1) violation("descriptor", "the random source was opened more than once: %d descriptors more than before %d concurrent first calls (n=%d)", f1 - f0, T, n);
#endif
    if (SEED % 8 == 0) sample_out("n=%d gen=%s: %d threads released together, %ld calls in all", n, argv[2], T, calls);
    stat_out("\"evaluations\":%ld,\"calls\":%ld,\"distinct\":%zu,\"threads_started\":%d", evals, calls, HS.n * 1, T);
    return 0;
}

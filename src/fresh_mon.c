// C21: what the operations do with their random bytes. modes:
//  bits   - flips every single random bit of a key generation and of an encapsulation and looks at the parts which must change
//  stream - a long mixed history fed from one stream: each call must use exactly the next bytes of it (model), decapsulation none
//  real   - the library's own source, in threads and in forked children at different points: nothing ever repeats
#include "gen.h"
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

static oracle *o; static impl m;
typedef struct { long n; uint64_t h[1 << 16]; } shm_t;
static shm_t *H;
static void put(uint64_t v) { long i = __atomic_fetch_add(&H->n, 1, __ATOMIC_SEQ_CST); if (i < (1 << 16)) H->h[i] = v; }
static int cmp64(const void *a, const void *b) { uint64_t x = *(const uint64_t *)a, y = *(const uint64_t *)b; return x < y ? -1 : x > y; }
static long REALOPS;
// the random values visible in the outputs are entered: s, the matrix seed, the public matrix; the ciphertext, the secret
static void real_ops(int k)
{
    uint8_t *pk = malloc(o->pkb), *sk = malloc(o->skb), *ct = malloc(o->ctb), ss[32], ss2[32];
    for (int i = 0; i < k; i++) {
        if (m.keypair(pk, sk)) { violation("real", "key generation failed"); break; }
        put(fnv(11, sk, (size_t)o->cb)); put(fnv(12, pk, 16)); put(fnv(13, sk + o->cb + o->pkb, (size_t)o->n * 16));
        for (int j = 0; j < 2; j++) {
            if (m.enc(ct, ss, pk)) { violation("real", "encapsulation failed"); break; }
            put(fnv(14, ct, o->ctb)); put(fnv(15, ss, (size_t)o->cb));
            if (m.dec(ss2, ct, sk) || memcmp(ss, ss2, (size_t)o->cb)) violation("real", "round trip failed");
        }
        __atomic_add_fetch(&REALOPS, 5, __ATOMIC_RELAXED);
    }
    free(pk); free(sk); free(ct);
}
static void *real_thr(void *a) { real_ops((int)(intptr_t)a); return NULL; }

static int differs(const uint8_t *a, const uint8_t *b, size_t n) { return memcmp(a, b, n) != 0; }

int main(int argc, char **argv)
{
    const char *mode = argv[1];
    m = impl_load(argv[2], atoi(argv[3])); int shake = !strcmp(argv[4], "shake");
    uint64_t seed = strtoull(argv[5], 0, 10); long N = atol(argv[6]);
    prng p = prng_mk(seed, 21);
    o = or_new(m.n, shake, 0); or_inter *t = or_inter_new(o);
    size_t cb = (size_t)o->cb, mb = (size_t)o->n * 16;
    uint8_t *pk = malloc(o->pkb), *sk = malloc(o->skb), *ct = malloc(o->ctb), ss[32], *pk2 = malloc(o->pkb), *sk2 = malloc(o->skb), *ct2 = malloc(o->ctb), ss2[32];
    long ev = 0, draws = 0, kp = 0, en = 0, de = 0; hset seen = {0};
    size_t c1 = o->cbytes1;
    if (!strcmp(mode, "real")) {
        H = mmap(NULL, sizeof *H, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        long forks = 0, threads = 0;
        for (long r = 0; r < N && !VIOLATIONS; r++) {
            if (r) real_ops((int)(r % 3)); // the first round forks before the first use
            fflush(stdout);
            pid_t pid[4];
            for (int j = 0; j < 4; j++) {
                pid[j] = fork();
                if (!pid[j]) { VIOLATIONS = 0; real_ops(1 + j % 2); _exit(VIOLATIONS ? 1 : 0); }
                forks++;
            }
            real_ops(2);
            for (int j = 0; j < 4; j++) { int st = 0; waitpid(pid[j], &st, 0); if (st) violation("real", "operations in a forked child failed (status %x)", st); }
            pthread_t th[4];
            for (int j = 0; j < 4; j++) pthread_create(&th[j], NULL, real_thr, (void *)(intptr_t)1), threads++;
            for (int j = 0; j < 4; j++) pthread_join(th[j], NULL);
        }
        long n = H->n < (1 << 16) ? H->n : (1 << 16);
        qsort(H->h, (size_t)n, 8, cmp64);
        long dup = 0; for (long i = 1; i < n; i++) dup += H->h[i] == H->h[i - 1];
        if (dup) violation("repeat", "%ld of %ld random values (s, matrix seeds, secret matrices, ciphertexts, shared secrets) repeat across calls, threads or forked processes", dup, n);
        stat_out("\"evaluations\":%ld,\"distinct\":%ld,\"forked_children\":%ld,\"threads\":%ld", n, n - dup, forks, threads);
        return 0;
    }
    if (!strcmp(mode, "bits")) {
        for (long it = 0; it < N && VIOLATIONS < 5; it++) {
            uint8_t r[96], f[96];
            if (it == 0) rndbuf(&p, r, sizeof r); else gen_keyrnd(o, &p, r);
            rs_set(r, o->rnd_key); m.keypair(pk, sk); kp++;
            hset_add(&seen, fnv(1, r, o->rnd_key));
            for (size_t b = 0; b < o->rnd_key * 8 && VIOLATIONS < 5; b++) {
                memcpy(f, r, sizeof f); f[b / 8] ^= (uint8_t)(1u << (b % 8));
                rs_set(f, o->rnd_key); m.keypair(pk2, sk2); kp++; ev++;
                hset_add(&seen, fnv(1, f, o->rnd_key));
                const char *miss = NULL;
                if (b < 8 * cb) { if (!differs(sk, sk2, cb)) miss = "the rejection value s"; }
                else if (b < 16 * cb) {
                    if (!differs(sk + cb + o->pkb, sk2 + cb + o->pkb, mb)) miss = "the secret matrix";
                    else if (!differs(pk + 16, pk2 + 16, o->pkb - 16)) miss = "the public matrix";
                    else if (!differs(sk + cb + o->pkb + mb, sk2 + cb + o->pkb + mb, cb)) miss = "the hash of the public key";
                } else {
                    if (!differs(pk, pk2, 16)) miss = "the matrix seed";
                    else if (!differs(pk + 16, pk2 + 16, o->pkb - 16)) miss = "the public matrix";
                    else if (!differs(sk + cb + o->pkb + mb, sk2 + cb + o->pkb + mb, cb)) miss = "the hash of the public key";
                }
                if (miss) violation("bit", "random bit %zu of the key generation does not affect %s (%s)", b, miss, b < 8 * cb ? "s" : b < 16 * cb ? "noise seed" : "matrix seed input");
            }
            gen_field(&p, r, o->rnd_enc, it > 0);
            rs_set(r, o->rnd_enc); m.enc(ct, ss, pk); en++;
            for (size_t b = 0; b < o->rnd_enc * 8 && VIOLATIONS < 5; b++) {
                memcpy(f, r, sizeof f); f[b / 8] ^= (uint8_t)(1u << (b % 8));
                rs_set(f, o->rnd_enc); m.enc(ct2, ss2, pk); en++; ev++;
                hset_add(&seen, fnv(2, f, o->rnd_enc));
                const char *miss = !differs(ct, ct2, c1) ? "the first part of the ciphertext" : !differs(ct + c1, ct2 + c1, o->ctb - c1) ? "the second part of the ciphertext" : !differs(ss, ss2, cb) ? "the shared secret" : NULL;
                if (miss) violation("bit", "random bit %zu of the encapsulation does not affect %s", b, miss);
            }
        }
        stat_out("\"evaluations\":%ld,\"distinct\":%zu,\"keypairs\":%ld,\"encapsulations\":%ld", ev, seen.n, kp, en);
        return 0;
    }
    // stream
    size_t L = (size_t)N * o->rnd_key + 4096, pos = 0;
    uint8_t *st = malloc(L); rndbuf(&p, st, L);
    rs_set(st, L);
    int have = 0, lastop = -1; uint8_t ssd[32], mu0[64];
    for (long k = 0; k < N && VIOLATIONS < 3; k++) {
        int op = !have ? 0 : (int)rndn(&p, 8);
        op = op < 2 ? 0 : op < 5 ? 1 : 2;
        size_t before = RS.pos; int calls = RS.calls, rc;
        hset_add(&seen, fnv((uint64_t)(lastop * 3 + op + 10), &k, 8)); lastop = op;
        if (rndn(&p, 50) == 0 && have && op < 2) { // a failing source in between must not leave anything behind
            RS.fail_at = RS.calls;
            rc = op ? m.enc(ct2, ss2, pk) : m.keypair(pk2, sk2);
            RS.fail_at = -1; (void)rc;
            before = RS.pos; calls = RS.calls;
        }
        if (op == 0) {
            rc = m.keypair(pk, sk); kp++;
            or_keypair(o, st + before, pk2, sk2, t);
            if (RS.pos != before + o->rnd_key) violation("amount", "call %ld: key generation drew %zu random bytes instead of %zu", k, RS.pos - before, o->rnd_key);
            else if (rc || differs(pk, pk2, o->pkb) || differs(sk, sk2, o->skb)) violation("fresh", "call %ld: the key pair is not the one of the fresh bytes just drawn", k);
            have = 1;
        } else if (op == 1) {
            rc = m.enc(ct, ss, pk); en++;
            memcpy(mu0, st + before, o->rnd_enc);
            or_enc(o, pk, mu0, ct2, ss2, t);
            if (RS.pos != before + o->rnd_enc) violation("amount", "call %ld: encapsulation drew %zu random bytes instead of %zu", k, RS.pos - before, o->rnd_enc);
            else if (rc || differs(ct, ct2, o->ctb) || differs(ss, ss2, cb)) violation("fresh", "call %ld: the ciphertext or secret is not the one of the fresh bytes just drawn", k);
            have = 2;
        } else {
            if (have < 2 || rndn(&p, 3) == 0) rndbuf(&p, ct, o->ctb);
            for (int j = 0; j < 2; j++) { rc = m.dec(j ? ssd : ss2, ct, sk); de++; }
            if (RS.calls != calls || RS.pos != before) violation("decdraw", "call %ld: decapsulation drew random bytes", k);
            if (differs(ssd, ss2, cb)) violation("decdet", "call %ld: two decapsulations of the same ciphertext differ", k);
        }
        draws += RS.calls - calls; ev++;
        if (RS.pos < pos) violation("amount", "stream went backwards"); // cannot happen
        pos = RS.pos;
    }
    stat_out("\"evaluations\":%ld,\"distinct\":%zu,\"keypairs\":%ld,\"encapsulations\":%ld,\"decapsulations\":%ld,\"requests\":%ld,\"stream_bytes\":%zu", ev, seen.n, kp, en, de, draws, pos);
    return 0;
}

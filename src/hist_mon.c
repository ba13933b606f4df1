// C16: long mixed histories. A table of operations with the model's results is executed in random order, with the same and with
// different buffers, related keys, accepted and rejected ciphertexts and failing calls in between; heap and descriptors are counted.
#include "gen.h"
#include <dirent.h>
#include <malloc.h>

typedef struct { int op; uint8_t *in1, *in2; uint8_t *out1, *out2; } item; // op 0: in1=rnd; 1: in1=pk in2=mu; 2: in1=sk in2=ct
static item *T; static int nT;
static oracle *o; static impl m;
static int fdcount(void)
{
    int n = 0; DIR *d = opendir("/proc/self/fd");
    if (!d) return -1;
    while (readdir(d)) n++;
    closedir(d);
    return n;
}
static uint64_t heap(void) { struct mallinfo2 i = mallinfo2(); return i.uordblks + i.hblkhd; }
static uint8_t *dup_(const uint8_t *p, size_t n) { uint8_t *q = malloc(n); memcpy(q, p, n); return q; }

int main(int argc, char **argv)
{
    const char *mode = argv[1];
    m = impl_load(argv[2], atoi(argv[3])); int shake = !strcmp(argv[4], "shake");
    uint64_t seed = strtoull(argv[5], 0, 10); long N = atol(argv[6]); int only = argc > 7 ? atoi(argv[7]) : -1;
    prng p = prng_mk(seed, 16);
    o = or_new(m.n, shake, 0); or_inter *t = or_inter_new(o);
    size_t cb = (size_t)o->cb;
    uint8_t *pkb[4], *skb[4], *ctb[4], ssb[4][32];
    for (int i = 0; i < 4; i++) { pkb[i] = malloc(o->pkb + 64); skb[i] = malloc(o->skb + 64); ctb[i] = malloc(o->ctb + 64); }
    long cnt[3] = {0}, rejected = 0, failed = 0, ev = 0; hset seq = {0};
    if (!strcmp(mode, "real")) { // with the library's own random source
        static uint8_t seen[32]; memset(seen, 0, sizeof seen);
        hset h = {0}; int fd0 = 0; uint64_t h0 = 0, q[5] = {0}; int f[5] = {0};
        for (long k = 0; k < N; k++) {
            int rc = 0;
            if (k % 4 == 0) rc |= m.keypair(pkb[0], skb[0]), cnt[0]++;
            rc |= m.enc(ctb[0], ssb[0], pkb[0]); cnt[1]++;
            rc |= m.dec(ssb[1], ctb[0], skb[0]); cnt[2]++;
            if (rc || memcmp(ssb[0], ssb[1], cb)) { violation("history", "call %ld: return code or shared secret wrong", k); break; }
            if (!hset_add(&h, fnv(1469598103934665603ULL, ctb[0], o->ctb)) || (k % 4 == 0 && !hset_add(&h, fnv(99, pkb[0], o->pkb)))) { violation("repeat", "an output repeated an earlier one at call %ld", k); break; }
            ev += 2;
            if (k == N / 5) { fd0 = fdcount(); h0 = heap() - h.cap * 8; }
            for (int j = 1; j < 5; j++) if (k == N * (j + 1) / 5 - 1) { q[j] = heap() - h.cap * 8; f[j] = fdcount(); }
        }
        if (!VIOLATIONS && q[1] > h0 && q[2] > q[1] && q[3] > q[2] && q[4] > q[3]) violation("leak", "heap in use grows with the number of calls: %llu bytes at first, %llu after %ld calls", (unsigned long long)h0, (unsigned long long)q[4], N);
        if (!VIOLATIONS && f[4] > fd0) violation("fdleak", "open descriptors grow with the number of calls: %d at first, %d after %ld calls", fd0, f[4], N);
        stat_out("\"evaluations\":%ld,\"distinct\":%zu,\"keypairs\":%ld,\"encapsulations\":%ld,\"decapsulations\":%ld,\"max_heap_growth\":%lld,\"max_fds\":%d", ev, h.n, cnt[0], cnt[1], cnt[2], (long long)(q[4] > h0 ? q[4] - h0 : 0), f[4]);
        return 0;
    }
    if (!strcmp(mode, "many")) { // every call with new seeds, keys and ciphertexts: what the library keeps must not depend on them
        uint8_t rnd[96]; uint64_t h0 = 0, q[5] = {0}; int f0 = 0, f[5] = {0}; int grew = 0;
        for (long k = 0; k < N; k++) {
            int rc; rndbuf(&p, rnd, sizeof rnd);
            rs_set(rnd, 96); rc = m.keypair(pkb[0], skb[0]); cnt[0]++;
            rndbuf(&p, rnd, sizeof rnd);
            rs_set(rnd, 96); rc |= m.enc(ctb[0], ssb[0], pkb[0]); cnt[1]++;
            rc |= m.dec(ssb[1], ctb[0], skb[0]); cnt[2]++;
            if (rc || memcmp(ssb[0], ssb[1], cb)) { violation("history", "call %ld: return code or shared secret wrong", k); break; }
            rndbuf(&p, ctb[0] + rndn(&p, (uint32_t)o->ctb - 8), 8);
            if (m.dec(ssb[1], ctb[0], skb[0])) { violation("history", "call %ld: return code of a rejecting decapsulation", k); break; }
            cnt[2]++; ev += 4;
            if (k == N / 5) { f0 = fdcount(); h0 = heap(); }
            for (int j = 1; j < 5; j++) if (k == N * (j + 1) / 5 - 1) { q[j] = heap(); f[j] = fdcount(); }
        }
        q[0] = h0; f[0] = f0;
        for (int j = 1; j < 5; j++) grew += q[j] > q[j - 1];
        if (!VIOLATIONS && grew >= 3 && q[4] > h0) violation("leak", "heap in use grows with the number of calls: %llu bytes at first, %llu after %ld key pairs", (unsigned long long)h0, (unsigned long long)q[4], N);
        if (!VIOLATIONS && f[4] > f0) violation("fdleak", "open descriptors grow with the number of calls: %d at first, %d after %ld key pairs", f0, f[4], N);
        stat_out("\"evaluations\":%ld,\"distinct\":%ld,\"keypairs\":%ld,\"encapsulations\":%ld,\"decapsulations\":%ld,\"max_heap_growth\":%lld", ev, ev, cnt[0], cnt[1], cnt[2], (long long)(q[4] > h0 ? q[4] - h0 : 0));
        return 0;
    }
    // the table
    int NK = 10, NE = 4, ND = 6;
    T = calloc(4096, sizeof(item));
    uint8_t *pks[32], *sks[32], *cts[512]; int nct = 0, nk = 0;
    uint8_t rnd[96];
    uint8_t *a = malloc(o->pkb), *s = malloc(o->skb), *c = malloc(o->ctb), ss[32];
    for (int i = 0; i < NK; i++) {
        // related randomness: same noise seed, same matrix seed, one bit apart
        if (i == 0 || i >= 6) gen_keyrnd(o, &p, rnd);
        else if (i == 1) rnd[2 * cb + 15] ^= 1;
        else if (i == 2) rnd[cb] ^= 1;
        else if (i == 3) rnd[2 * cb] ^= 0x80;
        else if (i == 4) rnd[0] ^= 1;
        else rndbuf(&p, rnd, 2 * cb);
        or_keypair(o, rnd, a, s, t);
        T[nT].op = 0; T[nT].in1 = dup_(rnd, 96); T[nT].out1 = dup_(a, o->pkb); T[nT].out2 = dup_(s, o->skb); nT++;
        pks[nk] = dup_(a, o->pkb); sks[nk] = dup_(s, o->skb); nk++;
    }
    // same matrix seed with another B; a secret key whose embedded public key has another seed
    for (int i = 0; i < 4; i++) {
        memcpy(a, pks[i], o->pkb); memcpy(s, sks[i], o->skb);
        if (i & 1) rndbuf(&p, a + 16, o->pkb - 16); else a[rndn(&p, (uint32_t)(i < 2 ? 16 : o->pkb))] ^= 4;
        memcpy(s + cb, a, o->pkb);
        pks[nk] = dup_(a, o->pkb); sks[nk] = dup_(s, o->skb); nk++;
    }
    for (int i = 0; i < nk; i++) for (int j = 0; j < NE; j++) {
        uint8_t mu[32] = {0};
        if (j) gen_field(&p, mu, 32, 1);
        or_enc(o, pks[i], mu, c, ss, t);
        T[nT].op = 1; T[nT].in1 = pks[i]; T[nT].in2 = dup_(mu, 32); T[nT].out1 = dup_(c, o->ctb); T[nT].out2 = dup_(ss, 32); nT++;
        if (nct < 500) cts[nct++] = T[nT - 1].out1;
    }
    for (int i = 0; i < nk; i++) for (int j = 0; j < ND; j++) {
        uint8_t *x = j < 3 ? cts[i * NE + j] : cts[rndn(&p, (uint32_t)nct)];
        if (j == 2) { x = dup_(x, o->ctb); x[rndn(&p, (uint32_t)o->ctb)] ^= (uint8_t)(1 << rndn(&p, 8)); }
        or_dec(o, sks[i], x, ss, t);
        T[nT].op = 2; T[nT].in1 = sks[i]; T[nT].in2 = x; T[nT].out1 = dup_(ss, 32); rejected += !t->accept; nT++;
    }
    uint64_t h0 = 0, q[5] = {0}; int fd0 = 0, fd1 = 0;
    uint64_t hh = 0; int prev = -1;
    for (long k = 0; k < N; k++) {
        int ix = (int)rndn(&p, (uint32_t)nT), sl = rndn(&p, 4) ? 0 : (int)rndn(&p, 4), off = rndn(&p, 3) ? 0 : (int)rndn(&p, 32);
        if (rndn(&p, 8) == 0 && prev >= 0) ix = prev; // the same operation twice in a row
        if (only >= 0 && rndn(&p, 64)) while (T[ix].op != only) ix = (int)rndn(&p, (uint32_t)nT);
        prev = ix;
        item *e = &T[ix]; int rc, bad = 0;
        uint8_t *pk = pkb[sl] + off, *sk = skb[sl] + off, *ct = ctb[sl] + off;
        if (rndn(&p, 50) == 0) { // a failing call first
            rs_set(rnd, sizeof rnd); RS.fail_at = 0;
            if (e->op == 0) m.keypair(pk, sk); else if (e->op == 1) { memcpy(pk, e->in1, o->pkb); m.enc(ct, ssb[sl], pk); }
            failed++;
        }
        if (e->op == 0) { rs_set(e->in1, 96); rc = m.keypair(pk, sk); bad = memcmp(pk, e->out1, o->pkb) || memcmp(sk, e->out2, o->skb); }
        else if (e->op == 1) { memcpy(pk, e->in1, o->pkb); rs_set(e->in2, 32); rc = m.enc(ct, ssb[sl], pk); bad = memcmp(ct, e->out1, o->ctb) || memcmp(ssb[sl], e->out2, cb); }
        else { memcpy(sk, e->in1, o->skb); memcpy(ct, e->in2, o->ctb); rs_set(rnd, 0); rc = m.dec(ssb[sl], ct, sk); bad = memcmp(ssb[sl], e->out1, cb) != 0; }
        cnt[e->op]++; ev++;
        hh = fnv(hh * 31 + (uint64_t)ix, &sl, sizeof sl); hset_add(&seq, hh);
        if (rc || bad) {
            // is it history, or is the operation simply wrong?
            violation("history", "operation %d (%s) of the table gave a wrong result as call %ld of the history (rc %d)", ix, e->op == 0 ? "keypair" : e->op == 1 ? "enc" : "dec", k, rc);
            break;
        }
        if (k == N / 5) { h0 = heap() - seq.cap * 8; fd0 = fdcount(); }
        for (int j = 1; j < 5; j++) if (k == N * (j + 1) / 5 - 1) q[j] = heap() - seq.cap * 8;
    }
    fd1 = fdcount();
    if (!VIOLATIONS && q[1] > h0 && q[2] > q[1] && q[3] > q[2] && q[4] > q[3]) violation("leak", "heap in use grows with the number of calls: %llu bytes after %ld calls, %llu after %ld", (unsigned long long)h0, N / 5, (unsigned long long)q[4], N);
    if (!VIOLATIONS && fd1 > fd0) violation("fdleak", "open descriptors grow with the number of calls: %d after %ld calls, %d after %ld", fd0, N / 5, fd1, N);
    stat_out("\"evaluations\":%ld,\"distinct\":%zu,\"keypairs\":%ld,\"encapsulations\":%ld,\"decapsulations\":%ld,\"table_entries\":%d,\"failing_calls\":%ld,\"max_history\":%ld,\"max_heap_growth\":%lld", ev, seq.n, cnt[0], cnt[1], cnt[2], nT, failed, N, (long long)(q[4] > h0 ? q[4] - h0 : 0));
    sample_out("history of %ld calls over %d operations on %d related keys", N, nT, nk);
    return 0;
}

// Comparison-guided hunting. usage: hunt_mon MODE LIB.so N aes|shake SEED SECONDS [ROUNDS]
// The library is compiled with clang's comparison tracing. The monitor watches the operands of every comparison the code makes, singles out
// those that depend on the inputs (none in straight-line constant-time code), and searches for inputs that drive each of them to every outcome:
// by locating the bytes an operand depends on, copying the other operand there, hill-climbing, and random search. Every input that reaches something
// new is judged against the model. In history mode, comparisons that depend on earlier calls are singled out instead.
// MODE: keypair enc dec reject roundtrip | history | shake128 shake256 shake4 aes128 aes256
#include "gen.h"
#include <openssl/evp.h>
#include <time.h>
#include <sys/wait.h>
#include <unistd.h>
static oracle *O; static or_inter *T; static impl M; static prng P; static hset HS; static const char *MODE; static uint64_t SEED; static double T0, LIMIT;
static long evals, calls, sites, varying, solved, outcomes_new, statesites;
enum { KEYPAIR, ENC, DEC, REJECT, ROUND, PRIM }; static int kind; static int history, nojudge;
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
static int over(void) { return now() - T0 > LIMIT || VIOLATIONS > 0; }

// ---- comparison records ------------------------------------------------------------------------------------------
#define NS (1u << 17)
typedef struct { uint64_t pc, a, b, dig, dist, ma, mb; uint32_t epoch, cnt; uint8_t out, sz; uint8_t seen, vary, state, tried, known, rare, counted; uint64_t dig0; int first, hits; } slot;
static slot *S; static uint32_t epoch, touched[NS], nt; static int rec;
static void note(uint64_t pc, uint64_t a, uint64_t b, uint64_t dist, int sz)
{
    uint32_t i = (uint32_t)((pc * 0x9e3779b97f4a7c15ULL) >> 40) & (NS - 1);
    while (S[i].pc && S[i].pc != pc) i = (i + 1) & (NS - 1);
    slot *s = &S[i];
    if (!s->pc) { if (sites > (long)NS / 2) return; s->pc = pc; s->sz = (uint8_t)sz; sites++; }
    if (s->epoch != epoch) { s->epoch = epoch; s->cnt = 0; s->out = 0; s->dig = 0; s->dist = ~0ull; s->a = a; s->b = b; touched[nt++] = i; }
    s->cnt++; s->dig = (s->dig ^ a ^ (b << 7)) * 0x100000001b3ULL + 1;
    if (dist < s->dist) { s->dist = dist; s->ma = a; s->mb = b; }
    s->out |= a == b ? 1 : a < b ? 2 : 4;
}
static uint64_t gap(uint64_t a, uint64_t b) { return (uint64_t)__builtin_popcountll(a ^ b); }
#define CB(name, type) __attribute__((visibility("default"))) void name(type a, type b) { if (rec) note((uint64_t)__builtin_return_address(0), a, b, gap(a, b), sizeof a); }
CB(__sanitizer_cov_trace_cmp1, uint8_t) CB(__sanitizer_cov_trace_cmp2, uint16_t) CB(__sanitizer_cov_trace_cmp4, uint32_t) CB(__sanitizer_cov_trace_cmp8, uint64_t)
CB(__sanitizer_cov_trace_const_cmp1, uint8_t) CB(__sanitizer_cov_trace_const_cmp2, uint16_t) CB(__sanitizer_cov_trace_const_cmp4, uint32_t) CB(__sanitizer_cov_trace_const_cmp8, uint64_t)
static int newedge; static long edges;
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *z) { for (; a < z; a++) *a = 1; }
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { if (*g && rec) { *g = 0; newedge = 1; edges++; } }
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t *c) { if (rec) for (uint64_t i = 0; i < c[0] && i < 64; i++) note((uint64_t)__builtin_return_address(0) * 64 + i, v, c[2 + i], gap(v, c[2 + i]), (int)c[1] / 8); }
static int hookcmp(uint64_t pc, const void *x, const void *y, size_t n, int r)
{
    if (rec) {
        const uint8_t *p = x, *q = y; size_t i = 0, bad = 0; uint64_t a = 0, b = 0;
        while (i < n && p[i] == q[i]) i++;
        for (size_t j = i; j < n && j < i + 65536; j++) bad += p[j] != q[j];
        size_t w = n - i < 8 ? n - i : 8; if (i == n) { w = n < 8 ? n : 8; i = n - w; }
        memcpy(&a, p + i, w); memcpy(&b, q + i, w);
        note(pc, a, b, bad, 8);
    }
    return r;
}
#undef memcmp
#undef bcmp
static int mc(const void *x, const void *y, size_t n) { const uint8_t *p = x, *q = y; for (size_t i = 0; i < n; i++) if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1; return 0; }
int memcmp(const void *x, const void *y, size_t n) { int r = mc(x, y, n); return rec ? hookcmp((uint64_t)__builtin_return_address(0), x, y, n, r) : r; }
int bcmp(const void *x, const void *y, size_t n) { int r = mc(x, y, n); return rec ? hookcmp((uint64_t)__builtin_return_address(0), x, y, n, r) : r; }

// ---- inputs ------------------------------------------------------------------------------------------------------
static size_t L; static uint8_t *pk, *sk, *ct, *pk2, *sk2, *ct2, *ss, *ss2; static int rc, rc2, rc3; static size_t drawn;
typedef void (*shake_f)(uint8_t *, unsigned long long, const uint8_t *, unsigned long long);
typedef void (*shake4_f)(uint8_t *, uint8_t *, uint8_t *, uint8_t *, unsigned long long, const uint8_t *, const uint8_t *, const uint8_t *, const uint8_t *, unsigned long long);
typedef void (*load_f)(const uint8_t *, uint8_t *); typedef void (*ecb_f)(const uint8_t *, size_t, const uint8_t *, uint8_t *);
static shake_f fshake; static shake4_f fshake4; static load_f fload; static ecb_f fecb;
#define PMAX (1u << 18)
static uint8_t *pin, *pout[4], *pref; static size_t plen, qlen;
static void prim_expand(const uint8_t *x) // two 32-bit lengths, 4 lanes of contents (repeated to the length) or key and blocks
{
    uint32_t a, b; memcpy(&a, x, 4); memcpy(&b, x + 4, 4); plen = a % PMAX; qlen = b % PMAX;
    if (fecb) qlen = plen / 16, plen = qlen * 16;
}
static void prim_content(const uint8_t *x, int lane, uint8_t *out, size_t n) { const uint8_t *c = x + 40; for (size_t i = 0; i < n; i++) out[i] = c[(i + (size_t)lane * 61) % 512] ^ (uint8_t)(i / 512); }
static uint8_t *lanes[4];
static void run_prim(const uint8_t *x)
{
    prim_expand(x);
    if (fecb) { uint8_t sch[16 * 15 + 64]; prim_content(x, 0, lanes[0], plen); rec = 1; fload(x + 8, sch); fecb(lanes[0], plen, sch, pout[0]); rec = 0; return; }
    for (int l = 0; l < (fshake4 ? 4 : 1); l++) prim_content(x, l, lanes[l], plen);
    rec = 1;
    if (fshake4) fshake4(pout[0], pout[1], pout[2], pout[3], qlen, lanes[0], lanes[1], lanes[2], lanes[3], plen); else fshake(pout[0], qlen, lanes[0], plen);
    rec = 0;
}
static void judge_prim(const uint8_t *x, const char *why)
{
    prim_expand(x);
    if (fecb) {
        int bits = !strcmp(MODE, "aes256") ? 256 : 128, len; EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
        EVP_EncryptInit_ex(c, bits == 256 ? EVP_aes_256_ecb() : EVP_aes_128_ecb(), NULL, x + 8, NULL); EVP_CIPHER_CTX_set_padding(c, 0);
        EVP_EncryptUpdate(c, pref, &len, lanes[0], (int)plen); EVP_CIPHER_CTX_free(c);
        if (mc(pref, pout[0], plen)) violation("value", "%s of %zu blocks differs from FIPS 197 [%s] lib=%s", MODE, qlen, why, M.path);
    } else for (int l = 0; l < (fshake4 ? 4 : 1); l++) {
        or_shake(!strcmp(MODE, "shake256") ? 256 : 128, pref, qlen ? qlen : 1, lanes[l], plen);
        if (mc(pref, pout[l], qlen)) { violation("value", "%s: input length %zu, output length %zu, lane %d differs from FIPS 202 [%s] lib=%s", MODE, plen, qlen, l, why, M.path); break; }
    }
}
static uint8_t *bpk, *bsk, *bct, *brn; // exactly as long as documented
static const uint8_t *cur; static long kcalls[8];
static void exec_(const uint8_t *x)
{
    cur = x; epoch++; nt = 0; calls++; kcalls[kind]++;
    if (kind == KEYPAIR || kind == ROUND) { memcpy(brn, x, O->rnd_key); if (kind == ROUND) memcpy(bct, x + 80, O->rnd_enc); }
    else if (kind == ENC) { memcpy(bpk, x, O->pkb); memcpy(brn, x + O->pkb, O->rnd_enc); }
    else if (kind != PRIM) { memcpy(bsk, x, O->skb); memcpy(bct, x + O->skb, O->ctb); }
    switch (kind) {
    case KEYPAIR: rs_set(brn, O->rnd_key); rec = 1; rc = M.keypair(pk, sk); rec = 0; drawn = RS.pos; break;
    case ENC: rs_set(brn, O->rnd_enc); rec = 1; rc = M.enc(ct, ss, bpk); rec = 0; drawn = RS.pos; break;
    case DEC: case REJECT: rs_set(NULL, 0); rec = 1; rc = M.dec(ss, bct, bsk); rec = 0; drawn = RS.pos; break;
    case ROUND: rs_set(x, O->rnd_key); rec = 1; rc = M.keypair(pk, sk); rs_set(x + 80, O->rnd_enc); rc2 = M.enc(ct, ss, pk); rs_set(NULL, 0); rc3 = M.dec(ss2, ct, sk); rec = 0; break;
    case PRIM: run_prim(x); break;
    }
}
// with HUNT_PEER set, the judge is another build of the library and not the model
static impl PEER; static int peer, prc; static size_t pdrawn;
static int ref_dec(const uint8_t *x) { pdrawn = 0; if (!peer) return or_dec(O, x, x + O->skb, ss2, T); memcpy(bsk, x, O->skb); memcpy(bct, x + O->skb, O->ctb); rs_set(NULL, 0); prc = PEER.dec(ss2, bct, bsk); pdrawn = RS.pos; return 0; }
static void ref_enc(const uint8_t *x) { if (!peer) { or_enc(O, x, x + O->pkb, ct2, ss2, T); pdrawn = O->rnd_enc; return; } memcpy(bpk, x, O->pkb); memcpy(brn, x + O->pkb, O->rnd_enc); rs_set(brn, O->rnd_enc); prc = PEER.enc(ct2, ss2, bpk); pdrawn = RS.pos; }
static void ref_keypair(const uint8_t *x) { if (!peer) { or_keypair(O, x, pk2, sk2, T); pdrawn = O->rnd_key; return; } memcpy(brn, x, O->rnd_key); rs_set(brn, O->rnd_key); prc = PEER.keypair(pk2, sk2); pdrawn = RS.pos; }
static const char *SPEC = "the specification";
#define BAD(key, ...) do { char d_[1024]; snprintf(d_, sizeof d_, __VA_ARGS__); \
    violation(key, "mode=%s n=%d gen=%s lib=%s seed=%llu: %s [%s]", MODE, O->n, O->gen_shake ? "shake" : "aes", M.path, (unsigned long long)SEED, d_, why); } while (0)
static void judge(const uint8_t *x, const char *why) // of the call just made
{
    evals++; hset_add(&HS, fnv(5, x, L));
    if (nojudge) return;
    switch (kind) {
    case KEYPAIR: ref_keypair(x);
        if (rc != prc) BAD("rc", "key generation returned %d", rc);
        if (drawn != pdrawn) BAD("randomness", "key generation drew %zu random bytes", drawn);
        if (mc(pk, pk2, O->pkb)) BAD("pk", "public key differs from %s", SPEC); else if (mc(sk, sk2, O->skb)) BAD("sk", "secret key differs from %s", SPEC);
        break;
    case ENC: ref_enc(x);
        if (rc != prc) BAD("rc", "encapsulation returned %d", rc);
        if (drawn != pdrawn) BAD("randomness", "encapsulation drew %zu random bytes", drawn);
        if (mc(ct, ct2, O->ctb)) BAD("ct", "ciphertext differs from %s", SPEC); else if (mc(ss, ss2, (size_t)O->cb)) BAD("ss", "shared secret differs from %s", SPEC);
        break;
    case DEC: case REJECT: { int acc = ref_dec(x);
        if (kind == REJECT && acc) break;
        if (rc != prc) BAD("rc", "decapsulation returned %d", rc);
        if (drawn != pdrawn) BAD("randomness", "decapsulation drew %zu random bytes", drawn);
        if (mc(ss, ss2, (size_t)O->cb)) BAD(kind == REJECT ? "reject" : "ss", "shared secret differs from %s%s", SPEC, peer ? "" : acc ? ", which accepts" : ", which rejects");
        break; }
    case ROUND:
        if (rc || rc2 || rc3) BAD("rc", "return codes %d %d %d", rc, rc2, rc3);
        if (mc(ss, ss2, (size_t)O->cb)) BAD("agree", "shared secrets differ");
        break;
    case PRIM: judge_prim(x, why); break;
    }
}
// sites reached for the first time after the start: the input that got there is kept as a base to search from
static struct { uint32_t i; uint8_t *x; } queue[64]; static int nq, keeping;
static int news(void) // outcomes of the last call that were never seen before
{
    int n = 0;
    for (uint32_t i = 0; i < nt; i++) { slot *s = &S[touched[i]]; if (s->out & ~s->seen) { n++; if (!s->seen && keeping && nq < 64) { queue[nq].i = touched[i]; queue[nq].x = malloc(L); memcpy(queue[nq++].x, cur, L); } s->seen |= s->out; } }
    n += newedge; newedge = 0; outcomes_new += n;
    return n;
}
static int go(const uint8_t *x, const char *why) { exec_(x); int n = news(); if (n) judge(x, why); return n; }

static void gen(uint8_t *x)
{
    size_t cb = O ? (size_t)O->cb : 0; uint8_t mu[32], r[80];
    switch (kind) {
    case KEYPAIR: gen_keyrnd(O, &P, x); break;
    case ENC: gen_pk(O, &P, x, T, sk2); gen_mu(O, &P, x, x + O->pkb); break;
    case ROUND: gen_keyrnd(O, &P, x); gen_field(&P, x + 80, cb, 1); break;
    case DEC: case REJECT: {
        size_t m = (size_t)O->n * 8; int k = (int)rndn(&P, 8);
        if (k < 3) { uint16_t *ST = malloc(2 * m), err[64]; gen_matrix(O, &P, ST, m); gen_field(&P, mu, cb, 1); int em = (int)rndn(&P, 5); for (int i = 0; i < 64; i++) err[i] = gen_err(O, &P, em);
            int ok = craft(O, &P, ST, err, mu, x, x + O->skb, T); free(ST); if (!ok) k = 7; }
        if (k >= 3) { gen_keyrnd(O, &P, r); or_keypair(O, r, pk2, x, T); gen_field(&P, mu, cb, 1); or_enc(O, pk2, mu, x + O->skb, ss2, T); }
        if (k == 6 || kind == REJECT) x[O->skb + rndn(&P, (uint32_t)O->ctb)] ^= (uint8_t)(1u << rndn(&P, 8));
        if (k == 7) rndbuf(&P, x, L);
        break; }
    case PRIM: { rndbuf(&P, x, L); uint32_t a = rndn(&P, 3) ? rndn(&P, 700) : 136 * rndn(&P, 20) + rndn(&P, 3), b = rndn(&P, 3) ? rndn(&P, 700) : 168 * rndn(&P, 20) + rndn(&P, 3); memcpy(x, &a, 4); memcpy(x + 4, &b, 4); if (rndn(&P, 4) == 0) gen_field(&P, x + 8, L - 8, 1); break; }
    }
}
// cheap variations for the random search, keeping locked bytes
static uint8_t *G; static size_t Gn;
static void gen_fast(uint8_t *x)
{
    if (kind == KEYPAIR || kind == ROUND) { if (rndn(&P, 8)) rndbuf(&P, x, L); else gen_field(&P, x, L, 1); return; }
    if (kind == PRIM) { gen(x); return; }
    if (!G) G = malloc(L * 8);
    if (history) Gn = 0;
    if (Gn < 8 || rndn(&P, 100) == 0) { if (history) { gen(x); return; } size_t k = Gn < 8 ? Gn++ : rndn(&P, 8); gen(G + k * L); }
    memcpy(x, G + rndn(&P, (uint32_t)Gn) * L, L);
    if (kind == ENC) { rndbuf(&P, x + O->pkb, O->rnd_enc); if (rndn(&P, 2)) rndbuf(&P, x, 16); return; }
    switch (rndn(&P, 5)) {
    case 0: rndbuf(&P, x + O->skb, O->ctb); break;
    case 1: rndbuf(&P, x, (size_t)O->cb); break;
    case 2: rndbuf(&P, x + O->skb - O->cb, (size_t)O->cb); break;
    case 3: rndbuf(&P, x + O->cb + O->pkb, 16 * (size_t)O->n); break;
    default: for (int i = 0; i < 8; i++) x[rndn(&P, (uint32_t)L)] = (uint8_t)rnd64(&P);
    }
}
// ---- solving ------------------------------------------------------------------------------------------------------
static uint8_t *X, *Y, *Z, *lock;
static void scramble(uint8_t *y, size_t lo, size_t hi) { for (size_t i = lo; i < hi; i++) if (!lock[i]) y[i] = (uint8_t)rnd64(&P); }
static int depends(slot *s, const uint8_t *x, uint64_t a, uint64_t b, size_t lo, size_t hi)
{
    for (int t = 0; t < 3; t++) { memcpy(Y, x, L); scramble(Y, lo, hi); go(Y, "while locating an operand"); if (s->epoch != epoch || s->a != a || s->b != b) return 1; }
    return 0;
}
// the bytes the operands (or reaching the comparison) depend on, as a few short ranges; 0 if they are spread over the input
static size_t leaf[24][2]; static int nleaf;
static int leaves(slot *s, const uint8_t *x, uint64_t a, uint64_t b, size_t lo, size_t hi)
{
    if (over()) return 0;
    if (hi - lo <= 2) { if (nleaf && leaf[nleaf - 1][1] == lo && hi - leaf[nleaf - 1][0] <= 64) { leaf[nleaf - 1][1] = hi; return 1; } if (nleaf == 24) return 0; leaf[nleaf][0] = lo; leaf[nleaf++][1] = hi; return 1; }
    size_t mid = (lo + hi) / 2; int l = depends(s, x, a, b, lo, mid), r = depends(s, x, a, b, mid, hi);
    return (!l || leaves(s, x, a, b, lo, mid)) && (!r || leaves(s, x, a, b, mid, hi));
}
static void put(uint8_t *y, size_t at, uint64_t v, int w, int be) { for (int i = 0; i < w && at + (size_t)i < L; i++) y[at + (size_t)i] = (uint8_t)(v >> 8 * (be ? w - 1 - i : i)); }
#define REACHED (s->epoch == epoch && (s->out & target))
// drives site s to a wanted outcome starting from base x; on success x is the solving input and the bytes used are locked
static int solve(slot *s, uint8_t *x, double budget, uint8_t target)
{
    double end = now() + budget;
    exec_(x); if (news()) judge(x, "base"); if (s->epoch != epoch) return 0;
    int again = 0; uint8_t *xb = NULL;
restart:;
    uint64_t a = s->a, b = s->b, d0 = s->dist; int diffuse = 0, gained = 0;
    nleaf = 0; if (!depends(s, x, a, b, 0, L)) return 0;
    if (!leaves(s, x, a, b, 0, L) || nleaf == 0) diffuse = 1;
    if (getenv("HUNT_DEBUG")) { fprintf(stderr, "  %llx: distance %llu, %s", (unsigned long long)s->pc, (unsigned long long)d0, diffuse ? "diffuse" : ""); for (int f = 0; f < nleaf; f++) fprintf(stderr, " %zu-%zu", leaf[f][0], leaf[f][1]); fprintf(stderr, "\n"); }
    if (!diffuse) for (int dlt = 0; dlt < 3; dlt++) for (int side = 1; side >= 0 && !(dlt && gained); side--) for (int w = 1; w <= 8; w *= 2) for (int be = 0; be < 2; be++) for (int f = 0; f < nleaf; f++) for (size_t lo = leaf[f][0], at = lo >= 7 ? lo - 7 : 0; at < leaf[f][1]; at++) {
        if (over() || now() > end) return 0;
        memcpy(Z, x, L); put(Z, at, (side ? a : b) + (dlt == 1 ? 1 : dlt == 2 ? ~0ull : 0), w, be);
        go(Z, "operand copied into the input");
        if (REACHED) goto hit;
        if (s->epoch == epoch && s->dist < d0) { d0 = s->dist; if (!xb) xb = malloc(L); memcpy(xb, Z, L); gained = 1; }
    }
    if (gained && ++again < 12) { end = now() + budget; memcpy(x, xb, L); exec_(x); if (s->epoch == epoch) goto restart; }
    // hill-climbing on the distance of the operands
    memcpy(Z, x, L); go(Z, "base"); uint64_t best = s->epoch == epoch ? s->dist : ~0ull; int stale = 0;
    while (best && !over() && now() < end) {
        int improved = 0;
        if (!diffuse) {
            for (int f = 0; f < nleaf; f++) for (size_t at = leaf[f][0]; at < leaf[f][1] && !improved; at++) { uint8_t keep = Z[at]; for (int v = 0; v < 256; v++) { Z[at] = (uint8_t)v; go(Z, "hill-climbing"); if (REACHED) goto hit; if (s->epoch == epoch && s->dist < best) { best = s->dist; keep = (uint8_t)v; improved = 1; } if (over() || now() > end) return 0; } Z[at] = keep; }
            if (!improved && ++stale > 1) { for (int f = 0; f < nleaf; f++) scramble(Z, leaf[f][0], leaf[f][1]); go(Z, "restart"); best = s->epoch == epoch ? s->dist : ~0ull; if (++stale > 12) break; }
        } else {
            memcpy(Y, Z, L); int k = 1 + (int)rndn(&P, 4); for (int i = 0; i < k; i++) { size_t at = rndn(&P, (uint32_t)L); if (!lock[at]) Y[at] = (uint8_t)rnd64(&P); }
            if (++stale > 300) { gen_fast(Y); stale = 0; best = ~0ull; for (size_t i = 0; i < L; i++) if (lock[i]) Y[i] = x[i]; }
            go(Y, "search"); if (REACHED) { memcpy(Z, Y, L); goto hit; }
            if (s->epoch == epoch && s->dist <= best) { if (s->dist < best) stale = 0; best = s->dist; memcpy(Z, Y, L); }
        }
    }
    return 0;
hit:
    if (!diffuse) { for (int f = 0; f < nleaf; f++) memset(lock + leaf[f][0], 1, leaf[f][1] - leaf[f][0]); for (size_t i = 0; i < L; i++) if (Z[i] != x[i]) lock[i] = 1; }
    memcpy(x, Z, L); solved++; s->rare = 1;
    return 1;
}
static uint32_t vlist[256]; static int nv;
static void chase(uint32_t si, const uint8_t *base, int depth, uint8_t target)
{
    uint8_t *x = malloc(L); memcpy(x, base, L);
    uint8_t *keep = malloc(L); memcpy(keep, lock, L);
    int ok = solve(&S[si], x, target & 1 || S[si].seen == 1 ? LIMIT / 8 : LIMIT / 25, target);
    if (getenv("HUNT_DEBUG")) fprintf(stderr, "%*ssite %llx target %d: %s\n", depth, "", (unsigned long long)S[si].pc, target, ok ? "reached" : "-");
    if (ok) {
        exec_(x); judge(x, "solved");
        // the same condition with other contents around it
        for (int t = 0; t < 6 && !over(); t++) { memcpy(Y, x, L); scramble(Y, 0, L); exec_(Y); news(); judge(Y, "solved condition, other contents"); }
        // sites which only run now, nested behind the condition
        exec_(x); uint32_t now_[512]; int n = 0; for (uint32_t i = 0; i < nt && n < 512; i++) if (!S[touched[i]].known) now_[n++] = touched[i];
        for (int i = 0; i < n; i++) S[now_[i]].known = 1;
        for (int i = 0; i < n && depth < 8 && !over(); i++) chase(now_[i], x, depth + 1, (uint8_t)(7 & ~S[now_[i]].seen));
        // equality at the other sites together with this one (conditions evaluated side by side)
        uint8_t *y = malloc(L), *k2 = malloc(L); memcpy(y, x, L); memcpy(k2, lock, L);
        for (int j = 0; j < 2 * nv && depth == 0 && !over(); j++) {
            int i = j % nv; if (j < nv) { memcpy(y, x, L); memcpy(lock, k2, L); } else if (!S[vlist[i]].rare) continue; // pairs; then all that had to be searched for, together
            if (j == nv) { memcpy(y, x, L); memcpy(lock, k2, L); }
            exec_(y); slot *s = &S[vlist[i]]; if (vlist[i] == si || s->epoch != epoch || s->out & 1) continue;
            ok = solve(s, y, LIMIT / 20, 1);
            if (getenv("HUNT_DEBUG")) fprintf(stderr, "  and site %llx: %s\n", (unsigned long long)s->pc, ok ? "reached" : "-");
            if (ok) { exec_(y); judge(y, "two conditions at once"); for (int t = 0; t < 3; t++) { memcpy(Y, y, L); scramble(Y, 0, L); exec_(Y); news(); judge(Y, "two conditions at once, other contents"); } }
        }
        memcpy(lock, k2, L); free(y); free(k2);
    }
    memcpy(lock, keep, L); free(keep); free(x);
}
static void hunt(int rounds)
{
    // baseline
    uint8_t *bases = malloc(L * (size_t)rounds); int done = 0;
    for (int i = 0; i < rounds && !over(); i++) {
        gen(X); exec_(X); news(); judge(X, "baseline"); memcpy(bases + (size_t)i * L, X, L); done++;
        for (uint32_t t = 0; t < nt; t++) { slot *s = &S[touched[t]]; if (!s->hits++) { s->known = 1; s->dig0 = s->dig; s->first = i; } else if (s->dig != s->dig0) s->vary = 1; }
    }
    for (uint32_t i = 0; i < NS; i++) if (S[i].pc && (S[i].vary || S[i].hits < done)) { S[i].vary = 1; varying++; if (nv < 256) vlist[nv++] = i; }
    if (!varying) { free(bases); return; }
    for (uint32_t i = 0; i < NS; i++) if (S[i].pc && S[i].hits < done && nq < 64) { queue[nq].i = i; queue[nq].x = malloc(L); memcpy(queue[nq++].x, bases + (size_t)S[i].first * L, L); }
    free(bases); keeping = 1;
    for (int pass = 0; pass < 1000 && !over(); pass++) {
        int any = 0; double t0 = now();
        while (nq && !over()) { uint32_t q = queue[--nq].i; uint8_t *x = queue[nq].x; if (!S[q].known || S[q].vary) { S[q].known = 1; if (!S[q].vary) { S[q].vary = 1; varying++; if (nv < 256) vlist[nv++] = q; } memset(lock, 0, L); chase(q, x, 0, (uint8_t)(7 & ~S[q].seen)); } free(x); }
        for (uint32_t i = 0; i < NS && !over(); i++) if (S[i].pc && S[i].vary && S[i].seen != 7 && S[i].tried < 3 + pass / 8) {
            S[i].tried++; any = 1;
            for (int t = 0; t < 4; t++) { gen_fast(X); exec_(X); if (news()) judge(X, "search"); if (S[i].epoch == epoch) break; }
            if (S[i].epoch == epoch) { memset(lock, 0, L); chase(i, X, 0, (uint8_t)(7 & ~S[i].seen)); }
        }
        // random search for at least as long
        double t1 = now(); (void)any;
        do for (int t = 0; t < 20 && !over(); t++) { gen_fast(X); go(X, "search"); } while (!over() && now() - t1 < t1 - t0);
    }
}
// comparisons whose operands change although the input does not: counters and remembered values
static void hist(void)
{
    static const int K[] = {KEYPAIR, ENC, DEC};
    for (int ki = 0; ki < 3 && !over(); ki++) {
        kind = K[ki]; L = kind == KEYPAIR ? 80 : kind == ENC ? O->pkb + 32 : O->skb + O->ctb; memset(lock, 0, L);
        for (int rep = 0; rep < 3 && !over(); rep++) {
            gen(X); exec_(X); news(); judge(X, "first");
            for (uint32_t t = 0; t < nt; t++) S[touched[t]].dig0 = S[touched[t]].dig;
            uint32_t cand[256]; int nc = 0; uint64_t v[256][4][2];
            for (int j = 0; j < 4; j++) {
                exec_(X); news(); judge(X, "repeated call");
                for (uint32_t t = 0; t < nt; t++) { slot *s = &S[touched[t]]; int c = -1; for (int q = 0; q < nc; q++) if (cand[q] == touched[t]) c = q;
                    if (c < 0 && s->dig != s->dig0 && nc < 256) { c = nc++; cand[c] = touched[t]; }
                    if (c >= 0) { v[c][j][0] = s->a; v[c][j][1] = s->b; } }
            }
            // also one call with another input in between
            for (int c = 0; c < nc && !over(); c++) {
                slot *s = &S[cand[c]];
                uint64_t da = v[c][3][0] - v[c][2][0], db = v[c][3][1] - v[c][2][1];
                int counter = (da || db) && da == v[c][2][0] - v[c][1][0] && db == v[c][2][1] - v[c][1][1];
                if (counter && !s->counted) {
                    if (!s->state) statesites++;
                    s->state = 1;
                    // distance to the other operand in steps of the counter (modulo the size of the comparison)
                    uint64_t mask = s->sz >= 8 ? ~0ull : (1ull << 8 * s->sz) - 1, d = (v[c][3][1] - v[c][3][0]) & mask, st = (da - db) & mask; if (!st) continue;
                    if (st > mask / 2) { st = (0 - st) & mask; d = (0 - d) & mask; } // the operands approach each other by st per call
                    uint64_t steps = d / st + (d % st != 0);
                    double t0 = now(); exec_(X); exec_(X); double one = (now() - t0) / 2;
                    if (getenv("HUNT_DEBUG")) fprintf(stderr, "counter: %llu steps of %.2f ms ahead\n", (unsigned long long)steps, one * 1e3);
                    // too far for the traced build: count in the production build of the same sources, which starts afresh (the counter may count these calls only or all calls)
                    uint64_t lo = 0, hi = 0; impl traced = M; int fresh = 0;
                    if (steps < 20000000 && one * (double)steps >= LIMIT / 8 && getenv("HUNT_COUNT")) {
                        M = impl_load(getenv("HUNT_COUNT"), O->n); fresh = 1; for (int k = 0; k < 16; k++) exec_(X);
                        t0 = now(); for (int k = 0; k < 16; k++) exec_(X);
                        one = (now() - t0) / 16; lo = (uint64_t)kcalls[kind] - 32; hi = (uint64_t)calls - 32; steps += lo - 40; hi -= lo;
                        if (getenv("HUNT_DEBUG")) fprintf(stderr, "counting %llu calls of %.2f ms, then %llu\n", (unsigned long long)steps, one * 1e3, (unsigned long long)hi + 24);
                    }
                    if (steps < 20000000 && one * (double)steps < LIMIT - (now() - T0)) {
                        for (uint64_t k = 0; k + 4 < steps && !over(); k++) { exec_(X); if ((k & 1023) == 0) judge(X, "counting"); }
                        // the limit may be passed only once in a process: pass it with several different inputs
                        fflush(stdout);
                        for (int ch = 0; ch < 8 && !over(); ch++) {
                            pid_t pid = fork();
                            if (!pid) { P = prng_mk(SEED, 5000 + (uint64_t)ch); for (uint64_t k = 0; k < hi + 24 && !VIOLATIONS; k++) { if (ch) gen(X); exec_(X); news(); judge(X, "around the limit of a counter"); } fflush(stdout); _exit(VIOLATIONS ? 3 : 0); }
                            int w = 0; if (pid > 0 && waitpid(pid, &w, 0) == pid && WIFEXITED(w) && WEXITSTATUS(w) == 3) VIOLATIONS++;
                        }
                        if (!fresh) for (int k = 0; k < 12 && !over(); k++) { exec_(X); news(); judge(X, "past the limit of a counter"); gen(X); }
                    }
                    M = traced; if (fresh) s->counted = 1;
                }
            }
            // remembered values: two different inputs, then the first again; which bytes of the input make a call take the remembered path?
            memcpy(Z, X, L); exec_(Z); for (uint32_t t = 0; t < nt; t++) S[touched[t]].dig0 = S[touched[t]].dig ^ (S[touched[t]].out * 0x1234567ull);
            exec_(Z); judge(Z, "repeated call"); uint32_t st[64]; uint8_t so[64]; int ns = 0;
            gen(Y); exec_(Y); news(); judge(Y, "alternating"); exec_(Z); judge(Z, "alternating");
            uint8_t o1[64]; uint32_t idx[4096]; uint8_t oo[4096]; int no = 0; for (uint32_t t = 0; t < nt && no < 4096; t++) { idx[no] = touched[t]; oo[no++] = S[touched[t]].out; } // outcomes right after another input
            exec_(Z); // ... and right after the same input
            for (uint32_t t = 0; t < nt && ns < 64; t++) { int f = -1; for (int q = 0; q < no; q++) if (idx[q] == touched[t]) { f = q; break; } if (f < 0 || oo[f] != S[touched[t]].out) { st[ns] = touched[t]; so[ns] = S[touched[t]].out; o1[ns] = f < 0 ? 0 : oo[f]; ns++; } }
            (void)o1;
            for (int c = 0; c < ns && !over(); c++) {
                slot *s = &S[st[c]]; if (!s->state) { s->state = 1; statesites++; }
                // keep the outcome "same as remembered" while changing as much of the input as possible
                uint8_t *y = malloc(L), *fix = calloc(L, 1); memcpy(y, Z, L);
                for (size_t chunk = L / 2; chunk >= 1; chunk /= 2) { for (size_t lo = 0; lo < L && !over(); lo += chunk) {
                    if (chunk < 8 && L > 1000 && fix[lo] != 1) continue;
                    memcpy(Y, y, L); size_t hi = lo + chunk < L ? lo + chunk : L; scramble(Y, lo, hi);
                    exec_(Z); exec_(Y); int same = s->epoch == epoch && s->out == so[c]; news(); judge(Y, "after a similar input");
                    if (same) { memcpy(y, Y, L); for (size_t i = lo; i < hi; i++) fix[i] = 2; } else for (size_t i = lo; i < hi; i++) if (fix[i] != 2) fix[i] = 1;
                } if (chunk == 1) break; }
                free(y); free(fix);
            }
        }
    }
}
int main(int argc, char **argv)
{
    MODE = argv[1]; int n = atoi(argv[3]), gs = !strcmp(argv[4], "shake"); SEED = strtoull(argv[5], 0, 0); LIMIT = atof(argv[6]); int rounds = argc > 7 ? atoi(argv[7]) : 40;
    setvbuf(stdout, NULL, _IOLBF, 0); T0 = now(); P = prng_mk(SEED, 4242);
    S = calloc(NS, sizeof *S); O = or_new(n, gs, 0); T = or_inter_new(O); M = impl_load(argv[2], n);
    pk = malloc(O->pkb); pk2 = malloc(O->pkb); sk = malloc(O->skb); sk2 = malloc(O->skb); ct = malloc(O->ctb); ct2 = malloc(O->ctb);
    bpk = malloc(O->pkb); bsk = malloc(O->skb); bct = malloc(O->ctb); brn = malloc(80); ss = malloc((size_t)O->cb); ss2 = malloc((size_t)O->cb); nojudge = getenv("HUNT_NOJUDGE") != NULL;
    if (getenv("HUNT_PEER")) { peer = 1; PEER = impl_load(getenv("HUNT_PEER"), n); SPEC = "that of the reference build"; }
    kind = !strcmp(MODE, "keypair") ? KEYPAIR : !strcmp(MODE, "enc") ? ENC : !strcmp(MODE, "dec") ? DEC : !strcmp(MODE, "reject") ? REJECT : !strcmp(MODE, "roundtrip") ? ROUND : PRIM;
    history = !strcmp(MODE, "history");
    L = kind == KEYPAIR ? 80 : kind == ENC ? O->pkb + 32 : kind == ROUND ? 112 : kind == PRIM ? 552 : O->skb + O->ctb;
    size_t cap = O->skb + O->ctb + 64; X = malloc(cap); Y = malloc(cap); Z = malloc(cap); lock = calloc(cap, 1);
    if (kind == KEYPAIR) L = O->rnd_key;
    if (kind == PRIM && !history) {
        if (!strncmp(MODE, "aes", 3)) { fload = (load_f)dlsym(M.h, MODE[3] == '1' ? "AES128_load_schedule" : "AES256_load_schedule"); fecb = (ecb_f)dlsym(M.h, MODE[3] == '1' ? "AES128_ECB_enc_sch" : "AES256_ECB_enc_sch"); }
        else if (!strcmp(MODE, "shake4")) fshake4 = (shake4_f)dlsym(M.h, "shake128_4x"); else fshake = (shake_f)dlsym(M.h, MODE);
        if (!fecb && !fshake && !fshake4) { stat_out("\"evaluations\":0,\"calls\":0,\"distinct\":0,\"comparison_sites\":0,\"absent\":1"); return 0; }
        for (int i = 0; i < 4; i++) { pout[i] = malloc(PMAX + 64); lanes[i] = malloc(PMAX + 64); } pref = malloc(PMAX + 64);
    }
    if (history) hist(); else hunt(rounds);
    if (getenv("HUNT_DEBUG")) for (uint32_t i = 0; i < NS; i++) if (S[i].pc) fprintf(stderr, "site %llx size %d vary %d seen %d tried %d a %llx b %llx\n", (unsigned long long)S[i].pc, S[i].sz, S[i].vary, S[i].seen, S[i].tried, (unsigned long long)S[i].a, (unsigned long long)S[i].b);
    if (SEED % 500 < 2) sample_out("%s n=%d gen=%s: %ld comparison sites, %ld depend on the input, %ld on earlier calls; %ld calls made", MODE, n, argv[4], sites, varying, statesites, calls);
    stat_out("\"evaluations\":%ld,\"calls\":%ld,\"distinct\":%zu,\"comparison_sites\":%ld,\"input_dependent_sites\":%ld,\"history_dependent_sites\":%ld,\"sites_driven_to_new_outcome\":%ld,\"outcomes_observed\":%ld,\"edges_executed\":%ld", evals, calls, HS.n, sites, varying, statesites, solved, outcomes_new, edges);
    return 0;
}

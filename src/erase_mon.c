// Residue monitor: after each call, is a copy of secret material left in the memory the call worked in?
// A separate process (the subject) runs the operations; it never holds secrets outside an excluded shared arena, the
// library's own memory and its outputs (also in the arena). After each call it snapshots its private stack, the writable
// data of the library and the heap. The model process then looks for secret values: a residue is a memory position that
// holds the corresponding secret byte in all K runs with K independent secrets (position-stable match), in runs of at
// least MINB bytes; plus, within a single run, any 16-byte window of a byte secret anywhere.
// usage: erase_mon LIB.so N aes|shake SEED ROUNDS
#include "gen.h"
#include "stk.h"
#include <link.h>
#include <malloc.h>
#include <sys/wait.h>
#include <unistd.h>
#define K 24
#define SNAP_STACK (768u << 10)
#define SNAP_MAX (6u << 20)
typedef struct { volatile int op, rc; volatile uint64_t top; size_t nreg; struct { uint64_t addr; size_t len, off; int kind; } reg[64]; size_t used; uint8_t rnd[128], pk[32768], sk[65536], ct[32768], ss[64]; uint8_t snap[SNAP_MAX]; } arena;
// The hash is observed at its entry: everything below the caller's stack pointer there is working memory of the hash
// itself. The final hash absorbs k and nothing runs after it, so its own working memory may still hold parts of k (the
// preimage of the returned secret); that is not counted (nor is s there, which takes the place of k on rejection). k anywhere else (the operation's own frame, static data) is.
static volatile uintptr_t hash_top; static void (*real128)(unsigned char *, unsigned long long, const unsigned char *, unsigned long long), (*real256)(unsigned char *, unsigned long long, const unsigned char *, unsigned long long);
#define TOP() do { uintptr_t t_ = (uintptr_t)__builtin_frame_address(0); if (t_ > hash_top) hash_top = t_; } while (0)
__attribute__((noinline)) void shake128(unsigned char *o, unsigned long long ol, const unsigned char *i, unsigned long long il) { TOP(); real128(o, ol, i, il); }
__attribute__((noinline)) void shake256(unsigned char *o, unsigned long long ol, const unsigned char *i, unsigned long long il) { TOP(); real256(o, ol, i, il); }
static arena *A; static impl M; static oracle *O;
static int cmd[2], ack[2];

static void add_region(uint64_t addr, size_t len, int kind)
{
    if (A->nreg >= 64 || A->used + len > SNAP_MAX) return;
    A->reg[A->nreg].addr = addr; A->reg[A->nreg].len = len; A->reg[A->nreg].off = A->used; A->reg[A->nreg].kind = kind; A->nreg++;
    memcpy(A->snap + A->used, (void *)addr, len); A->used += len;
}
static int cb_phdr(struct dl_phdr_info *i, size_t s, void *d)
{
    struct link_map *lm = d;
    if (i->dlpi_addr != lm->l_addr) return 0;
    for (int k = 0; k < i->dlpi_phnum; k++) { const ElfW(Phdr) *p = &i->dlpi_phdr[k];
        if (p->p_type == PT_LOAD && (p->p_flags & PF_W)) add_region((uint64_t)(i->dlpi_addr + p->p_vaddr), p->p_memsz, 1); }
    return 0;
}
static void subject_call(void)
{
    if (A->op == 0) { rs_set(A->rnd, 128); A->rc = M.keypair(A->pk, A->sk); }
    else if (A->op == 1) { rs_set(A->rnd, 128); A->rc = M.enc(A->ct, A->ss, A->pk); }
    else { rs_set(NULL, 0); A->rc = M.dec(A->ss, A->ct, A->sk); }
}
static void subject(const char *path, int n)
{
    char c;
    M = impl_load(path, n); stk_init();
    real128 = (void (*)(unsigned char *, unsigned long long, const unsigned char *, unsigned long long))dlsym(M.h, "shake128");
    real256 = (void (*)(unsigned char *, unsigned long long, const unsigned char *, unsigned long long))dlsym(M.h, "shake256");
    struct link_map *lm; if (dlinfo(M.h, RTLD_DI_LINKMAP, &lm)) _exit(3);
    char *heap0 = NULL;
    while (read(cmd[0], &c, 1) == 1) {
        memset(STK + STK_SIZE - SNAP_STACK, 0xC9, SNAP_STACK);
        hash_top = 0; stk_run(subject_call); A->top = hash_top;
        A->nreg = 0; A->used = 0;
        add_region((uint64_t)(STK + STK_SIZE - SNAP_STACK), SNAP_STACK, 0);
        dl_iterate_phdr(cb_phdr, lm);
        FILE *f = fopen("/proc/self/maps", "r"); char line[512];
        while (f && fgets(line, sizeof line, f)) { // the heap, and every other private anonymous mapping: thread-local data, large or own allocations
            unsigned long a, b, ino; char perm[8], name[256] = "";
            if (sscanf(line, "%lx-%lx %7s %*x %*s %lu %255s", &a, &b, perm, &ino, name) < 4 || strcmp(perm, "rw-p") || ino) continue;
            if (!strcmp(name, "[stack]") || !strncmp(name, "[v", 2) || (a < (unsigned long)(uintptr_t)(STK + STK_SIZE) && b > (unsigned long)(uintptr_t)STK)) continue;
            int dup = 0; for (size_t i = 0; i < A->nreg; i++) if (A->reg[i].addr < b && A->reg[i].addr + A->reg[i].len > a) dup = 1;
            if (!dup) add_region(a, b - a, !strcmp(name, "[heap]") ? 2 : 3);
        }
        if (f) fclose(f);
        (void)heap0;
        if (write(ack[1], "k", 1) != 1) _exit(3);
    }
    _exit(0);
}
typedef struct { const char *name; size_t len; int words, narrow; uint8_t *v[K]; } secret; // one item per byte (words: per 16-bit word, low byte first)
static secret SEC[32]; static int nsec;
static secret *sec_get(const char *name, size_t len, int words)
{
    for (int i = 0; i < nsec; i++) if (!strcmp(SEC[i].name, name)) return &SEC[i];
    secret *s = &SEC[nsec++]; s->name = name; s->len = len; s->words = words; s->narrow = 0;
    for (int k = 0; k < K; k++) s->v[k] = calloc(len, 1);
    return s;
}
static void sec_put(const char *name, int k, const void *p, size_t len, int words) { secret *s = sec_get(name, len, words); memcpy(s->v[k], p, len); }
// a matrix of small entries kept with one byte per entry
static void sec_narrow(const char *name, int k, const uint16_t *p, size_t cnt)
{
    secret *s = sec_get(name, cnt, 0); s->narrow = 1;
    for (size_t i = 0; i < cnt; i++) s->v[k][i] = (uint8_t)p[i];
}
typedef struct { uint64_t key; uint32_t sec, off; } ent;
static ent *TAB; static size_t tcap;
static void t_put(uint64_t key, uint32_t s, uint32_t o)
{
    size_t i = (key * 0x9e3779b97f4a7c15ULL >> 30) & (tcap - 1);
    while (TAB[i].key) i = (i + 1) & (tcap - 1);
    TAB[i].key = key; TAB[i].sec = s; TAB[i].off = o;
}
static int in_hash(const char *name, size_t at) // k inside the hash's own working memory (or no observation point)
{
    if (strcmp(name, "key k") && strcmp(name, "rejection value s")) return 0;
    if (!A->top) return 1;
    return at < A->reg[0].len && A->reg[0].addr + at < A->top;
}
static long evals, scanned, positions, probes, shortruns, maxshort; static hset HS;
static const char *OPN[] = {"key generation", "encapsulation", "decapsulation (accept)", "decapsulation (reject)", "decapsulation (random ciphertext)", "decapsulation (constant ciphertext)", "encapsulation (hostile public key)"}, *KIND[] = {"stack", "static data", "heap", "thread-local or mapped memory"};
static int MINB = 6, MINW = 24;

int main(int argc, char **argv)
{
    int n = atoi(argv[2]), gs = !strcmp(argv[3], "shake"); uint64_t seed = strtoull(argv[4], 0, 0); int rounds = atoi(argv[5]), verbose = argc > 6;
    setvbuf(stdout, NULL, _IOLBF, 0);
    A = mmap(NULL, sizeof *A, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (A == MAP_FAILED || pipe(cmd) || pipe(ack)) return 3;
    pid_t pid = fork();
    if (pid == 0) { close(cmd[1]); close(ack[0]); subject(argv[1], n); }
    close(cmd[0]); close(ack[1]);
    O = or_new(n, gs, 0);
    or_inter *T = or_inter_new(O);
    size_t m = (size_t)n * 8, cb = (size_t)O->cb;
    uint8_t *snaps[K]; for (int k = 0; k < K; k++) snaps[k] = malloc(SNAP_MAX);
    uint8_t *pk = malloc(O->pkb), *sk = malloc(O->skb), *ct = malloc(O->ctb), ss[32], rnd[80], mu[32];
    for (int round = 0; round < rounds; round++) for (int op = 0; op < 7; op++) {
        nsec = 0; size_t used = 0, nreg = 0; int stable = 1; uint64_t regaddr[64];
        for (int k = 0; k < K; k++) {
            prng P = prng_mk(seed, (uint64_t)(round * 7 + op) * 1000 + (uint64_t)k);
            rndbuf(&P, rnd, 80); rndbuf(&P, mu, 32); or_keypair(O, rnd, pk, sk, T);
            memset(A->rnd, 0, 128);
            if (op == 0) {
                memcpy(A->rnd, rnd, O->rnd_key);
                sec_put("rejection value s", k, T->s, cb, 0); sec_put("noise seed", k, T->seedSE, cb, 0);
                sec_put("raw noise stream", k, T->raw, 2 * T->nraw, 1); sec_put("S", k, T->S, 2 * m, 1); sec_put("E", k, T->E, 2 * m, 1);
                sec_narrow("S (one byte per entry)", k, T->S, m); sec_narrow("E (one byte per entry)", k, T->E, m);
            } else {
                if (op == 6) { if (k & 1) rndbuf(&P, pk, O->pkb); else memset(pk + 16, k & 2 ? 0xff : 0, O->pkb - 16); }
                memcpy(A->rnd, mu, cb); memcpy(A->pk, pk, O->pkb);
                or_enc(O, pk, mu, ct, ss, T);
                if (op == 3) ct[rndn(&P, (uint32_t)O->ctb)] ^= (uint8_t)(1u << rndn(&P, 8));
                if (op == 4) rndbuf(&P, ct, O->ctb);
                if (op == 5) { // the decrypted message is then public, and all that follows from it; the secret key is not
                    memset(ct, k & 1 ? 0xff : 0, O->ctb); memcpy(A->ct, ct, O->ctb); memcpy(A->sk, sk, O->skb); or_dec(O, sk, ct, ss, T);
                    sec_put("rejection value s", k, T->s, cb, 0); sec_put("S", k, T->S, 2 * m, 1); sec_narrow("S (one byte per entry)", k, T->S, m);
                } else {
                if (op >= 2 && op < 6) { memcpy(A->ct, ct, O->ctb); memcpy(A->sk, sk, O->skb); or_dec(O, sk, ct, ss, T);
                    sec_put("rejection value s", k, T->s, cb, 0); sec_put("S", k, T->S, 2 * m, 1); sec_put("W", k, T->W, 128, 1); sec_narrow("S (one byte per entry)", k, T->S, m);
                    uint16_t cc[64]; or_unpack(O, cc, ct + O->cbytes1, 64); for (int i = 0; i < 64; i++) cc[i] = (uint16_t)(cc[i] - T->W[i]) & (uint16_t)((1u << O->logq) - 1); sec_put("B'S", k, cc, 128, 1); }
                sec_put("message", k, T->mu, cb, 0); sec_put("noise seed", k, T->seedSE, cb, 0); sec_put("key k", k, T->k, cb, 0);
                sec_put("raw noise stream", k, T->raw, 2 * T->nraw, 1); sec_put("S'", k, T->Sp, 2 * m, 1); sec_put("E'", k, T->Ep, 2 * m, 1); sec_put("E''", k, T->Epp, 128, 1); sec_put("V", k, T->V, 128, 1);
                sec_narrow("S' (one byte per entry)", k, T->Sp, m); sec_narrow("E' (one byte per entry)", k, T->Ep, m); sec_narrow("E'' (one byte per entry)", k, T->Epp, 64);
                uint16_t em[64]; or_encode(O, em, T->mu); sec_put("encoded message", k, em, 128, 1); }
            }
            A->op = op == 6 ? 1 : op >= 2 ? 2 : op;
            char c;
            if (write(cmd[1], "g", 1) != 1 || read(ack[0], &c, 1) != 1) { int st; waitpid(pid, &st, 0); violation("crash", "%s died (status %x) n=%d lib=%s", OPN[op], st, n, argv[1]); return 0; }
            if (k == 0) { used = A->used; nreg = A->nreg; for (size_t i = 0; i < nreg; i++) regaddr[i] = A->reg[i].addr; }
            else { if (A->nreg != nreg) stable = 0; else for (size_t i = 0; i < nreg; i++) if (A->reg[i].addr != regaddr[i]) stable = 0; if (A->used < used) used = A->used; }
            memcpy(snaps[k], A->snap, A->used);
            // single-run search: 16-byte windows of byte secrets at any address
            for (int s = 0; s < nsec; s++) if (!SEC[s].words && !SEC[s].narrow) for (size_t o = 0; o + 16 <= SEC[s].len; o += 4) {
                uint8_t *hit = memmem(A->snap, A->used, SEC[s].v[k] + o, 16); probes++;
                while (hit && in_hash(SEC[s].name, (size_t)(hit - A->snap))) hit = memmem(hit + 1, A->used - (size_t)(hit + 1 - A->snap), SEC[s].v[k] + o, 16);
                if (hit) { size_t at = (size_t)(hit - A->snap); int rk = 0; for (size_t i = 0; i < A->nreg; i++) if (at >= A->reg[i].off && at < A->reg[i].off + A->reg[i].len) rk = A->reg[i].kind;
                    violation("residue", "%s leaves 16 bytes of the %s on the %s (offset %zu of the secret) n=%d gen=%s lib=%s seed=%llu", OPN[op], SEC[s].name, KIND[rk], o, n, argv[3], argv[1], (unsigned long long)seed); }
            }
            // single-run search for matrices: 48-coefficient windows
            for (int s = 0; s < nsec; s++) if (SEC[s].words) for (size_t o = 0; o + 96 <= SEC[s].len; o += SEC[s].len > 4096 ? SEC[s].len / 8 / 2 * 2 : 96) {
                uint8_t *hit = memmem(A->snap, A->used, SEC[s].v[k] + o, 96); probes++;
                if (hit) violation("residue", "%s leaves 48 coefficients of %s in memory (offset %zu of the secret) n=%d gen=%s lib=%s seed=%llu", OPN[op], SEC[s].name, o, n, argv[3], argv[1], (unsigned long long)seed);
            }
            evals++; scanned += (long)A->used; hset_add(&HS, fnv(fnv((uint64_t)op, rnd, 80), mu, 32));
            if (VIOLATIONS > 12) goto end;
        }
        if (!stable) nreg = nreg ? 1 : 0; // only the private stack is compared by position
        size_t cmpn = 0; for (size_t i = 0; i < nreg; i++) cmpn += A->reg[i].len;
        if (cmpn > used) cmpn = used;
        // position-stable search
        size_t items = 0; for (int s = 0; s < nsec; s++) items += SEC[s].len;
        tcap = 1; while (tcap < items * 3) tcap <<= 1;
        TAB = calloc(tcap, sizeof *TAB);
        for (int s = 0; s < nsec; s++) for (size_t o = 0; o < SEC[s].len; o += SEC[s].words ? 2 : 1) {
            uint64_t h = 1469598103934665603ULL; int same = 1;
            for (int k = 0; k < K; k++) { h = (h ^ SEC[s].v[k][o]) * 0x100000001b3ULL; if (SEC[s].words) h = (h ^ (256u + SEC[s].v[k][o + 1])) * 0x100000001b3ULL; if (SEC[s].v[k][o] != SEC[s].v[0][o]) same = 0; }
            if (!same) t_put(h ? h : 1, (uint32_t)s, (uint32_t)o);
        }
        uint32_t *ms = calloc(cmpn + 2, 4), *mo = calloc(cmpn + 2, 4);
        for (size_t a = 0; a + 1 < cmpn; a++) for (int wd = 1; wd >= 0 && !ms[a]; wd--) {
            uint64_t h = 1469598103934665603ULL; int same = 1;
            for (int k = 0; k < K; k++) { h = (h ^ snaps[k][a]) * 0x100000001b3ULL; if (wd) h = (h ^ (256u + snaps[k][a + 1])) * 0x100000001b3ULL; if (snaps[k][a] != snaps[0][a]) same = 0; }
            positions += !wd;
            if (same) break;
            for (size_t i = ((h ? h : 1) * 0x9e3779b97f4a7c15ULL >> 30) & (tcap - 1); TAB[i].key; i = (i + 1) & (tcap - 1)) if (TAB[i].key == (h ? h : 1)) {
                secret *q = &SEC[TAB[i].sec]; int ok = q->words == wd; for (int k = 0; k < K && ok; k++) ok = q->v[k][TAB[i].off] == snaps[k][a] && (!wd || q->v[k][TAB[i].off + 1] == snaps[k][a + 1]);
                if (ok) { ms[a] = TAB[i].sec + 1; mo[a] = TAB[i].off; break; }
            }
        }
        for (size_t a = 0; a < cmpn; a++) if (ms[a]) {
            // coefficients may also be stored widened or transposed: other distances in memory count as well
            secret *s = &SEC[ms[a] - 1]; size_t sstep = s->words ? 2 : 1, run = 0, b = a, step = sstep, strides[6] = {sstep, 4, 8, 16, 2 * (size_t)n, 0};
            for (int q = 0; strides[q] && (s->words || !q); q++) {
                size_t r = 1, e = a;
                while (e + strides[q] < cmpn && ms[e + strides[q]] == ms[a] && mo[e + strides[q]] == mo[e] + sstep) { e += strides[q]; r++; }
                if (r > run) { run = r; b = e; step = strides[q]; }
            }
            size_t need = s->words || s->narrow ? (size_t)MINW : (size_t)MINB;
            int rk = 0; for (size_t i = 0; i < A->nreg; i++) if (a >= A->reg[i].off && a < A->reg[i].off + A->reg[i].len) rk = A->reg[i].kind;
            if (run >= need && !in_hash(s->name, a)) violation("residue", "%s leaves %zu %s of the %s on the %s, at the same place in %d runs (offset %u of the secret, position %zu) n=%d gen=%s lib=%s seed=%llu", OPN[op], run,
                                       s->words || s->narrow ? "coefficients" : "bytes", s->name, KIND[rk], K, mo[a], a, n, argv[3], argv[1], (unsigned long long)seed);
            else { shortruns++; if ((long)run > maxshort) maxshort = (long)run; if (verbose) printf("short: %s %zu of %s off %u at %zu %s\n", OPN[op], run, s->name, mo[a], a, KIND[rk]); }
            for (size_t x = a; x <= b; x += step) ms[x] = 0;
        }
        free(ms); free(mo); free(TAB);
        if (VIOLATIONS > 12) goto end;
    }
end:
    if (seed % 8 == 0) sample_out("n=%d gen=%s: %d secrets per operation; %ld KB of stack, static data and heap scanned per call", n, argv[3], K, scanned / 1024 / (evals ? evals : 1));
    stat_out("\"evaluations\":%ld,\"distinct\":%zu,\"bytes_scanned\":%ld,\"positions_compared\":%ld,\"window_probes\":%ld,\"below_threshold_matches\":%ld,\"max_below_threshold\":%ld", evals, HS.n, scanned, positions, probes, shortruns, maxshort);
    close(cmd[1]);
    return 0;
}

// C27: interleavings of two operations on distinct objects.
// The library is compiled with memory-access instrumentation (the callbacks
// below replace the sanitizer runtime).  For every ordered pair of operations
// one execution records every memory access of both threads; if no access of
// one conflicts with an access of the other (same memory, at least one
// write), every interleaving of the two is equivalent to the recorded one
// (partial-order reduction), and its results are compared with those of the
// operations run alone.  If there is a conflict, all schedules switching at
// the conflicting accesses (one preemption: all; two: all pairs of a grid) are
// executed in fresh processes and their results compared.
#include "h.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unordered_map>
extern "C" {
#include <cry/aes.h>
#include <cry/affine.h>
#include <cry/arc4.h>
#include <cry/base64.h>
#include <cry/cbc.h>
#include <cry/cfb.h>
#include <cry/cmac.h>
#include <cry/crc.h>
#include <cry/ctr.h>
#include <cry/des.h>
#include <cry/dh.h>
#include <cry/dsa.h>
#include <cry/ecdh.h>
#include <cry/ecdsa.h>
#include <cry/elgamal.h>
#include <cry/gcm.h>
#include <cry/hill.h>
#include <cry/hmac.h>
#include <cry/md5.h>
#include <cry/prng.h>
#include <cry/rsa.h>
#include <cry/sha1.h>
#include <cry/sha256.h>
#include <cry/sha512.h>
#include <cry/trivium.h>
#include <cry/utils.h>
#include <cry/memxor.h>
#include <cry/version.h>
}
// ---- controlled scheduler -------------------------------------------------
static const size_t STK = 1 << 20, ARENA = 96 << 20;
struct Th {
    char *stk, *arena; size_t at;
    sem_t go; int id;
    bool finished;
    uint32_t rnd;                          // state of the thread's own generator
    uint64_t events;                       // instrumented accesses so far
    std::vector<uint64_t> stops;           // give way before these accesses
    size_t nstop;
    std::function<void(Bytes &)> op; Bytes out;
    std::unordered_map<uintptr_t, uint8_t> acc;          // granule -> 1 read, 2 write
    std::vector<uint64_t> confl;                          // events touching a conflicting granule
};
static Th th[2];
static __thread Th *me;
static bool g_record; static const std::set<uintptr_t> *g_watch;
static sem_t s_main;
static void give()
{
    Th *o = &th[1 - me->id];
    if (o->finished) return;
    sem_post(&o->go);
    while (sem_wait(&me->go)) {}
}
static inline void access(const void *p, size_t n, bool w)
{
    Th *t = me;
    if (!t) return;
    uint64_t ev = t->events++;
    if (t->nstop < t->stops.size() && t->stops[t->nstop] == ev) { t->nstop++; give(); }
    uintptr_t a = (uintptr_t)p;
    if (a - (uintptr_t)t->stk < STK || a - (uintptr_t)t->arena < ARENA) return;
    if (g_record) for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; g++) t->acc[g] |= w ? 2 : 1;
    else if (g_watch) for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; g++) if (g_watch->count(g)) { t->confl.push_back(ev); break; }
}
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void *p) { access(p, n, false); } void __tsan_write##n(void *p) { access(p, n, true); } \
    void __tsan_unaligned_read##n(void *p) { access(p, n, false); } void __tsan_unaligned_write##n(void *p) { access(p, n, true); } \
    void __tsan_volatile_read##n(void *p) { access(p, n, false); } void __tsan_volatile_write##n(void *p) { access(p, n, true); } \
    void __tsan_read##n##_pc(void *p, void *) { access(p, n, false); } void __tsan_write##n##_pc(void *p, void *) { access(p, n, true); } \
    void __tsan_read_write##n(void *p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { if (n) access(p, n, false); }
void __tsan_write_range(void *p, size_t n) { if (n) access(p, n, true); }
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t); int __real_memcmp(const void *, const void *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (me && n) { access(s, n, false); access(d, n, true); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (me && n) { access(s, n, false); access(d, n, true); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (me && n) access(d, n, true); return __real_memset(d, c, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { if (me && n) { access(a, n, false); access(b, n, false); } return __real_memcmp(a, b, n); }
void *__wrap___memcpy_chk(void *d, const void *s, size_t n, size_t) { return __wrap_memcpy(d, s, n); }
void *__wrap___memmove_chk(void *d, const void *s, size_t n, size_t) { return __wrap_memmove(d, s, n); }
void *__wrap___memset_chk(void *d, int c, size_t n, size_t) { return __wrap_memset(d, c, n); }
size_t __real_strlen(const char *); char *__real_strcpy(char *, const char *); char *__real_strncpy(char *, const char *, size_t); void *__real_memchr(const void *, int, size_t);
size_t __wrap_strlen(const char *s) { size_t n = __real_strlen(s); if (me) access(s, n + 1, false); return n; }
char *__wrap_strcpy(char *d, const char *s) { if (me) { size_t n = __real_strlen(s) + 1; access(s, n, false); access(d, n, true); } return __real_strcpy(d, s); }
char *__wrap_strncpy(char *d, const char *s, size_t n) { if (me && n) { access(s, 1, false); access(d, n, true); } return __real_strncpy(d, s, n); }
void *__wrap_memchr(const void *s, int c, size_t n) { if (me && n) access(s, n, false); return __real_memchr(s, c, n); }
// each thread allocates from an arena of its own
void *__real_malloc(size_t); void *__real_realloc(void *, size_t); void *__real_calloc(size_t, size_t); void __real_free(void *);
static void *take(size_t n) { size_t k = (n + 31) & ~(size_t)15; if (me->at + k > ARENA) { static const char m[] = "arena too small\n"; if (write(2, m, sizeof m - 1)) {} _exit(9); } char *p = me->arena + me->at; me->at += k; *(size_t *)p = n; return p + 16; }
static bool own(void *p) { for (auto &t : th) if (t.arena && (uintptr_t)p - (uintptr_t)t.arena < ARENA) return true; return false; }
void *__wrap_malloc(size_t n) { return me ? take(n) : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if (!me) return __real_calloc(a, b); void *p = take(a * b); if (p) __real_memset(p, 0, a * b); return p; }
void __wrap_free(void *p) { if (p && !own(p)) __real_free(p); }
void *__wrap_realloc(void *p, size_t n)
{
    if (!me && !own(p)) return __real_realloc(p, n);
    if (!p) return __wrap_malloc(n);
    size_t old = own(p) ? *(size_t *)((char *)p - 16) : n;
    void *q = __wrap_malloc(n);
    if (q) __real_memcpy(q, p, old < n ? old : n);
    return q;
}
}
// random numbers: a generator of its own for each thread, so that two operations that draw
// numbers share nothing through it.  If the library does not draw through this function
// (g_stub false, found by a probe), such pairs are excluded instead.
static bool g_stub = true, g_probe; 
extern "C" int __real_cry_prng_aes_rand(unsigned char *, size_t);
extern "C" int __wrap_cry_prng_aes_rand(unsigned char *b, size_t n)
{
    g_probe = true;
    if (!g_stub) return __real_cry_prng_aes_rand(b, n);
    static uint32_t lone = 1; uint32_t &s = me ? me->rnd : lone;
    for (size_t i = 0; i < n; i++) { s = s * 1664525 + 1013904223; b[i] = s >> 24; }
    return 0;
}
static void seed(Bytes &o, int w) { if (!g_stub) { Bytes sd = patv(32, w); long r = cry_prng_aes_init(sd.data(), 32); o.insert(o.end(), (uint8_t *)&r, (uint8_t *)&r + sizeof r); } }
void *operator new(size_t n) { return __wrap_malloc(n ? n : 1); }
void operator delete(void *p) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t) noexcept { __wrap_free(p); }
static void *body(void *v)
{
    Th *t = (Th *)v;
    while (sem_wait(&t->go)) {}
    me = t;
    t->op(t->out);
    me = nullptr;
    t->finished = true;
    Th *o = &th[1 - t->id];
    if (!o->finished) sem_post(&o->go); else sem_post(&s_main);
    return nullptr;
}
struct Op { std::string name; std::function<void(Bytes &, int)> f; int tag; bool own; };   // f(out, which): two data sets; tag: shared generator used
static std::vector<Op> ops;
// runs op a (first) and b; switch points given; results in th[].out
static void run2(int a, int b, const std::vector<uint64_t> &sa, const std::vector<uint64_t> &sb)
{
    sem_init(&s_main, 0, 0);
    pthread_t pt[2];
    for (int i = 0; i < 2; i++) {
        Th &t = th[i];
        int k = i ? b : a;
        t.id = i; t.at = 0; t.rnd = 77 + i; t.finished = k < 0; t.events = 0; t.nstop = 0; t.stops = i ? sb : sa; t.out.clear(); t.confl.clear();
        if (!t.stk) {
            t.stk = (char *)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            t.arena = (char *)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        }
        sem_init(&t.go, 0, 0);
        if (k < 0) continue;
        int set = i;
        t.op = [k, set](Bytes &o) { ops[k].f(o, set); };
        pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, t.stk, STK);
        pthread_create(&pt[i], &at, body, &t);
    }
    sem_post(&th[a < 0 ? 1 : 0].go);
    sem_wait(&s_main);
    for (int i = 0; i < 2; i++) if ((i ? b : a) >= 0) pthread_join(pt[i], nullptr);
}
// ---- the operations -------------------------------------------------------
static const cry_ciph_itf aes_itf = { (cry_ciph_init_f)cry_aes_init, (cry_ciph_clear_f)cry_aes_clear, (cry_ciph_key_set_f)cry_aes_key_set, (cry_ciph_encrypt_f)cry_aes_encrypt, (cry_ciph_decrypt_f)cry_aes_decrypt };
static const cry_ciph_itf des_itf = { (cry_ciph_init_f)cry_des_init, (cry_ciph_clear_f)cry_des_clear, (cry_ciph_key_set_f)cry_des_key_set, (cry_ciph_encrypt_f)cry_des_encrypt, (cry_ciph_decrypt_f)cry_des_decrypt };
static void s512i(void *c) { cry_sha512_init((cry_sha512_ctx *)c, 0); }
static const cry_hash_itf md5_itf = { (cry_hash_init_f)cry_md5_init, (cry_hash_clear_f)cry_md5_clear, (cry_hash_update_f)cry_md5_update, (cry_hash_digest_f)cry_md5_digest };
static const cry_hash_itf sha1_itf = { (cry_hash_init_f)cry_sha1_init, (cry_hash_clear_f)cry_sha1_clear, (cry_hash_update_f)cry_sha1_update, (cry_hash_digest_f)cry_sha1_digest };
static const cry_hash_itf sha256_itf = { (cry_hash_init_f)cry_sha256_init, (cry_hash_clear_f)cry_sha256_clear, (cry_hash_update_f)cry_sha256_update, (cry_hash_digest_f)cry_sha256_digest };
static void put(Bytes &o, const void *p, size_t n) { o.insert(o.end(), (const uint8_t *)p, (const uint8_t *)p + n); }
static void puti(Bytes &o, long v) { put(o, &v, sizeof v); }
static void putm(Bytes &o, const cry_mpi *m) { puti(o, m->sign); puti(o, m->used); for (size_t i = 0; i < m->used; i++) put(o, &m->data[i], sizeof m->data[i]); }
// hexadecimal constants for the two data sets
static void L(cry_mpi *m, const char *h) { cry_mpi_load_str(m, 16, h); }
struct N { cry_mpi m; N() { cry_mpi_init(&m); } explicit N(const char *h) : N() { L(&m, h); } ~N() { cry_mpi_clear(&m); } operator cry_mpi *() { return &m; } };
static const char *X[2] = { "f123456789abcdef0123456789abcdef55f123456789abcdef0123456789abcdef55", "8e0f0aa77d1b2c3d4e5f60718293a4b5c6d7e8f90a1b2c3d4e5f6071829" };
static const char *Y[2] = { "fedcba98765432100f0123", "a0b1c2d3e4f5061728394a5b6c7d" };
static void add(const std::string &n, std::function<void(Bytes &, int)> f, int tag = 0, bool own = true) { ops.push_back({ n, f, tag, own }); }
template <class C> static void hashop(const char *n, void (*ini)(C *), void (*upd)(C *, const unsigned char *, size_t), void (*dig)(C *, unsigned char *), void (*clr)(C *), void (*shot)(unsigned char *, const unsigned char *, size_t), size_t dl)
{
    add(n, [=](Bytes &o, int w) {
        C c; unsigned char d[64]; Bytes m = patv(150 + w, w + 1);
        ini(&c); upd(&c, m.data(), 30); upd(&c, m.data() + 30, m.size() - 30); dig(&c, d); put(o, d, dl); clr(&c);
        shot(d, m.data(), 119); put(o, d, dl);
    });
}
static void s512(cry_sha512_ctx *c) { cry_sha512_init(c, 0); }
static void s384(cry_sha512_ctx *c) { cry_sha512_init(c, 1); }
static void ecset(cry_ecp_grp *g, int w)
{   // y^2 = x^3 + 2x + 2 over F_17, order 19; y^2 = x^3 + 2x + 3 over F_97, base point of order 5
    static const char *p[2] = { "11", "61" }, *a[2] = { "2", "2" }, *b[2] = { "2", "3" }, *n[2] = { "13", "5" }, *gx[2] = { "5", "3" }, *gy[2] = { "1", "6" };
    L(&g->p, p[w]); L(&g->a, a[w]); L(&g->b, b[w]); L(&g->n, n[w]); L(&g->g.x, gx[w]); L(&g->g.y, gy[w]); cry_mpi_set_int(&g->g.z, 1);
}
static void build_ops()
{
    for (int dec = 0; dec < 2; dec++) {
        for (size_t kl : { 16u, 32u })
            add(std::string("aes") + (dec ? " decrypt " : " encrypt ") + std::to_string(kl), [dec, kl](Bytes &o, int w) {
                cry_aes_ctx c; Bytes k = patv(kl, w + 3), m = patv(48, w + 5); unsigned char out[48];
                cry_aes_init(&c); cry_aes_key_set(&c, k.data(), kl);
                (dec ? cry_aes_decrypt : cry_aes_encrypt)(&c, out, m.data(), 48); put(o, out, 48); cry_aes_clear(&c);
            });
        for (size_t kl : { 8u, 24u })
            add(std::string("des") + (dec ? " decrypt " : " encrypt ") + std::to_string(kl), [dec, kl](Bytes &o, int w) {
                cry_des_ctx c; Bytes k = patv(kl, w + 3), m = patv(24, w + 5); unsigned char out[24];
                cry_des_init(&c); cry_des_key_set(&c, k.data(), kl);
                (dec ? cry_des_decrypt : cry_des_encrypt)(&c, out, m.data(), 24); put(o, out, 24); cry_des_clear(&c);
            });
    }
    for (int ci = 0; ci < 2; ci++) {
        const cry_ciph_itf *itf = ci ? &des_itf : &aes_itf;
        size_t B = ci ? 8 : 16;
        std::string cn = ci ? " des" : " aes";
#define MODE(T, nm, ...) add(nm + cn, [=](Bytes &o, int w) { union { cry_aes_ctx a; cry_des_ctx d; } x; T c; Bytes k = patv(B, w + 3), iv = patv(B, w + 4), m = patv(80, w + 5); unsigned char out[80]; memset(out, 0, 80); __VA_ARGS__; put(o, out, 80); })
        MODE(cry_cbc_ctx, std::string("cbc encrypt"), { cry_cbc_init(&c, &x, itf); cry_cbc_key_set(&c, k.data(), B); cry_cbc_iv_set(&c, iv.data(), B); cry_cbc_encrypt(&c, out, m.data(), 48); cry_cbc_encrypt(&c, out + 48, m.data() + 48, 32); cry_cbc_clear(&c); });
        MODE(cry_cbc_ctx, std::string("cbc decrypt"), { cry_cbc_init(&c, &x, itf); cry_cbc_key_set(&c, k.data(), B); cry_cbc_iv_set(&c, iv.data(), B); cry_cbc_decrypt(&c, out, m.data(), 48); memcpy(out + 48, m.data(), 32); cry_cbc_decrypt(&c, out + 48, out + 48, 32); cry_cbc_clear(&c); });
        MODE(cry_cfb_ctx, std::string("cfb"), { cry_cfb_init(&c, &x, itf); cry_cfb_key_set(&c, k.data(), B); cry_cfb_iv_set(&c, iv.data(), B); cry_cfb_encrypt(&c, out, m.data(), 48); cry_cfb_decrypt(&c, out + 48, m.data() + 48, 30); cry_cfb_clear(&c); });
        MODE(cry_cfb_ctx, std::string("cfb8"), { cry_cfb_init(&c, &x, itf); cry_cfb_key_set(&c, k.data(), B); cry_cfb_iv_set(&c, iv.data(), B); cry_cfb8_encrypt(&c, out, m.data(), 20); cry_cfb8_decrypt(&c, out + 48, m.data() + 48, 19); cry_cfb_clear(&c); });
        MODE(cry_ctr_ctx, std::string("ctr"), { cry_ctr_init(&c, &x, itf); cry_ctr_key_set(&c, k.data(), B); cry_ctr_iv_set(&c, iv.data(), B); cry_ctr_encrypt(&c, out, m.data(), 48); cry_ctr_encrypt(&c, out + 48, m.data() + 48, 29); cry_ctr_clear(&c); });
        if (!ci) {
            MODE(cry_gcm_ctx, std::string("gcm encrypt"), { cry_gcm_init(&c, &x, itf); cry_gcm_key_set(&c, k.data(), B); cry_gcm_iv_set(&c, iv.data(), w ? 12 : 15); cry_gcm_update(&c, m.data(), 20); cry_gcm_encrypt(&c, out, m.data(), 37); cry_gcm_digest(&c, out + 40, 16); cry_gcm_clear(&c); });
            MODE(cry_gcm_ctx, std::string("gcm decrypt"), { cry_gcm_init(&c, &x, itf); cry_gcm_key_set(&c, k.data(), B); cry_gcm_iv_set(&c, iv.data(), w ? 12 : 15); cry_gcm_update(&c, m.data(), 20); cry_gcm_decrypt(&c, out, m.data(), 37); cry_gcm_digest(&c, out + 40, 16); cry_gcm_clear(&c); });
            MODE(cry_cmac_ctx, std::string("cmac"), { cry_cmac_init(&c, &x, itf, k.data(), B); cry_cmac_update(&c, m.data(), 20); cry_cmac_update(&c, m.data() + 20, 37 + w * 3); cry_cmac_digest(&c, out); });
        }
    }
    add("rc4", [](Bytes &o, int w) { cry_arc4_ctx c; Bytes k = patv(11, w), m = patv(40, w + 1); unsigned char out[40]; cry_arc4_init(&c); cry_arc4_key_set(&c, k.data(), 11); cry_arc4_crypt(&c, out, m.data(), 40); put(o, out, 40); cry_arc4_clear(&c); });
    add("trivium", [](Bytes &o, int w) { cry_trivium_ctx c; Bytes k = patv(10, w), iv = patv(10, w + 7), m = patv(20, w + 1); unsigned char out[20]; cry_trivium_init(&c); cry_trivium_key_set(&c, k.data(), 10); cry_trivium_iv_set(&c, iv.data(), 10); cry_trivium_crypt(&c, out, m.data(), 20); put(o, out, 20); cry_trivium_clear(&c); });
    hashop<cry_md5_ctx>("md5", cry_md5_init, cry_md5_update, cry_md5_digest, cry_md5_clear, cry_md5, 16);
    hashop<cry_sha1_ctx>("sha1", cry_sha1_init, cry_sha1_update, cry_sha1_digest, cry_sha1_clear, cry_sha1, 20);
    hashop<cry_sha256_ctx>("sha256", cry_sha256_init, cry_sha256_update, cry_sha256_digest, cry_sha256_clear, cry_sha256, 32);
    hashop<cry_sha512_ctx>("sha512", s512, cry_sha512_update, cry_sha512_digest, cry_sha512_clear, cry_sha512, 64);
    hashop<cry_sha512_ctx>("sha384", s384, cry_sha512_update, cry_sha512_digest, cry_sha512_clear, cry_sha384, 48);
    struct HI { const char *n; const cry_hash_itf *i; size_t l; };
    for (HI h : { HI{ "md5", &md5_itf, 16 }, HI{ "sha1", &sha1_itf, 20 }, HI{ "sha256", &sha256_itf, 32 } })
        add(std::string("hmac ") + h.n, [h](Bytes &o, int w) { union { cry_md5_ctx a; cry_sha1_ctx b; cry_sha256_ctx c; } x; cry_hmac_ctx c; Bytes k = patv(w ? 100 : 20, w), m = patv(90, w + 2); unsigned char d[64]; cry_hmac_init(&c, &x, h.i, h.l, k.data(), k.size()); cry_hmac_update(&c, m.data(), 90); cry_hmac_digest(&c, d); put(o, d, h.l); });
    add("crc", [](Bytes &o, int w) {
        Bytes m = patv(33, w); puti(o, cry_crc16_ccitt(m.data(), 33)); puti(o, cry_crc16_ibm(m.data(), 33)); puti(o, cry_crc16_dnp(m.data(), 33)); puti(o, cry_crc32_eth(m.data(), 33));
        cry_crc32_ctx c; unsigned char d[4]; cry_crc32_eth_init(&c); cry_crc32_update(&c, m.data(), 5); cry_crc32_update(&c, m.data() + 5, 9); cry_crc32_digest(&c, d); put(o, d, 4);
        cry_crc16_ctx e; cry_crc16_dnp_init(&e); cry_crc16_update(&e, m.data(), 5); cry_crc16_update(&e, m.data() + 5, 9); cry_crc16_digest(&e, d); put(o, d, 2); });
    add("base64", [](Bytes &o, int w) { Bytes m = patv(25 + w, w); char t[80], b[80]; size_t n = cry_base64_encode(t, (char *)m.data(), m.size()); put(o, t, n); size_t k = cry_base64_decode(b, t, n); put(o, b, k); });
    add("key wrap", [](Bytes &o, int w) { Bytes k = patv(16, w), m = patv(24, w + 1); unsigned char a[40], b[40]; puti(o, cry_aes_wrap(a, m.data(), 24, k.data(), 16)); put(o, a, 32); puti(o, cry_aes_unwrap(b, a, 32, k.data(), 16)); put(o, b, 24); });
    add("hill", [](Bytes &o, int w) { unsigned char k[9]; for (int i = 0; i < 9; i++) k[i] = w ? (unsigned char)"\x01\x02\x03\x00\x01\x04\x05\x06\x01"[i] : (unsigned char)"\x03\x02\x00\x04\x05\x00\x00\x07\x01"[i]; cry_hill_ctx c; puti(o, cry_hill_init(&c, k, nullptr, 9)); Bytes m = patv(12, w); unsigned char a[12], b[12]; cry_hill_encrypt(&c, a, m.data(), 12); cry_hill_decrypt(&c, b, a, 12); put(o, a, 12); put(o, b, 12); });
    add("affine", [](Bytes &o, int w) { Bytes ka = { 3, 5, 7 }, kb = patv(3, w); cry_affine_ctx c; puti(o, cry_affine_init(&c, ka.data(), kb.data(), 3)); Bytes m = patv(20, w); unsigned char a[20], b[20]; cry_affine_encrypt(&c, a, m.data(), 20); cry_affine_decrypt(&c, b, a, 20); put(o, a, 20); put(o, b, 20); });
    add("memxor", [](Bytes &o, int w) { Bytes m = patv(60, w), n = patv(60, w + 9); unsigned char a[60]; cry_memxor(m.data() + 1, n.data() + 2, 50); cry_memxor2(a, m.data() + 3, n.data(), 50); put(o, m.data(), 60); put(o, a, 50); cry_memxor2(m.data() + 5, m.data(), n.data(), 40); put(o, m.data(), 60); });
    add("version", [](Bytes &o, int) { puti(o, cry_version()); put(o, cry_version_str(), strlen(cry_version_str())); });
    // longer inputs: the paths taken only beyond internal buffer sizes
    for (int ci = 0; ci < 2; ci++) {
        const cry_ciph_itf *itf = ci ? &des_itf : &aes_itf; size_t B = ci ? 8 : 16; std::string cn = ci ? " des long" : " aes long";
#define MODEL(T, nm, ...) add(nm + cn, [=](Bytes &o, int w) { union { cry_aes_ctx a; cry_des_ctx d; } x; T c; Bytes k = patv(B, w + 3), iv = patv(B, w + 4), m = patv(1120, w + 5), n = m; unsigned char *out = m.data(); __VA_ARGS__; put(o, out, m.size()); put(o, n.data(), n.size()); })
        MODEL(cry_cbc_ctx, std::string("cbc encrypt"), { cry_cbc_init(&c, &x, itf); cry_cbc_key_set(&c, k.data(), B); cry_cbc_iv_set(&c, iv.data(), B); cry_cbc_encrypt(&c, out, out, 1120); cry_cbc_encrypt(&c, n.data(), out, 560); cry_cbc_clear(&c); });
        MODEL(cry_cbc_ctx, std::string("cbc decrypt"), { cry_cbc_init(&c, &x, itf); cry_cbc_key_set(&c, k.data(), B); cry_cbc_iv_set(&c, iv.data(), B); cry_cbc_decrypt(&c, out, out, 1120); cry_cbc_decrypt(&c, n.data(), out, 560); cry_cbc_clear(&c); });
        MODEL(cry_cfb_ctx, std::string("cfb"), { cry_cfb_init(&c, &x, itf); cry_cfb_key_set(&c, k.data(), B); cry_cfb_iv_set(&c, iv.data(), B); cry_cfb_encrypt(&c, out, out, 1120); cry_cfb_decrypt(&c, n.data(), out, 560); cry_cfb_decrypt(&c, out, out, 603); cry_cfb_iv_set(&c, iv.data(), B); cry_cfb8_encrypt(&c, out, out, 77); cry_cfb8_decrypt(&c, out, out, 93); cry_cfb_clear(&c); });
        MODEL(cry_ctr_ctx, std::string("ctr"), { cry_ctr_init(&c, &x, itf); cry_ctr_key_set(&c, k.data(), B); cry_ctr_iv_set(&c, iv.data(), B); cry_ctr_encrypt(&c, out, out, 640); cry_ctr_encrypt(&c, n.data(), out, 560); cry_ctr_encrypt(&c, out, n.data(), 1117); cry_ctr_clear(&c); });
        if (!ci) {
            MODEL(cry_gcm_ctx, std::string("gcm"), { cry_gcm_init(&c, &x, itf); cry_gcm_key_set(&c, k.data(), B); cry_gcm_iv_set(&c, n.data(), w ? 60 : 133); cry_gcm_update(&c, n.data(), 301); cry_gcm_encrypt(&c, out, out, 640); cry_gcm_encrypt(&c, n.data(), out, 345); cry_gcm_digest(&c, n.data() + 400, 16); cry_gcm_iv_set(&c, n.data(), 12); cry_gcm_decrypt(&c, out, out, 512); cry_gcm_decrypt(&c, n.data(), out, 300); cry_gcm_digest(&c, n.data() + 480, 13); cry_gcm_clear(&c); });
            MODEL(cry_cmac_ctx, std::string("cmac"), { cry_cmac_init(&c, &x, itf, k.data(), B); cry_cmac_update(&c, m.data(), 600); cry_cmac_update(&c, m.data() + 600, 333 + w * 3); cry_cmac_digest(&c, out); });
        }
    }
    add("streams and tables long", [](Bytes &o, int w) {
        Bytes k = patv(200, w), m = patv(900, w + 1), b(1300);
        cry_arc4_ctx c; cry_arc4_init(&c); cry_arc4_key_set(&c, k.data(), 200); cry_arc4_crypt(&c, m.data(), m.data(), 900); put(o, m.data(), 900); cry_arc4_clear(&c);
        cry_trivium_ctx t; cry_trivium_init(&t); cry_trivium_key_set(&t, k.data(), 10); cry_trivium_iv_set(&t, k.data() + 20, 10); cry_trivium_crypt(&t, m.data(), m.data(), 400); cry_trivium_crypt(&t, m.data() + 400, m.data() + 400, 99); put(o, m.data(), 900); cry_trivium_clear(&t);
        size_t n = cry_base64_encode((char *)b.data(), (char *)m.data(), 800 + w); put(o, b.data(), n); size_t d = cry_base64_decode((char *)m.data(), (char *)b.data(), n); put(o, m.data(), d);
        puti(o, cry_aes_wrap(b.data(), m.data(), 480, k.data(), 32)); put(o, b.data(), 488); puti(o, cry_aes_unwrap(m.data(), b.data(), 488, k.data(), 32)); b[7] ^= 1; puti(o, cry_aes_unwrap(m.data(), b.data(), 488, k.data(), 32));
        puti(o, cry_crc32_eth(m.data(), 900)); puti(o, cry_crc16_dnp(m.data(), 900)); puti(o, cry_crc16_ibm(m.data(), 900)); puti(o, cry_crc16_ccitt(m.data(), 900));
        cry_memxor(m.data() + 3, m.data() + 100, 600); cry_memxor2(m.data() + 50, m.data(), m.data() + 200, 500); cry_memxor2(m.data(), m.data() + 50, m.data() + 400, 300); put(o, m.data(), 900);
        unsigned char d5[16], d1[20], d2[32]; cry_md5(d5, m.data(), 900); cry_sha1(d1, m.data(), 900); cry_sha256(d2, m.data(), 900); put(o, d5, 16); put(o, d1, 20); put(o, d2, 32);
    });
    add("mpi large", [](Bytes &o, int w) {
        N l(X[w]), k(Y[w]), r, q, t, sm(X[1 - w]); int res = 0;
        for (int i = 0; i < 5; i++) { N u; cry_mpi_shl(u, l, 300 << i); cry_mpi_add(l, l, u); cry_mpi_shl(u, k, 290 << i); cry_mpi_sub(k, u, k); }
        for (auto f : { cry_mpi_mul, cry_mpi_mul_baseline, cry_mpi_mul_comba, cry_mpi_mul_karatsuba, cry_mpi_mul_toom3 }) { res |= f(r, l, k); putm(o, r); }
        for (auto f : { cry_mpi_sqr, cry_mpi_sqr_baseline, cry_mpi_sqr_comba, cry_mpi_sqr_karatsuba }) { res |= f(q, k); putm(o, q); }
        res |= cry_mpi_div(q, t, r, k); putm(o, q); putm(o, t);
        std::vector<char> s(600); for (unsigned rx : { 10u, 16u }) { res |= cry_mpi_store_str(sm, rx, s.data()); put(o, s.data(), strlen(s.data())); res |= cry_mpi_load_str(t, rx, s.data()); putm(o, t); }
        puti(o, res);
    });
    add("curve loads", [](Bytes &o, int w) { for (int id = 0; id < 12; id++) { cry_ecp_grp g; int r = cry_ecp_grp_load(&g, (w ? 11 - id : id)); puti(o, r); if (r) continue; for (cry_mpi *m : { &g.p, &g.a, &g.b, &g.n, &g.g.x, &g.g.y }) putm(o, m); cry_ecp_grp_clear(&g); } });
    add("refusals", [](Bytes &o, int w) {   // error paths
        N a(X[w]), z, r, q; puti(o, cry_mpi_div(q, r, a, z)); puti(o, cry_mpi_mod(r, a, z)); puti(o, cry_mpi_inv(r, z, a)); a.m.sign = 1; puti(o, cry_mpi_sqrt(r, a)); puti(o, cry_mpi_load_str(r, 10, w ? "12z" : "9a")); unsigned char b[4]; puti(o, cry_mpi_store_bin(a, b, 4, 0)); long v; puti(o, cry_mpi_get_int(a, &v));
        cry_hill_ctx h; unsigned char k[4] = { 2, 2, 2, (unsigned char)(2 + 2 * w) }; puti(o, cry_hill_init(&h, k, nullptr, 4)); cry_affine_ctx f; puti(o, cry_affine_init(&f, k, k, 4));
        char t[8]; puti(o, cry_base64_decode(t, w ? "A*BC" : "????", 4)); Bytes x = patv(24, w), kk = patv(16, w); unsigned char y[40]; puti(o, cry_aes_unwrap(y, x.data(), 24, kk.data(), 16)); puti(o, cry_aes_wrap(y, x.data(), 13, kk.data(), 16));
        cry_ecp_grp g; puti(o, cry_ecp_grp_load(&g, 77 + w)); });
    // big integers
#define MP(nm, ...) add(std::string("mpi ") + nm, [](Bytes &o, int w) { N a(X[w]), b(Y[w]), r, q; int res = 0; __VA_ARGS__; puti(o, res); putm(o, r); putm(o, q); putm(o, a); putm(o, b); })
    MP("add sub", { res = cry_mpi_add(r, a, b); res |= cry_mpi_sub(q, b, a); });
    MP("mul", { res = cry_mpi_mul(r, a, b); res |= cry_mpi_sqr(q, a); });
    MP("div", { res = cry_mpi_div(q, r, a, b); });
    MP("shift", { res = cry_mpi_shl(q, a, 77); res |= cry_mpi_shr(r, a, 19); });
    MP("gcd lcm", { res = cry_mpi_gcd(r, a, b); res |= cry_mpi_lcm(q, a, b); });
    MP("inv", { b.m.data[0] |= 1; res = cry_mpi_inv(r, a, b); });
    MP("mod_exp", { N e(w ? "1b7d" : "10001"); b.m.data[0] |= 1; res = cry_mpi_mod_exp(r, a, e, b); });
    MP("exp", { N e(w ? "7" : "5"); res = cry_mpi_exp(r, b, e); });
    MP("sqrt", { res = cry_mpi_sqrt(r, a); });
    MP("copy abs", { res = cry_mpi_copy(r, a); r.m.sign = 1; res |= cry_mpi_abs(q, r); });
    MP("algorithms", { N l; N k; cry_mpi_shl(l, a, 2000); cry_mpi_add(l, l, b); cry_mpi_shl(k, b, 2100); cry_mpi_add(k, k, a); N s; res = cry_mpi_mul_baseline(r, l, k); putm(o, r); res |= cry_mpi_mul_comba(r, l, k); putm(o, r); res |= cry_mpi_mul_karatsuba(r, l, k); putm(o, r); res |= cry_mpi_mul_toom3(r, l, k); putm(o, r); res |= cry_mpi_sqr_baseline(q, l); putm(o, q); res |= cry_mpi_sqr_comba(q, l); putm(o, q); res |= cry_mpi_sqr_karatsuba(q, k); });
    MP("text", { char t[400]; for (unsigned rx : { 2u, 10u, 16u }) { res |= cry_mpi_store_str(a, rx, t); put(o, t, strlen(t)); res |= cry_mpi_load_str(r, rx, t); } });
    MP("bytes", { unsigned char t[64]; res = cry_mpi_store_bin(a, t, 64, 1); put(o, t, 64); res |= cry_mpi_load_bin(r, t, 50); long v = w ? -5 : 77; res |= cry_mpi_set_int(q, v); res |= cry_mpi_get_int(q, &v); puti(o, v); puti(o, cry_mpi_cmp(a, b)); puti(o, cry_mpi_count_bits(a)); });
    add("mpi list", [](Bytes &o, int) { cry_mpi a, b, c; puti(o, cry_mpi_init_list(&a, &b, &c, (cry_mpi *)NULL)); puti(o, cry_mpi_set_int(&b, 9)); putm(o, &a); putm(o, &b); cry_mpi_clear_list(&a, &b, &c, (cry_mpi *)NULL); });
    // curves
    add("ecp", [](Bytes &o, int w) {
        cry_ecp_grp g; cry_ecp p, q, r; puti(o, cry_ecp_grp_init(&g)); cry_ecp_init_list(&p, &q, &r, (cry_ecp *)NULL); ecset(&g, w);
        puti(o, cry_ecp_dbl(&p, &g.g, &g)); puti(o, cry_ecp_add(&q, &p, &g.g, &g)); N k(w ? "3" : "d"); puti(o, cry_ecp_mul(&r, &g.g, k, &g));
        for (cry_ecp *e : { &p, &q, &r }) { putm(o, &e->z); if (e->z.used) { putm(o, &e->x); putm(o, &e->y); } }
        cry_ecp_clear_list(&p, &q, &r, (cry_ecp *)NULL); cry_ecp_grp_clear(&g); });
    add("ecp named", [](Bytes &o, int w) {
        cry_ecp_grp g; cry_ecp r; puti(o, cry_ecp_grp_load(&g, w ? CRY_ECP_GRP_SECP256R1 : CRY_ECP_GRP_SECP192R1)); cry_ecp_init(&r); N k(w ? "1d" : "1b");
        puti(o, cry_ecp_mul(&r, &g.g, k, &g)); putm(o, &r.x); putm(o, &r.y); cry_ecp_clear(&r); cry_ecp_grp_clear(&g); });
    add("ecdh", [](Bytes &o, int w) {
        cry_ecdh_ctx c; puti(o, cry_ecdh_init(&c)); ecset(&c.ec, w); cry_mpi_set_int(&c.d, w ? 3 : 7); puti(o, cry_ecdh_agree(&c)); putm(o, &c.q.z); if (c.q.z.used) putm(o, &c.q.x); puti(o, cry_ecdh_final(&c)); putm(o, &c.z.z); if (c.z.z.used) putm(o, &c.z.x); cry_ecdh_clear(&c); });
    for (int sign = 0; sign < 2; sign++)
        add(sign ? "ecdsa sign" : "ecdsa verify", [sign](Bytes &o, int w) {
            cry_ecdsa_ctx c; puti(o, cry_ecdsa_init(&c, -1)); ecset(&c.grp, 0); cry_mpi_set_int(&c.d, w ? 5 : 7); puti(o, cry_ecp_mul(&c.q, &c.grp.g, &c.d, &c.grp));
            cry_ecdsa_sig s; cry_mpi_init_list(&s.r, &s.s, (cry_mpi *)NULL); unsigned char m[2] = { (unsigned char)(w ? 0x50 : 0x90), 1 };
            if (sign) { seed(o, w); puti(o, cry_ecdsa_sign(&c, &s, m, 2)); putm(o, &s.r); putm(o, &s.s); }
            else for (int r = 1; r < 19; r += 6) for (int t = 1; t < 19; t += 4) { cry_mpi_set_int(&s.r, r); cry_mpi_set_int(&s.s, t); puti(o, cry_ecdsa_verify(&c, &s, m, 2) == 0); }
            cry_mpi_clear_list(&s.r, &s.s, (cry_mpi *)NULL); cry_ecdsa_clear(&c); }, sign);
    for (int sign = 0; sign < 2; sign++)
        add(sign ? "dsa sign" : "dsa verify", [sign](Bytes &o, int w) {
            cry_dsa_ctx c; puti(o, cry_dsa_init(&c));
            cry_mpi_set_int(&c.q, 101); cry_mpi_set_int(&c.p, 607); N e("6"), two("2"); if (w) two.m.data[0] = 5; puti(o, cry_mpi_mod_exp(&c.g, two, e, &c.p));
            cry_mpi_set_int(&c.pvt, w ? 44 : 71); puti(o, cry_mpi_mod_exp(&c.pub, &c.g, &c.pvt, &c.p));
            cry_dsa_sig s; cry_mpi_init_list(&s.r, &s.s, (cry_mpi *)NULL); unsigned char m[1] = { (unsigned char)(w ? 0x50 : 0x90) };
            if (sign) { seed(o, w); puti(o, cry_dsa_sign(&c, &s, m, 1)); putm(o, &s.r); putm(o, &s.s); }
            else for (int r = 1; r < 101; r += 16) for (int t = 1; t < 101; t += 34) { cry_mpi_set_int(&s.r, r); cry_mpi_set_int(&s.s, t); puti(o, cry_dsa_verify(&c, &s, m, 1) == 0); }
            cry_mpi_clear_list(&s.r, &s.s, (cry_mpi *)NULL); cry_dsa_clear(&c); }, sign);
    for (int sign = 0; sign < 2; sign++)
        add(sign ? "elgamal sign" : "elgamal verify", [sign](Bytes &o, int w) {
            cry_elgamal_ctx c; puti(o, cry_elgamal_init(&c)); cry_mpi_set_int(&c.p, 467); cry_mpi_set_int(&c.g, 2); cry_mpi_set_int(&c.d, w ? 44 : 127); puti(o, cry_mpi_mod_exp(&c.y, &c.g, &c.d, &c.p));
            unsigned char m[1] = { (unsigned char)(w ? 0x50 : 0x90) }, b[4];
            if (sign) { seed(o, w); puti(o, cry_elgamal_sign(&c, b, m, 1)); put(o, b, 4); }
            else for (int r = 1; r < 467; r += 90) for (int t = 1; t < 466; t += 150) { b[0] = r >> 8; b[1] = r; b[2] = t >> 8; b[3] = t; puti(o, cry_elgamal_verify(&c, b, m, 1) == 0); }
            cry_elgamal_clear(&c); }, sign);
    for (int enc = 0; enc < 2; enc++)
        add(enc ? "rsa padded encrypt" : "rsa sign verify decrypt", [enc](Bytes &o, int w) {
            cry_rsa_ctx c; puti(o, cry_rsa_init(&c, enc || w ? CRY_RSA_PADDING_PKCS_V15 : CRY_RSA_PADDING_NONE));
            // two 56-bit primes
            N p(w ? "fffffffffffffb" : "ffffffffffffc7"), q(w ? "ffffffffffffc7" : "fffffffffffffb"), one("1"), p1, q1, ph; cry_mpi_sub(p1, p, one); cry_mpi_sub(q1, q, one); cry_mpi_mul(ph, p1, q1);
            cry_mpi_mul(&c.n, p, q); cry_mpi_set_int(&c.e, w ? 17 : 65537); puti(o, cry_mpi_inv(&c.d, &c.e, ph));
            Bytes m = patv(4, w); unsigned char *s = nullptr, *t = nullptr; size_t sl = 0, tl = 0;
            if (enc) { seed(o, w); puti(o, cry_rsa_encrypt(&c, &s, &sl, m.data(), 3)); put(o, s, sl); }
            else { puti(o, cry_rsa_sign(&c, &s, &sl, m.data(), 3)); put(o, s, sl); puti(o, cry_rsa_verify(&c, s, sl, m.data(), 3)); puti(o, cry_rsa_verify(&c, s, sl, m.data(), 2)); puti(o, cry_rsa_decrypt(&c, &t, &tl, s, sl)); if (t) { put(o, t, tl); free(t); } }
            if (s) free(s);
            cry_rsa_clear(&c); }, enc);
    add("dh", [](Bytes &o, int w) {
        cry_dh_ctx c; puti(o, cry_dh_init(&c)); L(&c.p, "1fffffffffffffff"); cry_mpi_set_int(&c.g, 37 + w); cry_mpi_set_int(&c.e, w ? 91 : 200); puti(o, cry_dh_agree(&c)); unsigned char b[16]; puti(o, cry_dh_get_tok(&c, b, 16)); put(o, b, 16); b[3] ^= 1; b[9] ^= 5; puti(o, cry_dh_set_tok(&c, b, 16)); puti(o, cry_dh_finalize(&c)); puti(o, cry_dh_get_sec(&c, b, 16)); put(o, b, 16); cry_dh_clear(&c); });
    add("primality", [](Bytes &o, int w) { seed(o, w); N a(w ? "f4243" : "f4247"); puti(o, cry_mpi_is_prime(a)); N r; puti(o, cry_mpi_rand(r, 90)); putm(o, r); }, 1);
    add("aes generator", [](Bytes &o, int w) { Bytes sd = patv(32, w); puti(o, cry_prng_aes_init(sd.data(), 32)); unsigned char b[40]; puti(o, __real_cry_prng_aes_rand(b, 40)); put(o, b, 40); }, 1, false);
    add("rsa keygen", [](Bytes &o, int w) { seed(o, w); cry_rsa_ctx c; puti(o, cry_rsa_init(&c, 0)); puti(o, cry_rsa_keygen(&c, 64, w ? 17 : 65537)); putm(o, &c.n); putm(o, &c.d); putm(o, &c.e); cry_rsa_clear(&c); }, 1);
    add("ecdsa keygen", [](Bytes &o, int w) { seed(o, w); cry_ecdsa_ctx c; puti(o, cry_ecdsa_init(&c, -1)); ecset(&c.grp, w); puti(o, cry_ecdsa_keygen(&c)); putm(o, &c.d); putm(o, &c.q.z); if (c.q.z.used) { putm(o, &c.q.x); putm(o, &c.q.y); } cry_ecdsa_clear(&c); }, 1);
    add("prime", [](Bytes &o, int w) { seed(o, w); N a, m(X[w]); unsigned it = 200; puti(o, cry_mpi_prime(a, 24 + 8 * w, &it)); putm(o, a); puti(o, it); puti(o, cry_mpi_rand_range(a, m)); putm(o, a); }, 1);
    add("hill keygen", [](Bytes &o, int w) { seed(o, w); cry_hill_ctx c; unsigned char k[9]; memset(k, w + 1, 9); puti(o, cry_hill_init(&c, k, nullptr, 9)); cry_hill_ctx d; puti(o, cry_hill_init(&d, nullptr, nullptr, 9)); Bytes m = patv(9, w); unsigned char t[9]; cry_hill_encrypt(&d, t, m.data(), 9); put(o, t, 9); }, 1);
    add("lfsr generator", [](Bytes &o, int w) { Bytes sd = patv(16, w); puti(o, cry_prng_lfsr113_init(sd.data(), 16)); unsigned char b[40]; puti(o, cry_prng_lfsr113_rand(b, 40)); put(o, b, 40); }, 2, false);
}
// ---- exploration ----------------------------------------------------------
// runs f in a child with the initial state of the process; its bytes come back
static Bytes child(const std::function<Bytes()> &f)
{
    int fd[2]; if (pipe(fd)) abort();
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        close(fd[0]);
        Bytes b = f();
        size_t at = 0; while (at < b.size()) { ssize_t k = write(fd[1], b.data() + at, b.size() - at); if (k <= 0) _exit(9); at += k; }
        _exit(0);
    }
    close(fd[1]);
    Bytes b; uint8_t t[65536]; ssize_t k;
    while ((k = read(fd[0], t, sizeof t)) > 0) b.insert(b.end(), t, t + k);
    close(fd[0]);
    int st; waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) fail("crash", "the process running the two operations died (status %x)", st);
    return b;
}
static std::vector<Bytes> solo[2];
static void check(const Bytes &got, const Bytes &want, const char *who, const std::string &sched)
{
    if (got != want) fail("interference", "%s: the %s operation produced %s, alone it produces %s", sched.c_str(), who, hex(got).substr(0, 400).c_str(), hex(want).substr(0, 400).c_str());
}
template <class T> static T rd(const Bytes &b, size_t &at) { T v; memcpy(&v, &b[at], sizeof v); at += sizeof v; return v; }
static Bytes two_out() { Bytes b; for (auto &t : th) { puti(b, t.out.size()); b.insert(b.end(), t.out.begin(), t.out.end()); } return b; }
static void two_in(const Bytes &b, size_t &at, Bytes o[2]) { for (int i = 0; i < 2; i++) { size_t n = rd<long>(b, at); o[i].assign(b.begin() + at, b.begin() + at + n); at += n; } }
static void schedule(int a, int b, const std::vector<uint64_t> &sa, const std::vector<uint64_t> &sb)
{
    std::string s = "first switches at accesses";
    for (auto v : sa) s += " " + std::to_string(v);
    s += ", second at"; for (auto v : sb) s += " " + std::to_string(v);
    CASET(ops[a].name + " || " + ops[b].name + ", " + s);
    Bytes r = child([&] { g_record = false; g_watch = nullptr; run2(a, b, sa, sb); return two_out(); });
    size_t at = 0; Bytes o[2]; two_in(r, at, o);
    g_traces++; g_extra["schedules"]++;
    check(o[0], solo[0][a], "first", s); check(o[1], solo[1][b], "second", s);
}
int main(int argc, char **argv)
{
    init(argc, argv);
    build_ops();
    { Bytes pr = child([] { cry_mpi m; cry_mpi_init(&m); cry_mpi_rand(&m, 64); return Bytes(1, g_probe); }); g_stub = pr.size() == 1 && pr[0]; }
    int K = ops.size();
    // results of each operation alone, in a fresh process
    for (int w = 0; w < 2; w++)
        for (int i = 0; i < K; i++) {
            CASET(ops[i].name + " alone");
            solo[w].push_back(child([&] { run2(w ? -1 : i, w ? i : -1, {}, {}); return th[w].out; }));
            if (solo[w][i].empty()) fail("harness", "no output");
            Bytes again = child([&] { run2(w ? -1 : i, w ? i : -1, {}, {}); return th[w].out; });
            if (again != solo[w][i]) fail("nondeterministic", "two executions alone differ");
        }
    if (g_args.size() && g_args[0] == "dump") for (int i = 0; i < K; i++) printf("SAMPLE %s %s\n", ops[i].name.c_str(), hex(solo[0][i]).substr(0, 200).c_str());
    for (int a = 0; a < K; a++)
        for (int b = 0; b < K; b++) {
            if (ops[a].tag && ops[a].tag == ops[b].tag && !(g_stub && (ops[a].own || ops[b].own))) continue;   // both use the shared generator
            if (!mine()) continue;
            CASET(ops[a].name + " then " + ops[b].name);
            // recorded execution: first to its end, then second
            Bytes r = child([&] {
                g_record = true; run2(a, b, {}, {});
                Bytes o = two_out();
                puti(o, th[0].events); puti(o, th[1].events); puti(o, th[0].acc.size() + th[1].acc.size());
                for (auto &e : th[0].acc) { auto it = th[1].acc.find(e.first); if (it != th[1].acc.end() && ((e.second | it->second) & 2)) puti(o, e.first); }
                return o; });
            size_t at = 0; Bytes o[2]; two_in(r, at, o);
            long ea = rd<long>(r, at), eb = rd<long>(r, at), gr = rd<long>(r, at);
            g_traces++; g_trans += ea + eb; g_states += gr; g_extra["pairs"]++;
            sample();
            check(o[0], solo[0][a], "first", "one after the other"); check(o[1], solo[1][b], "second", "one after the other");
            std::set<uintptr_t> watch;
            while (at < r.size()) watch.insert(rd<long>(r, at));
            if (watch.empty()) { g_extra["independent_pairs"]++; continue; }
            g_extra["dependent_pairs"]++;
            // accesses at which the order matters
            Bytes c = child([&] { g_record = false; g_watch = &watch; run2(a, b, {}, {}); Bytes o; for (auto &t : th) { puti(o, t.confl.size()); for (auto e : t.confl) puti(o, e); } return o; });
            at = 0; std::vector<uint64_t> cf[2];
            for (auto &v : cf) for (long n = rd<long>(c, at); n-- > 0;) v.push_back(rd<long>(c, at));
            auto thin = [](const std::vector<uint64_t> &v, size_t n) { if (v.size() <= n) return v; std::vector<uint64_t> o; for (size_t i = 0; i < n / 2; i++) o.push_back(v[i]); for (size_t i = 0; i < n / 2; i++) o.push_back(v[v.size() - n / 2 + i]); return o; };
            for (uint64_t i : thin(cf[0], g_thorough ? 5000 : 400)) schedule(a, b, { i }, {});
            size_t g = g_thorough ? 80 : 12;
            for (uint64_t i : thin(cf[0], g)) for (uint64_t j : thin(cf[1], g)) schedule(a, b, { i }, { j });
        }
    return done();
}

// C28: noninterference of cleared contexts, and re-initialisation.
//
// Every context type is a small machine: a history of operations is run twice
// with two different secrets (keys, IVs, texts), starting from the same memory
// fill.  After clear, all bytes of the context, of the cipher context below it
// and of every heap block it released must be the same in both runs: whatever
// is left cannot depend on the secret.  After init (with and without a clear
// before), a fixed probe must answer as on a fresh context.
#include "sigref.hpp"
extern "C" {
#include <cry/aes.h>
#include <cry/des.h>
#include <cry/arc4.h>
#include <cry/trivium.h>
#include <cry/cbc.h>
#include <cry/cfb.h>
#include <cry/ctr.h>
#include <cry/gcm.h>
#include <cry/md5.h>
#include <cry/sha1.h>
#include <cry/sha256.h>
#include <cry/sha512.h>
#include <cry/hmac.h>
#include <cry/cmac.h>
#include <cry/hill.h>
#include <cry/affine.h>
#include <cry/rsa.h>
#include <cry/dsa.h>
#include <cry/ecdsa.h>
#include <cry/ecdh.h>
#include <cry/dh.h>
#include <cry/elgamal.h>
}
// ---- allocator of the library and of this harness --------------------------
static std::map<void *, size_t> *g_blocks;   // live blocks, while tracking
static bool g_track, g_rec, g_busy;
static std::vector<Bytes> *g_freed;
extern "C" {
void *__real_malloc(size_t); void *__real_realloc(void *, size_t); void *__real_calloc(size_t, size_t); void __real_free(void *);
void *__wrap_malloc(size_t n)
{
    void *p = __real_malloc(n);
    if (g_track && !g_busy && p) { g_busy = true; memset(p, 0xA5, n); (*g_blocks)[p] = n; g_busy = false; }
    return p;
}
void *__wrap_calloc(size_t a, size_t b)
{
    void *p = __real_calloc(a, b);
    if (g_track && !g_busy && p) { g_busy = true; (*g_blocks)[p] = a * b; g_busy = false; }
    return p;
}
void __wrap_free(void *p)
{
    if (g_track && !g_busy && p) {
        g_busy = true;
        auto it = g_blocks->find(p);
        if (it != g_blocks->end()) {
            if (g_rec) g_freed->push_back(Bytes((uint8_t *)p, (uint8_t *)p + it->second));
            g_blocks->erase(it);
        }
        g_busy = false;
    }
    __real_free(p);
}
void *__wrap_realloc(void *q, size_t n)
{
    if (!g_track || g_busy) return __real_realloc(q, n);
    if (!q) return __wrap_malloc(n);
    g_busy = true;
    auto it = g_blocks->find(q);
    size_t old = it == g_blocks->end() ? 0 : it->second;
    if (it != g_blocks->end()) g_blocks->erase(it);
    void *p = __real_realloc(q, n);
    if (n > old && old) memset((uint8_t *)p + old, 0xA5, n - old);
    (*g_blocks)[p] = n;
    g_busy = false;
    return p;
}
}
// ---- machines --------------------------------------------------------------
static unsigned g_secret;                    // which secret is used
static Bytes sec(size_t n, unsigned salt) { return patv(n, salt * 2 + 1000 + g_secret * 7919); }
struct Machine {
    std::string name; size_t nops = 0; unsigned depth = 3;
    bool clears = true, owns = false;
    virtual ~Machine() {}
    virtual std::vector<std::pair<void *, size_t>> areas() = 0;   // memory of the context
    virtual void init() = 0;
    virtual void first() {}                                      // what must precede any other operation
    virtual std::string opname(size_t) = 0;
    virtual void op(size_t) = 0;
    virtual void clear() {}
    virtual Bytes probe() = 0;                                   // after init: standard use, returns the outputs
};
typedef std::function<void()> F;
struct Ops { std::vector<std::pair<std::string, F>> v; void add(std::string n, F f) { v.push_back({ n, f }); } };
template <class C, class X = char> struct Simple : Machine {
    alignas(16) C c; alignas(16) X x; Ops o;
    std::function<void(C *)> fi, fc, ff; std::function<Bytes(C *)> fp; bool below = false;
    std::vector<std::pair<void *, size_t>> areas() override { std::vector<std::pair<void *, size_t>> r{ { &c, sizeof c } }; if (below) r.push_back({ &x, sizeof x }); return r; }
    void init() override { fi(&c); }
    void first() override { if (ff) ff(&c); }
    std::string opname(size_t i) override { return o.v[i].first; }
    void op(size_t i) override { o.v[i].second(); }
    void clear() override { fc(&c); }
    Bytes probe() override { return fp(&c); }
    void ready(unsigned d) { nops = o.v.size(); depth = d; }
};
static std::vector<std::unique_ptr<Machine>> g_m;
static const cry_ciph_itf aes_itf = { (cry_ciph_init_f)cry_aes_init, (cry_ciph_clear_f)cry_aes_clear, (cry_ciph_key_set_f)cry_aes_key_set, (cry_ciph_encrypt_f)cry_aes_encrypt, (cry_ciph_decrypt_f)cry_aes_decrypt };
static const cry_ciph_itf des_itf = { (cry_ciph_init_f)cry_des_init, (cry_ciph_clear_f)cry_des_clear, (cry_ciph_key_set_f)cry_des_key_set, (cry_ciph_encrypt_f)cry_des_encrypt, (cry_ciph_decrypt_f)cry_des_decrypt };
static std::string S(size_t n) { return std::to_string(n); }
template <class C> static void block_machine(const char *nm, void (*in)(C *), void (*cl)(C *), void (*ks)(C *, const unsigned char *, size_t), void (*en)(C *, unsigned char *, const unsigned char *, size_t), void (*de)(C *, unsigned char *, const unsigned char *, size_t), std::vector<size_t> keys, size_t B)
{
    auto m = new Simple<C>; m->name = nm; m->fi = in; m->fc = cl;
    m->ff = [=](C *c) { Bytes k = sec(keys.back(), 1); ks(c, k.data(), k.size()); };
    for (size_t n : keys) m->o.add("key " + S(n), [=] { Bytes k = sec(n, 2); ks(&m->c, k.data(), n); });
    for (size_t n : { (size_t)0, B, 3 * B }) {
        m->o.add("encrypt " + S(n), [=] { Bytes d = sec(n + 1, 3), e(n + 1); en(&m->c, e.data(), d.data(), n); });
        if (de) m->o.add("decrypt " + S(n), [=] { Bytes d = sec(n + 1, 4); de(&m->c, d.data(), d.data(), n); });
    }
    m->fp = [=](C *c) {
        Bytes r;
        for (size_t n : keys) {
            Bytes k = patv(n, 77), d = patv(3 * B, 78), e(3 * B);
            ks(c, k.data(), n); en(c, e.data(), d.data(), 3 * B); r.insert(r.end(), e.begin(), e.end());
            if (de) { de(c, e.data(), d.data(), 2 * B); r.insert(r.end(), e.begin(), e.end()); }
        }
        return r;
    };
    m->ready(g_thorough ? 6 : 4); g_m.emplace_back(m);
}
template <class C> using Crypt = void (*)(C *, unsigned char *, const unsigned char *, size_t);
template <class C, class X> static void mode_machine(const std::string &nm, const cry_ciph_itf *itf, void (*in)(C *, void *, const cry_ciph_itf *), void (*cl)(C *), void (*ks)(C *, const unsigned char *, size_t), void (*iv)(C *, const unsigned char *, size_t), std::vector<std::pair<std::string, Crypt<C>>> cr, std::vector<size_t> keys, size_t B, std::vector<size_t> lens, std::function<void(Simple<C, X> *)> more = nullptr, std::function<void(C *, Bytes &)> moreprobe = nullptr)
{
    auto m = new Simple<C, X>; m->name = nm; m->below = true; m->fi = [=](C *c) { in(c, &m->x, itf); }; m->fc = cl;
    m->ff = [=](C *c) { Bytes k = sec(keys.back(), 1), v = sec(B, 5); ks(c, k.data(), k.size()); iv(c, v.data(), B); };
    for (size_t n : keys) m->o.add("key " + S(n), [=] { Bytes k = sec(n, 2); ks(&m->c, k.data(), n); });
    m->o.add("iv " + S(B), [=] { Bytes v = sec(B, 6); iv(&m->c, v.data(), B); });
    for (auto &[n, f] : cr) for (size_t l : lens) m->o.add(n + " " + S(l), [=, f = f] { Bytes d = sec(l + 1, 3), e(l + 1); f(&m->c, e.data(), d.data(), l); });
    if (more) more(m);
    m->fp = [=](C *c) {
        Bytes r;
        for (size_t n : keys) for (auto &[nm, f] : cr) {
            Bytes k = patv(n, 77), d = patv(4 * B, 78), v = patv(B, 79), e(4 * B);
            ks(c, k.data(), n); iv(c, v.data(), B);
            f(c, e.data(), d.data(), 2 * B); f(c, e.data() + 2 * B, d.data() + 2 * B, 2 * B);
            r.insert(r.end(), e.begin(), e.end());
            if (moreprobe) moreprobe(c, r);
        }
        return r;
    };
    m->ready(g_thorough && B == 16 ? 4 : 3); g_m.emplace_back(m);
}
template <class C> static void hash_machine(const std::string &nm, std::function<void(C *)> in, void (*cl)(C *), void (*up)(C *, const unsigned char *, size_t), void (*dg)(C *, unsigned char *), size_t dl, size_t B)
{
    auto m = new Simple<C>; m->name = nm; m->fi = in; m->fc = cl;
    for (size_t n : { (size_t)0, (size_t)1, B - 9, B - 1, B, B + 1, 3 * B - 4 }) m->o.add("update " + S(n), [=] { Bytes d = sec(n + 1, 3); up(&m->c, d.data(), n); });
    m->o.add("digest", [=] { Bytes d(dl); dg(&m->c, d.data()); in(&m->c); });
    m->o.add("digest, not started again", [=] { Bytes d(dl); dg(&m->c, d.data()); });
    m->fp = [=](C *c) {
        Bytes r(dl), d = patv(B + 60, 78); up(c, d.data(), 17); up(c, d.data() + 17, B + 43); dg(c, r.data()); return r;
    };
    m->ready(g_thorough ? 6 : 4); g_m.emplace_back(m);
}
static void sym()
{
    block_machine<cry_aes_ctx>("AES", cry_aes_init, cry_aes_clear, cry_aes_key_set, cry_aes_encrypt, cry_aes_decrypt, { 16, 24, 32 }, 16);
    block_machine<cry_des_ctx>("DES", cry_des_init, cry_des_clear, cry_des_key_set, cry_des_encrypt, cry_des_decrypt, { 8, 24 }, 8);
    block_machine<cry_arc4_ctx>("RC4", cry_arc4_init, cry_arc4_clear, cry_arc4_key_set, cry_arc4_crypt, nullptr, { 5, 16, 256 }, 37);
    {
        typedef cry_trivium_ctx C; auto m = new Simple<C>; m->name = "Trivium"; m->fi = cry_trivium_init; m->fc = cry_trivium_clear;
        m->ff = [](C *c) { Bytes k = sec(10, 1), v = sec(10, 2); cry_trivium_key_set(c, k.data(), 10); cry_trivium_iv_set(c, v.data(), 10); };
        m->o.add("key", [=] { Bytes k = sec(10, 3); cry_trivium_key_set(&m->c, k.data(), 10); });
        m->o.add("iv", [=] { Bytes k = sec(10, 4); cry_trivium_iv_set(&m->c, k.data(), 10); });
        for (size_t n : { 0, 3, 4, 12, 37, 100 }) m->o.add("crypt " + S(n), [=] { Bytes d = sec(n + 1, 5); cry_trivium_crypt(&m->c, d.data(), d.data(), n); });
        m->fp = [](C *c) { Bytes k = patv(10, 77), v = patv(10, 78), d = patv(64, 79), e(64); cry_trivium_key_set(c, k.data(), 10); cry_trivium_iv_set(c, v.data(), 10); cry_trivium_crypt(c, e.data(), d.data(), 64); return e; };
        m->ready(g_thorough ? 6 : 4); g_m.emplace_back(m);
    }
    for (int ci = 0; ci < 2; ci++) {
        const cry_ciph_itf *t = ci ? &des_itf : &aes_itf; size_t B = ci ? 8 : 16; std::string cn = ci ? "-DES" : "-AES";
        std::vector<size_t> ks = ci ? std::vector<size_t>{ 8, 24 } : std::vector<size_t>{ 16, 32 };
#define MODE(X) \
        mode_machine<cry_cbc_ctx, X>("CBC" + cn, t, cry_cbc_init, cry_cbc_clear, cry_cbc_key_set, cry_cbc_iv_set, { { "encrypt", cry_cbc_encrypt }, { "decrypt", cry_cbc_decrypt } }, ks, B, { 0, B, 3 * B, B + 3 }); \
        mode_machine<cry_cfb_ctx, X>("CFB" + cn, t, cry_cfb_init, cry_cfb_clear, cry_cfb_key_set, cry_cfb_iv_set, { { "encrypt", cry_cfb_encrypt }, { "decrypt", cry_cfb_decrypt }, { "encrypt8", cry_cfb8_encrypt }, { "decrypt8", cry_cfb8_decrypt } }, ks, B, { 0, B, 2 * B + 3 }); \
        mode_machine<cry_ctr_ctx, X>("CTR" + cn, t, cry_ctr_init, cry_ctr_clear, cry_ctr_key_set, cry_ctr_iv_set, { { "crypt", cry_ctr_encrypt } }, ks, B, { 0, B, 3 * B, B + 3 });
        if (ci) { MODE(cry_des_ctx) } else { MODE(cry_aes_ctx) }
    }
    mode_machine<cry_gcm_ctx, cry_aes_ctx>("GCM", &aes_itf, cry_gcm_init, cry_gcm_clear, cry_gcm_key_set, cry_gcm_iv_set, { { "encrypt", cry_gcm_encrypt }, { "decrypt", cry_gcm_decrypt } }, { 16, 32 }, 16, { 0, 16, 37 },
        [](Simple<cry_gcm_ctx, cry_aes_ctx> *m) {
            m->o.add("iv 12", [=] { Bytes v = sec(12, 6); cry_gcm_iv_set(&m->c, v.data(), 12); });
            for (size_t n : { 0, 16, 21 }) m->o.add("update " + S(n), [=] { Bytes d = sec(n + 1, 7); cry_gcm_update(&m->c, d.data(), n); });
            m->o.add("digest", [=] { Bytes d(16); cry_gcm_digest(&m->c, d.data(), 16); });
        },
        [](cry_gcm_ctx *c, Bytes &r) { Bytes d(16); cry_gcm_digest(c, d.data(), 16); r.insert(r.end(), d.begin(), d.end()); });
    hash_machine<cry_md5_ctx>("MD5", cry_md5_init, cry_md5_clear, cry_md5_update, cry_md5_digest, 16, 64);
    hash_machine<cry_sha1_ctx>("SHA-1", cry_sha1_init, cry_sha1_clear, cry_sha1_update, cry_sha1_digest, 20, 64);
    hash_machine<cry_sha256_ctx>("SHA-256", cry_sha256_init, cry_sha256_clear, cry_sha256_update, cry_sha256_digest, 32, 64);
    hash_machine<cry_sha512_ctx>("SHA-512", [](cry_sha512_ctx *c) { cry_sha512_init(c, 0); }, cry_sha512_clear, cry_sha512_update, cry_sha512_digest, 64, 128);
    hash_machine<cry_sha512_ctx>("SHA-384", [](cry_sha512_ctx *c) { cry_sha512_init(c, 1); }, cry_sha512_clear, cry_sha512_update, cry_sha512_digest, 48, 128);
    // one SHA-512 context used for both digests in turn
    {
        typedef cry_sha512_ctx C; auto m = new Simple<C>; m->name = "SHA-384 and SHA-512 in turn"; m->fi = [](C *c) { cry_sha512_init(c, 0); }; m->fc = cry_sha512_clear;
        for (int a = 0; a < 2; a++) m->o.add(a ? "start SHA-384" : "start SHA-512", [=] { cry_sha512_init(&m->c, a); });
        for (size_t n : { 1, 119, 129 }) m->o.add("update " + S(n), [=] { Bytes d = sec(n, 3); cry_sha512_update(&m->c, d.data(), n); });
        m->o.add("digest", [=] { Bytes d(64); cry_sha512_digest(&m->c, d.data()); });
        m->fp = [](C *c) { Bytes r(112), d = patv(200, 78); cry_sha512_update(c, d.data(), 200); cry_sha512_digest(c, r.data()); cry_sha512_init(c, 1); cry_sha512_update(c, d.data(), 200); cry_sha512_digest(c, r.data() + 64); return r; };
        m->ready(g_thorough ? 6 : 5); g_m.emplace_back(m);
    }
    // no clear function: re-initialisation only
    for (int h = 0; h < 3; h++) {
        static const cry_hash_itf hi[3] = {
            { (cry_hash_init_f)cry_md5_init, (cry_hash_clear_f)cry_md5_clear, (cry_hash_update_f)cry_md5_update, (cry_hash_digest_f)cry_md5_digest },
            { (cry_hash_init_f)cry_sha1_init, (cry_hash_clear_f)cry_sha1_clear, (cry_hash_update_f)cry_sha1_update, (cry_hash_digest_f)cry_sha1_digest },
            { (cry_hash_init_f)cry_sha256_init, (cry_hash_clear_f)cry_sha256_clear, (cry_hash_update_f)cry_sha256_update, (cry_hash_digest_f)cry_sha256_digest } };
        static const size_t dl[] = { 16, 20, 32 };
        union U { cry_md5_ctx a; cry_sha1_ctx b; cry_sha256_ctx c; };
        typedef cry_hmac_ctx C; auto m = new Simple<C, U>; m->below = true; m->clears = false; m->name = "HMAC-" + S(h);
        auto in = [=](Bytes k) { cry_hmac_init(&m->c, &m->x, &hi[h], dl[h], k.data(), k.size()); };
        m->fi = [=](C *) { in(sec(40, 9)); };
        for (size_t n : { 1, 63, 64, 65, 130 }) m->o.add("start with key of " + S(n), [=] { in(sec(n, 8)); });
        for (size_t n : { 0, 1, 55, 64, 100 }) m->o.add("update " + S(n), [=] { Bytes d = sec(n + 1, 3); cry_hmac_update(&m->c, d.data(), n); });
        m->o.add("digest", [=] { Bytes d(32); cry_hmac_digest(&m->c, d.data()); });
        m->fp = [=](C *c) { Bytes r(96), d = patv(100, 78); int i = 0; for (size_t n : { 5, 64, 100 }) { in(patv(n, 77)); cry_hmac_update(c, d.data(), 100); cry_hmac_digest(c, r.data() + 32 * i++); } return r; };
        m->ready(g_thorough ? 5 : 4); g_m.emplace_back(m);
    }
    {
        typedef cry_cmac_ctx C; auto m = new Simple<C, cry_aes_ctx>; m->below = true; m->clears = false; m->name = "CMAC";
        auto in = [=](Bytes k) { cry_cmac_init(&m->c, &m->x, &aes_itf, k.data(), k.size()); };
        m->fi = [=](C *) { in(sec(16, 9)); };
        for (size_t n : { 16, 24, 32 }) m->o.add("start with key of " + S(n), [=] { in(sec(n, 8)); });
        for (size_t n : { 0, 1, 15, 16, 17, 40 }) m->o.add("update " + S(n), [=] { Bytes d = sec(n + 1, 3); cry_cmac_update(&m->c, d.data(), n); });
        m->o.add("digest", [=] { Bytes d(32); cry_cmac_digest(&m->c, d.data()); });
        m->fp = [=](C *c) { Bytes r(64), d = patv(100, 78); int i = 0; for (size_t n : { 16, 24, 32 }) { in(patv(n, 77)); cry_cmac_update(c, d.data(), 32 + i); cry_cmac_digest(c, r.data() + 16 * i++); } in(patv(16, 77)); cry_cmac_digest(c, r.data() + 48); return r; };
        m->ready(g_thorough ? 5 : 4); g_m.emplace_back(m);
    }
    {
        typedef cry_hill_ctx C; auto m = new Simple<C>; m->clears = false; m->name = "Hill";
        auto key = [](size_t n, unsigned salt, bool bad) { Bytes k(n * n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) k[i * n + j] = i == j ? (bad ? 2 : 1 + 2 * (pat(i, salt) >> 2)) : j > i ? pat(i * n + j, salt) : 0; return k; };
        auto in = [=](C *c, size_t n, unsigned salt, bool bad = false) { Bytes k = key(n, salt, bad); return cry_hill_init(c, k.data(), nullptr, k.size()); };
        m->fi = [=](C *c) { in(c, 2, 3); };
        for (size_t n : { 1, 3, 5 }) m->o.add("start with dimension " + S(n), [=] { in(&m->c, n, 5); });
        m->o.add("refused key of dimension 4", [=] { in(&m->c, 4, 5, true); in(&m->c, 4, 5); });
        m->o.add("encrypt", [=] { Bytes d = sec(60, 3), e(60); cry_hill_encrypt(&m->c, e.data(), d.data(), 60 / m->c.n * m->c.n); });
        m->o.add("decrypt", [=] { Bytes d = sec(60, 3), e(60); cry_hill_decrypt(&m->c, e.data(), d.data(), 60 / m->c.n * m->c.n); });
        m->fp = [=](C *c) { Bytes r, d = patv(12, 78), e(12); for (size_t n : { 4, 1, 3 }) { in(c, n, 11); cry_hill_encrypt(c, e.data(), d.data(), 12); r.insert(r.end(), e.begin(), e.end()); cry_hill_decrypt(c, e.data(), d.data(), 12); r.insert(r.end(), e.begin(), e.end()); } return r; };
        m->ready(g_thorough ? 6 : 4); g_m.emplace_back(m);
    }
    {
        typedef cry_affine_ctx C; auto m = new Simple<C>; m->clears = false; m->name = "affine";
        auto in = [=](C *c, size_t n, unsigned salt) { Bytes a = patv(n, salt), b = patv(n, salt + 1); for (auto &x : a) x |= 1; return cry_affine_init(c, a.data(), b.data(), n); };
        m->fi = [=](C *c) { in(c, 5, 3); };
        for (size_t n : { 1, 3, 32 }) m->o.add("start with key of " + S(n), [=] { in(&m->c, n, 5); });
        m->o.add("refused key", [=] { Bytes a = { 1, 2, 3 }; cry_affine_init(&m->c, a.data(), a.data(), 3); in(&m->c, 2, 8); });
        for (size_t n : { 0, 1, 40 }) { m->o.add("encrypt " + S(n), [=] { Bytes d = sec(n + 1, 3); cry_affine_encrypt(&m->c, d.data(), d.data(), n); }); m->o.add("decrypt " + S(n), [=] { Bytes d = sec(n + 1, 3); cry_affine_decrypt(&m->c, d.data(), d.data(), n); }); }
        m->fp = [=](C *c) { Bytes r, d = patv(50, 78), e(50); for (size_t n : { 4, 1, 32 }) { in(c, n, 11); cry_affine_encrypt(c, e.data(), d.data(), 50); r.insert(r.end(), e.begin(), e.end()); cry_affine_decrypt(c, e.data(), d.data(), 50); r.insert(r.end(), e.begin(), e.end()); } return r; };
        m->ready(g_thorough ? 6 : 4); g_m.emplace_back(m);
    }
}
// ---- contexts that own numbers ----------------------------------------------
static Bytes mb(const cry_mpi *m) { Bytes r(m->data && m->used ? m->used * sizeof(cry_mpi_digit) : 0); if (r.size()) memcpy(r.data(), m->data, r.size()); r.push_back(m->sign); return r; }
static void cat(Bytes &r, const Bytes &b) { r.insert(r.end(), b.begin(), b.end()); }
static void lds(cry_mpi *m, const std::string &hx) { Bytes b((hx.size() + 1) / 2); std::string h = hx.size() % 2 ? "0" + hx : hx; for (size_t i = 0; i < b.size(); i++) b[i] = std::stoi(h.substr(2 * i, 2), nullptr, 16); if (cry_mpi_load_bin(m, b.data(), b.size())) abort(); }
static void ldb(cry_mpi *m, Bytes b) { if (cry_mpi_load_bin(m, b.data(), b.size())) abort(); }
// secret exponents keep one length: top byte fixed, low byte odd
static Bytes sexp(size_t n, unsigned salt) { Bytes b = sec(n, salt); b[0] = 0x53; b[n - 1] |= 1; return b; }
static void pub()
{
    {
        typedef cry_mpi C; auto m = new Simple<C>; m->owns = true; m->name = "number"; m->fi = [](C *c) { if (cry_mpi_init(c)) abort(); }; m->fc = cry_mpi_clear;
        for (size_t n : { 1, 9, 300, 600 }) m->o.add("load " + S(n) + " bytes", [=] { ldb(&m->c, sexp(n, 2)); });
        m->o.add("square", [=] { if (cry_mpi_sqr(&m->c, &m->c)) abort(); });
        m->o.add("add to itself", [=] { if (cry_mpi_add(&m->c, &m->c, &m->c)) abort(); });
        m->o.add("negate", [=] { m->c.sign = m->c.used ? !m->c.sign : 0; });
        m->o.add("set 0", [=] { if (cry_mpi_set_int(&m->c, 0)) abort(); });
        m->o.add("shift right 5000", [=] { if (cry_mpi_shr(&m->c, &m->c, 5000)) abort(); });
        m->fp = [](C *c) { Bytes r; ldb(c, patv(50, 4)); if (cry_mpi_sqr(c, c)) abort(); return mb(c); };
        m->ready(g_thorough ? 5 : 4); g_m.emplace_back(m);
    }
    {
        typedef cry_dh_ctx C; auto m = new Simple<C>; m->owns = true; m->name = "DH"; m->fi = [](C *c) { if (cry_dh_init(c)) abort(); }; m->fc = cry_dh_clear;
        auto load = [](C *c, Bytes e) { lds(&c->p, "ffffffffffffffffffffffffffffff61"); lds(&c->g, "3"); ldb(&c->e, e); };
        m->ff = [=](C *c) { load(c, sexp(16, 1)); };
        m->o.add("secret of 9 bytes", [=] { load(&m->c, sexp(9, 2)); });
        m->o.add("secret of 15 bytes", [=] { load(&m->c, sexp(15, 2)); });
        m->o.add("agree", [=] { cry_dh_agree(&m->c); });
        m->o.add("get token", [=] { Bytes b(16); cry_dh_get_tok(&m->c, b.data(), 16); });
        m->o.add("set token", [=] { Bytes b = sexp(16, 4); cry_dh_set_tok(&m->c, b.data(), 16); });
        m->o.add("finalize", [=] { cry_dh_finalize(&m->c); });
        m->o.add("get secret", [=] { Bytes b(16); cry_dh_get_sec(&m->c, b.data(), 16); });
        m->fp = [=](C *c) { Bytes r(32), b = patv(15, 8); load(c, patv(16, 7)); cry_dh_agree(c); cry_dh_get_tok(c, r.data(), 16); cry_dh_set_tok(c, b.data(), 15); cry_dh_finalize(c); cry_dh_get_sec(c, r.data() + 16, 16); return r; };
        m->ready(g_thorough ? 5 : 4); g_m.emplace_back(m);
    }
    {
        typedef cry_rsa_ctx C;
        for (int pad : { CRY_RSA_PADDING_NONE, CRY_RSA_PADDING_PKCS_V15 }) {
            auto m = new Simple<C>; m->owns = true; m->name = pad == CRY_RSA_PADDING_NONE ? "RSA without padding" : "RSA"; m->fi = [pad](C *c) { if (cry_rsa_init(c, pad)) abort(); }; m->fc = cry_rsa_clear;
            // two keys of the same size
            auto load = [](C *c, int which) {
                static Z pq[4]; if (pq[0] == 0) { pq[0] = znext(Z(0xe1) << 56); pq[1] = znext(Z(0xf3) << 56); pq[2] = znext((Z(0xe1) << 56) + (Z(0x4321) << 20)); pq[3] = znext((Z(0xf3) << 56) + (Z(0x77777) << 20)); }
                Z p = pq[which * 2], q = pq[which * 2 + 1], d = zinv(Z(65537), (p - 1) * (q - 1));
                auto hx = [](const Z &z) { return z.get_str(16); };
                lds(&c->n, hx(p * q)); lds(&c->e, "10001"); lds(&c->d, hx(d)); lds(&c->p, hx(p)); lds(&c->q, hx(q));
            };
            m->ff = [=](C *c) { gen_stream(3); load(c, g_secret & 1); };
            m->o.add("load", [=] { load(&m->c, g_secret & 1); });
            m->o.add("load the other key", [=] { load(&m->c, !(g_secret & 1)); });
            m->o.add("encrypt", [=] { Bytes d = sec(5, 2); unsigned char *o; size_t n; if (cry_rsa_encrypt(&m->c, &o, &n, d.data(), 5) == 0) free(o); });
            m->o.add("decrypt", [=] { Bytes d = sec(16, 2); d[0] = 1; unsigned char *o; size_t n; if (cry_rsa_decrypt(&m->c, &o, &n, d.data(), 16) == 0) free(o); });
            m->o.add("sign", [=] { Bytes d = sec(5, 2); unsigned char *o; size_t n; if (cry_rsa_sign(&m->c, &o, &n, d.data(), 5) == 0) free(o); });
            m->o.add("generate", [=] { gen_stream(7 + g_secret); cry_rsa_keygen(&m->c, 64, 65537); });
            m->fp = [=](C *c) { gen_stream(3); load(c, 1); Bytes d = patv(5, 9), r; unsigned char *o; size_t n; if (cry_rsa_encrypt(c, &o, &n, d.data(), 5)) return r; cat(r, Bytes(o, o + n)); free(o); Bytes ct = r; if (cry_rsa_decrypt(c, &o, &n, ct.data(), ct.size())) return r; cat(r, Bytes(o, o + n)); free(o); if (cry_rsa_sign(c, &o, &n, d.data(), 5)) return r; cat(r, Bytes(o, o + n)); free(o); return r; };
            m->ready(g_thorough ? 4 : 3); g_m.emplace_back(m);
        }
    }
    {
        typedef cry_dsa_ctx C; auto m = new Simple<C>; m->owns = true; m->name = "DSA"; m->fi = [](C *c) { if (cry_dsa_init(c)) abort(); }; m->fc = cry_dsa_clear;
        static Z q = znext(Z(0xc5) << 72), p, g; for (p = (Z(1) << 159) / (2 * q) * 2 * q + 1; !zprime(p); p += 2 * q) {} g = zpow(2, (p - 1) / q, p);
        auto load = [](C *c, Bytes x) { lds(&c->p, p.get_str(16)); lds(&c->q, q.get_str(16)); lds(&c->g, g.get_str(16)); ldb(&c->pvt, x); lds(&c->pub, zpow(g, zbytes(x), p).get_str(16)); };
        m->ff = [=](C *c) { gen_stream(3); load(c, sexp(10, 1)); };
        auto sign = [=](C *c, Bytes d) { Bytes r; cry_dsa_sig s; cry_mpi_init(&s.r); cry_mpi_init(&s.s); int a = cry_dsa_sign(c, &s, d.data(), d.size()), b = cry_dsa_verify(c, &s, d.data(), d.size()); cat(r, mb(&s.r)); cat(r, mb(&s.s)); r.push_back(a); r.push_back(b); cry_mpi_clear(&s.r); cry_mpi_clear(&s.s); return r; };
        m->o.add("load", [=] { load(&m->c, sexp(10, 2)); });
        m->o.add("load shorter", [=] { load(&m->c, sexp(6, 3)); });
        m->o.add("sign and verify", [=] { sign(&m->c, sec(10, 4)); });
        m->fp = [=](C *c) { gen_stream(3); load(c, patv(10, 7)); return sign(c, patv(10, 8)); };
        m->ready(g_thorough ? 6 : 4); g_m.emplace_back(m);
    }
    {
        typedef cry_elgamal_ctx C; auto m = new Simple<C>; m->owns = true; m->name = "ElGamal"; m->fi = [](C *c) { if (cry_elgamal_init(c)) abort(); }; m->fc = cry_elgamal_clear;
        static Z p = znext(Z(0xc5) << 120);
        auto load = [](C *c, Bytes x) { lds(&c->p, p.get_str(16)); lds(&c->g, "2"); ldb(&c->d, x); lds(&c->y, zpow(2, zbytes(x), p).get_str(16)); };
        m->ff = [=](C *c) { gen_stream(3); load(c, sexp(16, 1)); };
        auto sign = [=](C *c, Bytes d) { Bytes r; cry_elgamal_sig s; cry_mpi_init(&s.r); cry_mpi_init(&s.s); int a = cry_elgamal_sign2(c, &s, d.data(), d.size()), b = cry_elgamal_verify2(c, &s, d.data(), d.size()); cat(r, mb(&s.r)); cat(r, mb(&s.s)); r.push_back(a); r.push_back(b); cry_mpi_clear(&s.r); cry_mpi_clear(&s.s); return r; };
        m->o.add("load", [=] { load(&m->c, sexp(16, 2)); });
        m->o.add("load shorter", [=] { load(&m->c, sexp(6, 3)); });
        m->o.add("sign and verify", [=] { sign(&m->c, sec(10, 4)); });
        m->fp = [=](C *c) { gen_stream(3); load(c, patv(15, 7)); return sign(c, patv(10, 8)); };
        m->ready(g_thorough ? 6 : 4); g_m.emplace_back(m);
    }
    for (int id : { (int)CRY_ECP_GRP_SECP192R1, (int)CRY_ECP_GRP_SECP256R1, -1 }) {
        typedef cry_ecdsa_ctx C; auto m = new Simple<C>; m->owns = true; m->name = "ECDSA curve " + std::to_string(id);
        m->fi = [=](C *c) { if (cry_ecdsa_init(c, id)) abort(); if (id == -1) { cry_ecp_grp g; if (cry_ecp_grp_load(&g, CRY_ECP_GRP_SECP192R1)) abort(); cry_mpi_copy(&c->grp.p, &g.p); cry_mpi_copy(&c->grp.a, &g.a); cry_mpi_copy(&c->grp.b, &g.b); cry_mpi_copy(&c->grp.n, &g.n); cry_ecp_copy(&c->grp.g, &g.g); cry_ecp_grp_clear(&g); } };
        m->fc = cry_ecdsa_clear;
        size_t L = id == CRY_ECP_GRP_SECP256R1 ? 32 : 24;
        auto key = [=](C *c, Bytes x) { ldb(&c->d, x); if (cry_ecp_mul(&c->q, &c->grp.g, &c->d, &c->grp)) abort(); };
        m->ff = [=](C *c) { gen_stream(3); key(c, sexp(L, 1)); };
        auto sign = [=](C *c, Bytes d) { Bytes r; cry_ecdsa_sig s; cry_mpi_init(&s.r); cry_mpi_init(&s.s); int a = cry_ecdsa_sign(c, &s, d.data(), d.size()), b = cry_ecdsa_verify(c, &s, d.data(), d.size()); cat(r, mb(&s.r)); cat(r, mb(&s.s)); r.push_back(a); r.push_back(b); cry_mpi_clear(&s.r); cry_mpi_clear(&s.s); return r; };
        m->o.add("key", [=] { key(&m->c, sexp(L, 2)); });
        m->o.add("shorter key", [=] { key(&m->c, sexp(6, 3)); });
        m->o.add("generate", [=] { gen_stream(5 + g_secret); cry_ecdsa_keygen(&m->c); });
        m->o.add("sign and verify", [=] { sign(&m->c, sec(10, 4)); });
        m->fp = [=](C *c) { gen_stream(3); key(c, patv(L - 1, 7)); return sign(c, patv(10, 8)); };
        m->ready(g_thorough ? 3 : 1); g_m.emplace_back(m);
    }
    {
        typedef cry_ecdh_ctx C; auto m = new Simple<C>; m->owns = true; m->name = "ECDH";
        m->fi = [=](C *c) { if (cry_ecdh_init(c)) abort(); cry_ecp_grp g; if (cry_ecp_grp_load(&g, CRY_ECP_GRP_SECP192R1)) abort(); cry_mpi_copy(&c->ec.p, &g.p); cry_mpi_copy(&c->ec.a, &g.a); cry_mpi_copy(&c->ec.b, &g.b); cry_mpi_copy(&c->ec.n, &g.n); cry_ecp_copy(&c->ec.g, &g.g); cry_ecp_grp_clear(&g); };
        m->fc = cry_ecdh_clear;
        m->ff = [=](C *c) { ldb(&c->d, sexp(23, 1)); };
        m->o.add("key", [=] { ldb(&m->c.d, sexp(24, 2)); });
        m->o.add("shorter key", [=] { ldb(&m->c.d, sexp(6, 3)); });
        m->o.add("agree", [=] { if (cry_ecdh_agree(&m->c)) abort(); });
        m->o.add("agree and final", [=] { if (cry_ecdh_agree(&m->c) || cry_ecdh_final(&m->c)) abort(); });
        m->fp = [=](C *c) { Bytes r; ldb(&c->d, patv(22, 7)); if (cry_ecdh_agree(c)) abort(); cat(r, mb(&c->q.x)); cat(r, mb(&c->q.y)); if (cry_ecdh_final(c)) abort(); cat(r, mb(&c->z.x)); cat(r, mb(&c->z.y)); return r; };
        m->ready(g_thorough ? 4 : 2); g_m.emplace_back(m);
    }
}
// ---- exploration -------------------------------------------------------------
struct Left { std::vector<Bytes> mem, freed; size_t live; };
static void fill(Machine *m, int v) { for (auto &[p, n] : m->areas()) memset(p, v, n); }
static void history(Machine *m, const std::vector<size_t> &seq) { m->init(); m->first(); for (size_t i : seq) { m->op(i); g_trans++; } }
static Left run(Machine *m, const std::vector<size_t> &seq, unsigned secret, int fl)
{
    Left l; std::map<void *, size_t> blocks; std::vector<Bytes> freed;
    g_secret = secret; fill(m, fl); g_draws = 0;
    if (m->owns) { g_blocks = &blocks; g_freed = &freed; g_track = true; }
    history(m, seq);
    g_rec = true; m->clear(); g_rec = false;
    g_track = false;
    l.live = blocks.size();
    g_traces++; g_trans++;
    for (auto &[p, n] : m->areas()) l.mem.push_back(Bytes((uint8_t *)p, (uint8_t *)p + n));
    l.freed = freed;
    return l;
}
static Bytes g_fresh;
static void finish(Machine *m) { if (m->owns) m->clear(); }
static void check(Machine *m, const std::vector<size_t> &seq)
{
    std::string s = m->name + ": init, first key"; for (size_t i : seq) s += ", " + m->opname(i);
    CASET(s); sample(); g_states++;
    if (m->clears) {
        for (int fl : { 0x00, 0xA5 }) {
            if (fl == 0 && m->owns) continue;
            Left a = run(m, seq, 1, fl), b = run(m, seq, 2, fl);
            for (size_t k = 0; k < a.mem.size(); k++)
                if (a.mem[k] != b.mem[k]) {
                    size_t i = 0; while (a.mem[k][i] == b.mem[k][i]) i++;
                    fail("residue", "after clear, byte %zu of the %scontext still depends on the secrets (%02x or %02x)", i, k ? "cipher " : "", a.mem[k][i], b.mem[k][i]);
                }
            if (m->owns) {
                if (a.live || b.live) fail("kept", "after clear, %zu memory blocks that held the key are still allocated", std::max(a.live, b.live));
                bool same = a.freed == b.freed;
                if (!same) { // sizes may differ; then only wiped blocks are independent of the secrets
                    for (auto *f : { &a.freed, &b.freed }) for (auto &x : *f) for (uint8_t c : x) if (c && c != 0xA5) fail("released", "a memory block of %zu bytes is released by clear with contents that depend on the secrets: %s...", x.size(), hex(x.data(), std::min<size_t>(16, x.size())).c_str());
                }
            }
            // cleared, then initialised again
            if (fl == 0) continue;
            g_secret = 3; m->init(); Bytes p = m->probe(); finish(m); g_trans++;
            if (p != g_fresh) fail("again", "after clear and init the context does not behave like a fresh one");
        }
    }
    if (!m->owns) { // initialised again without clear
        g_secret = 1; fill(m, 0xA5); history(m, seq); g_secret = 3; m->init(); Bytes p = m->probe(); g_trans++; g_traces++;
        if (p != g_fresh) fail("again", "after init on a used context it does not behave like a fresh one");
    }
}
int main(int argc, char **argv)
{
    init(argc, argv);
    gen_stream(1);
    if (g_mode == "sym") sym(); else pub();
    for (auto &mp : g_m) {
        Machine *m = mp.get();
        CASET(m->name + ", fresh");
        fill(m, 0xA5); g_secret = 3; m->init(); g_fresh = m->probe(); finish(m);
        std::vector<size_t> seq;
        std::function<void()> rec = [&] {
            if (mine()) check(m, seq);
            if (seq.size() == m->depth) return;
            for (size_t i = 0; i < m->nops; i++) { seq.push_back(i); rec(); seq.pop_back(); }
        };
        rec();
        if (getenv("PROF")) fprintf(stderr, "%s: %llu states %ld ms\n", m->name.c_str(), (unsigned long long)g_states, clock() / 1000);
    }
    return done();
}

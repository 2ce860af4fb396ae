// C19: HMAC (MD5, SHA-1, SHA-256) and CMAC (AES) against OpenSSL / RFC 4493.
#include "h.hpp"
#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/aes.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
extern "C" {
#include <cry/aes.h>
#include <cry/hmac.h>
#include <cry/cmac.h>
#include <cry/md5.h>
#include <cry/sha1.h>
#include <cry/sha256.h>
}
static const cry_ciph_itf aes_itf = { (cry_ciph_init_f)cry_aes_init, (cry_ciph_clear_f)cry_aes_clear, (cry_ciph_key_set_f)cry_aes_key_set, (cry_ciph_encrypt_f)cry_aes_encrypt, (cry_ciph_decrypt_f)cry_aes_decrypt };
static const cry_hash_itf hi[3] = {
    { (cry_hash_init_f)cry_md5_init, (cry_hash_clear_f)cry_md5_clear, (cry_hash_update_f)cry_md5_update, (cry_hash_digest_f)cry_md5_digest },
    { (cry_hash_init_f)cry_sha1_init, (cry_hash_clear_f)cry_sha1_clear, (cry_hash_update_f)cry_sha1_update, (cry_hash_digest_f)cry_sha1_digest },
    { (cry_hash_init_f)cry_sha256_init, nullptr, (cry_hash_update_f)cry_sha256_update, (cry_hash_digest_f)cry_sha256_digest } };
static const size_t dl[] = { 16, 20, 32 };
// interfaces without the optional calls: a hash that initialises itself (in its digest), a cipher without init and clear
static void md5_self(cry_md5_ctx *c, unsigned char *o) { cry_md5_digest(c, o); cry_md5_init(c); }
static void sha1_self(cry_sha1_ctx *c, unsigned char *o) { cry_sha1_digest(c, o); cry_sha1_init(c); }
static void sha256_self(cry_sha256_ctx *c, unsigned char *o) { cry_sha256_digest(c, o); cry_sha256_init(c); }
static const cry_hash_itf self_itf[3] = {
    { nullptr, nullptr, (cry_hash_update_f)cry_md5_update, (cry_hash_digest_f)md5_self },
    { nullptr, nullptr, (cry_hash_update_f)cry_sha1_update, (cry_hash_digest_f)sha1_self },
    { nullptr, nullptr, (cry_hash_update_f)cry_sha256_update, (cry_hash_digest_f)sha256_self } };
static const cry_ciph_itf aes_min = { nullptr, nullptr, (cry_ciph_key_set_f)cry_aes_key_set, (cry_ciph_encrypt_f)cry_aes_encrypt, nullptr };
static const char *hn[] = { "HMAC-MD5", "HMAC-SHA-1", "HMAC-SHA-256", "CMAC-AES" };
static Bytes rhmac(int h, const Bytes &k, const Bytes &m)
{
    Bytes o(64); unsigned n = 0; static const unsigned char z = 0;
    HMAC(h == 0 ? EVP_md5() : h == 1 ? EVP_sha1() : EVP_sha256(), k.empty() ? &z : k.data(), k.size(), m.data(), m.size(), o.data(), &n);
    o.resize(n); return o;
}
static void dbl(uint8_t *x) { int c = x[0] >> 7; for (int i = 0; i < 16; i++) x[i] = x[i] << 1 | (i < 15 ? x[i + 1] >> 7 : 0); if (c) x[15] ^= 0x87; }
static Bytes rcmac(const Bytes &k, const Bytes &m)
{
    AES_KEY a; AES_set_encrypt_key(k.data(), k.size() * 8, &a);
    uint8_t k1[16] = { 0 }, x[16] = { 0 }; AES_encrypt(k1, k1, &a); dbl(k1);
    size_t n = m.empty() ? 1 : (m.size() + 15) / 16;
    for (size_t i = 0; i < n; i++) {
        uint8_t b[16] = { 0 }; size_t len = std::min<size_t>(16, m.size() - i * 16);
        memcpy(b, m.data() + i * 16, len);
        if (i == n - 1) { if (len < 16) { b[len] = 0x80; dbl(k1); } for (int j = 0; j < 16; j++) b[j] ^= k1[j]; }
        for (int j = 0; j < 16; j++) x[j] ^= b[j];
        AES_encrypt(x, x, &a);
    }
    return Bytes(x, x + 16);
}
// one MAC object: kind 0-2 HMAC, 3 CMAC
struct Mac {
    int t; bool self = false; union { cry_md5_ctx a; cry_sha1_ctx b; cry_sha256_ctx c; } u; cry_hmac_ctx h; cry_aes_ctx aes; cry_cmac_ctx c; Bytes k, m;
    Mac(int t_) : t(t_) { memset(&u, 0xA5, sizeof u); memset(&h, 0xA5, sizeof h); memset(&aes, 0xA5, sizeof aes); memset(&c, 0xA5, sizeof c); }
    void ini(const Bytes &kk)
    {
        k = kk; m.clear(); Buf b(k); g_trans++;
        if (t < 3) cry_hmac_init(&h, &u, self ? &self_itf[t] : &hi[t], dl[t], b.p, b.n); else cry_cmac_init(&c, &aes, self ? &aes_min : &aes_itf, b.p, b.n);
        if (!b.eq(k)) fail("key", "key changed");
    }
    void minimal() { self = true; t == 0 ? cry_md5_init(&u.a) : t == 1 ? cry_sha1_init(&u.b) : cry_sha256_init(&u.c); cry_aes_init(&aes); }
    void upd(const Bytes &d) { Buf b(d); g_trans++; m.insert(m.end(), d.begin(), d.end()); if (t < 3) cry_hmac_update(&h, b.p, b.n); else cry_cmac_update(&c, b.p, b.n); if (!b.eq(d)) fail("source", "message changed"); }
    void dig()
    {
        Bytes w = t < 3 ? rhmac(t, k, m) : rcmac(k, m); Buf o(w.size()); g_trans++; g_traces++;
        if (t < 3) cry_hmac_digest(&h, o.p); else cry_cmac_digest(&c, o.p);
        if (!o.eq(w)) fail("tag", "%s, %zu byte key, %zu byte message: got %s, standard %s", hn[t], k.size(), m.size(), hex(o.bytes()).c_str(), hex(w).c_str());
    }
};
static std::vector<size_t> kls(int t) { if (t == 3) return { 16, 24, 32 }; std::vector<size_t> v; for (size_t i = 0; i <= (g_thorough ? 300 : 140); i++) v.push_back(i); v.push_back(1000); return v; }
static void lens()
{
    for (int t = 0; t < 4; t++)
        for (size_t kl : kls(t))
            for (size_t n = 0; n <= (t == 3 ? (g_thorough ? 600u : 300u) : (g_thorough ? 200u : 130u)); n++)
                for (int v = 0; v < (t == 3 ? 3 : 1); v++) {
                    if (!mine()) continue;
                    CASE("mac=%lld key=%lld length=%lld", t, kl, n); sample(); g_states++;
                    Mac x(t); x.ini(patv(kl, v * 7 + n)); x.upd(patv(n, v)); x.dig();
                }
    for (int t = 0; t < 4; t++)     // no update at all; many keys (all combinations of the subkey carries occur)
        for (int s = 0; s < (g_thorough ? 8192 : 1024); s++) {
            if (!mine()) continue;
            CASE("mac=%lld key pattern=%lld", t, s); g_states++;
            Mac x(t); x.ini(patv(t == 3 ? 16 + 8 * (s % 3) : s % 100, 100 + s)); x.dig();
            Mac y(t); y.ini(patv(t == 3 ? 16 + 8 * (s % 3) : s % 100, 100 + s)); y.upd(patv(16, 1)); y.dig();
        }
    for (int t = 0; t < 4; t++) for (size_t n : LONGS) {
        if (!mine()) continue;
        CASE("mac=%lld long length=%lld", t, n); g_states++;
        Mac x(t); x.ini(patv(16, 1)); x.upd(patv(n, 1)); x.dig();
        x.ini(patv(16, 2)); x.upd(patv(5, 3)); x.upd(patv(n, 2)); x.upd(patv(9, 3)); x.dig();
        if (t < 3) { x.ini(patv(n, 4)); x.upd(patv(20, 2)); x.dig(); }
    }
    for (int t = 0; t < 4; t++) for (size_t kl : kls(t)) for (size_t n : { 0, 3, 16, 64, 100 }) {     // interfaces without init and clear
        if (!mine()) continue;
        CASE("mac=%lld key=%lld length=%lld minimal interface", t, kl, n); g_states++;
        Mac x(t); x.minimal();
        for (int i = 0; i < 3; i++) { x.ini(patv(kl, i)); x.upd(patv(n, i)); x.upd(patv(7, i)); x.dig(); }
    }
    for (int t = 0; t < 4; t++)     // every key bit
        for (size_t bit = 0; bit < (t == 3 ? 256u : 65 * 8u); bit++) {
            if (!mine()) continue;
            CASE("mac=%lld key bit=%lld", t, bit); g_states++;
            Bytes k(t == 3 ? 32 : 65, 0x5a); k[bit / 8] ^= 1 << (bit % 8);
            Mac x(t); x.ini(k); x.upd(patv(20, 1)); x.dig();
        }
}
static void splits()
{
    for (int t = 0; t < 4; t++) {
        size_t N = t == 3 ? 70 : 140;
        for (size_t n = 0; n <= N; n++)
            for (size_t a = 0; a <= n; a++)
                for (size_t b = a; b <= n; b++) {
                    if (!mine()) continue;
                    if (t < 3 && !g_thorough && b - a > 3 && n - b > 3 && (b - a) % 64 > 1) continue;
                    CASE("mac=%lld length=%lld cuts at %lld,%lld", t, n, a, b); sample(); g_states++;
                    Bytes d = patv(n, 2); Mac x(t); x.ini(patv(16, 3));
                    x.upd(Bytes(d.begin(), d.begin() + a)); x.upd(Bytes(d.begin() + a, d.begin() + b)); x.upd(Bytes(d.begin() + b, d.end())); x.dig();
                }
        unsigned K = g_thorough ? 14 : 11;
        for (size_t pre : { 0, 11, 27, 59, 64 }) for (unsigned cut = 0; cut < (1u << (K - 1)); cut++) {
            if (!mine()) continue;
            CASE("mac=%lld prefix=%lld cuts=%llx", t, pre, cut); sample(); g_states++;
            Mac x(t); x.ini(patv(16, 4)); if (pre) x.upd(patv(pre, 1));
            size_t len = 1;
            for (unsigned i = 0; i < K; i++, len++) if (i == K - 1 || (cut >> i & 1)) { x.upd(patv(len, i)); len = 0; if (cut & 1) x.upd(Bytes()); }
            x.dig();
        }
    }
}
static void hist()
{
    unsigned D = g_thorough ? 7 : 6;
    for (int t = 0; t < 4; t++) {
        const int NO = 8; uint64_t total = 1; for (unsigned i = 0; i < D; i++) total *= NO;
        for (uint64_t h = 0; h < total; h++) {
            if (!mine()) continue;
            CASE("mac=%lld history %lld depth %lld", t, h, D); sample();
            Mac x(t); x.ini(patv(16, 1)); uint64_t y = h; bool fin = false;
            for (unsigned i = 0; i < D; i++, y /= NO) {
                int o = y % NO; g_states++;
                if (o < 3) { x.ini(o == 0 ? patv(16, 1) : o == 1 ? patv(24, 2) : t == 3 ? patv(32, 5) : patv(80, 3)); fin = false; }
                else if (fin) break;    // after the tag the context must be initialised again
                else if (o == 7) { x.dig(); fin = true; }
                else x.upd(patv(o == 3 ? 0 : o == 4 ? 1 : o == 5 ? 16 : 47, i));
            }
        }
    }
}
int main(int argc, char **argv)
{
    init(argc, argv);
    if (g_mode == "lens") lens(); else if (g_mode == "splits") splits(); else hist();
    return done();
}

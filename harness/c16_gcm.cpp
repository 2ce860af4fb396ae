// C16: GCM over AES against a textbook model (bit-serial GHASH over OpenSSL's AES).
#include "h.hpp"
#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/aes.h>
#include <openssl/evp.h>
#include <sys/mman.h>
extern "C" {
#include <cry/aes.h>
#include <cry/gcm.h>
}
static const cry_ciph_itf aes_min = { nullptr, nullptr, (cry_ciph_key_set_f)cry_aes_key_set, (cry_ciph_encrypt_f)cry_aes_encrypt, nullptr };
static const cry_ciph_itf aes_itf = { (cry_ciph_init_f)cry_aes_init, (cry_ciph_clear_f)cry_aes_clear, (cry_ciph_key_set_f)cry_aes_key_set, (cry_ciph_encrypt_f)cry_aes_encrypt, (cry_ciph_decrypt_f)cry_aes_decrypt };
typedef unsigned __int128 E;   // bit 0 of the polynomial = most significant bit
static E ld(const uint8_t *p) { E x = 0; for (int i = 0; i < 16; i++) x = x << 8 | p[i]; return x; }
static Bytes st(E x) { Bytes b(16); for (int i = 15; i >= 0; i--, x >>= 8) b[i] = (uint8_t)x; return b; }
static E gmul(E a, E b)
{
    E z = 0, v = a, poly = (E)0xe1 << 120;
    for (int i = 127; i >= 0; i--) {
        if (b >> i & 1) z ^= v;
        v = (v & 1) ? (v >> 1) ^ poly : v >> 1;
    }
    return z;
}
static E ginv(E a) { E r = (E)1 << 127, p = a; for (int i = 1; i < 128; i++) { p = gmul(p, p); r = gmul(r, p); } return r; }
struct Model {
    AES_KEY k; E H = 0, J0 = 0, X = 0, ctr = 0; uint64_t al = 0, cl = 0;
    Bytes e(E x) { Bytes i = st(x), o(16); AES_encrypt(i.data(), o.data(), &k); return o; }
    void key(const Bytes &kk) { AES_set_encrypt_key(kk.data(), kk.size() * 8, &k); H = ld(e(0).data()); }
    static void gh(E &x, E H, const Bytes &d) { for (size_t i = 0; i < d.size(); i += 16) { Bytes b(16, 0); for (size_t j = 0; j < 16 && i + j < d.size(); j++) b[j] = d[i + j]; x = gmul(x ^ ld(b.data()), H); } }
    void iv(const Bytes &v)
    {
        if (v.size() == 12) { Bytes b = v; b.insert(b.end(), { 0, 0, 0, 1 }); J0 = ld(b.data()); }
        else { J0 = 0; gh(J0, H, v); J0 = gmul(J0 ^ ((E)v.size() * 8), H); }
        ctr = inc(J0); X = 0; al = cl = 0;
    }
    static E inc(E c) { uint32_t l = (uint32_t)c + 1; return (c >> 32 << 32) | l; }
    void aad(const Bytes &a) { gh(X, H, a); al += a.size(); }
    Bytes crypt(const Bytes &in, bool enc)
    {
        Bytes out(in);
        for (size_t i = 0; i < in.size(); i += 16) { Bytes s = e(ctr); ctr = inc(ctr); for (size_t j = 0; j < 16 && i + j < in.size(); j++) out[i + j] ^= s[j]; }
        gh(X, H, enc ? out : in); cl += in.size();
        return out;
    }
    Bytes tag() { E x = gmul(X ^ ((E)(al * 8) << 64 | (E)(cl * 8)), H); Bytes t = st(x), s = e(J0); for (int i = 0; i < 16; i++) t[i] ^= s[i]; return t; }
};
static bool evp(const Bytes &k, const Bytes &iv, const Bytes &a, const Bytes &p, Bytes &c, Bytes &t)
{
    if (iv.empty() || iv.size() > 128) return false;
    EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new(); int n;
    EVP_EncryptInit_ex(x, k.size() == 16 ? EVP_aes_128_gcm() : k.size() == 24 ? EVP_aes_192_gcm() : EVP_aes_256_gcm(), nullptr, nullptr, nullptr);
    EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_GCM_SET_IVLEN, iv.size(), nullptr);
    EVP_EncryptInit_ex(x, nullptr, nullptr, k.data(), iv.data());
    if (a.size()) EVP_EncryptUpdate(x, nullptr, &n, a.data(), a.size());
    c.resize(p.size() + 16);
    if (p.size()) EVP_EncryptUpdate(x, c.data(), &n, p.data(), p.size());
    EVP_EncryptFinal_ex(x, c.data() + p.size(), &n);
    c.resize(p.size()); t.resize(16);
    EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_GCM_GET_TAG, 16, t.data());
    EVP_CIPHER_CTX_free(x);
    return true;
}
struct Ctx {
    cry_aes_ctx a; cry_gcm_ctx g; Model m;
    explicit Ctx(bool) { memset(&g, 0xA5, sizeof g); cry_aes_init(&a); cry_gcm_init(&g, &a, &aes_min); }
    Ctx() { memset(&a, 0xA5, sizeof a); memset(&g, 0xA5, sizeof g); cry_gcm_init(&g, &a, &aes_itf); }
    void reinit() { cry_gcm_clear(&g); cry_gcm_init(&g, &a, &aes_itf); }
    void key(const Bytes &k) { Buf b(k); cry_gcm_key_set(&g, b.p, b.n); m.key(k); g_trans++; }
    void iv(const Bytes &v) { Buf b(v); cry_gcm_iv_set(&g, b.p, b.n); m.iv(v); g_trans++; }
    void aad(const Bytes &v) { Buf b(v); cry_gcm_update(&g, b.p, b.n); m.aad(v); g_trans++; if (!b.eq(v)) fail("source", "associated data changed"); }
    Bytes crypt(const Bytes &in, bool enc, bool inp)
    {
        Bytes want = m.crypt(in, enc), got; g_trans++; g_traces++;
        if (inp) { Buf b(in); (enc ? cry_gcm_encrypt : cry_gcm_decrypt)(&g, b.p, b.p, b.n); got = b.bytes(); }
        else { Buf s(in), b(in.size()); (enc ? cry_gcm_encrypt : cry_gcm_decrypt)(&g, b.p, s.p, s.n); got = b.bytes(); if (!s.eq(in)) fail("source", "source changed"); }
        if (got != want) fail(enc ? "encrypt" : "decrypt", "%zu bytes %s: got %s, standard %s", in.size(), inp ? "in place" : "between buffers", hex(got).c_str(), hex(want).c_str());
        return got;
    }
    void tag(size_t n)
    {
        Bytes want = m.tag(); want.resize(n); g_trans++; g_traces++;
        Buf b(n); cry_gcm_digest(&g, b.p, n);
        if (!b.eq(want)) fail("tag", "tag of %zu bytes: got %s, standard %s", n, hex(b.bytes()).c_str(), hex(want).c_str());
    }
};
static void shapes()
{
    std::vector<size_t> ivs = { 12, 1, 4, 8, 11, 13, 15, 16, 17, 20, 28, 31, 32, 33, 48, 60, 64, 100, 128, 200 };
    size_t AM = g_thorough ? 150 : 66, PM = g_thorough ? 200 : 80;
    for (size_t kl : { 16, 24, 32 })
        for (size_t iv : ivs)
            for (size_t al = 0; al <= AM; al++)
                for (size_t pl = 0; pl <= PM; pl++) {
                    if (!mine()) continue;
                    CASE("key=%lld iv=%lld aad=%lld text=%lld", kl, iv, al, pl); sample();
                    g_states++;
                    int salt = (int)((al * 3 + pl) % 11);
                    Bytes k = patv(kl, salt), v = patv(iv, 50 + salt), a = patv(al, 60), p = patv(pl, 70);
                    Ctx x; x.key(k); x.iv(v); x.aad(a);
                    Bytes c = x.crypt(p, true, (al + pl) & 1);
                    if ((al * 7 + pl) % 5 == 0) {           // the model itself against OpenSSL's GCM
                        Bytes c2, t2;
                        if (evp(k, v, a, p, c2, t2)) { if (c2 != c || t2 != x.m.tag()) fail("model", "model differs from OpenSSL"); g_extra["model_vs_openssl"]++; }
                    }
                    x.tag(16 - (al + 2 * pl) % 13);
                    Ctx y; y.key(k); y.iv(v); y.aad(a);
                    y.crypt(c, false, !((al + pl) & 1));
                    y.tag(16);
                }
    for (size_t kl : { 16, 24, 32 }) for (size_t iv : ivs) for (size_t al : { 0, 5, 16 }) for (size_t pl : { 0, 5, 16, 37 }) {     // cipher interface without init, clear and decrypt
        if (!mine()) continue;
        CASE("minimal interface key=%lld iv=%lld aad=%lld text=%lld", kl, iv, al, pl); g_states++;
        Ctx x(true);
        for (int i = 0; i < 2; i++) { x.key(patv(kl, i)); x.iv(patv(iv, 5)); x.aad(patv(al, 6)); x.crypt(patv(pl, 7), true, i); x.tag(16); x.iv(patv(iv, 5)); x.crypt(patv(pl, 8), false, !i); x.tag(16); }
        cry_gcm_clear(&x.g);
    }
    for (size_t n : LONGS) for (int what = 0; what < 3; what++) {      // long IV, associated data, text
        if (!mine() || (!g_thorough && n > 140000)) continue;
        CASE("long %lld: %lld bytes", what, n); sample(); g_states++;
        Bytes k = patv(16, 1), v = patv(what == 0 ? n : 12, 2), a = patv(what == 1 ? n : 5, 3), p = patv(what == 2 ? n : 37, 4);
        Ctx x; x.key(k); x.iv(v); x.aad(a); Bytes c = x.crypt(p, true, n & 1); x.tag(16);
        Ctx y; y.key(k); y.iv(v); y.aad(a); y.crypt(c, false, !(n & 1)); y.tag(16);
    }
}
static void comps(unsigned n, unsigned cut, const std::function<void(size_t, size_t)> &f)
{
    size_t at = 0, len = 1;
    for (unsigned i = 0; i < n; i++, len++) if (i == n - 1 || (cut >> i & 1)) { f(at, len); at += len; len = 0; }
}
static void splits()
{
    unsigned NA = 4, NP = g_thorough ? 7 : 5;
    for (size_t at : { 0, 1, 15 }) for (size_t pt : { 0, 1, 15 })
        for (unsigned ca = 0; ca < (1u << (NA - 1)); ca++) for (unsigned cp = 0; cp < (1u << (NP - 1)); cp++)
            for (int enc = 0; enc < 2; enc++) for (int ip = 0; ip < 3; ip++) for (int ivl : { 12, 16 }) {
                if (!mine()) continue;
                CASE("aad-cuts=%llx aad-tail=%lld text-cuts=%llx text-tail=%lld enc=%lld inplace-pattern=%lld iv=%lld", ca, at, cp, pt, enc, ip, ivl); sample();
                g_states++;
                Bytes a = patv(NA * 16 + at, 1), p = patv(NP * 16 + pt, 2);
                Ctx x; x.key(patv(16, 3)); x.iv(patv(ivl, 4));
                comps(NA, ca, [&](size_t o, size_t n) { x.aad(Bytes(a.begin() + o * 16, a.begin() + (o + n) * 16)); });
                if (at) x.aad(Bytes(a.end() - at, a.end()));
                int k = 0;
                auto inp = [&] { k++; return ip == 0 ? false : ip == 1 ? true : (bool)(k & 1); };
                comps(NP, cp, [&](size_t o, size_t n) { x.crypt(Bytes(p.begin() + o * 16, p.begin() + (o + n) * 16), enc, inp()); });
                if (pt) x.crypt(Bytes(p.end() - pt, p.end()), enc, inp());
                x.tag(16);
                Model one; one.key(patv(16, 3)); one.iv(patv(ivl, 4)); one.aad(a); one.crypt(p, enc);
                if (one.tag() != x.m.tag()) fail("model", "split model differs");
            }
}
static void wrap()
{
    for (size_t kl : { 16, 24, 32 })
        for (uint32_t low : { 0xffffffffu, 0xfffffffeu, 0xfffffffdu, 0xfffffffbu, 0x0000fffeu, 0x00ffffffu, 0x00fffffdu, 0x000000feu, 0x7fffffffu, 0xfffffeffu, 0xffffu, 0x0u })
            for (int up = 0; up < 3; up++)
                for (size_t pl = 0; pl <= 150; pl++)
                    for (int enc = 0; enc < 2; enc++) {
                        if (!mine()) continue;
                        CASE("key=%lld counter=%llx upper=%lld text=%lld enc=%lld", kl, low, up, pl, enc); sample();
                        g_states++;
                        Bytes k = patv(kl, 9);
                        Model m; m.key(k);
                        E J = up == 0 ? 0 : up == 1 ? (~(E)0 >> 32 << 32) : (ld(patv(16, 4).data()) >> 32 << 32);
                        J |= low;
                        E hi = ginv(m.H);
                        Bytes v = st(gmul(gmul(J, hi) ^ (E)128, hi));   // the 16-byte IV whose hash is J
                        Ctx x; x.key(k); x.iv(v);
                        if (x.m.J0 != J) fail("harness", "inverse");
                        x.crypt(patv(pl, 8), enc, pl & 1); x.tag(16);
                    }
}
static void tamper()
{
    // every single-bit change of key, IV, associated data and ciphertext: the tag follows the standard (hence differs)
    Bytes k = patv(16, 1), v = patv(12, 2), v2 = patv(20, 2), a = patv(21, 3), c = patv(37, 4);
    for (int ivk = 0; ivk < 2; ivk++) {
        Bytes all[4] = { k, ivk ? v2 : v, a, c };
        Model o; o.key(all[0]); o.iv(all[1]); o.aad(all[2]); o.crypt(all[3], false);
        for (int w = 0; w < 4; w++)
            for (size_t bit = 0; bit < all[w].size() * 8; bit++) {
                if (!mine()) continue;
                CASE("flip bit %lld of part %lld (0 key 1 iv 2 aad 3 ciphertext)", bit, w); sample();
                g_states++;
                Bytes b[4] = { all[0], all[1], all[2], all[3] };
                b[w][bit / 8] ^= 1 << (bit % 8);
                Ctx x; x.key(b[0]); x.iv(b[1]); x.aad(b[2]); x.crypt(b[3], false, bit & 1);
                if (x.m.tag() == o.tag()) fail("harness", "collision");
                x.tag(16);
            }
    }
    for (size_t n = 0; n <= 16; n++) { if (!mine()) continue; CASE("tag of %lld bytes", n); Ctx x; x.key(k); x.iv(v); x.aad(a); x.crypt(c, true, false); x.tag(n); g_states++; }
    // hash subkey patterns: many keys, all-ones and single-bit texts
    for (int s = 0; s < (g_thorough ? 4096 : 512); s++) {
        if (!mine()) continue;
        CASE("key pattern %lld", s); g_states++;
        Ctx x; x.key(patv(16 + 8 * (s % 3), 1000 + s)); x.iv(patv(12, s));
        Bytes b(16, 0); b[(s / 8) % 16] = 1 << (s % 8);
        x.aad(b); x.crypt(Bytes(33, s & 1 ? 0xff : 0), true, false); x.tag(16);
    }
}
static void hist()
{
    unsigned D = g_thorough ? 7 : 6;
    const int NO = 9;
    uint64_t total = 1; for (unsigned i = 0; i < D; i++) total *= NO;
    for (uint64_t h = 0; h < total; h++) {
        if (!mine()) continue;
        CASE("history %lld of depth %lld", h, D); sample();
        Ctx x; x.key(patv(16, 1)); x.iv(patv(12, 1));
        uint64_t t = h; int phase = 0;   // 0 aad ok, 1 text started, 2 partial done, 3 tag taken or no IV since the key
        bool ok = true, ivok = true;
        for (unsigned i = 0; i < D && ok; i++, t /= NO) {
            g_states++;
            switch (t % NO) {
            case 0: x.key(patv(32, 7)); ivok = false; break;
            case 1: x.iv(patv(12, 2)); phase = 0; ivok = true; break;
            case 2: x.iv(patv(7, 3)); phase = 0; ivok = true; break;
            case 3: if (!ivok || phase) ok = false; else x.aad(patv(16, i)); break;
            case 4: if (!ivok || phase) ok = false; else { x.aad(patv(5, i)); phase = 1; } break;
            case 5: if (!ivok || phase > 1) ok = false; else { x.crypt(patv(32, i), true, i & 1); phase = 1; } break;
            case 6: if (!ivok || phase > 1) ok = false; else { x.crypt(patv(19, i), false, i & 1); phase = 2; } break;
            case 7: if (!ivok || phase > 2) ok = false; else { x.tag(16 - i); phase = 3; } break;
            case 8: x.reinit(); x.key(patv(24, 8)); x.iv(patv(12, 9)); phase = 0; ivok = true; break;
            }
        }
    }
}
// lengths of 2^32 bits and more: all-zero associated data / ciphertext / IV keep the hash at zero, so the model needs no long loop
static void big()
{
    size_t N = ((size_t)1 << 29) + 16;
    for (int w = 0; w < 3; w++) {
        if (!mine()) continue;
        CASE("2^29+16 zero bytes as %lld (0 associated data, 1 ciphertext, 2 IV)", w);
        g_hang_secs = 600; g_states++;
        unsigned char *z = (unsigned char *)mmap(nullptr, N, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (z == MAP_FAILED) { printf("SAMPLE no memory for the 512 MB case: skipped\n"); continue; }
        Ctx x; x.key(patv(16, 1));
        if (w == 2) { cry_gcm_iv_set(&x.g, z, N); x.m.iv(Bytes(1)); x.m.J0 = gmul((E)N * 8, x.m.H); x.m.ctr = Model::inc(x.m.J0); }
        else x.iv(patv(12, 2));
        if (w == 0) { cry_gcm_update(&x.g, z, N); x.m.al += N; }
        if (w == 1) {
            unsigned char *o = (unsigned char *)malloc(N);
            if (!o) continue;
            cry_gcm_decrypt(&x.g, o, z, N);
            x.m.cl += N;
            for (size_t i : { (size_t)0, N / 16 / 2, N / 16 - 1 }) { Bytes s = x.m.e(x.m.ctr + i); if (memcmp(s.data(), o + 16 * i, 16)) fail("decrypt", "block %zu wrong", i); }
            x.m.ctr += N / 16;
            free(o);
        }
        x.crypt(patv(20, 5), true, false);
        x.tag(16);
        munmap(z, N);
    }
}
int main(int argc, char **argv)
{
    init(argc, argv);
    if (g_mode == "shapes") shapes(); else if (g_mode == "splits") splits(); else if (g_mode == "wrap") wrap(); else if (g_mode == "tamper") tamper(); else if (g_mode == "big") big(); else hist();
    return done();
}

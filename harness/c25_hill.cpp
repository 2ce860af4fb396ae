// C25: Hill and affine ciphers.
#include "h.hpp"
#include "sigref.hpp"
extern "C" {
#include <cry/hill.h>
#include <cry/affine.h>
}
static bool invertible(const Bytes &m, size_t n)    // odd determinant: full rank modulo 2
{
    std::vector<uint32_t> r(n, 0);
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (m[i * n + j] & 1) r[i] |= 1u << j;
    for (size_t c = 0; c < n; c++) {
        size_t p = c; while (p < n && !(r[p] >> c & 1)) p++;
        if (p == n) return false;
        std::swap(r[p], r[c]);
        for (size_t i = 0; i < n; i++) if (i != c && (r[i] >> c & 1)) r[i] ^= r[c];
    }
    return true;
}
static Bytes mul(const Bytes &m, size_t n, const Bytes &v) { Bytes o(v.size()); for (size_t b = 0; b < v.size(); b += n) for (size_t i = 0; i < n; i++) { unsigned s = 0; for (size_t j = 0; j < n; j++) s += m[i * n + j] * v[b + j]; o[b + i] = s; } return o; }
static void hill(const Bytes &key, size_t n, size_t blocks, bool inp = false, bool inv_too = true)
{
    Bytes k(key.begin(), key.begin() + n * n); bool ok = invertible(k, n);
    cry_hill_ctx c; memset(&c, 0xA5, sizeof c); Buf kb(key); g_trans++; g_traces++; g_states++;
    int r = cry_hill_init(&c, kb.p, nullptr, kb.n);
    if ((r == 0) != ok) fail("hill-key", "%zux%zu key %s is %s", n, n, hex(k).substr(0, 200).c_str(), ok ? "refused although invertible" : "accepted although not invertible");
    if (!kb.eq(key)) fail("source", "key changed");
    if (!ok) {
        if (!inv_too) return;
        cry_hill_ctx d; Buf ik(Bytes(key.size(), 1)); if (!cry_hill_init(&d, kb.p, ik.p, kb.n)) fail("hill-inverse", "key %s that is not invertible is accepted with a supplied inverse", hex(k).substr(0, 200).c_str());
        Buf ik2(key); if (!cry_hill_init(&d, kb.p, ik2.p, kb.n)) fail("hill-inverse", "key %s that is not invertible is accepted with itself as inverse", hex(k).substr(0, 200).c_str());
        return;
    }
    Bytes p = patv(n * blocks, 3), w = mul(k, n, p);
    Buf e(p.size()), s(p);
    if (inp) { Buf x(p); cry_hill_encrypt(&c, x.p, x.p, x.n); memcpy(e.p, x.p, x.n); } else cry_hill_encrypt(&c, e.p, s.p, s.n);
    if (!e.eq(w)) fail("hill-encrypt", "key %s: got %s, formula %s", hex(k).substr(0, 200).c_str(), hex(e.bytes()).c_str(), hex(w).c_str());
    Buf d(p.size());
    cry_hill_decrypt(&c, d.p, e.p, e.n);
    if (!d.eq(p)) fail("hill-decrypt", "key %s does not restore the data", hex(k).substr(0, 200).c_str());
    if (!inv_too) return;
    // the inverse it uses, obtained by decrypting unit vectors, is accepted as supplied inverse; altered ones are not
    Bytes unit(n * n, 0), im(n * n); for (size_t i = 0; i < n; i++) unit[i * n + i] = 1;
    Buf u(unit); cry_hill_decrypt(&c, u.p, u.p, u.n);
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) im[j * n + i] = u.p[i * n + j];
    cry_hill_ctx f; Buf ib(im); if (cry_hill_init(&f, k.data(), ib.p, k.size())) fail("hill-inverse", "the right inverse of key %s is refused", hex(k).c_str());
    Buf d2(w); cry_hill_decrypt(&f, d2.p, d2.p, d2.n); if (!d2.eq(p)) fail("hill-decrypt", "with supplied inverse");
    Buf e2(p); cry_hill_encrypt(&f, e2.p, e2.p, e2.n); if (!e2.eq(w)) fail("hill-encrypt", "with supplied inverse");
    for (size_t x = 0; x < n * n; x += (n > 4 ? 3 : 1)) { Bytes bi = im; bi[x] += 128; if (!cry_hill_init(&f, k.data(), bi.data(), k.size())) fail("hill-inverse", "a wrong inverse is accepted"); }
    g_trans += 4;
}
static void hills()
{
    bool T = g_thorough;
    for (int a = 0; a < 256; a++) { if (!mine()) continue; CASE("1x1 key %lld", a); sample(); hill({ (uint8_t)a }, 1, 256); }
    std::vector<uint8_t> v = { 0, 1, 2, 3, 64, 127, 128, 129, 254, 255, 85, 16, 170, 7, 13 };
    size_t m = T ? v.size() : 12;
    for (size_t i = 0; i < m * m * m * m; i++) { if (!mine()) continue; CASE("2x2 key number %lld over %lld values", i, m); sample(); hill({ v[i % m], v[i / m % m], v[i / m / m % m], v[i / m / m / m] }, 2, 3, i & 1); }
    for (int i = 0; i < 19683; i++) { if (!mine()) continue; Bytes k(9); int x = i; for (auto &b : k) { b = (uint8_t[]){ 0, 1, 255 }[x % 3]; x /= 3; } CASE("3x3 key number %lld over {0,1,255}", i); sample(); hill(k, 3, 2, i & 1); }
    for (int i = 0; i < 65536; i++) { if (!mine()) continue; if (!T && i % 3) continue; Bytes k(16); for (int j = 0; j < 16; j++) k[j] = (i >> j & 1) ? 200 + j * 3 + !(j & 1) : 4 * j; CASE("4x4 key number %lld", i); sample(); hill(k, 4, 2, false, i % 7 == 0); }
    // patterns of every dimension; keys longer than a square use the leading square
    for (size_t n = 1; n <= (T ? 9 : 8); n++) for (int s = 0; s < (n < 6 ? 40 : n < 8 ? 8 : 3); s++) for (size_t extra : { (size_t)0, (size_t)1, 2 * n }) {
        if (!mine()) continue;
        if (n >= 8 && extra) continue;
        CASE("%lldx%lld pattern key %lld with %lld extra bytes", n, n, s, extra); sample();
        Bytes k = patv(n * n, 100 + s); if (s == 0) { k.assign(n * n, 0); for (size_t i = 0; i < n; i++) k[i * n + (i + 1) % n] = 2 * i + 1; }
        k.resize(n * n + extra, 0xcc); hill(k, n, 4, s & 1, n < 6);
    }
    for (size_t b = 0; b <= 40; b++) { if (!mine()) continue; CASE("%lld blocks", b); hill({ 3, 2, 5, 7 }, 2, b, b & 1, false); hill({ 1, 0, 5, 7, 3, 1, 0, 2, 9 }, 3, b, b & 1, false); }
    for (size_t n : LONGS) for (n += n > 1000000 ? 5 : 0; n; n = 0) { if (!mine()) continue; CASE("%lld bytes", n); for (int ip = 0; ip < 2; ip++) { hill({ 3, 2, 5, 7 }, 2, n / 2, ip, false); hill({ 1, 0, 5, 7, 3, 1, 0, 2, 9 }, 3, n / 3, ip, false); } }
    // empty key; inverse without a key
    if (mine()) {
        CASE("empty key"); cry_hill_ctx c; Bytes k(4, 1); g_states += 3;
        if (!cry_hill_init(&c, k.data(), nullptr, 0)) fail("hill-key", "empty key is accepted");
        if (!cry_hill_init(&c, k.data(), k.data(), 0)) fail("hill-key", "empty key with inverse is accepted");
        if (!cry_hill_init(&c, nullptr, k.data(), 4)) fail("hill-key", "an inverse without key is accepted");
    }
    // generated keys: singular draws are skipped, the first invertible draw is used; endless singular draws fail
    for (size_t n = 1; n <= 5; n++) for (int bad = 0; bad < 4; bad++) for (int s = 0; s < 6; s++) {
        if (!mine()) continue;
        CASE("generated %lldx%lld key after %lld singular draws, %lld", n, n, bad, s); sample(); g_states++; g_traces++;
        g_draws = 0;
        g_gen = [=, at = 0](unsigned char *b, size_t len) mutable { if (at++ < bad) memset(b, 2, len); else for (size_t i = 0; i < len; i++) b[i] = pat(i, at * 100 + s); return 0; };
        cry_hill_ctx c; memset(&c, 0xA5, sizeof c);
        if (cry_hill_init(&c, nullptr, nullptr, n * n)) fail("hill-generate", "key generation fails");
        Bytes p = patv(n * 5, 1); Buf x(p); cry_hill_encrypt(&c, x.p, x.p, x.n); cry_hill_decrypt(&c, x.p, x.p, x.n);
        if (!x.eq(p)) fail("hill-generate", "generated key does not restore the data");
        gen_const(4); if (!cry_hill_init(&c, nullptr, nullptr, n * n)) fail("hill-generate", "a singular generated key is accepted");
    }
}
static void affines()
{
    for (int a = 0; a < 256; a++) {
        if (!mine()) continue;
        for (int b = 0; b < 256; b++) {
            CASE("affine a=%lld b=%lld all bytes", a, b); sample(); g_states++; g_trans++; g_traces++;
            uint8_t ka = a, kb = b; cry_affine_ctx c; memset(&c, 0xA5, sizeof c);
            int r = cry_affine_init(&c, &ka, &kb, 1);
            if ((r == 0) != (a & 1)) fail("affine-key", "multiplier %d is %s", a, r ? "refused" : "accepted");
            if (r) continue;
            uint8_t x[256], e[256], d[256]; for (int i = 0; i < 256; i++) x[i] = i;
            cry_affine_encrypt(&c, e, x, 256); cry_affine_decrypt(&c, d, e, 256);
            for (int i = 0; i < 256; i++) { if (e[i] != (uint8_t)(a * i + b)) fail("affine-encrypt", "byte %d", i); if (d[i] != i) fail("affine-decrypt", "byte %d gives %d", i, d[i]); }
        }
    }
    for (size_t kl = 1; kl <= 40; kl++) for (size_t nn = 0; nn <= 100 + (kl % 8 == 1 || kl % 8 == 7 ? LONGS.size() : 0); nn++) for (int badpos = -1; badpos < (nn == 5 ? (int)kl : 0); badpos++) {
        if (!mine()) continue;
        size_t n = nn <= 100 ? nn : LONGS[nn - 101];
        CASE("affine key length %lld data %lld even multiplier at %lld", kl, n, badpos); sample(); g_states++; g_trans++; g_traces++;
        Bytes ka = patv(kl, 1), kb = patv(kl, 2), p = patv(n, 3); for (auto &x : ka) x |= 1;
        if (badpos >= 0) ka[badpos] ^= 1;
        Buf A(ka), Bb(kb); cry_affine_ctx c; memset(&c, 0xA5, sizeof c);
        int r = cry_affine_init(&c, A.p, Bb.p, kl); size_t eff = std::min<size_t>(kl, CRY_AFFINE_KEYMAX);
        bool bad = badpos >= 0 && badpos < (int)eff;
        if (badpos >= (int)eff) continue;   // beyond the supported key size
        if ((r != 0) != bad) fail("affine-key", "key %s", r ? "refused" : "accepted");
        if (r) continue;
        Buf in(p), e(n), d(n); cry_affine_encrypt(&c, e.p, in.p, n); cry_affine_decrypt(&c, d.p, e.p, n);
        Bytes w(n); for (size_t i = 0; i < n; i++) w[i] = p[i] * ka[i % eff] + kb[i % eff];
        if (!e.eq(w)) fail("affine-encrypt", "polyalphabetic"); if (!d.eq(p)) fail("affine-decrypt", "polyalphabetic");
        cry_affine_encrypt(&c, in.p, in.p, n); if (!in.eq(w)) fail("affine-encrypt", "in place");
        cry_affine_decrypt(&c, in.p, in.p, n); if (!in.eq(p)) fail("affine-decrypt", "in place");
    }
    if (mine()) { CASE("empty affine key"); cry_affine_ctx c; Bytes k(1, 1); if (!cry_affine_init(&c, k.data(), k.data(), 0)) fail("affine-key", "empty key is accepted"); }
}
int main(int argc, char **argv) { init(argc, argv); if (g_mode == "hill") hills(); else affines(); return done(); }

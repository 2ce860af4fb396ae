// C09: DSA.  Small groups: every key, every message class, every candidate
// pair, every answer of the byte generator.  Large groups: structured cases.
#include "sigref.hpp"
extern "C" {
#include <cry/dsa.h>
}
struct Grp { Z p, q, g; };
struct Ctx {
    cry_dsa_ctx c; Z p, q, g, x, y;
    Ctx(const Grp &G, const Z &pvt) : p(G.p), q(G.q), g(G.g), x(pvt), y(zpow(G.g, pvt, G.p))
    {
        if (cry_dsa_init(&c)) abort();
        zset(&c.p, p); zset(&c.q, q); zset(&c.g, g); zset(&c.pvt, x); zset(&c.pub, y);
    }
    ~Ctx() { cry_dsa_clear(&c); }
    bool same() const { return zget(&c.p) == p && zget(&c.q) == q && zget(&c.g) == g && zget(&c.pvt) == x && zget(&c.pub) == y; }
};
static bool ref_verify(const Ctx &C, const Z &r, const Z &s, const Z &z)
{
    if (r <= 0 || r >= C.q || s <= 0 || s >= C.q) return false;
    Z w = zinv(s, C.q);
    Z v = zmod(zpow(C.g, zmod(z * w, C.q), C.p) * zpow(C.y, zmod(r * w, C.q), C.p), C.p);
    return zmod(v, C.q) == r;
}
static int lib_verify(Ctx &C, const Z &r, const Z &s, const Bytes &m)
{
    M R(0), S(0); R.fit(r); S.fit(s);
    cry_dsa_sig sig = { R.m, S.m };
    Buf b(m);
    g_trans++; g_traces++;
    int res = cry_dsa_verify(&C.c, &sig, b.p, b.n);
    R.m = sig.r; S.m = sig.s;
    if (R.get() != r || S.get() != s) fail("verify", "verification changed the signature");
    if (!b.eq(m)) fail("verify", "verification changed the message");
    return res;
}
static void chk_verify(Ctx &C, const Z &r, const Z &s, const Bytes &m)
{
    bool want = ref_verify(C, r, s, ztrunc(m, C.q));
    int res = lib_verify(C, r, s, m);
    if ((res == 0) != want) fail("verify", "p=%s q=%s g=%s pub=%s r=%s s=%s msg=%s: verify returned %d, the pair is %s", zs(C.p).c_str(), zs(C.q).c_str(), zs(C.g).c_str(), zs(C.y).c_str(), zs(r).c_str(), zs(s).c_str(), hex(m).c_str(), res, want ? "valid" : "not valid");
}
// returns 0/-1; on success checks the result
static int chk_sign(Ctx &C, const Bytes &m, Z *ro = nullptr, Z *so = nullptr, int stale = 0)
{
    M R(0), S(0);
    if (stale) { R.set(-C.p * C.p); S.set(-5); }
    cry_dsa_sig sig = { R.m, S.m };
    Buf b(m);
    g_trans++; g_traces++; g_draws = 0;
    int res = cry_dsa_sign(&C.c, &sig, b.p, b.n);
    R.m = sig.r; S.m = sig.s;
    if (!C.same()) fail("sign", "signing changed the key");
    if (!b.eq(m)) fail("sign", "signing changed the message");
    if (g_draws > g_failat && res == 0) fail("sign", "the generator failed and signing reported success");
    if (res == 0) {
        Z r = R.get(), s = S.get();
        if (ro) *ro = r;
        if (so) *so = s;
        if (noncanon(R) || noncanon(S)) fail("sign", "signature components not canonical");
        if (!ref_verify(C, r, s, ztrunc(m, C.q))) fail("sign", "p=%s q=%s g=%s pvt=%s: signature (%s,%s) is not valid", zs(C.p).c_str(), zs(C.q).c_str(), zs(C.g).c_str(), zs(C.x).c_str(), zs(r).c_str(), zs(s).c_str());
        int v = lib_verify(C, r, s, m);
        if (v != 0) fail("sign", "signature (%s,%s) does not verify", zs(r).c_str(), zs(s).c_str());
    }
    return res;
}
static Grp mkgrp(unsigned p, unsigned q)
{
    for (unsigned h = 2;; h++) {
        Z g = zpow(h, (p - 1) / q, p);
        if (g > 1) return Grp{ p, q, g };
    }
}
static Grp big(unsigned pb, unsigned qb, unsigned salt)
{
    Bytes s = patv((qb + 7) / 8, salt);
    Z q = zbytes(s) % (Z(1) << (qb - 1)) + (Z(1) << (qb - 1));
    q = znext(q);
    Z k = (Z(1) << (pb - 1)) / q + zbytes(patv(8, salt + 9));
    if (k % 2 != 0) k++;
    while (!zprime(k * q + 1)) k += 2;
    Z p = k * q + 1;
    Z g = zpow(2 + salt, k, p);
    return Grp{ p, q, g };
}
static std::vector<size_t> mlens(bool T) { std::vector<size_t> v; for (size_t i = 0; i <= (T ? 70 : 42); i++) v.push_back(i); for (size_t i : { 255, 256, 300, 4096, 65536, 65560 }) v.push_back(i); return v; }
static void chk_key(cry_dsa_ctx *c, unsigned l, Z &p, Z &q, Z &g, Z &x)
{
    p = zget(&c->p); q = zget(&c->q); g = zget(&c->g); x = zget(&c->pvt); Z y = zget(&c->pub);
    if (!zprime(p) || !zprime(q)) fail("keygen", "p or q not prime");
    if (zbits(q) != 160) fail("keygen", "q has %zu bits", zbits(q));
    if (zbits(p) < 511 + l * 64 || zbits(p) > 512 + l * 64) fail("keygen", "p has %zu bits", zbits(p));
    if (zmod(p - 1, q) != 0) fail("keygen", "q does not divide p-1");
    if (g <= 1 || g >= p || zpow(g, q, p) != 1) fail("keygen", "g has not order q");
    if (x <= 0 || x >= q) fail("keygen", "private key out of range");
    if (y != zpow(g, x, p)) fail("keygen", "public key does not match");
}
int main(int argc, char **argv)
{
    init(argc, argv);
    gen_stream(1);
    bool T = g_thorough;
    std::vector<std::pair<unsigned, unsigned>> gs = { { 7, 3 }, { 23, 11 }, { 43, 7 }, { 67, 11 }, { 47, 23 }, { 131, 13 } };
    if (T) { gs.push_back({ 283, 47 }); gs.push_back({ 103, 17 }); gs.push_back({ 191, 19 }); }
    if (g_mode == "verify") {
        // every key, message value, candidate pair
        for (auto &pq : gs) {
            Grp G = mkgrp(pq.first, pq.second);
            long q = pq.second, qb = zbits(G.q);
            for (long x = 1; x < q; x++)
                for (long z = 0; z < (1L << qb); z++) {
                    if (!T && q > 20 && (x * 7 + z) % 5) continue;
                    if (!mine()) continue;
                    Ctx C(G, x);
                    // message byte holding z in its leftmost bits; also two-byte form
                    Bytes m1 = { (uint8_t)(z << (8 - qb) | (z & ((1 << (8 - qb)) - 1))) };
                    for (long r = -2; r <= 2 * q + 1; r++)
                        for (long s = -2; s <= 2 * q + 1; s++) {
                            CASE("p=%lld q=%lld pvt=%lld hash=%lld r=%lld s=%lld", pq.first, q, x, z, r, s);
                            sample();
                            chk_verify(C, r, s, m1);
                        }
                    if (!C.same()) fail("verify", "verification changed the key");
                    g_states++;
                }
        }
    } else if (g_mode == "sign") {
        gs.push_back({ 563, 281 });
        for (auto &pq : gs) {
            Grp G = mkgrp(pq.first, pq.second);
            long q = pq.second, qb = zbits(G.q);
            for (long x = 1; x < q; x += q > 100 && !T ? 20 : 1)
                for (long z = 0; z < (1L << qb); z += q > 100 ? (T ? 7 : 51) : 1) {
                    if (!mine()) continue;
                    Ctx C(G, x);
                    Bytes m = { (uint8_t)(qb <= 8 ? z << (8 - qb) : z >> 1), (uint8_t)(z << 7) };
                    if (qb <= 8) m.resize(1 + z % 2);
                    unsigned good = 0, tot = 0;
                    for (unsigned v = 0; v < 256; v++) {
                        gen_count(v * 257);
                        CASE("p=%lld q=%lld pvt=%lld hash=%lld generator counts up from %lld", pq.first, q, x, z, v);
                        sample();
                        good += chk_sign(C, m, 0, 0, v & 1) == 0;
                        tot++;
                        if (!T && v > 20 && (q > 100 || v % 16)) continue;
                        gen_const(v);
                        CASE("p=%lld q=%lld pvt=%lld hash=%lld generator delivers only %lld", pq.first, q, x, z, v);
                        if (v < 6 || T) chk_sign(C, m);
                    }
                    if (q >= 11 && good * 2 < tot) fail("sign", "signing fails for most answers of the generator (%u of %u)", tot - good, tot);
                    // generator failing at each draw
                    for (unsigned f = 0; f < 3; f++) {
                        CASE("p=%lld q=%lld pvt=%lld hash=%lld generator fails at draw %lld", pq.first, q, x, z, f);
                        gen_count(f + x);
                        g_failat = f;
                        chk_sign(C, m);
                        g_failat = ~0UL;
                    }
                    g_states++;
                }
        }
    } else if (g_mode == "big" || g_mode == "real") {
        bool real = g_mode == "real";
        std::vector<std::array<unsigned, 3>> shp = { { 512, 160, 1 }, { 512, 161, 2 }, { 521, 167, 3 }, { 320, 64, 4 }, { 320, 65, 5 }, { 300, 128, 6 }, { 256, 15, 7 }, { 256, 9, 8 }, { 512, 256, 9 } };
        if (real) shp = { { 768, 160, 12 }, { 1024, 160, 10 }, { 2048, 224, 13 }, { 2048, 256, 11 } };
        if (real && T) shp.push_back({ 3072, 256, 14 }), shp.push_back({ 1536, 512, 15 });
        for (auto &sh : shp) {
            Grp G = big(sh[0], sh[1], sh[2]);
            std::vector<Z> xs = { 1, 2, G.q - 1, G.q - 2, G.q / 2, zmod(zbytes(patv(40, sh[2])), G.q) };
            for (size_t len : mlens(T))
                for (int pt = 0; pt < 3; pt++)
                    for (size_t xi = 0; xi < xs.size(); xi++) {
                        if (real) { if ((xi + pt + len) % 3 || (len != 0 && len != 20 && len != 28 && len != 32 && len != 33 && len != 64)) continue; if (!T && (xi < 3 || (sh[0] > 1024 && xi != 5))) continue; } else
                        if (len > 70) { if (xi != 3 || pt) continue; } else
                        if (!T && ((len + pt) % xs.size() != xi || pt != (int)(len % 3) || (sh[0] > 400 && len != 0 && len != 1 && (len < 18 || len > 23) && len < 30))) continue;
                        if (!mine()) continue;
                        if (xs[xi] == 0) continue;
                        Bytes m = pt == 0 ? patv(len, 3) : Bytes(len, pt == 1 ? 0xff : 0);
                        Ctx C(G, xs[xi]);
                        gen_stream(len * 3 + pt);
                        CASE("%lld-bit p, %lld-bit q, key %lld, message length %lld pattern %lld", sh[0], sh[1], xi, len, pt);
                        sample();
                        Z r, s;
                        int res = chk_sign(C, m, &r, &s, 1);
                        g_states++;
                        if (res != 0) { if (sh[1] > 60) fail("sign", "signing refused"); continue; }
                        std::vector<Z> rs = { r, r + C.q, r - C.q, -r, C.q - r, r + 1, r - 1, 0, C.q, r + C.p, r + (Z(1) << 64), r * 2 };
                        std::vector<Z> ss = { s, s + C.q, s - C.q, -s, C.q - s, s + 1, s - 1, 0, C.q, s + C.p, s + (Z(1) << 64) };
                        for (auto &a : rs) chk_verify(C, a, s, m);
                        for (auto &b : ss) chk_verify(C, r, b, m);
                        chk_verify(C, s, r, m);
                        chk_verify(C, C.q - r, C.q - s, m);
                        // altered messages: every bit up to the size of q and one beyond
                        for (size_t i = 0; i < std::min<size_t>(len, 100) * 8; i += real ? 61 : (T || i < 8 || (i + 9 > sh[1] && i < sh[1] + 9)) ? 1 : 13) {
                            Bytes n = m; n[i / 8] ^= 0x80 >> (i % 8);
                            chk_verify(C, r, s, n);
                        }
                        Bytes n = m; n.push_back(0); chk_verify(C, r, s, n);
                        n.insert(n.begin(), 0); chk_verify(C, r, s, n);
                        if (len) { n = m; n.pop_back(); chk_verify(C, r, s, n); }
                        // another key
                        Ctx D(G, xs[(xi + 1) % xs.size()] == 0 ? Z(1) : xs[(xi + 1) % xs.size()]);
                        chk_verify(D, r, s, m);
                    }
        }
    } else if (g_mode == "keygen") {
        for (unsigned salt = 0; salt < (T ? 40u : 8u); salt++) {
            unsigned l = T ? salt % 3 : 0;
            if (!mine()) continue;
            gen_stream(salt + 100);
            g_draws = 0;
            cry_dsa_ctx c;
            if (cry_dsa_init(&c)) abort();
            CASE("key generation l=%lld generator stream %lld", l, salt);
            sample();
            g_trans++; g_traces++; g_states++;
            g_hang_secs = 300;
            int res = cry_dsa_keygen(&c, l);
            if (res != 0) fail("keygen", "refused (%d)", res);
            Z p, q, g, x; chk_key(&c, l, p, q, g, x);
            cry_dsa_clear(&c);
            // usable
            Ctx C(Grp{ p, q, g }, x);
            if (chk_sign(C, patv(20, 1)) != 0) fail("keygen", "signing with the generated key refused");
        }
        // the answers to the last requests (choice of the group generator and of the private key) and to the
        // first ones take every value of a set of extremes
        for (unsigned salt = 0; salt < (T ? 6u : 1u); salt++) {
            gen_stream(salt + 100); g_draws = 0; g_hang_secs = 300;
            cry_dsa_ctx c; if (cry_dsa_init(&c)) abort();
            CASE("key generation, generator stream %lld", salt);
            if (cry_dsa_keygen(&c, 0)) { fail("keygen", "refused"); continue; }
            unsigned long total = g_draws; Z P, Q, G0, X0; chk_key(&c, 0, P, Q, G0, X0); cry_dsa_clear(&c);
            std::vector<Z> A{ 0, 1, 2, P - 1, P, P - 2, P + 1, P - Q, Q, Q - 1, Q - 2, Q + 1, 2 * Q, G0, (Z(1) << 512) - 1, (Z(1) << 511), (Z(1) << 160) - 1, Z(1) << 159 };
            std::set<unsigned long> I; for (unsigned long k = 1; k <= (T ? 8 : 4); k++) if (total >= k) { I.insert(total - k); if (T && k < 5) I.insert(k - 1); }
            for (unsigned long i : I) for (size_t v = 0; v < A.size(); v++) {
                if (!mine()) continue;
                Bytes by((zbits(A[v]) + 7) / 8); if (by.size()) mpz_export(by.data(), nullptr, 1, 1, 0, 0, A[v].get_mpz_t());
                gen_subst(salt + 100, { { i, by } }); g_draws = 0;
                CASE("key generation, generator stream %lld, answer %lld of %lld replaced by extreme value %lld", salt, i, total, v); sample();
                cry_dsa_ctx d; if (cry_dsa_init(&d)) abort();
                g_trans++; g_traces++; g_states++;
                if (cry_dsa_keygen(&d, 0)) fail("keygen", "refused");
                else { Z p, q, g, x; chk_key(&d, 0, p, q, g, x); }
                cry_dsa_clear(&d);
            }
        }
        // generator failure at an early draw
        for (unsigned f = 0; f < 24; f++) {
            if (!mine()) continue;
            gen_stream(7);
            g_draws = 0; g_failat = f;
            cry_dsa_ctx c;
            if (cry_dsa_init(&c)) abort();
            CASE("key generation, generator fails at draw %lld", f);
            int res = cry_dsa_keygen(&c, 0);
            g_trans++;
            if (res == 0 && g_draws > f) fail("keygen", "the generator failed and key generation reported success");
            cry_dsa_clear(&c);
            g_failat = ~0UL;
        }
    }
    return done();
}

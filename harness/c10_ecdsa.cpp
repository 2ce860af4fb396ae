// C10: ECDSA.  Small curves of prime order: every key, every hash value, every
// candidate pair, every answer of the byte generator.  Named curves:
// structured cases.
#include "sigref.hpp"
#include "ecref.hpp"
extern "C" {
#include <cry/ecdsa.h>
}
struct Grp { Curve c; Pt G; Z n; std::vector<Pt> tab; };
static Pt kg(const Grp &G, const Z &k)
{
    if (G.tab.size()) return G.tab[Z(zmod(k, G.n)).get_ui()];
    return G.c.mul(zmod(k, G.n), G.G);
}
struct Ctx {
    cry_ecdsa_ctx c; const Grp &G; Z d;
    Ctx(const Grp &g, const Z &pvt, int id = -1) : G(g), d(pvt)
    {
        if (cry_ecdsa_init(&c, id)) fail("init", "initialisation for group %d refused", id);
        if (id == -1) { zset(&c.grp.p, G.c.p); zset(&c.grp.a, G.c.a); zset(&c.grp.b, G.c.b); zset(&c.grp.n, G.n); setp(&c.grp.g, G.G); }
        zset(&c.d, d); setp(&c.q, kg(G, d));
    }
    static void setp(cry_ecp *e, const Pt &P) { zset(&e->x, P.x); zset(&e->y, P.y); zset(&e->z, P.inf ? 0 : 1); }
    ~Ctx() { cry_ecdsa_clear(&c); }
    bool same() const { return zget(&c.grp.p) == G.c.p && zget(&c.grp.n) == G.n && zget(&c.d) == d && EP::get(&c.q) == kg(G, d) && EP::get(&c.grp.g) == G.G; }
};
static bool ref_verify(const Ctx &C, const Z &r, const Z &s, const Z &z)
{
    const Z &n = C.G.n;
    if (r <= 0 || r >= n || s <= 0 || s >= n) return false;
    Z w = zinv(s, n);
    Pt P = kg(C.G, z * w + r * w * C.d);
    return !P.inf && zmod(P.x, n) == r;
}
static int lib_verify(Ctx &C, const Z &r, const Z &s, const Bytes &m)
{
    M R(0), S(0); R.fit(r); S.fit(s);
    cry_ecdsa_sig sig = { R.m, S.m };
    Buf b(m);
    g_trans++; g_traces++;
    int res = cry_ecdsa_verify(&C.c, &sig, b.p, b.n);
    R.m = sig.r; S.m = sig.s;
    if (R.get() != r || S.get() != s) fail("verify", "verification changed the signature");
    if (!b.eq(m)) fail("verify", "verification changed the message");
    return res;
}
static void chk_verify(Ctx &C, const Z &r, const Z &s, const Bytes &m)
{
    bool want = ref_verify(C, r, s, ztrunc(m, C.G.n));
    int res = lib_verify(C, r, s, m);
    if ((res == 0) != want) fail("verify", "p=%s a=%s b=%s n=%s G=%s d=%s r=%s s=%s msg=%s: verify returned %d, the pair is %s", zs(C.G.c.p).c_str(), zs(C.G.c.a).c_str(), zs(C.G.c.b).c_str(), zs(C.G.n).c_str(), ps(C.G.G).c_str(), zs(C.d).c_str(), zs(r).c_str(), zs(s).c_str(), hex(m).c_str(), res, want ? "valid" : "not valid");
}
static int chk_sign(Ctx &C, const Bytes &m, Z *ro = nullptr, Z *so = nullptr, int stale = 0)
{
    M R(0), S(0);
    if (stale) { R.set(-C.G.n * C.G.n); S.set(-5); }
    cry_ecdsa_sig sig = { R.m, S.m };
    Buf b(m);
    g_trans++; g_traces++; g_draws = 0;
    int res = cry_ecdsa_sign(&C.c, &sig, b.p, b.n);
    R.m = sig.r; S.m = sig.s;
    if (!C.same()) fail("sign", "signing changed the key");
    if (!b.eq(m)) fail("sign", "signing changed the message");
    if (g_draws > g_failat && res == 0) fail("sign", "the generator failed and signing reported success");
    if (res == 0) {
        Z r = R.get(), s = S.get();
        if (ro) *ro = r;
        if (so) *so = s;
        if (noncanon(R) || noncanon(S)) fail("sign", "signature components not canonical");
        if (!ref_verify(C, r, s, ztrunc(m, C.G.n))) fail("sign", "p=%s a=%s b=%s n=%s d=%s: signature (%s,%s) is not valid", zs(C.G.c.p).c_str(), zs(C.G.c.a).c_str(), zs(C.G.c.b).c_str(), zs(C.G.n).c_str(), zs(C.d).c_str(), zs(r).c_str(), zs(s).c_str());
        int v = lib_verify(C, r, s, m);
        if (v != 0) fail("sign", "signature (%s,%s) does not verify", zs(r).c_str(), zs(s).c_str());
    }
    return res;
}
// first curves of prime order over F_p (prefer both n<p and n>p, n==p excluded as anomalous is fine too)
static std::vector<Grp> curves(long p, unsigned want)
{
    std::vector<Grp> v;
    std::set<long> seen;
    for (long a = 0; a < p && v.size() < want; a++)
        for (long b = 1; b < p && v.size() < want; b++) {
            if ((4 * a * a % p * a + 27 * b * b) % p == 0) continue;
            Grp G; G.c.p = p; G.c.a = a; G.c.b = b;
            std::vector<Pt> pts = { INF };
            for (long x = 0; x < p; x++) for (long y = 0; y < p; y++) if ((y * y - x * x * x - a * x - b) % p == 0) pts.push_back(Pt{ false, x, y });
            Z n = pts.size();
            if (!zprime(n) || n < 5 || !seen.insert(n.get_si()).second) continue;
            G.n = n; G.G = pts[1 + pts.size() / 3];
            Pt Q = INF;
            for (long k = 0; k < n.get_si(); k++) { G.tab.push_back(Q); Q = G.c.add(Q, G.G); }
            v.push_back(G);
        }
    return v;
}
int main(int argc, char **argv)
{
    init(argc, argv);
    gen_stream(1);
    bool T = g_thorough;
    std::vector<Grp> gs;
    for (long p : { 5, 7, 11, 13, 17, 23 }) for (auto &g : curves(p, T ? 3 : p < 12 ? 2 : 3)) gs.push_back(g);
    if (T) for (auto &g : curves(31, 3)) gs.push_back(g);
    if (g_mode == "verify") {
        for (auto &G : gs) {
            long n = G.n.get_si(), nb = zbits(G.n);
            for (long x = 1; x < n; x++)
                for (long z = 0; z < (1L << nb); z++) {
                    if (!T && n > 13 && (x * 5 + z) % 7) continue;
                    if (!mine()) continue;
                    Ctx C(G, x);
                    Bytes m1 = { (uint8_t)(z << (8 - nb) | (z & ((1 << (8 - nb)) - 1))) };
                    for (long r = -2; r <= n + 8; r++)
                        for (long s = -2; s <= n + 3; s++) {
                            CASE("p=%lld a=%lld b=%lld n=%lld d=%lld hash=%lld r=%lld s=%lld", G.c.p.get_si(), G.c.a.get_si(), G.c.b.get_si(), n, x, z, r, s);
                            sample();
                            chk_verify(C, r, s, m1);
                        }
                    chk_verify(C, 2 * n + 1, 1, m1); chk_verify(C, 1, 2 * n + 1, m1);
                    if (!C.same()) fail("verify", "verification changed the key");
                    g_states++;
                }
        }
    } else if (g_mode == "sign") {
        for (auto &G : gs) {
            long n = G.n.get_si(), nb = zbits(G.n);
            for (long x = 1; x < n; x++)
                for (long z = 0; z < (1L << nb); z++) {
                    if (!mine()) continue;
                    Ctx C(G, x);
                    Bytes m = { (uint8_t)(z << (8 - nb)), 0x5a };
                    m.resize(1 + z % 2);
                    unsigned good = 0, tot = 0;
                    for (unsigned v = 0; v < 256; v += T || n < 12 ? 1 : 7) {
                        gen_count(v * 257);
                        CASE("p=%lld a=%lld b=%lld n=%lld d=%lld hash=%lld generator counts up from %lld", G.c.p.get_si(), G.c.a.get_si(), G.c.b.get_si(), n, x, z, v);
                        sample();
                        good += chk_sign(C, m, 0, 0, v & 1) == 0;
                        tot++;
                    }
                    for (unsigned v = 0; v < (unsigned)(1 << nb); v += T ? 1 : 1 + n / 12) {
                        gen_const(v);
                        CASE("p=%lld a=%lld b=%lld n=%lld d=%lld hash=%lld generator delivers only %lld", G.c.p.get_si(), G.c.a.get_si(), G.c.b.get_si(), n, x, z, v);
                        chk_sign(C, m);
                    }
                    if (n >= 11 && good * 2 < tot) fail("sign", "signing fails for most answers of the generator (%u of %u)", tot - good, tot);
                    for (unsigned f = 0; f < 3; f++) {
                        CASE("p=%lld a=%lld b=%lld n=%lld d=%lld hash=%lld generator fails at draw %lld", G.c.p.get_si(), G.c.a.get_si(), G.c.b.get_si(), n, x, z, f);
                        gen_count(f + x);
                        g_failat = f;
                        chk_sign(C, m);
                        g_failat = ~0UL;
                    }
                    g_states++;
                }
        }
    } else if (g_mode == "keygen") {
        for (auto &G : gs) {
            for (unsigned v = 0; v < 256; v++) {
                if (!mine()) continue;
                for (int k = 0; k < 2; k++) {
                    if (k) gen_const(v); else gen_count(v);
                    Ctx C(G, 1);
                    CASE("key generation p=%lld a=%lld b=%lld n=%lld generator kind %lld value %lld", G.c.p.get_si(), G.c.a.get_si(), G.c.b.get_si(), G.n.get_si(), k, v);
                    sample();
                    g_trans++; g_traces++; g_states++;
                    int res = cry_ecdsa_keygen(&C.c);
                    if (res != 0) { if (!k) fail("keygen", "refused"); continue; }
                    Z d = zget(&C.c.d);
                    if (d <= 0 || d >= G.n) fail("keygen", "private key %s out of range", zs(d).c_str());
                    ptcheck("keygen", 0, &C.c.q, kg(G, d), G.c.p);
                }
            }
            for (unsigned f = 0; f < 2; f++) {
                Ctx C(G, 1);
                gen_count(3); g_draws = 0; g_failat = f;
                CASE("key generation, generator fails at draw %lld", f);
                if (cry_ecdsa_keygen(&C.c) == 0 && g_draws > f) fail("keygen", "the generator failed and key generation reported success");
                g_failat = ~0UL;
            }
        }
    } else if (g_mode == "named") {
        for (int id = 0; id <= 10; id++) {
            cry_ecdsa_ctx c;
            if (cry_ecdsa_init(&c, id)) { if (mine()) { CASE("group %lld", id); fail("init", "refused"); } continue; }
            Grp G{ { zget(&c.grp.p), zget(&c.grp.a), zget(&c.grp.b) }, EP::get(&c.grp.g), zget(&c.grp.n), {} };
            cry_ecdsa_clear(&c);
            std::vector<Z> ds = { 1, G.n - 1, zmod(zbytes(patv(66, id)), G.n), 2 };
            size_t nb = (zbits(G.n) + 7) / 8;
            for (size_t len : { (size_t)0, (size_t)1, (size_t)20, nb - 1, nb, nb + 1, nb + 4, nb + 9, (size_t)64, (size_t)80, (size_t)256, (size_t)1000, (size_t)65536 })
                for (int pt = 0; pt < 3; pt++) {
                    if (!T && (pt != (int)((len + id) % 3) || ((len + id) % 2 && len != nb && len != nb + 4))) continue;
                    if (!mine()) continue;
                    Bytes m = pt == 0 ? patv(len, 3) : Bytes(len, pt == 1 ? 0xff : 0);
                    Ctx C(G, ds[(len + pt) % ds.size()], id);
                    gen_stream(len * 3 + pt);
                    CASE("named curve %lld, message length %lld pattern %lld", id, len, pt);
                    sample();
                    Z r, s;
                    g_states++;
                    if (chk_sign(C, m, &r, &s, 1) != 0) fail("sign", "signing refused");
                    chk_verify(C, r, G.n - s, m);
                    chk_verify(C, r + G.n, s, m); chk_verify(C, r, s + G.n, m);
                    chk_verify(C, -r, s, m); chk_verify(C, r, -s, m);
                    chk_verify(C, r + 1, s, m); chk_verify(C, r, s + 1, m);
                    chk_verify(C, 0, s, m); chk_verify(C, r, 0, m); chk_verify(C, G.n, s, m); chk_verify(C, r, G.n, m);
                    chk_verify(C, r + (Z(1) << (64 * ((zbits(G.n) + 63) / 64))), s, m);
                    // combined point is the identity: u1 + u2 d = 0
                    { Z z = ztrunc(m, G.n); Z rr = zmod(-z * zinv(C.d, G.n), G.n); if (rr != 0) chk_verify(C, rr, 1, m), chk_verify(C, rr, s, m); }
                    for (size_t i : { (size_t)0, len * 8 / 2, zbits(G.n) - 1, zbits(G.n), len * 8 - 1 })
                        if (i < len * 8) { Bytes n = m; n[i / 8] ^= 0x80 >> (i % 8); chk_verify(C, r, s, n); }
                    Bytes n = m; n.push_back(0); chk_verify(C, r, s, n);
                    Ctx D(G, ds[(len + pt + 1) % ds.size()], id);
                    chk_verify(D, r, s, m);
                }
        }
    }
    return done();
}

// C13: Diffie-Hellman.  All histories of a two-party exchange up to a depth on
// a small group against an abstract model, all small groups and exponents,
// large groups structured.
#include "ecref.hpp"
extern "C" {
#include <cry/dh.h>
#include <cry/ecdh.h>
}
static Z zpow(const Z &b, const Z &e, const Z &m) { Z r; mpz_powm(r.get_mpz_t(), b.get_mpz_t(), e.get_mpz_t(), m.get_mpz_t()); return r; }
static Z zbytes(const Bytes &b) { Z r; if (b.size()) mpz_import(r.get_mpz_t(), b.size(), 1, 1, 0, 0, b.data()); return r; }
static size_t zbits(const Z &v) { return v == 0 ? 0 : mpz_sizeinbase(v.get_mpz_t(), 2); }
static Bytes enc(const Z &v, size_t n)
{
    Bytes b(n); Z t = v;
    for (size_t i = n; i-- > 0;) { b[i] = Z(t & 255).get_ui(); t >>= 8; }
    return b;
}
struct DH {
    cry_dh_ctx c; size_t sz;
    DH(const Z &p, const Z &g, const Z &e) { if (cry_dh_init(&c)) abort(); zset(&c.p, p); zset(&c.g, g); zset(&c.e, e); sz = (zbits(p) + 7) / 8; }
    ~DH() { cry_dh_clear(&c); }
};
static Bytes out(DH &d, bool sec, size_t n, const Z &want)
{
    Buf b(n);
    g_trans++; g_traces++;
    int res = sec ? cry_dh_get_sec(&d.c, b.p, n) : cry_dh_get_tok(&d.c, b.p, n);
    bool fit = zbits(want) <= 8 * n;
    if ((res == 0) != fit) fail(sec ? "get_sec" : "get_tok", "returned %d for %s in %zu bytes", res, zs(want).c_str(), n);
    if (fit && b.bytes() != enc(want, n)) fail(sec ? "get_sec" : "get_tok", "got %s expected %s", hex(b.bytes()).c_str(), hex(enc(want, n)).c_str());
    return b.bytes();
}
static void exchange(const Z &p, const Z &g, const Z &a, const Z &b, int reps)
{
    DH A(p, g, a), B(p, g, b);
    Z x = a, y = b;
    for (int k = 0; k < reps; k++) {
        if (k) { x = a * (k + 1) + k; y = b + 3 * k; zset(&A.c.e, x); zset(&B.c.e, y); }
        if (cry_dh_agree(&A.c) || cry_dh_agree(&B.c)) fail("agree", "refused");
        g_trans += 2; g_traces += 2;
        Bytes ta = out(A, 0, A.sz, zpow(g, x, p)), tb = out(B, 0, B.sz, zpow(g, y, p));
        Buf ia(ta), ib(tb);
        if (cry_dh_set_tok(&A.c, ib.p, ib.n) || cry_dh_set_tok(&B.c, ia.p, ia.n)) fail("set_tok", "refused");
        if (!ia.eq(ta) || !ib.eq(tb)) fail("set_tok", "token changed");
        if (zget(&A.c.Y) != zbytes(tb) || noncanon(&A.c.Y)) fail("set_tok", "imported value differs");
        if (cry_dh_finalize(&A.c) || cry_dh_finalize(&B.c)) fail("finalize", "refused");
        g_trans += 2; g_traces += 2;
        Z s = zpow(g, x * y, p);
        Bytes sa = out(A, 1, A.sz, s), sb = out(B, 1, B.sz, s);
        if (sa != sb) fail("secret", "parties differ");
        out(A, 1, A.sz + 3, s); out(B, 0, B.sz + 1, zpow(g, x, p));
        if (zget(&A.c.e) != x || zget(&A.c.p) != p || zget(&A.c.g) != g) fail("secret", "parameters changed");
    }
}
struct EC {
    cry_ecdh_ctx c;
    EC(const Curve &cv, const Pt &G, const Z &n, const Z &d)
    {
        if (cry_ecdh_init(&c)) abort();
        zset(&c.ec.p, cv.p); zset(&c.ec.a, cv.a); zset(&c.ec.b, cv.b); zset(&c.ec.n, n);
        zset(&c.ec.g.x, G.x); zset(&c.ec.g.y, G.y); zset(&c.ec.g.z, 1);
        zset(&c.d, d);
    }
    ~EC() { cry_ecdh_clear(&c); }
};
static void ecexchange(const Curve &cv, const Pt &G, const Z &n, const Z &a, const Z &b)
{
    EC A(cv, G, n, a), B(cv, G, n, b);
    cry_ecp t, u;
    if (cry_ecp_init(&t) || cry_ecp_init(&u)) abort();
    for (int k = 0; k < 2; k++) {
        Z x = k ? b + 1 : a, y = k ? a * 2 : b;
        zset(&A.c.d, x); zset(&B.c.d, y);
        int r1 = cry_ecdh_agree(&A.c), r2 = cry_ecdh_agree(&B.c);
        ptcheck("ec-agree", r1, &A.c.q, cv.mul(x, G), cv.p);
        ptcheck("ec-agree", r2, &B.c.q, cv.mul(y, G), cv.p);
        if (cry_ecp_copy(&t, &A.c.q) || cry_ecp_copy(&u, &B.c.q) || cry_ecp_copy(&A.c.q, &u) || cry_ecp_copy(&B.c.q, &t)) fail("ec-copy", "refused");
        r1 = cry_ecdh_final(&A.c); r2 = cry_ecdh_final(&B.c);
        Pt w = cv.mul(x * y, G);
        ptcheck("ec-final", r1, &A.c.z, w, cv.p);
        ptcheck("ec-final", r2, &B.c.z, w, cv.p);
        if (zget(&A.c.d) != x || zget(&B.c.d) != y) fail("ec-final", "private key changed");
        if (!(EP::get(&A.c.ec.g) == G)) fail("ec-final", "group changed");
    }
    cry_ecp_clear(&t); cry_ecp_clear(&u);
}
// ---- abstract model for the histories -------------------------------------
template <class V> struct St { V Y[2], Zs[2]; int e[2]; V wire[2]; };
static const char *OPN[] = { "A.agree", "B.agree", "A.send", "B.send", "A.receive", "B.receive", "A.final", "B.final", "A.newkey", "B.newkey" };
template <class F> static void histories(unsigned depth, F run)
{
    std::vector<int> h(depth, 0);
    // every sequence of exactly `depth` operations covers its prefixes
    for (;;) {
        if (mine()) { run(h); g_states++; }
        size_t i = 0;
        while (i < depth && ++h[i] == 10) h[i++] = 0;
        if (i == depth) break;
    }
}
static std::string hist(const std::vector<int> &h, size_t n) { std::string s; for (size_t i = 0; i <= n && i < h.size(); i++) s += (i ? " " : "") + std::string(OPN[h[i]]); return s; }
int main(int argc, char **argv)
{
    init(argc, argv);
    bool T = g_thorough;
    if (g_mode == "dh-hist") {
        const Z p = 263, g = 5;     // two-byte tokens
        histories(T ? 6 : 5, [&](const std::vector<int> &h) {
            DH D[2] = { { p, g, 7 }, { p, g, 100 } };
            Z Y[2] = { 0, 0 }, S[2] = { 0, 0 }, wire[2] = { 0, 0 };
            long e[2] = { 7, 100 };
            Bytes wb[2] = { enc(0, 2), enc(0, 2) };
            for (size_t i = 0; i < h.size(); i++) {
                int w = h[i] & 1;
                CASET(hist(h, i));
                sample();
                g_trans++;
                switch (h[i] >> 1) {
                case 0: Y[w] = zpow(g, e[w], p); if (cry_dh_agree(&D[w].c)) fail("agree", "refused"); break;
                case 1: wire[w] = Y[w]; wb[w] = out(D[w], 0, 2, Y[w]); break;
                case 2: { Y[w] = wire[!w]; Buf b(wb[!w]); if (cry_dh_set_tok(&D[w].c, b.p, b.n)) fail("set_tok", "refused"); break; }
                case 3: S[w] = zpow(Y[w], e[w], p); if (cry_dh_finalize(&D[w].c)) fail("finalize", "refused"); break;
                case 4: e[w] = (e[w] * 5 + 1) % 262; zset(&D[w].c.e, e[w]); break;
                }
                for (int k = 0; k < 2; k++)
                    if (zget(&D[k].c.Y) != Y[k] || zget(&D[k].c.Z) != S[k] || noncanon(&D[k].c.Y) || noncanon(&D[k].c.Z) || zget(&D[k].c.e) != e[k])
                        fail("history", "party %c: token %s secret %s, model %s %s", 'A' + k, zs(zget(&D[k].c.Y)).c_str(), zs(zget(&D[k].c.Z)).c_str(), zs(Y[k]).c_str(), zs(S[k]).c_str());
                g_traces++;
            }
            out(D[0], 1, 2, S[0]); out(D[1], 1, 2, S[1]);
        });
    } else if (g_mode == "ec-hist") {
        Curve cv{ 17, 2, 10 };
        // group of the repository's own toy curve, order 19... order computed
        Pt G{ false, 5, 1 };
        Z n = 1; for (Pt Q = G; !Q.inf; Q = cv.add(Q, G)) n++;
        std::vector<Pt> tab = { INF }; for (long i = 1; i < n.get_si(); i++) tab.push_back(cv.add(tab.back(), G));
        histories(T ? 6 : 4, [&](const std::vector<int> &h) {
            EC D[2] = { { cv, G, n, 3 }, { cv, G, n, 11 } };
            Pt Y[2] = { INF, INF }, S[2] = { INF, INF }, wire[2] = { INF, INF };
            long e[2] = { 3, 11 };
            EP wl[2];
            for (size_t i = 0; i < h.size(); i++) {
                int w = h[i] & 1;
                CASET(hist(h, i));
                sample();
                g_trans++;
                switch (h[i] >> 1) {
                case 0: Y[w] = tab[e[w] % n.get_si()]; if (cry_ecdh_agree(&D[w].c)) fail("ec-agree", "refused"); break;
                case 1: wire[w] = Y[w]; if (cry_ecp_copy(wl[w], &D[w].c.q)) fail("ec-copy", "refused"); break;
                case 2: Y[w] = wire[!w]; if (cry_ecp_copy(&D[w].c.q, wl[!w])) fail("ec-copy", "refused"); break;
                case 3: S[w] = cv.mul(e[w], Y[w]); if (cry_ecdh_final(&D[w].c)) fail("ec-final", "refused"); break;
                case 4: e[w] = (e[w] * 5 + 1) % 40; zset(&D[w].c.d, e[w]); break;
                }
                for (int k = 0; k < 2; k++)
                    if (!(EP::get(&D[k].c.q) == Y[k]) || !(EP::get(&D[k].c.z) == S[k]) || EP::bad(&D[k].c.q, cv.p) || EP::bad(&D[k].c.z, cv.p))
                        fail("ec-history", "party %c: token %s secret %s, model %s %s", 'A' + k, ps(EP::get(&D[k].c.q)).c_str(), ps(EP::get(&D[k].c.z)).c_str(), ps(Y[k]).c_str(), ps(S[k]).c_str());
                g_traces++;
            }
        });
    } else if (g_mode == "dh-small") {
        for (long p : { 3, 5, 7, 11, 13, 17, 19, 23, 257, 263 })
            for (long g = 1; g < p; g += p > 100 ? 17 : 1)
                for (long a = 0; a <= p; a += p > 100 ? 13 : 1)
                    for (long b = 0; b <= p; b += p > 100 ? 31 : 1) {
                        if (!mine()) continue;
                        CASE("p=%lld g=%lld exponents %lld and %lld", p, g, a, b);
                        sample(); g_states++;
                        exchange(p, g, a, b, 2);
                    }
        // larger moduli, also with leading zero bytes in tokens
        for (unsigned pb : { 63u, 64u, 65u, 127u, 128u, 129u, 191u, 192u, 256u, 512u, 513u, 1024u, 1536u, 2048u }) {
            if (pb > 256 && !T && CRY_MPI_DIGIT_BITS != 64) continue;
            for (int k = 0; k < (T ? 24 : pb > 1024 ? 1 : pb > 256 ? 4 : 8); k++) {
                if (!mine()) continue;
                Z p = (Z(1) << (pb - 1)) + zbytes(patv(6, pb)); mpz_nextprime(p.get_mpz_t(), p.get_mpz_t());
                CASE("%lld-bit modulus, case %lld", pb, k);
                sample(); g_states++;
                Z a = zbytes(patv(pb / 8, k + 1)), b = k % 3 ? zbytes(patv(pb / 8, k + 50)) : Z(p - 1 - k);
                exchange(p, k % 4 == 3 ? Z(p - 1) : Z(2 + k), k % 5 == 4 ? Z(k) : a, b, 2);
                exchange(p, 2, k + 1, 1, 1);  // small tokens: leading zeros
            }
        }
        // tokens and secrets in long buffers, with leading zeros
        for (const Z &p : { Z(257), Z((Z(1) << 127) - 1), Z((Z(1) << 521) - 1) }) for (size_t n = 0; n < 120 + LONGS.size(); n++) {
            if (!mine()) continue;
            size_t len = n < 120 ? n : LONGS[n - 120]; if (len > 140000) continue;
            CASE("%lld-bit modulus, buffers of %lld bytes", zbits(p), len); sample(); g_states++;
            DH A(p, 3, 77); Z y = zpow(3, 77, p), v = zpow(3, 1234567, p);
            if (cry_dh_agree(&A.c)) fail("agree", "refused");
            out(A, 0, len, y);
            if (zbits(v) > 8 * len) continue;
            Buf t(enc(v, len)); if (cry_dh_set_tok(&A.c, t.p, t.n)) fail("set_tok", "refused");
            if (zget(&A.c.Y) != v || noncanon(&A.c.Y)) fail("set_tok", "imported value differs");
            out(A, 0, len, v);
            if (cry_dh_finalize(&A.c)) fail("finalize", "refused");
            out(A, 1, len, zpow(v, 77, p));
        }
    } else if (g_mode == "ec-small") {
        for (long p : { 5L, 7L, 11L, 13L, 17L, 19L })
            for (long a = 0; a < p; a += 1 + p / 6)
                for (long b = 0; b < p; b++) {
                    if ((4 * a * a % p * a + 27 * b * b) % p == 0) continue;
                    Curve cv{ p, a, b };
                    for (long x = 0, seen = 0; x < p && seen < 2; x++)
                        for (long y = 0; y < p; y++) {
                            if ((y * y - x * x * x - a * x - b) % p != 0) continue;
                            seen++;
                            Pt G{ false, x, y };
                            Z n = 1; for (Pt Q = G; !Q.inf; Q = cv.add(Q, G)) n++;
                            for (long d = 0; d <= n.get_si() + 1; d += T ? 1 : 2)
                                for (long e = 0; e <= n.get_si() + 1; e += T ? 1 : 3) {
                                    if (!mine()) continue;
                                    CASE("p=%lld a=%lld b=%lld G=(%lld,%lld) private keys %lld and %lld", p, a, b, x, y, d, e);
                                    sample(); g_states++;
                                    ecexchange(cv, G, n, d, e);
                                }
                            break;
                        }
                }
        for (int id = 0; id <= 10; id++) {
            for (int k = 0; k < (T ? 6 : 2); k++) {
                if (!mine()) continue;
                CASE("named curve %lld case %lld", id, k);
                cry_ecp_grp g;
                if (cry_ecp_grp_load(&g, id)) fail("named", "curve refused");
                Curve cv{ zget(&g.p), zget(&g.a), zget(&g.b) };
                Pt G = EP::get(&g.g); Z n = zget(&g.n);
                cry_ecp_grp_clear(&g);
                g_states++;
                ecexchange(cv, G, n, k == 0 ? Z(n - 1) : zbytes(patv(zbits(n) / 8, k)), zbytes(patv(zbits(n) / 8 - k, k + 9)));
            }
        }
    }
    return done();
}

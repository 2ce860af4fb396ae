// C04: gcd, lcm, inverse, exponentiation, square root against GMP.
#include "mpiref.hpp"
static const unsigned DB = CRY_MPI_DIGIT_BITS;

// Boundary family: 2^k+d around digit and byte boundaries, up to maxbits bits.
static std::vector<Z> family(unsigned maxdigs, bool dense)
{
    std::set<Z> s;
    for (int i = 0; i <= 20; i++) s.insert(i);
    for (unsigned d = 1; d <= maxdigs; d++)
        for (int o = -1; o <= 1; o++)
            for (int e = -3; e <= 3; e++) {
                Z v = (Z(1) << (d * DB + o)) + e;
                if (v >= 0) s.insert(v);
            }
    if (dense)
        for (unsigned d = 1; d <= maxdigs; d++) {
            Z full = (Z(1) << (d * DB)) - 1;
            s.insert(full / 3); s.insert(full / 5 * 4); s.insert(full / 7 * 6 + 1);
            s.insert(full - (Z(1) << (d * DB / 2)));
        }
    return std::vector<Z>(s.begin(), s.end());
}
static void expect(const char *op, int res, int wantres, cry_mpi *r, const Z &want)
{
    g_trans++; g_traces++;
    if (wantres) {
        if (res == 0) fail(op, "%s: accepted (result %s) where it must be refused", op, zs(zget(r)).c_str());
        return;
    }
    if (res != 0) fail(op, "%s: refused with %d, expected %s", op, res, zs(want).c_str());
    const char *nc = noncanon(r);
    if (nc) fail(op, "%s: result not canonical: %s", op, nc);
    if (zget(r) != want) fail(op, "%s: got %s expected %s", op, zs(zget(r)).c_str(), zs(want).c_str());
}
typedef int (*bin_f)(cry_mpi *, const cry_mpi *, const cry_mpi *);
// all aliasings of a two-operand function
static void two(const char *op, bin_f f, const Z &a, const Z &b, int wr, const Z &w, bool full = true)
{
    for (int al = 0; al < (full ? 3 : 1); al++) {
        M A, B, R;
        A.fit(a); B.fit(b);
        if (al == 0) R.set(-((Z(1) << (2 * DB)) + 5));
        cry_mpi *r = al == 0 ? R : al == 1 ? A : B;
        CASET(std::string(op) + "(" + zs(a) + ", " + zs(b) + ") result " + (al == 0 ? "separate" : al == 1 ? "= first" : "= second"));
        sample();
        int res = f(r, A, B);
        expect(op, res, wr, r, w);
        if (r != &A.m && A.get() != a) fail(op, "first operand changed");
        if (r != &B.m && B.get() != b) fail(op, "second operand changed");
    }
    if (full && a == b) {
        M A, R;
        A.fit(a);
        CASET(std::string(op) + "(x, x) with x = " + zs(a));
        int res = f(R, A, A);
        expect(op, res, wr, R, w);
        res = f(A, A, A);
        expect(op, res, wr, A, w);
    }
}
static void gcdlcm(const Z &a, const Z &b)
{
    g_states++;
    Z g, l;
    mpz_gcd(g.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t());
    mpz_lcm(l.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t());
    two("gcd", cry_mpi_gcd, a, b, 0, g);
    two("lcm", cry_mpi_lcm, a, b, 0, l);
}
static void inverse(const Z &a, const Z &m, bool full = true)
{
    g_states++;
    Z w;
    int ok = mpz_invert(w.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t());
    two("inv", cry_mpi_inv, a, m, !ok, w, full);
}
static void modexp(const Z &b, const Z &e, const Z &m, bool full)
{
    g_states++;
    bool bad = e < 0 || m <= 0;
    Z w;
    if (!bad) mpz_powm(w.get_mpz_t(), b.get_mpz_t(), e.get_mpz_t(), m.get_mpz_t());
    for (int al = 0; al < (full ? 4 : 1); al++) {
        M B, E, N, R;
        B.fit(b); E.fit(e); N.fit(m);
        if (al == 0) R.set(-((Z(1) << (2 * DB)) + 5));
        cry_mpi *r = al == 0 ? R : al == 1 ? B : al == 2 ? E : N;
        CASET("mod_exp(" + zs(b) + ", " + zs(e) + ", " + zs(m) + ") result " + (al == 0 ? "separate" : al == 1 ? "= base" : al == 2 ? "= exponent" : "= modulus"));
        sample();
        int res = cry_mpi_mod_exp(r, B, E, N);
        expect("mod_exp", res, bad, r, w);
        if (r != &B.m && B.get() != b) fail("mod_exp", "base changed");
        if (r != &E.m && E.get() != e) fail("mod_exp", "exponent changed");
        if (r != &N.m && N.get() != m) fail("mod_exp", "modulus changed");
    }
    if (full && b == e) {
        M B, N, R; B.fit(b); N.fit(m);
        CASET("mod_exp(x, x, " + zs(m) + ") x = " + zs(b));
        expect("mod_exp", cry_mpi_mod_exp(R, B, B, N), bad, R, w);
    }
}
static void ipow(const Z &b, const Z &e)
{
    g_states++;
    bool bad = e < 0;
    Z w;
    if (!bad) mpz_pow_ui(w.get_mpz_t(), b.get_mpz_t(), e.get_ui());
    two("exp", cry_mpi_exp, b, e, bad, w);
}
static void root(const Z &a)
{
    g_states++;
    Z w;
    if (a >= 0) mpz_sqrt(w.get_mpz_t(), a.get_mpz_t());
    for (int al = 0; al < 2; al++) {
        M A, R;
        A.fit(a);
        if (al == 0) R.set(-((Z(1) << (2 * DB)) + 5));
        cry_mpi *r = al ? A : R;
        CASET("sqrt(" + zs(a) + ")" + (al ? " in place" : ""));
        sample();
        int res = cry_mpi_sqrt(r, A);
        expect("sqrt", res, a < 0, r, w);
        if (!al && A.get() != a) fail("sqrt", "operand changed");
    }
}
// sizes of real keys
static void large()
{
    bool T = g_thorough;
    std::vector<unsigned> sz = { 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 40, 63, 64, 65, 66 };
    if (T) for (unsigned n : { 96, 127, 128, 129, 256 }) sz.push_back(n);
    for (unsigned an : sz) for (unsigned bn : { 1u, 2u, an / 2, an - 1, an }) for (int k = 0; k < 36; k++) {
        if (!mine() || (!T && (k % 6 + k / 6 + an) % 3)) continue;
        Z a = bigv(an, k % 6, 3), b = bigv(bn, k / 6, 4);
        gcdlcm(a, b); gcdlcm(b * 48, a * 36);
        inverse(b, a, false); inverse(-a, b * 2 + 1, false); inverse(a, a + 1, false);
    }
    for (unsigned an : sz) for (int k = 0; k < 6; k++) {
        if (!mine()) continue;
        Z a = bigv(an, k, 5);
        root(a); root(a * a); root(a * a - 1); root(a * a + 2 * a); root(a << 1);
    }
    for (unsigned mn : sz) for (int k = 0; k < 6; k++) for (int e = 0; e < 8; e++) {
        if (!mine()) continue;
        Z m = bigv(mn, k, 6), b = bigv(mn + (e % 3) - 1, (k + 1 + e) % 6, 7);
        if (e == 7 && !T && (mn > 33 || k % 3)) continue;
        static const unsigned long ex[] = { 2, 3, 17, 65537, 0xffffffffUL, 0x8000000000000001UL, 0 };
        modexp(e == 3 ? Z(-b) : b, e < 7 ? Z(ex[e]) : DB == 64 ? bigv(mn, 2, 8) : bigv(8, 2, 8), m, e < 3);
    }
    for (unsigned bn : { 4u, 9u, 16u, 33u }) for (int k = 0; k < 6; k++) for (unsigned e = 0; e < (T ? 40u : 14u); e++) { if (mine()) ipow(e & 1 ? Z(-bigv(bn, k)) : bigv(bn, k), e); }
}
// lengths around the limits of short counters
static void longs()
{
    bool T = g_thorough;
    std::vector<unsigned> bits = { 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537 };
    if (T) for (unsigned n : { 131072, 131073, 262145 }) bits.push_back(n);
    for (unsigned n : bits) for (int k = 0; k < 4; k++) for (int m = 0; m < 4; m++) {
        if (!mine() || (!T && n > 20000 && (k + m) % 2)) continue;
        Z e = (Z(1) << (n - 1)) + (k == 0 ? Z(0) : k == 1 ? Z(1) : k == 2 ? Z((Z(1) << (n - 1)) - 1) : Z((Z(1) << (n / 2)) + 5));
        static const unsigned long ms[] = { 1000003, 97 * 89, 0xfffffffbUL, 0x8000000000000000UL };
        modexp(m == 1 ? Z(-5) : Z(3 + 2 * k), e, Z(ms[m]), false);
    }
    for (unsigned n : bits) for (unsigned d : { 0u, 1u, 7u, 64u }) for (int k = 0; k < 3; k++) {
        if (!mine() || (!T && n > 20000 && DB == 8)) continue;
        Z a = (Z(k == 0 ? 1 : k == 1 ? 15 : 255) << n), b = Z(k == 0 ? 1 : 21) << (n + d);
        gcdlcm(a, b); gcdlcm(a, Z(6) << d); gcdlcm(Z(2) << n, a);
    }
    for (unsigned n : bits) for (int k = 0; k < 4; k++) {
        if (!mine() || n > (T ? 70000u : 17000u)) continue;
        Z a = (Z(1) << n) + (k == 0 ? 0 : k == 1 ? -1 : k == 2 ? 1 : 12345);
        inverse(a, Z(1000003), false); inverse(Z(1000003), a, false); inverse(a, Z(1) << 40, false);
        if (n < 9000) root(a);
    }
    for (unsigned e : { 255u, 256u, 257u, 1023u, 1024u, 4095u, 4096u, 4097u, 65535u, 65536u, 65537u }) for (int b : { -3, -2, 0, 1, 2, 7 }) { if (!mine() || (e > 5000 && DB == 8)) continue; ipow(b, e); }
}
int main(int argc, char **argv)
{
    init(argc, argv);
    bool T = g_thorough;
    if (g_mode == "gcd") {
        int N = DB == 8 ? (T ? 700 : 330) : (T ? 200 : 60);
        for (int a = -N; a <= N; a++) {
            if (!mine()) continue;
            for (int b = -N; b <= N; b++) gcdlcm(a, b);
        }
        std::vector<Z> F = family(T ? 6 : 3, true);
        for (auto &a : F) {
            if (!mine()) continue;
            for (auto &b : F)
                for (int s = 0; s < 4; s++) gcdlcm(s & 1 ? Z(-a) : a, s & 2 ? Z(-b) : b);
        }
        // products with a common factor
        for (auto &a : F) {
            if (!mine()) continue;
            for (auto &b : F) for (int k : { 2, 3, 6, 12, 255, 256, 1024 }) gcdlcm(a * k, b * k);
        }
    } else if (g_mode == "inv") {
        int N = DB == 8 ? (T ? 1100 : 330) : (T ? 400 : 130);
        for (int m = 2; m <= N; m++) {
            if (!mine()) continue;
            for (int a = -m - 3; a <= 2 * m + 3; a++) inverse(a, m);
        }
        std::vector<Z> F = family(T ? 6 : 4, true);
        for (auto &m : F) {
            if (m < 2 || !mine()) continue;
            for (auto &a : F) { inverse(a, m); inverse(-a, m); }
        }
    } else if (g_mode == "exp") {
        for (int b = -20; b <= 20; b++) {
            if (!mine()) continue;
            for (int e = -3; e <= (T ? 160 : 70); e++) ipow(b, e);
        }
        for (auto &b : family(3, false)) {
            if (!mine()) continue;
            for (int e = -1; e <= 9; e++) { ipow(b, e); ipow(-b, e); }
        }
        int N = T ? 60 : 26;
        for (int m = -3; m <= N; m++) {
            if (!mine()) continue;
            for (int b = -m - 2; b <= m + 3; b++)
                for (int e = -2; e <= N + 8; e++) modexp(b, e, m, true);
        }
        std::vector<Z> F = family(T ? 5 : 3, false), G = family(2, T);
        for (auto &m : F) {
            if (m == 0) continue;
            if (!mine()) continue;
            for (auto &b : F)
                for (auto &e : G) modexp(b, e, m, false);
        }
    } else if (g_mode == "large") {
        large();
    } else if (g_mode == "longs") {
        longs();
    } else if (g_mode == "sqrt") {
        long N = DB == 8 ? (T ? (1L << 23) : (1L << 19)) : (T ? 400000 : 40000);
        for (long c = -64; c * 1024 < N; c++) {
            if (!mine()) continue;
            for (long a = c < 0 ? c : c * 1024; a < (c < 0 ? c + 1 : (c + 1) * 1024); a++) root(Z(a));
        }
        for (auto &k : family(T ? 9 : 6, true)) {
            if (!mine()) continue;
            for (int e = -2; e <= 2; e++) { root(k * k + e); root(k + e); root(-k - 1); }
            root(k * k + 2 * k); root(k * k + k); root(k * k * k);
        }
    }
    return done();
}

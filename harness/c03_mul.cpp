// C03: every multiplier / squarer equals the exact product, for all size pairs
// around thresholds x digit patterns x aliasing.
#include "mpiref.hpp"
static const unsigned DB = CRY_MPI_DIGIT_BITS;
static const unsigned long TOP = (unsigned long)CRY_MPI_DIGIT_MAX;
enum { NPAT = 16 };
static Z digs(const std::vector<unsigned long> &d)
{
    Z r = 0;
    for (size_t i = d.size(); i-- > 0;) r = (r << DB) + Z(d[i]);
    return r;
}
// pattern k of exactly n digits (top digit non-zero)
static Z pattern(unsigned n, int k)
{
    std::vector<unsigned long> d(n, 0);
    unsigned h = n / 2, t = n / 3;
    auto fill = [&](unsigned lo, unsigned hi, unsigned long v) { for (unsigned i = lo; i < hi && i < n; i++) d[i] = v; };
    switch (k) {
    case 0: fill(0, n, TOP); break;
    case 1: d[n - 1] = 1; break;
    case 2: fill(0, n, TOP); d[n - 1] = 1; break;
    case 3: for (unsigned i = 0; i < n; i++) d[i] = (i & 1) ? 0 : TOP; break;
    case 4: fill(h, n, TOP); break;
    case 5: fill(0, h, TOP); break;
    case 6: fill(0, t, TOP); fill(2 * t, n, TOP); break;
    case 7: fill(t, 2 * t, TOP); break;
    case 8: for (unsigned i = 0; i < n; i++) { unsigned long v = 0; for (int b = 0; b < 8; b++) v = v << 8 | pat(i * 8 + b, 77); d[i] = v & TOP; } break;
    case 9: fill(0, n, TOP / 2 + 1); break;
    case 10: d[0] = 1; break;                      // 1 ... 1
    case 11: fill(0, n, 1); break;                 // equal parts
    case 12: for (unsigned i = 0; i < n; i++) { unsigned long v = 0; for (int b = 0; b < 8; b++) v = v << 8 | pat(i * 8 + b, 991); d[i] = v & TOP; } fill(0, t, 0); break;
    case 13: fill(0, n, TOP - 1); break;
    case 14: fill(0, h + 1, TOP); d[n - 1] = TOP / 2 + 1; break;
    case 15: fill(2 * t, n, TOP); d[0] = TOP; break;
    }
    if (d[n - 1] == 0) d[n - 1] = (k & 1) ? 1 : TOP;
    return digs(d);
}
typedef int (*mul_f)(cry_mpi *, const cry_mpi *, const cry_mpi *);
typedef int (*sqr_f)(cry_mpi *, const cry_mpi *);
struct Mul { const char *n; mul_f f; };
static const Mul muls[] = { { "auto", cry_mpi_mul }, { "karatsuba", cry_mpi_mul_karatsuba }, { "toom3", cry_mpi_mul_toom3 }, { "comba", cry_mpi_mul_comba }, { "baseline", cry_mpi_mul_baseline }, { "auto-abs", cry_mpi_mul_abs } };
struct Sqr { const char *n; sqr_f f; };
static const Sqr sqrs[] = { { "auto", cry_mpi_sqr }, { "karatsuba", cry_mpi_sqr_karatsuba }, { "comba", cry_mpi_sqr_comba }, { "baseline", cry_mpi_sqr_baseline } };

static void one(const Mul &m, const Z &a, const Z &b, int alias, const Z &want)
{
    M A, B, R;
    A.fit(a); B.fit(b);
    cry_mpi *pa = A, *pb = alias >= 3 ? (cry_mpi *)A : (cry_mpi *)B;
    cry_mpi *pr = (alias == 0 || alias == 3) ? (cry_mpi *)R : (alias == 1 || alias == 4) ? pa : pb;
    if (pr == &R.m) R.set(-((Z(1) << (3 * DB)) - 1));
    g_trans++; g_traces++;
    int res = m.f(pr, pa, pb);
    if (res != 0) fail("mul", "%s multiplier returned %d", m.n, res);
    Z got = zget(pr);
    if (got != want || noncanon(pr))
        fail("mul", "%s multiplier wrong: got %.200s expected %.200s %s", m.n, zs(got).c_str(), zs(want).c_str(), noncanon(pr) ? noncanon(pr) : "");
    if (pr != pa && zget(pa) != a) fail("mul", "operand changed");
    if (pr != pb && pb != pa && zget(pb) != b) fail("mul", "operand changed");
}
static void ones(const Sqr &m, const Z &a, bool inplace)
{
    M A, R;
    A.fit(a);
    R.set(-77);
    cry_mpi *pr = inplace ? A : R;
    g_trans++; g_traces++;
    int res = m.f(pr, A);
    if (res != 0) fail("sqr", "%s squarer returned %d", m.n, res);
    if (zget(pr) != Z(a * a) || noncanon(pr)) fail("sqr", "%s squarer wrong: got %.200s", m.n, zs(zget(pr)).c_str());
    if (pr != &A.m && zget(A) != a) fail("sqr", "operand changed");
}
int main(int argc, char **argv)
{
    init(argc, argv);
    if (g_mode == "small") {
        unsigned N = g_thorough ? 40 : 20;
        for (unsigned na = 1; na <= N; na++)
            for (unsigned nb = 1; nb <= N; nb++) {
                if (!mine()) continue;
                for (int ka = 0; ka < NPAT; ka++) {
                    Z a = pattern(na, ka);
                    for (int kb = 0; kb < NPAT; kb++) {
                        Z b = pattern(nb, kb), w = a * b;
                        g_states++;
                        for (auto &m : muls) {
                            CASE("multiply %lld x %lld digits, patterns %lld and %lld", na, nb, ka, kb);
                            sample();
                            one(m, a, b, 0, w);
                            if (na < 13 && nb < 13 && (ka + kb) % 4 == 0) {
                                CASE("multiply in place %lld x %lld digits, patterns %lld and %lld", na, nb, ka, kb);
                                one(m, a, b, 1, w);
                                one(m, a, b, 2, w);
                                one(m, a, a, 3, a * a);
                                one(m, a, a, 4, a * a);
                            }
                        }
                    }
                }
            }
        // zero operands and signs
        for (unsigned na = 0; na <= 6; na++)
            for (unsigned nb = 0; nb <= 6; nb++) {
                if (!mine()) continue;
                for (int s = 0; s < 4; s++)
                    for (int k = 0; k < 4; k++) {
                        Z a = na ? pattern(na, k) : Z(0), b = nb ? pattern(nb, k + 4) : Z(0);
                        if (s & 1) a = -a;
                        if (s & 2) b = -b;
                        g_states++;
                        CASE("signed multiply %lld x %lld digits pattern %lld signs %lld", na, nb, k, s);
                        for (int al = 0; al < 3; al++) one(muls[0], a, b, al, a * b);
                        if (na == 0 || nb == 0) for (auto &m : muls) for (int al = 0; al < 3; al++) one(m, abs(a), abs(b), al, 0);
                        if (na) for (auto &q : sqrs) { ones(q, a, false); ones(q, a, true); }
                        else for (auto &q : sqrs) { ones(q, 0, false); ones(q, 0, true); }
                    }
            }
        for (unsigned na = 1; na <= (g_thorough ? 200u : 72u); na++) {
            if (!mine()) continue;
            for (int k = 0; k < NPAT; k++) {
                Z a = pattern(na, k);
                g_states++;
                CASE("square %lld digits, pattern %lld", na, k);
                for (auto &q : sqrs) { ones(q, a, false); ones(q, a, true); }
            }
        }
        if (DB == 8) // every value of up to two digits, every squarer
            for (long v = 0; v < 65536; v++) {
                if (!mine()) continue;
                g_states++;
                CASE("square of %lld", v);
                for (auto &q : sqrs) ones(q, Z(v), (v & 1));
            }
    } else if (g_mode == "big") {
        std::vector<unsigned> S = { 1, 2, 3, 33, 63, 64, 65, 66, 67, 96, 127, 128, 129, 130, 131, 132, 194, 195, 196, 254, 255, 256, 257, 258, 259, 299, 300, 301, 302, 303, 304, 305, 306, 451, 601, 602, 603, 604, 903, 904, 905 };
        std::vector<int> P = { 0, 1, 3, 4, 6, 7, 8, 12 };
        if (g_thorough) { P.clear(); for (int i = 0; i < NPAT; i++) P.push_back(i); for (unsigned n : { 68u, 97u, 98u, 133u, 260u, 261u, 307u, 452u, 453u, 600u, 605u, 906u, 907u, 1205u }) S.push_back(n); }
        for (auto na : S)
            for (auto nb : S) {
                if (!mine()) continue;
                if (!g_thorough && na > 310 && nb > 310 && (na + nb) % 3 == 1) continue;
                for (auto ka : P) {
                    Z a = pattern(na, ka);
                    for (auto kb : P) {
                        if (!g_thorough && (na + nb > 450) && ((ka + kb) & 1)) continue;
                        Z b = pattern(nb, kb), w = a * b;
                        g_states++;
                        CASE("multiply %lld x %lld digits, patterns %lld and %lld", na, nb, ka, kb);
                        sample();
                        one(muls[0], a, b, (ka + kb) % 3, w);
                        if (na > 1 && nb > 1 && na + nb < 700 && (ka == kb || g_thorough)) { for (int q = 1; q < 5; q++) one(muls[q], a, b, 0, w); }
                        if (ka == 0 && kb == 0) one(muls[0], a, -b, 0, -w);
                        if (ka == 3 && kb == 3) one(muls[0], -a, -b, 0, w);
                    }
                }
            }
        for (auto na : S) {
            if (!mine()) continue;
            for (int k = 0; k < NPAT; k++) {
                Z a = pattern(na, k);
                g_states++;
                CASE("square %lld digits, pattern %lld", na, k);
                for (auto &q : sqrs) ones(q, a, k & 1);
                ones(sqrs[0], -a, false);
            }
        }
    } else if (g_mode == "thresh") {
        // every size 60..136 and 296..310 squared against itself and neighbours
        for (unsigned na = 60; na <= 310; na++) {
            if (na > 136 && na < 296) continue;
            for (int dn = -1; dn <= 2; dn++) {
                if (!mine()) continue;
                for (int k = 0; k < NPAT; k++) {
                    Z a = pattern(na, k), b = pattern(na + dn, (k * 5 + 3) % NPAT);
                    g_states++;
                    CASE("multiply %lld x %lld digits, pattern %lld", na, na + dn, k);
                    one(muls[0], a, b, k % 3, a * b);
                    one(muls[5], a, b, k % 3, a * b);
                    if (dn == 0) { one(muls[0], a, a, 3, a * a); one(muls[0], a, a, 4, a * a); }
                }
            }
        }
    }
    return done();
}

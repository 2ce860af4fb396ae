// C02: division identity, exhaustively over operand families x outputs x aliasing.
#include "mpiref.hpp"
static const unsigned DB = CRY_MPI_DIGIT_BITS;

// ---- native: small digits, operands that fit a machine word ---------------
static cry_mpi a_, b_, q_, r_;
static inline void nset(cry_mpi *m, uint64_t v, int sign)
{
    size_t n = 0;
    while (v) { m->data[n++] = (cry_mpi_digit)v; v >>= (DB % 64); }
    m->used = n; m->sign = n ? sign : 0;
}
static inline int64_t nget(const cry_mpi *m)
{
    uint64_t v = 0;
    for (size_t i = m->used; i-- > 0;) v = (v << (DB % 64)) | m->data[i];
    return m->sign ? -(int64_t)v : (int64_t)v;
}
static inline void ncheck(int64_t a, int64_t b)
{
    CASE("%lld / %lld", a, b);
    nset(&a_, a < 0 ? -a : a, a < 0);
    nset(&b_, b < 0 ? -b : b, b < 0);
    q_.sign = r_.sign = 1; q_.used = r_.used = 0;
    g_states++; g_trans++; g_traces++;
    int res = cry_mpi_div(&q_, &r_, &a_, &b_);
    if (b == 0) {
        if (res == 0) fail("div", "division by zero not refused");
        return;
    }
    if (res != 0) fail("div", "returned %d", res);
    int64_t q = a / b, r = a % b;
    if (r != 0 && ((r < 0) != (b < 0))) { q--; r += b; }
    int64_t gq = nget(&q_), gr = nget(&r_);
    if (b < 0) { gr = gr < 0 ? -gr : gr; r = r < 0 ? -r : r; }
    if (gq != q || gr != r)
        fail("div", "q=%lld r=%lld expected q=%lld r=%lld", (long long)gq, (long long)gr, (long long)q, (long long)r);
    if (noncanon(&q_) || noncanon(&r_))
        fail("div", "result not canonical");
}

// ---- GMP-checked ----------------------------------------------------------
static void zcheck(const Z &a, const Z &b, int qo, int ro, bool same)
{
    // qo/ro: 0 none, 1 separate object, 2 = dividend, 3 = divisor
    M A, B, Q, R;
    A.fit(a); B.fit(b);
    Q.set(-((Z(1) << (3 * DB)) - 1));
    R.set(-((Z(1) << (2 * DB)) + 5));
    cry_mpi *pa = A, *pb = same ? pa : (cry_mpi *)B;
    cry_mpi *pq = qo == 0 ? nullptr : qo == 1 ? (cry_mpi *)Q : qo == 2 ? pa : pb;
    cry_mpi *pr = ro == 0 ? nullptr : ro == 1 ? (cry_mpi *)R : ro == 2 ? pa : pb;
    g_trans++; g_traces++;
    int res = cry_mpi_div(pq, pr, pa, pb);
    if (b == 0) {
        if (res == 0) fail("div", "division by zero not refused");
        return;
    }
    if (res != 0) fail("div", "returned %d", res);
    Z q, r;
    mpz_fdiv_qr(q.get_mpz_t(), r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t());
    if (pq) {
        if (noncanon(pq)) fail("div", "quotient not canonical: %s", noncanon(pq));
        if (zget(pq) != q) fail("div", "quotient %s expected %s", zs(zget(pq)).c_str(), zs(q).c_str());
    }
    if (pr) {
        Z g = zget(pr);
        if (noncanon(pr)) fail("div", "remainder not canonical: %s", noncanon(pr));
        if (b < 0) { g = abs(g); r = abs(r); }
        if (g != r) fail("div", "remainder %s expected %s", zs(g).c_str(), zs(r).c_str());
    }
    if (pq != pa && pr != pa && zget(pa) != a) fail("div", "dividend changed");
    if (!same && pq != pb && pr != pb && zget(pb) != b) fail("div", "divisor changed");
}
static void zcheck_abs(const Z &a, const Z &b)
{
    M A, B, Q, R;
    A.fit(a); B.fit(b);
    Q.set(-3); R.set(-9);
    g_trans++; g_traces++;
    int res = cry_mpi_div_abs(Q, R, A, B);
    if (b == 0) { if (res == 0) fail("div", "division by zero not refused"); return; }
    if (res != 0) fail("div", "div_abs returned %d", res);
    Z q, r, x = abs(a), y = abs(b);
    mpz_fdiv_qr(q.get_mpz_t(), r.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t());
    if (abs(Q.get()) != q || abs(R.get()) != r) fail("div", "div_abs q=%s r=%s", zs(Q.get()).c_str(), zs(R.get()).c_str());
}
static std::vector<Z> vals(const std::vector<unsigned long> &al, unsigned nd)
{
    std::set<Z> s = { 0 };
    std::vector<Z> cur = { 0 };
    for (unsigned d = 0; d < nd; d++) {
        std::vector<Z> n;
        for (auto &v : cur) for (auto x : al) { n.push_back((v << DB) + Z(x)); s.insert(n.back()); }
        cur = n;
    }
    return std::vector<Z>(s.begin(), s.end());
}
static std::string cs(const Z &a, const Z &b) { return zs(a) + " / " + zs(b); }

int main(int argc, char **argv)
{
    init(argc, argv);
    unsigned long top = (unsigned long)CRY_MPI_DIGIT_MAX, mid = top / 2 + 1, qtr = mid / 2;
    if (g_mode == "native") {
        for (cry_mpi *m : { &a_, &b_, &q_, &r_ }) {
            m->data = (cry_mpi_digit *)calloc(64, sizeof(cry_mpi_digit)); m->alloc = 64; m->used = 0; m->sign = 0;
        }
        // every 16-bit dividend by every 8-bit divisor
        for (int64_t b = 0; b < 256; b++)
            if (mine())
                for (int64_t a = 0; a < 65536; a++) ncheck(a, b);
        // signed small square
        int64_t L = g_thorough ? 2000 : 400;
        for (int64_t b = -L; b <= L; b++)
            if (mine())
                for (int64_t a = -2 * L; a <= 2 * L; a++) ncheck(a, b);
        // q*b + d around every multiple for digit-structured divisors and quotients
        std::vector<uint64_t> al = { 0, 1, 2, 3, 0x0f, 0x10, 0x3f, 0x40, 0x41, 0x55, 0x7e, 0x7f, 0x80, 0x81, 0xaa, 0xbf, 0xc0, 0xfd, 0xfe, 0xff };
        std::vector<uint64_t> ql = { 0, 1, 2, 0x3f, 0x40, 0x7f, 0x80, 0x81, 0xfe, 0xff };
        std::vector<uint64_t> bs, qs;
        for (auto x : al) for (auto y : al) for (auto z : al) bs.push_back(x << 16 | y << 8 | z);
        if (g_thorough) { bs.clear(); for (uint64_t i = 0; i < 65536; i++) bs.push_back(i);
            for (auto x : al) for (auto y : al) for (auto z : al) for (auto w : { 0x01, 0x7f, 0x80, 0xff }) bs.push_back((uint64_t)w << 24 | x << 16 | y << 8 | z); }
        for (auto x : ql) for (auto y : ql) qs.push_back(x << 8 | y);
        for (auto x : { 1, 0x7f, 0x80, 0xff }) for (auto y : { 0, 1, 0xff }) for (auto z : { 0, 0x80, 0xff }) qs.push_back(x << 16 | y << 8 | z);
        if (g_thorough) { qs.clear(); for (int i = 0; i < 65536; i += 1) if ((i & 0xff) < 2 || (i & 0xff) > 0xfd || (i >> 8) < 2 || (i >> 8) > 0xfd || (i & 0x7f) == 0) qs.push_back(i); }
        for (auto b : bs) {
            if (!b || !mine()) continue;
            for (auto q : qs) {
                int64_t p = (int64_t)(q * b);
                for (int64_t d : { (int64_t)0, (int64_t)1, (int64_t)b - 1, (int64_t)b / 2 }) ncheck(p + d, (int64_t)b);
                if (p) ncheck(p - 1, (int64_t)b);
            }
            sample();
        }
        if (g_thorough)   // every 16-bit dividend by every 16-bit divisor
            for (int64_t b = 1; b < 65536; b++)
                if (mine())
                    for (int64_t a = b; a < 65536; a++) ncheck(a, b);
    } else if (g_mode == "edge") {
        std::vector<unsigned long> al = { 0, 1, qtr, mid - 1, mid, top - 1, top };
        auto bs = vals(al, 3), qs = vals({ 0, 1, mid, top }, g_thorough ? 3 : 2);
        if (g_thorough) { auto b2 = vals({ 0, 1, mid - 1, mid, top }, 5); bs.insert(bs.end(), b2.begin(), b2.end()); }
        for (auto &b : bs) {
            if (!mine()) continue;
            for (auto &q : qs)
                for (int d = 0; d < 5; d++) {
                    Z a = q * b + (d == 0 ? Z(0) : d == 1 ? Z(1) : d == 2 ? Z(b - 1) : d == 3 ? Z(-1) : Z(b / 2));
                    g_states++;
                    CASET(cs(a, b)); sample();
                    zcheck_abs(a, b);
                    zcheck(a, b, 1, 1, false);
                    zcheck(-a, b, 1, 1, false);
                    zcheck(a, -b, 1, 1, false);
                    zcheck(-a, -b, 1, 1, false);
                }
        }
        auto as = vals(al, 3);
        for (auto &a : as) {
            if (!mine()) continue;
            for (auto &b : as) { g_states++; CASET(cs(a, b)); zcheck_abs(a, b); zcheck(-a, b, 1, 1, false); }
        }
        // long operands, unbalanced, with runs of ones and zeros
        std::vector<Z> ls;
        for (unsigned n : { 3u, 4u, 5u, 8u, 9u, 16u, 17u })
            for (unsigned k = 0; k <= n; k += (n > 8 ? 4 : 1)) {
                Z t = (Z(1) << (n * DB)) - (Z(1) << (k * DB));
                ls.push_back(t); ls.push_back(t + 1); ls.push_back(t >> 1); ls.push_back((Z(1) << (n * DB - 1)) + (Z(1) << (k * DB)) - 1);
                ls.push_back((Z(1) << (n * DB - 1)) + (Z(top) << (k * DB)));
            }
        for (auto &a : ls) {
            if (!mine()) continue;
            for (auto &b : ls) { if (b == 0) continue; g_states++; CASET(cs(a, b)); zcheck_abs(a, b); zcheck(-a, b, 1, 1, false); zcheck(a * b, b, 1, 1, false); zcheck(a * b - 1, b, 1, 1, false); }
        }
        // sizes of real keys and beyond
        std::vector<unsigned> sz = { 7, 11, 15, 16, 24, 31, 32, 33, 48, 63, 64, 65, 66, 100, 127, 128, 129, 200, 255, 256, 257, 300, 513 };
        for (unsigned bn : sz) for (unsigned qn : sz) for (int bk = 0; bk < 6; bk++) for (int qk = 0; qk < (g_thorough ? 6 : 3); qk++) {
            if (!mine()) continue;
            Z b = bigv(bn, bk, 1), q = bigv(qn, qk * (g_thorough ? 1 : 2), 2); g_states++;
            CASET("sizes " + std::to_string(qn) + " + " + std::to_string(bn) + " digits, kinds " + std::to_string(qk) + "," + std::to_string(bk));
            zcheck(q * b + b - 1, b, 1, 1, false); zcheck(q * b, b, 1, 1, false); zcheck(-(q * b + b / 3), b, 1, 1, false); zcheck(q * b + (b >> 7), b, 2, 3, false); zcheck(q, b, 1, 1, false);
        }
        // divisors of more digits than 16 bits count
        for (unsigned qn : { 65534u, 65535u, 65536u, 65537u, 65600u }) for (unsigned bn : { 1u, 2u, 3u }) for (int k = 0; k < 2; k++) {
            if (!mine()) continue;
            Z b = bigv(qn, k ? 0 : 1, 1), q = bigv(bn, k ? 4 : 0, 2); g_states++;
            CASET("sizes " + std::to_string(bn) + " + " + std::to_string(qn) + " digits, kind " + std::to_string(k));
            zcheck(q * b + b - 1, b, 1, 1, false); zcheck(-(q * b + b / 3), b, 1, 1, false); zcheck(q * b, b, 2, 3, false);
        }
    } else if (g_mode == "long") {
        // quotients of thousands of digits (the algorithm is quadratic in the quotient)
        g_hang_secs = 400;
        for (unsigned qn : { 1000u, 4095u, 4097u, 8193u, 16385u, 32769u, 65540u }) for (unsigned bn : { 1u, 2u, 3u, 40u }) for (int k = 0; k < 2; k++) {
            if (!mine()) continue;
            if (qn > 20000 && bn + k != 2 && (!g_thorough || qn > 40000)) continue;
            Z b = bigv(bn, k ? 2 : 1, 1), q = bigv(qn, k ? 4 : 0, 2); g_states++;
            CASET("sizes " + std::to_string(qn) + " + " + std::to_string(bn) + " digits, kind " + std::to_string(k));
            zcheck(q * b + b - 1, b, 1, 1, false);
            if (qn < 20000) { zcheck(-(q * b + b / 3), b, 1, 1, false); zcheck(q * b, b, 2, 3, false); }
        }
    } else if (g_mode == "alias") {
        auto v = vals({ 0, 1, 2, 6, mid, top }, 2);
        std::vector<Z> s;
        for (auto &x : v) { s.push_back(x); if (x != 0) s.push_back(-x); }
        for (auto &a : s) {
            if (!mine()) continue;
            for (auto &b : s) {
                g_states++;
                for (int q = 0; q < 4; q++)
                    for (int r = 0; r < 4; r++) {
                        if (q >= 2 && q == r) continue;
                        CASET(cs(a, b) + " quotient to #" + std::to_string(q) + " remainder to #" + std::to_string(r)); sample();
                        zcheck(a, b, q, r, false);
                    }
                // modulo form
                CASET(cs(a, b) + " (mod)");
                M A, B, R; A.fit(a); B.fit(b); R.set(-7);
                int res = cry_mpi_mod(R, A, B);
                g_trans++; g_traces++;
                if (b == 0) { if (res == 0) fail("div", "mod zero accepted"); }
                else {
                    Z m; mpz_fdiv_r(m.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t());
                    Z g = R.get(); if (b < 0) { g = abs(g); m = abs(m); }
                    if (res || g != m || noncanon(R)) fail("div", "mod gave %s expected %s (res %d)", zs(g).c_str(), zs(m).c_str(), res);
                }
            }
            for (int q = 0; q < 3; q++)
                for (int r = 0; r < 3; r++) {
                    if (q == 2 && r == 2) continue;
                    CASET(cs(a, a) + " same object, quotient to #" + std::to_string(q) + " remainder to #" + std::to_string(r));
                    zcheck(a, a, q, r, true);
                }
        }
    }
    return done();
}

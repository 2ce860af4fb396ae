// C07: group law on all curves over small prime fields.
#include "ecref.hpp"
#include <array>
static std::vector<Pt> points(const Curve &c)
{
    std::vector<Pt> v = { INF };
    unsigned long p = c.p.get_ui(), a = Z(c.m(c.a)).get_ui(), b = Z(c.m(c.b)).get_ui();
    std::multimap<unsigned long, unsigned long> sq;
    for (unsigned long y = 0; y < p; y++) sq.insert({ y * y % p, y });
    for (unsigned long x = 0; x < p; x++) {
        auto r = sq.equal_range((x * x % p * x + a * x + b) % p);
        for (auto i = r.first; i != r.second; ++i) v.push_back(Pt{ false, Z(x), Z(i->second) });
    }
    return v;
}
static void adds(const Curve &c, cry_ecp_grp *g, const Pt &P, const Pt &Q, int stale, bool alias)
{
    Pt w = c.add(P, Q);
    std::string d = "p=" + zs(c.p) + " a=" + zs(c.a) + " b=" + zs(c.b) + " add " + ps(P) + "+" + ps(Q);
    for (int al = 0; al < (alias ? 3 : 1); al++) {
        EP p(P), q(Q), r;
        if (al == 0) { if (stale == 1) r.set(Pt{ false, Z(3), Z(4) }); if (stale == 2) { zset(&r.e.x, -5); zset(&r.e.z, 1); } }
        cry_ecp *pr = al == 0 ? r : al == 1 ? p : q;
        CASET(d + " aliasing " + std::to_string(al));
        sample();
        int res = cry_ecp_add(pr, p, q, g);
        ptcheck("add", res, pr, w, c.p);
        if (pr != &p.e && !(EP::get(p) == P)) fail("add", "first operand changed");
        if (pr != &q.e && !(EP::get(q) == Q)) fail("add", "second operand changed");
    }
    if (P == Q) {
        EP p(P), r; r.set(Pt{ false, Z(1), Z(2) });
        CASET(d + " same object");
        int res = cry_ecp_add(r, p, p, g);
        ptcheck("add", res, r, w, c.p);
        res = cry_ecp_add(p, p, p, g);
        ptcheck("add", res, p, w, c.p);
        EP p2(P); r.set(stale ? INF : Pt{ false, Z(1), Z(2) });
        CASET(d + " doubling");
        res = cry_ecp_dbl(r, p2, g);
        ptcheck("dbl", res, r, w, c.p);
        if (!(EP::get(p2) == P)) fail("dbl", "operand changed");
        res = cry_ecp_dbl(p2, p2, g);
        ptcheck("dbl", res, p2, w, c.p);
    }
}
static void muls(const Curve &c, cry_ecp_grp *g, const Pt &P, const Z &k, const Pt &w, int alias)
{
    EP p(P), r;
    if (alias == 0) r.set(Pt{ false, Z(3), Z(4) });
    M K; K.fit(k);
    CASET("p=" + zs(c.p) + " a=" + zs(c.a) + " b=" + zs(c.b) + " mul " + zs(k) + "*" + ps(P) + (alias ? " in place" : ""));
    sample();
    cry_ecp *pr = alias ? p : r;
    int res = cry_ecp_mul(pr, p, K, g);
    ptcheck("mul", res, pr, w, c.p);
    if (!alias && !(EP::get(p) == P)) fail("mul", "operand changed");
    if (K.get() != k) fail("mul", "scalar changed");
}
static bool singular(long p, long a, long b) { return (4 * a * a % p * a + 27 * b * b) % p == 0; }
int main(int argc, char **argv)
{
    init(argc, argv);
    bool T = g_thorough;
    if (g_mode == "add") {
        std::vector<long> P = { 5, 7, 11, 13 };
        if (T) { P.push_back(17); P.push_back(19); P.push_back(23); }
        for (long p : P)
            for (long a = 0; a < p; a++)
                for (long b = 0; b < p; b++) {
                    if (singular(p, a, b) || !mine()) continue;
                    Curve c{ Z(p), Z(a), Z(b) };
                    EG g(c, INF, 0, (a + b) & 1);
                    auto pts = points(c);
                    for (auto &x : pts) for (auto &y : pts) { g_states++; adds(c, g, x, y, (int)(g_states % 3), true); }
                }
        // larger fields, all pairs of one curve each (multi-digit with 8-bit digits)
        for (auto t : std::vector<std::array<long, 3>>{ { 257, 254, 3 }, { 263, 2, 0 }, { 509, 0, 7 }, { 67, 1, 1 } }) {
            Curve c{ Z(t[0]), Z(t[1]), Z(t[2]) };
            EG g(c);
            auto pts = points(c);
            for (auto &x : pts) {
                if (!mine()) continue;
                for (auto &y : pts) { g_states++; adds(c, g, x, y, 1, T); }
            }
        }
    } else if (g_mode == "mul") {
        std::vector<long> P = { 5, 7, 11, 13 };
        if (T) P.push_back(17);
        for (long p : P)
            for (long a = 0; a < p; a++)
                for (long b = 0; b < p; b++) {
                    if (singular(p, a, b) || !mine()) continue;
                    if (!T && p > 7 && (a * p + b) % 5) continue;
                    Curve c{ Z(p), Z(a), Z(b) };
                    EG g(c, INF, 0, (a + b) & 1);
                    auto pts = points(c);
                    for (auto &x : pts) {
                        Pt w = INF;
                        for (unsigned k = 0; k <= 2 * pts.size() + 20; k++, w = c.add(w, x)) { g_states++; muls(c, g, x, Z(k), w, k & 1); }
                    }
                }
        // every scalar up to 2^12 (2^16) for points of each order of some curves
        for (auto t : std::vector<std::array<long, 3>>{ { 17, 2, 2 }, { 257, 254, 3 }, { 509, 0, 7 } }) {
            Curve c{ Z(t[0]), Z(t[1]), Z(t[2]) };
            EG g(c);
            auto pts = points(c);
            for (size_t i = 0; i < pts.size(); i += 1 + pts.size() / (T ? 9 : 3)) {
                Pt x = pts[i], w = INF;
                unsigned K = T ? 70000 : 4200;
                for (unsigned k = 0; k < K; k++, w = c.add(w, x)) {
                    if (k % 64 == 0 && !mine()) { for (unsigned j = 0; j < 63 && k < K - 1; j++, k++) w = c.add(w, x); continue; }
                    g_states++; muls(c, g, x, Z(k), w, k & 1);
                }
            }
            // sparse and dense long scalars: all pairs of set bits, all runs
            Pt x = pts[pts.size() / 2];
            unsigned B = CRY_MPI_DIGIT_BITS * 3 > 40 ? 130 : 40;
            if (T) B += 64;
            for (unsigned i = 0; i < B; i++) {
                if (!mine()) continue;
                for (unsigned j = 0; j <= i; j++) {
                    Z k = (Z(1) << i) | (Z(1) << j), k2 = (Z(1) << (i + 1)) - (Z(1) << j);
                    g_states += 2;
                    muls(c, g, x, k, c.mul(k, x), 0);
                    muls(c, g, x, k2, c.mul(k2, x), 1);
                }
            }
            // scalars far longer than the group order
            for (unsigned bits : { 255u, 256u, 257u, 511u, 512u, 513u, 521u, 1023u, 1024u, 1025u, 1087u, 1088u, 1089u, 2048u, 2049u, 4097u, 8193u, 16385u, 32769u, 65535u, 65536u, 65537u }) for (int kd = 0; kd < 4; kd++) {
                if (!mine()) continue;
                if (bits > 5000 && !T && (CRY_MPI_DIGIT_BITS < 64 || t[0] != 17)) continue;
                Z k = kd == 0 ? Z((Z(1) << bits) - 1) : kd == 1 ? Z(Z(1) << (bits - 1)) : kd == 2 ? Z((Z(1) << (bits - 1)) + 5) : Z(bigv((bits + 63) / CRY_MPI_DIGIT_BITS, 2, bits));
                g_states++; muls(c, g, x, k, c.mul(k, x), kd & 1);
            }
        }
    }
    return done();
}

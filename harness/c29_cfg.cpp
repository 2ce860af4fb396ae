// C29: one fixed workload of public-key and big-integer operations, run on
// every build configuration.  Results that have a mathematical definition are
// compared with the reference; all results enter a digest that must be the
// same for every configuration.
#include "sigref.hpp"
#include "ecref.hpp"
extern "C" {
#include <cry/dsa.h>
#include <cry/ecdsa.h>
#include <cry/ecdh.h>
#include <cry/dh.h>
#include <cry/elgamal.h>
#include <cry/rsa.h>
}
static uint64_t g_digest, g_case;
static void dig(const void *p, size_t n)
{
    uint64_t h = 0xcbf29ce484222325ULL ^ (g_case * 0x9E3779B97F4A7C15ULL);
    for (size_t i = 0; i < n; i++) { h ^= ((const uint8_t *)p)[i]; h *= 0x100000001b3ULL; }
    g_digest += h ^ (h >> 29); g_case++;
}
static void digs(const std::string &s) { dig(s.data(), s.size()); }
static void digz(const cry_mpi *m) { digs(zs(zget(m))); }
static void begin_case() { g_case = g_idx << 20; }      // independent of the sharding
static bool work() { bool m = mine(); begin_case(); if (m) g_states++; return m; }
static void ck(const char *op, int res, const cry_mpi *m, const Z &w)
{
    g_trans++; g_traces++;
    if (res != 0) fail("result", "%s returned %d, expected %s", op, res, zs(w).substr(0, 200).c_str());
    if (noncanon(m)) fail("result", "%s: %s", op, noncanon(m));
    if (zget(m) != w) fail("result", "%s is %s, expected %s", op, zs(zget(m)).substr(0, 300).c_str(), zs(w).substr(0, 300).c_str());
    digz(m);
}
static void ckmag(const char *op, int res, cry_mpi *m, const Z &w, bool mag)
{
    if (mag && zget(m) == -w) { zset(m, w); }       // only the magnitude is specified
    ck(op, res, m, w);
}
static std::vector<Z> values()
{
    std::set<Z> s; s.insert(0);
    for (unsigned k : { 1, 2, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 47, 48, 63, 64, 65, 95, 96, 127, 128, 129, 191, 192, 255, 256, 257 })
        for (int d = -1; d <= 1; d++) s.insert((Z(1) << k) + d);
    for (unsigned n : { 3u, 8u, 9u, 16u, 17u, 24u, 33u }) {
        s.insert(zbytes(patv(n, n)));
        Bytes b(n, 0xff); b[n / 2] = 0; s.insert(zbytes(b));
        Bytes c(n, 0); c[0] = 0x80; c[n - 1] = 1; s.insert(zbytes(c));
    }
    return std::vector<Z>(s.begin(), s.end());
}
static void fdiv(const Z &a, const Z &b, Z &q, Z &r) { mpz_fdiv_qr(q.get_mpz_t(), r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); }
static void pairs()
{
    auto V = values();
    for (auto &x : V) for (auto &y : V) {
        if (!work()) continue;
        CASET("operands " + zs(x) + " and " + zs(y)); sample();
        for (int s = 0; s < 4; s++) {
            Z a = s & 1 ? Z(-x) : x, b = s & 2 ? Z(-y) : y;
            if ((s & 1 && x == 0) || (s & 2 && y == 0)) continue;
            M A(a), B(b), R(Z(-5)), Q(7);
            ck("sum", cry_mpi_add(R, A, B), R, a + b);
            ck("difference", cry_mpi_sub(R, A, B), R, a - b);
            ck("product", cry_mpi_mul(R, A, B), R, a * b);
            int c = cry_mpi_cmp(A, B), w = cmp(a, b); if (c != (w > 0) - (w < 0)) fail("result", "comparison is %d", c);
            if (b > 0) {
                Z q, r; fdiv(a, b, q, r);
                int res = cry_mpi_div(Q, R, A, B);
                ck("quotient", res, Q, q); ck("remainder", res, R, r);
                ck("modulo", cry_mpi_mod(R, A, B), R, r);
            }
            if (b < 0) {        // the quotient is floored; the remainder comes as a magnitude, see C02
                Z q, r; fdiv(a, b, q, r); r = abs(r);
                int res = cry_mpi_div(Q, R, A, B);
                ck("quotient", res, Q, q); ckmag("remainder", res, R, r, true);
            }
            if (b != 0) {       // outputs over the operands, outputs left out
                Z q, r; fdiv(a, b, q, r); r = abs(r);
                M C(a), D(b); ck("quotient over the dividend", cry_mpi_div(C, nullptr, C, D), C, q);
                C.set(a); ckmag("remainder over the divisor", cry_mpi_div(nullptr, D, C, D), D, r, b < 0);
                D.set(b); int res = cry_mpi_div(D, C, C, D); ck("quotient over the divisor", res, D, q); ckmag("remainder over the dividend", res, C, r, b < 0);
            }
            if (b == 0 && cry_mpi_div(Q, R, A, B) == 0) fail("result", "division by zero accepted");
            // in place
            M C(a); ck("sum in place", cry_mpi_add(C, C, B), C, a + b);
            C.set(a); ck("product in place", cry_mpi_mul(C, C, B), C, a * b);
            C.set(b); ck("product over the second operand", cry_mpi_mul(C, A, C), C, a * b);
            C.set(a); ck("difference in place", cry_mpi_sub(C, C, B), C, a - b);
            C.set(b); ck("difference over the second operand", cry_mpi_sub(C, A, C), C, a - b);
            Z g, l; mpz_gcd(g.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); mpz_lcm(l.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t());
            if (s) { ck("gcd", cry_mpi_gcd(R, A, B), R, g); ck("lcm", cry_mpi_lcm(R, A, B), R, l); }
            if (s == 1 && b > 1 && g == 1) ck("inverse", cry_mpi_inv(R, A, B), R, zinv(zmod(a, b), b));
        }
        M A(x), B(y), R(Z(-5)); Z g, l;
        mpz_gcd(g.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t()); mpz_lcm(l.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t());
        ck("gcd", cry_mpi_gcd(R, A, B), R, g);
        ck("lcm", cry_mpi_lcm(R, A, B), R, l);
        if (y > 1) {
            int res = cry_mpi_inv(R, A, B);
            if (g == 1) ck("inverse", res, R, zinv(x, y)); else if (res == 0) fail("result", "inverse of a non-unit");
        }
    }
}
static void unary()
{
    for (auto &x : values()) {
        if (!work()) continue;
        CASET("operand " + zs(x));
        M A(x), R(Z(-5));
        ck("square", cry_mpi_sqr(R, A), R, x * x);
        { M C(x); ck("square in place", cry_mpi_sqr(C, C), C, x * x); C.set(-x); ck("square of a negative", cry_mpi_sqr(C, C), C, x * x); }
        { M C(x); ck("square root in place", cry_mpi_sqrt(C, C), C, sqrt(x)); }
        ck("square root", cry_mpi_sqrt(R, A), R, sqrt(x));
        for (unsigned s = 0; s <= 130; s++) { ck("left shift", cry_mpi_shl(R, A, s), R, x << s); ck("right shift", cry_mpi_shr(R, A, s), R, x >> s);
            M C(-x); ck("left shift in place", cry_mpi_shl(C, C, s), C, -(x << s)); C.set(x); ck("right shift in place", cry_mpi_shr(C, C, s), C, x >> s); }
        if (cry_mpi_count_bits(A) != zbits(x)) fail("result", "bit count %zu", (size_t)cry_mpi_count_bits(A));
        for (unsigned e : { 0u, 1u, 2u, 3u, 7u }) { M E((long)e); Z w; mpz_pow_ui(w.get_mpz_t(), x.get_mpz_t(), e); ck("power", cry_mpi_exp(R, A, E), R, w); }
        for (unsigned rx : { 2u, 7u, 10u, 16u }) {
            std::string t = x.get_str(rx); for (auto &c : t) c = toupper(c);
            char b[600]; int res = cry_mpi_store_str(A, rx, b);
            if (res < 0) fail("result", "text of radix %u refused", rx);
            std::string g = b; for (auto &c : g) c = toupper(c);
            if (g != t) fail("result", "text of radix %u is %s", rx, b);
            digs(g); ck("number from text", cry_mpi_load_str(R, rx, t.c_str()), R, x);
        }
        size_t n = (zbits(x) + 7) / 8; Bytes o(n + 3, 0x5a);
        if (cry_mpi_store_bin(A, o.data(), n + 3, 1) < 0) fail("result", "bytes refused");
        if (zbytes(o) != x) fail("result", "bytes are %s", hex(o).c_str());
        dig(o.data(), o.size());
        ck("number from bytes", cry_mpi_load_bin(R, o.data(), o.size()), R, x);
    }
    for (auto &m : std::vector<Z>{ 1, 2, 255, 256, 257, 65535, 65537, (Z(1) << 61) - 1, (Z(1) << 64) - 59, (Z(1) << 89) - 1, (Z(1) << 128) + 51, Z(1) << 70 })
        for (auto &b : std::vector<Z>{ 0, 1, 2, 255, (Z(1) << 64) - 1, zbytes(patv(20, 3)), Z(-7) })
            for (auto &e : std::vector<Z>{ 0, 1, 2, 3, 255, 256, 65537, (Z(1) << 64) + 1, zbytes(patv(17, 9)) }) {
                if (!work()) continue;
                CASET("modular power " + zs(b) + "^" + zs(e) + " mod " + zs(m));
                M B(b), E(e), N(m), R(Z(-5));
                ck("modular power", cry_mpi_mod_exp(R, B, E, N), R, zmod(zpow(b, e, m), m));
            }
}
static Z big(size_t bytes, int k)
{
    Bytes b(bytes);
    for (size_t i = 0; i < bytes; i++) b[i] = k == 0 ? 0xff : k == 1 ? pat(i, bytes) : k == 2 ? (i == 0 || i == bytes - 1 ? 0x81 : 0) : (i / 8 % 2 ? 0xff : 0);
    b[0] |= 0x80;
    return zbytes(b);
}
static void large()
{
    // both sides of every threshold of the multipliers, for each digit width
    std::vector<size_t> S = { 1, 8, 63, 64, 65, 66, 127, 128, 130, 132, 254, 256, 258, 259, 260, 264, 300, 301, 302, 303, 400, 511, 512, 516, 520, 528, 600, 602, 604, 1024, 1032, 1040, 1200, 1204, 1208, 2392, 2400, 2408, 2416 };
    for (size_t na : S) for (size_t nb : S) {
        if (!work()) continue;
        if (!g_thorough && na > 600 && nb > 600 && na != nb && na != nb + 8 && nb != na + 8) continue;
        for (int k = 0; k < 4; k++) {
            Z a = big(na, k), b = big(nb, (k + (na > nb)) % 4);
            CASE("%lld bytes by %lld bytes, pattern %lld", na, nb, k); sample();
            M A(a), B(b), R(1), Q(1);
            ck("product", cry_mpi_mul(R, A, B), R, a * b);
            if (na == nb) ck("square", cry_mpi_sqr(R, A), R, a * a);
            if (k < 2 && na >= nb && na <= 600) {
                int res = cry_mpi_div(Q, R, A, B); Z q, r; fdiv(a, b, q, r);
                ck("quotient", res, Q, q); ck("remainder", res, R, r);
            }
        }
    }
}
static void curves()
{
    // all multiples of every point of a small curve
    for (auto [p, a, b] : std::vector<std::array<int, 3>>{ { 23, 1, 1 }, { 257, 254, 7 } }) {
        Curve c{ p, a, b }; std::vector<Pt> P{ INF };
        for (int x = 0; x < p; x++) for (int y = 0; y < p; y++) if (c.on(Pt{ false, x, y })) P.push_back(Pt{ false, x, y });
        for (size_t i = 0; i < P.size(); i += p > 100 ? 7 : 1) {
            if (!work()) continue;
            Pt w = INF; EG G(c);
            for (long k = 0; k <= (long)P.size() + 40; k++) {
                CASET("curve modulo " + std::to_string(p) + ", " + ps(P[i]) + " times " + std::to_string(k)); sample();
                EP A(P[i]), R; M K(k);
                ptcheck("point", cry_ecp_mul(R, A, K, G), R, w, c.p); digs(ps(w)); 
                if (p < 100) { EP B(P[k % P.size()]); ptcheck("point", cry_ecp_add(R, A, B, G), R, c.add(P[i], P[k % P.size()]), c.p); }
                w = c.add(w, P[i]);
            }
        }
    }
    for (int id = 0; id <= 10; id++) {
        cry_ecp_grp g; if (cry_ecp_grp_load(&g, id)) { fail("curve", "curve %d cannot be loaded", id); continue; }
        Curve c{ zget(&g.p), zget(&g.a), zget(&g.b) }; Pt G = EP::get(&g.g); Z n = zget(&g.n);
        digs(zs(c.p) + zs(c.a) + zs(c.b) + ps(G) + zs(n)); g_states++;
        std::vector<Z> K{ 0, 1, 2, 3, 5, 15, 16, 17, 31, 32, 33, 255, 256, 65537, (Z(1) << 64) - 1, (Z(1) << 64) + 1, n - 1, n, n + 1, zbytes(patv(20, 4)), zbytes(patv(24, 5)) };
        for (auto &k : K) {
            if (!work()) continue;
            if (!g_thorough && zbits(n) > 300 && zbits(k) > 200 && k != n - 1) continue;
            CASET("curve " + std::to_string(id) + ", generator times " + zs(k)); sample();
            EP R; M KK(k); Pt w = c.mul(k, G);
            ptcheck("point", cry_ecp_mul(R, &g.g, KK, &g), R, w, c.p); digs(ps(w));
        }
        cry_ecp_grp_clear(&g);
    }
}
static void primes()
{
    for (long lo = 0; lo < 4000; lo += 50) {
        if (!work()) continue;
        for (long v = lo; v < lo + 50; v++) {
            CASE("primality of %lld", v);
            gen_stream(v); M A(v); int res = cry_mpi_is_prime(A); g_trans++; g_traces++;
            if (res != (int)zprime(Z(v))) fail("prime", "primality of %ld is %d", v, res);
        }
    }
    for (auto &v : std::vector<Z>{ (Z(1) << 61) - 1, (Z(1) << 89) - 1, (Z(1) << 67) - 1, Z("3215031751"), Z("3825123056546413051"), (Z(1) << 127) - 1, ((Z(1) << 61) - 1) * 65537 }) {
        if (!work()) continue;
        CASET("primality of " + zs(v));
        gen_stream(3); M A(v); int res = cry_mpi_is_prime(A); g_trans++; g_traces++;
        if (res < 0 || (zprime(v) && !res)) fail("prime", "answer %d", res);
        digs(std::to_string(res));
    }
    for (unsigned bits : { 16u, 24u, 40u, 64u, 72u, 128u })
        for (unsigned salt = 0; salt < 4; salt++) {
            if (!work()) continue;
            CASE("generated prime of %lld bits, stream %lld", bits, salt);
            gen_stream(salt); M A(0); int res = cry_mpi_prime(A, bits, nullptr); g_trans++; g_traces++;
            if (res == 0 && (zbits(zget(A)) != bits || !zprime(zget(A)))) fail("prime", "generated %s", zs(zget(A)).c_str());
            digs(std::to_string(res) + (res == 0 ? zs(zget(A)) : ""));
            gen_stream(salt); M R(0); if (cry_mpi_rand(R, bits + salt) == 0) digz(R);
            M X(Z(1) << (bits - 1)); if (cry_mpi_rand_range(R, X) == 0) digz(R);
        }
}
struct OutBuf { unsigned char *p = nullptr; size_t n = 0; Bytes take() { Bytes b(p, p + n); free(p); p = nullptr; return b; } };
static void pk()
{
    for (unsigned bits : { 64u, 128u, 256u }) for (unsigned salt = 0; salt < 3; salt++) for (int pad = 0; pad < 2; pad++) {
        if (!work()) continue;
        CASE("RSA %lld bits, stream %lld, padding %lld", bits, salt, pad); sample();
        cry_rsa_ctx c; gen_stream(salt); g_trans++; g_traces++;
        if (cry_rsa_init(&c, pad ? CRY_RSA_PADDING_PKCS_V15 : CRY_RSA_PADDING_NONE)) fail("rsa", "init");
        int res = cry_rsa_keygen(&c, bits, 65537);
        digs(std::to_string(res));
        if (res == 0) {
            for (auto *m : { &c.n, &c.e, &c.d }) digz(m);
            Bytes msg = patv(bits / 8, 7); msg[0] = 0; OutBuf o;
            if (!pad || bits > 88) {
                if (cry_rsa_encrypt(&c, &o.p, &o.n, msg.data(), msg.size())) fail("rsa", "encryption refused");
                Bytes ct = o.take(); dig(ct.data(), ct.size());
                if (cry_rsa_decrypt(&c, &o.p, &o.n, ct.data(), ct.size())) fail("rsa", "decryption refused");
                Bytes pt = o.take(); if (pt != msg) fail("rsa", "decryption is %s", hex(pt).c_str());
                if (cry_rsa_sign(&c, &o.p, &o.n, msg.data(), pad ? 5 : msg.size())) fail("rsa", "signing refused");
                Bytes sg = o.take(); dig(sg.data(), sg.size());
                if (cry_rsa_verify(&c, sg.data(), sg.size(), msg.data(), pad ? 5 : msg.size())) fail("rsa", "own signature refused");
                msg[1] ^= 1; if (!cry_rsa_verify(&c, sg.data(), sg.size(), msg.data(), pad ? 5 : msg.size())) fail("rsa", "signature of another message accepted");
            }
        }
        cry_rsa_clear(&c);
    }
    Z q = znext(Z(0xc5) << 72), p, g;
    for (p = (Z(1) << 255) / (2 * q) * 2 * q + 1; !zprime(p); p += 2 * q) {}
    g = zpow(2, (p - 1) / q, p);
    for (unsigned salt = 0; salt < 12; salt++) {
        if (!work()) continue;
        CASE("DSA, stream %lld", salt); g_trans++; g_traces++;
        cry_dsa_ctx c; cry_dsa_sig s; gen_stream(salt);
        if (cry_dsa_init(&c) || cry_mpi_init(&s.r) || cry_mpi_init(&s.s)) fail("dsa", "init");
        Z x = zbytes(patv(9, salt)) + 1;
        zset(&c.p, p); zset(&c.q, q); zset(&c.g, g); zset(&c.pvt, x); zset(&c.pub, zpow(g, x, p));
        Bytes m = patv(salt * 3, salt);
        if (cry_dsa_sign(&c, &s, m.data(), m.size())) fail("dsa", "signing refused");
        digz(&s.r); digz(&s.s);
        if (cry_dsa_verify(&c, &s, m.data(), m.size())) fail("dsa", "own signature refused");
        zset(&s.s, zget(&s.s) ^ 1); if (!cry_dsa_verify(&c, &s, m.data(), m.size())) fail("dsa", "altered signature accepted");
        cry_mpi_clear(&s.r); cry_mpi_clear(&s.s); cry_dsa_clear(&c);
    }
    for (unsigned salt = 0; salt < 12; salt++) {
        if (!work()) continue;
        CASE("ElGamal, stream %lld", salt); g_trans++; g_traces++;
        cry_elgamal_ctx c; cry_elgamal_sig s; gen_stream(salt);
        if (cry_elgamal_init(&c) || cry_mpi_init(&s.r) || cry_mpi_init(&s.s)) fail("elgamal", "init");
        Z x = zbytes(patv(20, salt)) + 1, pp = znext(Z(1) << (200 + salt));
        zset(&c.p, pp); zset(&c.g, 3); zset(&c.d, x); zset(&c.y, zpow(3, x, pp));
        Bytes m = patv(salt * 2, salt);
        if (cry_elgamal_sign2(&c, &s, m.data(), m.size())) fail("elgamal", "signing refused");
        digz(&s.r); digz(&s.s);
        if (cry_elgamal_verify2(&c, &s, m.data(), m.size())) fail("elgamal", "own signature refused");
        zset(&s.s, zget(&s.s) ^ 1); if (!cry_elgamal_verify2(&c, &s, m.data(), m.size())) fail("elgamal", "altered signature accepted");
        cry_mpi_clear(&s.r); cry_mpi_clear(&s.s); cry_elgamal_clear(&c);
    }
    for (int id = 0; id <= 10; id++) for (unsigned salt = 0; salt < 2; salt++) {
        if (!work()) continue;
        if (!g_thorough && (id == 3 || id == 4 || id >= 9) && salt) continue;
        CASE("ECDSA, curve %lld, stream %lld", id, salt); g_trans++; g_traces++; sample();
        cry_ecdsa_ctx c; cry_ecdsa_sig s; gen_stream(salt);
        if (cry_ecdsa_init(&c, id) || cry_mpi_init(&s.r) || cry_mpi_init(&s.s)) fail("ecdsa", "init");
        if (cry_ecdsa_keygen(&c)) fail("ecdsa", "key generation refused");
        digz(&c.d); digz(&c.q.x); digz(&c.q.y);
        Bytes m = patv(20 + 40 * salt, salt);
        if (cry_ecdsa_sign(&c, &s, m.data(), m.size())) fail("ecdsa", "signing refused");
        digz(&s.r); digz(&s.s);
        if (cry_ecdsa_verify(&c, &s, m.data(), m.size())) fail("ecdsa", "own signature refused");
        zset(&s.s, zget(&s.s) ^ 1); if (!cry_ecdsa_verify(&c, &s, m.data(), m.size())) fail("ecdsa", "altered signature accepted");
        cry_mpi_clear(&s.r); cry_mpi_clear(&s.s); cry_ecdsa_clear(&c);
    }
    for (unsigned salt = 0; salt < 6; salt++) {
        if (!work()) continue;
        CASE("DH, stream %lld", salt); g_trans++; g_traces++;
        cry_dh_ctx c; if (cry_dh_init(&c)) fail("dh", "init");
        Z pp = znext(Z(1) << (60 + 33 * salt)), e = zbytes(patv(8 + salt, 1)), t = zbytes(patv(7, 2));
        zset(&c.p, pp); zset(&c.g, 5); zset(&c.e, e);
        size_t L = (zbits(pp) + 7) / 8; Bytes o(L), w(L);
        if (cry_dh_agree(&c) || cry_dh_get_tok(&c, o.data(), L)) fail("dh", "agreement refused");
        if (zbytes(o) != zpow(5, e, pp)) fail("dh", "token is %s", hex(o).c_str());
        Bytes tb = patv(7, 2);
        if (cry_dh_set_tok(&c, tb.data(), 7) || cry_dh_finalize(&c) || cry_dh_get_sec(&c, o.data(), L)) fail("dh", "refused");
        if (zbytes(o) != zpow(t, e, pp)) fail("dh", "secret is %s", hex(o).c_str());
        dig(o.data(), L);
        cry_dh_clear(&c);
    }
}
int main(int argc, char **argv)
{
    init(argc, argv);
    pairs(); unary(); large(); curves(); primes(); pk();
    g_extra["digest"] = g_digest;
    return done();
}

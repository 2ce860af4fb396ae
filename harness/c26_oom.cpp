// C26: every allocation of every operation fails once (and fails from there
// on).  malloc, realloc, calloc and free of the library are replaced at link
// time; the number of live blocks is compared before and after each scenario.
#include "sigref.hpp"
#include "ecref.hpp"
extern "C" {
#include <cry/dsa.h>
#include <cry/ecdsa.h>
#include <cry/ecdh.h>
#include <cry/dh.h>
#include <cry/elgamal.h>
#include <cry/rsa.h>
#include <cry/cbc.h>
#include <cry/aes.h>
}
static bool g_armed, g_hit, g_persist;
static long g_n, g_count, g_live;
static bool trip()
{
    if (!g_armed) return false;
    long i = g_count++;
    if (i == g_n || (g_persist && g_n >= 0 && i > g_n)) { g_hit = true; return true; }
    return false;
}
extern "C" {
void *__real_malloc(size_t); void *__real_realloc(void *, size_t); void *__real_calloc(size_t, size_t); void __real_free(void *);
void *__wrap_malloc(size_t n) { if (trip()) return nullptr; void *p = __real_malloc(n); if (p) g_live++; return p; }
void *__wrap_calloc(size_t a, size_t b) { if (trip()) return nullptr; void *p = __real_calloc(a, b); if (p) g_live++; return p; }
void *__wrap_realloc(void *q, size_t n) { if (trip()) return nullptr; void *p = __real_realloc(q, n); if (!q && p) g_live++; return p; }
void __wrap_free(void *p) { if (p) g_live--; __real_free(p); }
}
template <class F> static int armed(F f) { g_armed = true; int r = f(); g_armed = false; g_trans++; return r; }
typedef std::function<void()> Fn;
static std::string g_name;
static void one(const Fn &fn, long n, bool persist)
{
    g_n = n; g_persist = persist; g_count = 0; g_hit = false; g_armed = false;
    CASET(g_name + (n < 0 ? std::string(", no failure") : ", allocation " + std::to_string(n) + (persist ? " and all later ones fail" : " fails")));
    long before = g_live;
    fn();
    g_traces++;
    if (g_live != before) fail("leak", "%ld blocks allocated and not released", g_live - before);
}
static long g_maxn;
static void explore(const std::string &name, const Fn &fn)
{
    g_name = name;
    one(fn, -1, false);
    long N = g_count;
    g_maxn = std::max(g_maxn, N);
    sample();
    for (int persist = 0; persist < 2; persist++)
        for (long n = 0; n < N; n++) {
            if (!mine()) continue;
            one(fn, n, persist);
            g_states++;
            if (!g_hit) g_extra["not_reached"]++;
        }
}
static void rcheck(const char *what, const cry_mpi *m, const Z &v)
{
    if (noncanon(m)) fail("result", "%s: %s", what, noncanon(m));
    if (zget(m) != v) fail("result", "%s is %s, expected %s although success was reported", what, zs(zget(m)).c_str(), zs(v).c_str());
}
static void reusable(const cry_mpi *m) { if (m->used > m->alloc || (m->alloc && !m->data)) fail("object", "result object left unusable"); if (noncanon(m)) fail("object", "result object left %s", noncanon(m)); }
// ---- big integers ---------------------------------------------------------
typedef std::function<int(cry_mpi *, cry_mpi *, cry_mpi *)> Bin;
static void binop(const std::string &name, const Bin &f, const Z &a, const Z &b, const Z &want, bool unary = false, bool alias = true)
{
    for (int al = -1; al < (alias ? (unary ? 2 : 3) : 1); al++)
        explore(name + "(" + zs(a) + (unary ? "" : "," + zs(b)) + (al < 0 ? ") into a fresh number" : al == 0 ? ")" : al == 1 ? ") into first operand" : ") into second operand"), [&] {
            M A(a), B(b), R(Z(al < 0 ? 0 : -3));
            A.fit(a); B.fit(b);
            cry_mpi *r = al <= 0 ? &R.m : al == 1 ? &A.m : &B.m;
            int res = armed([&] { return f(r, A, B); });
            if (res == 0) rcheck("result", r, want);
            if (!g_hit && res != 0) fail("result", "refused without any failure");
            if (al != 1 && A.get() != a) fail("operand", "first operand changed");
            if (al != 2 && B.get() != b) fail("operand", "second operand changed");
            reusable(r);
            if (res != 0) { // again, with memory
                if (al == 1) A.set(a);
                if (al == 2) B.set(b);
                if (f(r, A, B) != 0) fail("reuse", "the repeated call failed");
                rcheck("repeated result", r, want);
            }
        });
}
static void initop(const std::string &name, const std::function<int(cry_mpi *)> &f, const Z &want)
{
    explore(name, [&] {
        cry_mpi m; memset(&m, 0xa5, sizeof m);
        int res = armed([&] { return f(&m); });
        if (res != 0 && !g_hit) fail("result", "refused without any failure");
        if (res != 0 && f(&m) != 0) fail("reuse", "the repeated call failed");
        rcheck("value", &m, want);
        cry_mpi_clear(&m);
    });
}
static Z Zx(const char *s) { return Z(s, 16); }
static Z isqrt(const Z &v) { return sqrt(v); }
static void mpi_part()
{
    const Z a = Zx("f123456789abcdef0123456789abcdef55"), b = Zx("fedcba98765432100f"), c = Zx("ffffffffffffffffffffffffffffffff");
    std::vector<std::pair<Z, Z>> pr = { { a, b }, { b, a }, { Z(-a), b }, { c, Z(-1) }, { c, Z(1) }, { Z(0), a } };
    for (auto &[x, y] : pr) {
        binop("add", [](cry_mpi *r, cry_mpi *p, cry_mpi *q) { return cry_mpi_add(r, p, q); }, x, y, x + y);
        binop("sub", [](cry_mpi *r, cry_mpi *p, cry_mpi *q) { return cry_mpi_sub(r, p, q); }, x, y, x - y);
        binop("mul", [](cry_mpi *r, cry_mpi *p, cry_mpi *q) { return cry_mpi_mul(r, p, q); }, x, y, x * y);
        Z l, g; mpz_gcd(g.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t()); mpz_lcm(l.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t());
        if (x > 0 && y > 0) {
            binop("gcd", [](cry_mpi *r, cry_mpi *p, cry_mpi *q) { return cry_mpi_gcd(r, p, q); }, x, y, g);
            binop("lcm", [](cry_mpi *r, cry_mpi *p, cry_mpi *q) { return cry_mpi_lcm(r, p, q); }, x, y, l);
            binop("add_abs", [](cry_mpi *r, cry_mpi *p, cry_mpi *q) { return cry_mpi_add_abs(r, p, q); }, x, y, x + y);
            binop("mul_abs", [](cry_mpi *r, cry_mpi *p, cry_mpi *q) { return cry_mpi_mul_abs(r, p, q); }, x, y, x * y);
            if (x >= y) binop("sub_abs", [](cry_mpi *r, cry_mpi *p, cry_mpi *q) { return cry_mpi_sub_abs(r, p, q); }, x, y, x - y);
        }
        Z q = x / y, m = x - q * y;   // truncated; only used where both are positive
        if (x >= 0 && y > 0) {
            binop("div", [](cry_mpi *r, cry_mpi *p, cry_mpi *d) { return cry_mpi_div(r, nullptr, p, d); }, x, y, q);
            binop("mod", [](cry_mpi *r, cry_mpi *p, cry_mpi *d) { return cry_mpi_mod(r, p, d); }, x, y, m);
            binop("div_abs", [](cry_mpi *r, cry_mpi *p, cry_mpi *d) { return cry_mpi_div_abs(r, nullptr, p, d); }, x, y, q);
            explore("div both(" + zs(x) + "," + zs(y) + ")", [&, x = x, y = y] {
                M A(x), B(y), Q(7), R(Z(-9));
                int res = armed([&] { return cry_mpi_div(Q, R, A, B); });
                if (A.get() != x || B.get() != y) fail("operand", "operand changed");
                reusable(Q); reusable(R);
                if (res != 0) { if (!g_hit) fail("result", "refused"); if (cry_mpi_div(Q, R, A, B) != 0) fail("reuse", "repeated division failed"); }
                rcheck("quotient", Q, q); rcheck("remainder", R, m);
            });
        }
        Z xa = abs(x);
        binop("sqr", [](cry_mpi *r, cry_mpi *p, cry_mpi *) { return cry_mpi_sqr(r, p); }, x, y, x * x, true);
        binop("abs", [](cry_mpi *r, cry_mpi *p, cry_mpi *) { return cry_mpi_abs(r, p); }, x, y, xa, true);
        binop("copy", [](cry_mpi *r, cry_mpi *p, cry_mpi *) { return cry_mpi_copy(r, p); }, x, y, x, true);
        if (x > 0) binop("sqrt", [](cry_mpi *r, cry_mpi *p, cry_mpi *) { return cry_mpi_sqrt(r, p); }, x, y, isqrt(x), true);
        for (size_t s : { 0u, 1u, 8u, 63u, 64u, 129u }) {
            binop("shl " + std::to_string(s), [s](cry_mpi *r, cry_mpi *p, cry_mpi *) { return cry_mpi_shl(r, p, s); }, x, y, x << s, true);
            if (x > 0) binop("shr " + std::to_string(s), [s](cry_mpi *r, cry_mpi *p, cry_mpi *) { return cry_mpi_shr(r, p, s); }, x, y, x >> s, true);
        }
        if (x > 0) binop("mul_dig", [](cry_mpi *r, cry_mpi *p, cry_mpi *) { return cry_mpi_mul_dig(r, p, (cry_mpi_digit)0xf7); }, x, y, x * 0xf7, true);
    }
    // algorithms called directly, short and long operands
    for (unsigned dg : { 3u, 12u, 70u }) {
        Z x = (Z(1) << (dg * CRY_MPI_DIGIT_BITS)) - 12345, y = (Z(1) << (dg * CRY_MPI_DIGIT_BITS - 3)) - 77;
        binop("mul_baseline", [](cry_mpi *r, cry_mpi *p, cry_mpi *q) { return cry_mpi_mul_baseline(r, p, q); }, x, y, x * y);
        binop("mul_comba", [](cry_mpi *r, cry_mpi *p, cry_mpi *q) { return cry_mpi_mul_comba(r, p, q); }, x, y, x * y);
        if (dg >= 12) {
            binop("mul_karatsuba", [](cry_mpi *r, cry_mpi *p, cry_mpi *q) { return cry_mpi_mul_karatsuba(r, p, q); }, x, y, x * y);
            binop("mul_toom3", [](cry_mpi *r, cry_mpi *p, cry_mpi *q) { return cry_mpi_mul_toom3(r, p, q); }, x, y, x * y);
            binop("sqr_karatsuba", [](cry_mpi *r, cry_mpi *p, cry_mpi *) { return cry_mpi_sqr_karatsuba(r, p); }, x, y, x * x, true);
            Z q = x * y / (y + 5), m = x * y - q * (y + 5);
            binop("div long", [](cry_mpi *r, cry_mpi *p, cry_mpi *d) { return cry_mpi_div(r, nullptr, p, d); }, x * y, y + 5, q);
            binop("mod long", [](cry_mpi *r, cry_mpi *p, cry_mpi *d) { return cry_mpi_mod(r, p, d); }, x * y, y + 5, m);
        }
        binop("sqr_baseline", [](cry_mpi *r, cry_mpi *p, cry_mpi *) { return cry_mpi_sqr_baseline(r, p); }, x, y, x * x, true);
        binop("sqr_comba", [](cry_mpi *r, cry_mpi *p, cry_mpi *) { return cry_mpi_sqr_comba(r, p); }, x, y, x * x, true);
        binop("mul", [](cry_mpi *r, cry_mpi *p, cry_mpi *q) { return cry_mpi_mul(r, p, q); }, x, y, x * y);
        binop("sqr", [](cry_mpi *r, cry_mpi *p, cry_mpi *) { return cry_mpi_sqr(r, p); }, x, y, x * x, true);
    }
    // number theory
    {
        Z m = (Z(1) << 89) - 1, e = Zx("1b7d"), v = Zx("123456789abcdef0123"), w;
        binop("inv", [](cry_mpi *r, cry_mpi *p, cry_mpi *q) { return cry_mpi_inv(r, p, q); }, v, m, zinv(v, m));
        binop("inv even modulus", [](cry_mpi *r, cry_mpi *p, cry_mpi *q) { return cry_mpi_inv(r, p, q); }, Z(0x1235), Z(1) << 40, zinv(Z(0x1235), Z(1) << 40));
        mpz_pow_ui(w.get_mpz_t(), v.get_mpz_t(), 11);
        binop("exp", [](cry_mpi *r, cry_mpi *p, cry_mpi *q) { return cry_mpi_exp(r, p, q); }, v, 11, w);
        for (const Z &mm : { m, Z(Z(1) << 70), Z(5) })
            explore("mod_exp modulus " + zs(mm), [&] {
                M B(v), E(e), N(mm), R(Z(-4));
                int res = armed([&] { return cry_mpi_mod_exp(R, B, E, N); });
                if (B.get() != v || E.get() != e || N.get() != mm) fail("operand", "operand changed");
                reusable(R);
                if (res != 0) { if (!g_hit) fail("result", "refused"); if (cry_mpi_mod_exp(R, B, E, N) != 0) fail("reuse", "repeated call failed"); }
                rcheck("power", R, zpow(v, e, mm));
            });
        // not invertible: never reported as success
        explore("inv of a non-unit", [&] {
            M A(Z(21) << 60), N(Z(35) << 60), R(Z(-4));
            int res = armed([&] { return cry_mpi_inv(R, A, N); });
            if (res == 0) fail("result", "an inverse of a non-unit was reported");
            if (A.get() != Z(21) << 60 || N.get() != Z(35) << 60) fail("operand", "operand changed");
        });
        for (long v : { 2L, 1009L, 1013L, 1021L * 1021, 1000003L, 561L, 1022117L /* 1009*1013 */, 104729L * 3 })
            explore("is_prime " + std::to_string(v), [&] {
                gen_stream(3);
                M A(Z(v) * 1);
                int res = armed([&] { return cry_mpi_is_prime(A); });
                if (A.get() != v) fail("operand", "operand changed");
                bool p = zprime(Z(v));
                if (res == 1 && !p) fail("result", "a composite was declared prime");
                if (res == 0 && p) fail("result", "a prime was declared composite");
                if (res < 0 && !g_hit) fail("result", "error without any failure");
            });
        for (unsigned bits : { 16u, 24u })
            explore("prime of " + std::to_string(bits) + " bits", [&] {
                gen_stream(5);
                M A(0);
                int res = armed([&] { return cry_mpi_prime(A, bits, nullptr); });
                if (res != 0 && !g_hit) fail("result", "error without any failure");
                reusable(A);
                if (res != 0) { gen_stream(5); if (cry_mpi_prime(A, bits, nullptr) != 0) fail("reuse", "repeated call failed"); }
                if (!zprime(A.get()) || zbits(A.get()) != bits) fail("result", "not a prime of the right size");
            });
        for (unsigned bits : { 1u, 7u, 64u, 100u })
            explore("rand of " + std::to_string(bits) + " bits", [&] {
                gen_stream(6);
                M A(0);
                int res = armed([&] { return cry_mpi_rand(A, bits); });
                if (res != 0) { if (!g_hit) fail("result", "refused"); gen_stream(6); if (cry_mpi_rand(A, bits) != 0) fail("reuse", "repeated call failed"); }
                if (zbits(A.get()) != bits || noncanon(A)) fail("result", "wrong size");
            });
        for (const Z &mx : { a, c, Z(3) })
            explore("rand_range below " + zs(mx), [&] {
                gen_const(255);
                M A(0), X(mx);
                int res = armed([&] { return cry_mpi_rand_range(A, X); });
                if (res != 0) { if (!g_hit) fail("result", "refused"); if (cry_mpi_rand_range(A, X) != 0) fail("reuse", "repeated call failed"); }
                if (A.get() >= mx || A.get() < 0 || noncanon(A)) fail("result", "outside the range");
                if (X.get() != mx) fail("operand", "bound changed");
            });
    }
    // initialisation and conversions
    initop("init", [](cry_mpi *m) { return cry_mpi_init(m); }, 0);
    initop("init_size 0", [](cry_mpi *m) { return cry_mpi_init_size(m, 0); }, 0);
    initop("init_size 9", [](cry_mpi *m) { return cry_mpi_init_size(m, 9); }, 0);
    initop("init_int", [](cry_mpi *m) { return cry_mpi_init_int(m, -0x123456789abcdefL); }, Z(-0x123456789abcdefL));
    {
        M S(a);
        initop("init_copy", [&](cry_mpi *m) { return cry_mpi_init_copy(m, S); }, a);
        M S0(Z(0));
        initop("init_copy of zero", [&](cry_mpi *m) { return cry_mpi_init_copy(m, S0); }, 0);
    }
    {
        Bytes bb = patv(70, 4);
        initop("init_bin", [&](cry_mpi *m) { return cry_mpi_init_bin(m, bb.data(), bb.size()); }, zbytes(bb));
        std::string s = "-" + a.get_str(10), h = c.get_str(16), t = b.get_str(2);
        initop("init_str 10", [&](cry_mpi *m) { return cry_mpi_init_str(m, 10, s.c_str()); }, -a);
        initop("init_str 16", [&](cry_mpi *m) { return cry_mpi_init_str(m, 16, h.c_str()); }, c);
        initop("init_str 2", [&](cry_mpi *m) { return cry_mpi_init_str(m, 2, t.c_str()); }, b);
        auto setop = [&](const std::string &nm, const std::function<int(cry_mpi *)> &f, const Z &want) {
            explore(nm, [&] {
                M A(b);
                int res = armed([&] { return f(A); });
                reusable(A);
                if (res != 0) { if (!g_hit) fail("result", "refused"); if (f(A) != 0) fail("reuse", "repeated call failed"); }
                rcheck("value", A, want);
            });
        };
        setop("set_int", [](cry_mpi *m) { return cry_mpi_set_int(m, 0x7edcba9876543210L); }, Z(0x7edcba9876543210L));
        setop("load_bin", [&](cry_mpi *m) { return cry_mpi_load_bin(m, bb.data(), bb.size()); }, zbytes(bb));
        setop("load_str 10", [&](cry_mpi *m) { return cry_mpi_load_str(m, 10, s.c_str()); }, -a);
        setop("load_str 16", [&](cry_mpi *m) { return cry_mpi_load_str(m, 16, h.c_str()); }, c);
        setop("load_str 2", [&](cry_mpi *m) { return cry_mpi_load_str(m, 2, t.c_str()); }, b);
        for (unsigned radix : { 2u, 7u, 10u, 16u })
            explore("store_str radix " + std::to_string(radix), [&] {
                M A(Z(-a));
                Buf o(400);
                int res = armed([&] { return cry_mpi_store_str(A, radix, (char *)o.p); });
                if (A.get() != -a) fail("operand", "operand changed");
                if (res != 0) { if (!g_hit) fail("result", "refused"); if (cry_mpi_store_str(A, radix, (char *)o.p) != 0) fail("reuse", "repeated call failed"); }
                Z v; if (v.set_str((char *)o.p, radix) || v != -a) fail("result", "text is wrong");
            });
    }
    for (int k = 1; k <= 4; k++)
        explore("init_list of " + std::to_string(k), [&] {
            cry_mpi m[4]; memset(m, 0xa5, sizeof m);
            auto f = [&] { return k == 1 ? cry_mpi_init_list(&m[0], (cry_mpi *)NULL) : k == 2 ? cry_mpi_init_list(&m[0], &m[1], (cry_mpi *)NULL) : k == 3 ? cry_mpi_init_list(&m[0], &m[1], &m[2], (cry_mpi *)NULL) : cry_mpi_init_list(&m[0], &m[1], &m[2], &m[3], (cry_mpi *)NULL); };
            int res = armed(f);
            if (res != 0 && !g_hit) fail("result", "refused");
            if (res != 0 && f() != 0) fail("reuse", "repeated call failed");
            for (int i = 0; i < k; i++) { rcheck("value", &m[i], 0); cry_mpi_clear(&m[i]); }
        });
    explore("print", [&] {
        M A(a);
        fflush(stdout); fflush(stderr);
        int so = dup(1), se = dup(2);
        char tmpl[] = "/tmp/c26printXXXXXX"; int fd = mkstemp(tmpl); unlink(tmpl);
        dup2(fd, 1); FILE *dn = fopen("/dev/null", "w"); dup2(fileno(dn), 2);
        armed([&] { cry_mpi_print(A, 16); return 0; });
        fflush(stdout); fflush(stderr);
        dup2(so, 1); dup2(se, 2); close(so); close(se); fclose(dn);
        char b[200] = { 0 }; ssize_t n = pread(fd, b, 199, 0); close(fd);
        if (!g_hit && std::string(b) != a.get_str(16) + "\n") fail("result", "printed %s", b);
        if (n > 0 && std::string(b) != a.get_str(16) + "\n") fail("result", "printed %s", b);
        if (A.get() != a) fail("operand", "operand changed");
    });
}
// ---- points ---------------------------------------------------------------
struct EcT { Curve c; Pt G; Z n; };
static EcT tiny()
{   // first curve of prime order over F_263 with a point
    for (long p = 263; ; p += 2) {
        if (!zprime(Z(p))) continue;
        for (long bb = 1; bb < p; bb++) {
            Curve c{ Z(p), Z(p - 3), Z(bb) };
            if (c.m(4 * c.a * c.a * c.a + 27 * c.b * c.b) == 0) continue;
            long cnt = 1; Pt G = INF;
            std::map<long, std::vector<long>> rt;
            for (long y = 0; y < p; y++) rt[y * y % p].push_back(y);
            for (long x = 0; x < p; x++) {
                auto it = rt.find(Z(c.m(Z(x) * x * x + c.a * x + c.b)).get_si());
                if (it == rt.end()) continue;
                cnt += it->second.size();
                if (G.inf) G = Pt{ false, x, it->second.back() };
            }
            if (zprime(Z(cnt))) return EcT{ c, G, cnt };
        }
    }
}
static void ecp_part()
{
    EcT T = tiny();
    const Curve &C = T.c;
    Pt P = T.G, Q = C.mul(5, P), N = C.neg(P);
    auto initp = [&](const std::string &nm, const std::function<int(cry_ecp *)> &f, const Pt &want) {
        explore(nm, [&] {
            cry_ecp e; memset(&e, 0xa5, sizeof e);
            int res = armed([&] { return f(&e); });
            if (res != 0 && !g_hit) fail("result", "refused");
            if (res != 0 && f(&e) != 0) fail("reuse", "repeated call failed");
            if (EP::bad(&e, C.p)) fail("result", "%s", EP::bad(&e, C.p));
            if (!(EP::get(&e) == want)) fail("result", "wrong point");
            cry_ecp_clear(&e);
        });
    };
    initp("ecp_init", [](cry_ecp *e) { return cry_ecp_init(e); }, INF);
    initp("ecp_init_int", [&](cry_ecp *e) { return cry_ecp_init_int(e, P.x.get_si(), P.y.get_si()); }, P);
    explore("ecp_init_list", [&] {
        cry_ecp e[3]; memset(e, 0xa5, sizeof e);
        auto f = [&] { return cry_ecp_init_list(&e[0], &e[1], &e[2], (cry_ecp *)NULL); };
        int res = armed(f);
        if (res != 0 && !g_hit) fail("result", "refused");
        if (res != 0 && f() != 0) fail("reuse", "repeated call failed");
        for (auto &x : e) { if (!EP::get(&x).inf || EP::bad(&x, C.p)) fail("result", "not the neutral point"); cry_ecp_clear(&x); }
    });
    explore("ecp_grp_init", [&] {
        cry_ecp_grp g; memset(&g, 0xa5, sizeof g);
        int res = armed([&] { return cry_ecp_grp_init(&g); });
        if (res != 0 && !g_hit) fail("result", "refused");
        if (res != 0 && cry_ecp_grp_init(&g) != 0) fail("reuse", "repeated call failed");
        cry_ecp_grp_clear(&g);
    });
    explore("ecp_grp_load", [&] {
        cry_ecp_grp g; memset(&g, 0xa5, sizeof g);
        int res = armed([&] { return cry_ecp_grp_load(&g, CRY_ECP_GRP_SECP256R1); });
        if (res != 0 && !g_hit) fail("result", "refused");
        if (res != 0 && cry_ecp_grp_load(&g, CRY_ECP_GRP_SECP256R1) != 0) fail("reuse", "repeated call failed");
        if (zbits(zget(&g.p)) != 256) fail("result", "wrong modulus");
        cry_ecp_grp_clear(&g);
    });
    struct Two { const char *n; Pt a, b; } two[] = { { "P+Q", P, Q }, { "P+P", P, P }, { "P-P", P, N }, { "O+Q", INF, Q }, { "P+O", P, INF }, { "O+O", INF, INF } };
    // al: 0 separate, 1 into the first, 2 into the second
    auto pop = [&](const std::string &nm, const std::function<int(cry_ecp *, cry_ecp *, cry_ecp *, cry_ecp_grp *)> &f, const Pt &a, const Pt &b, const Pt &want, int nal) {
        for (int al = 0; al < nal; al++)
            for (int fitted = 0; fitted < 3; fitted++)
                explore(nm + (al == 0 ? "" : al == 1 ? " into first" : " into second") + (fitted == 1 ? ", empty result object" : fitted == 2 ? ", tight result object" : ""), [&] {
                    EG G(C, P, T.n);
                    EP A(a), B(b), R(C.mul(9, P));
                    if (fitted == 2) for (cry_mpi *m : { &R.e.x, &R.e.y, &R.e.z, &A.e.x, &A.e.y, &A.e.z, &B.e.x, &B.e.y, &B.e.z }) { Z v = zget(m); cry_mpi_clear(m); zset(m, v); }
                    if (fitted == 1) for (cry_mpi *m : { &R.e.x, &R.e.y, &R.e.z }) { cry_mpi_clear(m); cry_mpi_init_size(m, 0); }
                    cry_ecp *r = al == 0 ? &R.e : al == 1 ? &A.e : &B.e;
                    int res = armed([&] { return f(r, A, B, G); });
                    if (al != 1 && !(EP::get(A) == a)) fail("operand", "first operand changed");
                    if (al != 2 && !(EP::get(B) == b)) fail("operand", "second operand changed");
                    if (zget(&G.g.p) != C.p || zget(&G.g.n) != T.n || zget(&G.g.a) != C.a) fail("operand", "group changed");
                    if (res != 0) {
                        if (!g_hit) fail("result", "refused");
                        reusable(&r->x); reusable(&r->y); reusable(&r->z);
                        if (al == 1) A.set(a);
                        if (al == 2) B.set(b);
                        if (f(r, A, B, G) != 0) fail("reuse", "repeated call failed");
                    }
                    if (EP::bad(r, C.p)) fail("result", "%s", EP::bad(r, C.p));
                    if (!(EP::get(r) == want)) fail("result", "got %s expected %s", ps(EP::get(r)).c_str(), ps(want).c_str());
                });
    };
    for (auto &t : two) pop(std::string("ecp_add ") + t.n, [](cry_ecp *r, cry_ecp *a, cry_ecp *b, cry_ecp_grp *g) { return cry_ecp_add(r, a, b, g); }, t.a, t.b, C.add(t.a, t.b), 3);
    for (const Pt &p : { P, INF }) {
        pop("ecp_dbl " + ps(p), [](cry_ecp *r, cry_ecp *a, cry_ecp *, cry_ecp_grp *g) { return cry_ecp_dbl(r, a, g); }, p, Q, C.add(p, p), 2);
        pop("ecp_copy " + ps(p), [](cry_ecp *r, cry_ecp *a, cry_ecp *, cry_ecp_grp *) { return cry_ecp_copy(r, a); }, p, Q, p, 1);
        for (const Z &k : { Z(0), Z(1), Z(6), Z(8), Z(0x9d), T.n, Z(T.n - 1) })
            pop("ecp_mul " + zs(k) + ps(p), [&](cry_ecp *r, cry_ecp *a, cry_ecp *, cry_ecp_grp *g) {
                bool was = g_armed; g_armed = false;
                M K(k); g_armed = was;
                int res = cry_ecp_mul(r, a, K, g);
                g_armed = false;
                if (K.get() != k) fail("operand", "scalar changed");
                return res; }, p, Q, C.mul(k, p), 2);
    }
    { // doubling of a point of order two: y^2 = x^3 - x over F_263, (1,0)
        Curve c2{ 263, 262, 0 };
        Pt t{ false, 1, 0 };
        explore("ecp_dbl of a point of order two", [&] {
            EG G(c2); EP A(t), R(Pt{ false, 0, 0 });
            for (cry_mpi *m : { &R.e.x, &R.e.y, &R.e.z }) { cry_mpi_clear(m); cry_mpi_init_size(m, 0); }
            int res = armed([&] { return cry_ecp_dbl(R, A, G); });
            if (res != 0 && !g_hit) fail("result", "refused");
            if (res != 0 && cry_ecp_dbl(R, A, G) != 0) fail("reuse", "repeated call failed");
            if (EP::bad(R, c2.p) || !EP::get(R).inf) fail("result", "not the neutral point");
        });
    }
    // ECDSA
    gen_stream(1);
    {
        struct K { cry_ecdsa_ctx c; };
        Z d = 7; Pt y = C.mul(d, P);
        auto load = [&](cry_ecdsa_ctx *c) {
            if (cry_ecdsa_init(c, -1)) abort();
            zset(&c->grp.p, C.p); zset(&c->grp.a, C.a); zset(&c->grp.b, C.b); zset(&c->grp.n, T.n);
            zset(&c->grp.g.x, P.x); zset(&c->grp.g.y, P.y); zset(&c->grp.g.z, 1);
            zset(&c->d, d); zset(&c->q.x, y.x); zset(&c->q.y, y.y); zset(&c->q.z, 1);
        };
        auto same = [&](cry_ecdsa_ctx *c) { if (zget(&c->d) != d || !(EP::get(&c->q) == y) || zget(&c->grp.n) != T.n || zget(&c->grp.p) != C.p) fail("operand", "the key changed"); };
        Bytes msg = patv(3, 2);
        auto valid = [&](const Z &r, const Z &s) {
            if (r <= 0 || r >= T.n || s <= 0 || s >= T.n) return false;
            Z w = zinv(s, T.n);
            Pt X = C.mul(zmod(ztrunc(msg, T.n) * w + r * w * d, T.n), P);
            return !X.inf && zmod(X.x, T.n) == r;
        };
        for (int id : { -1, (int)CRY_ECP_GRP_SECP192R1 })
            explore("ecdsa_init " + std::to_string(id), [&] {
                cry_ecdsa_ctx c; memset(&c, 0xa5, sizeof c);
                int res = armed([&] { return cry_ecdsa_init(&c, id); });
                if (res != 0 && !g_hit) fail("result", "refused");
                if (res != 0 && cry_ecdsa_init(&c, id) != 0) fail("reuse", "repeated call failed");
                if (!EP::get(&c.q).inf) fail("result", "public key not the neutral point");
                cry_ecdsa_clear(&c);
            });
        Z gr, gs;
        explore("ecdsa_sign", [&] {
            cry_ecdsa_ctx c; load(&c);
            M R(0), S(0); cry_ecdsa_sig sg = { R.m, S.m };
            gen_count(11);
            int res = armed([&] { return cry_ecdsa_sign(&c, &sg, msg.data(), msg.size()); });
            same(&c);
            if (res != 0) { if (!g_hit) fail("result", "refused"); gen_count(11); if (cry_ecdsa_sign(&c, &sg, msg.data(), msg.size()) != 0) fail("reuse", "repeated call failed"); }
            R.m = sg.r; S.m = sg.s;
            if (!valid(R.get(), S.get())) fail("result", "signature is not valid");
            gr = R.get(); gs = S.get();
            cry_ecdsa_clear(&c);
        });
        if (gr == 0) { g_n = -1; cry_ecdsa_ctx c; load(&c); M R(0), S(0); cry_ecdsa_sig sg = { R.m, S.m }; gen_count(11); cry_ecdsa_sign(&c, &sg, msg.data(), msg.size()); R.m = sg.r; S.m = sg.s; gr = R.get(); gs = S.get(); cry_ecdsa_clear(&c); }
        for (int bad = 0; bad < 4; bad++)
            explore("ecdsa_verify" + std::string(bad ? " of a wrong signature " + std::to_string(bad) : ""), [&] {
                cry_ecdsa_ctx c; load(&c);
                Z r = gr, s = gs;
                if (bad == 1) r = gr == 1 ? Z(2) : Z(gr - 1);
                if (bad == 2) s = gs == 1 ? Z(2) : Z(gs - 1);
                if (bad == 3) r = 0;
                M R(r), S(s); cry_ecdsa_sig sg = { R.m, S.m };
                int res = armed([&] { return cry_ecdsa_verify(&c, &sg, msg.data(), msg.size()); });
                same(&c);
                R.m = sg.r; S.m = sg.s;
                if (R.get() != r || S.get() != s) fail("operand", "the signature changed");
                bool v = valid(r, s);
                if (res == 0 && !v) fail("accept", "a wrong signature was accepted");
                if (res != 0 && v) { if (!g_hit) fail("result", "refused"); if (cry_ecdsa_verify(&c, &sg, msg.data(), msg.size()) != 0) fail("reuse", "repeated call failed"); }
                cry_ecdsa_clear(&c);
            });
        explore("ecdsa_keygen", [&] {
            cry_ecdsa_ctx c; load(&c);
            gen_count(40);
            int res = armed([&] { return cry_ecdsa_keygen(&c); });
            if (res != 0) { if (!g_hit) fail("result", "refused"); gen_count(40); if (cry_ecdsa_keygen(&c) != 0) fail("reuse", "repeated call failed"); }
            Z x = zget(&c.d);
            if (x <= 0 || x >= T.n || !(EP::get(&c.q) == C.mul(x, P))) fail("result", "key pair does not match");
            cry_ecdsa_clear(&c);
        });
        // ECDH
        auto eload = [&](cry_ecdh_ctx *c) {
            if (cry_ecdh_init(c)) abort();
            zset(&c->ec.p, C.p); zset(&c->ec.a, C.a); zset(&c->ec.b, C.b); zset(&c->ec.n, T.n);
            zset(&c->ec.g.x, P.x); zset(&c->ec.g.y, P.y); zset(&c->ec.g.z, 1);
            zset(&c->d, d);
        };
        explore("ecdh_init", [&] {
            cry_ecdh_ctx c; memset(&c, 0xa5, sizeof c);
            int res = armed([&] { return cry_ecdh_init(&c); });
            if (res != 0 && !g_hit) fail("result", "refused");
            if (res != 0 && cry_ecdh_init(&c) != 0) fail("reuse", "repeated call failed");
            for (cry_mpi *m : { &c.d, &c.ec.p, &c.ec.a, &c.ec.b, &c.ec.n }) rcheck("member", m, 0);
            for (cry_ecp *e : { &c.q, &c.z, &c.ec.g }) if (EP::bad(e, 263) || !EP::get(e).inf) fail("result", "point member not usable after reported success");
            cry_ecdh_clear(&c);
        });
        explore("ecdh_agree", [&] {
            cry_ecdh_ctx c; eload(&c);
            int res = armed([&] { return cry_ecdh_agree(&c); });
            if (zget(&c.d) != d || zget(&c.ec.n) != T.n) fail("operand", "key or group changed");
            if (res != 0) { if (!g_hit) fail("result", "refused"); if (cry_ecdh_agree(&c) != 0) fail("reuse", "repeated call failed"); }
            if (!(EP::get(&c.q) == y)) fail("result", "public value is wrong");
            cry_ecdh_clear(&c);
        });
        explore("ecdh_final", [&] {
            cry_ecdh_ctx c; eload(&c);
            zset(&c.q.x, Q.x); zset(&c.q.y, Q.y); zset(&c.q.z, 1);
            int res = armed([&] { return cry_ecdh_final(&c); });
            if (zget(&c.d) != d || !(EP::get(&c.q) == Q)) fail("operand", "key or peer value changed");
            if (res != 0) { if (!g_hit) fail("result", "refused"); if (cry_ecdh_final(&c) != 0) fail("reuse", "repeated call failed"); }
            if (!(EP::get(&c.z) == C.mul(d, Q))) fail("result", "secret is wrong");
            cry_ecdh_clear(&c);
        });
    }
}
// ---- finite field public key ----------------------------------------------
template <class C> static void pk_init(const std::string &nm, const std::function<int(C *)> &init, const std::function<void(C *)> &clear)
{
    explore(nm, [&] {
        C c; memset(&c, 0xa5, sizeof c);
        int res = armed([&] { return init(&c); });
        if (res != 0 && !g_hit) fail("result", "refused");
        if (res != 0 && init(&c) != 0) fail("reuse", "repeated call failed");
        clear(&c);
    });
}
static void pk_part()
{
    // DSA with q = 251, p = 251*k+1
    {
        Z q = 251, p = 251;
        for (Z k = Z(1) << 20; !zprime(p = q * k + 1); k += 2) {}
        Z g = zpow(2, (p - 1) / q, p), x = 77, y = zpow(g, x, p);
        auto load = [&](cry_dsa_ctx *c) { if (cry_dsa_init(c)) abort(); zset(&c->p, p); zset(&c->q, q); zset(&c->g, g); zset(&c->pvt, x); zset(&c->pub, y); };
        auto same = [&](cry_dsa_ctx *c) { if (zget(&c->p) != p || zget(&c->q) != q || zget(&c->g) != g || zget(&c->pvt) != x || zget(&c->pub) != y) fail("operand", "the key changed"); };
        Bytes msg = patv(5, 9);
        auto valid = [&](const Z &r, const Z &s) {
            if (r <= 0 || r >= q || s <= 0 || s >= q) return false;
            Z w = zinv(s, q), z = ztrunc(msg, q);
            return zmod(zmod(zpow(g, zmod(z * w, q), p) * zpow(y, zmod(r * w, q), p), p), q) == r;
        };
        pk_init<cry_dsa_ctx>("dsa_init", [](cry_dsa_ctx *c) { return cry_dsa_init(c); }, [](cry_dsa_ctx *c) { cry_dsa_clear(c); });
        explore("dsa_sign", [&] {
            cry_dsa_ctx c; load(&c);
            M R(0), S(0); cry_dsa_sig sg = { R.m, S.m };
            gen_count(11);
            int res = armed([&] { return cry_dsa_sign(&c, &sg, msg.data(), msg.size()); });
            same(&c);
            if (res != 0) { if (!g_hit) fail("result", "refused"); gen_count(11); if (cry_dsa_sign(&c, &sg, msg.data(), msg.size()) != 0) fail("reuse", "repeated call failed"); }
            R.m = sg.r; S.m = sg.s;
            if (!valid(R.get(), S.get())) fail("result", "signature is not valid");
            cry_dsa_clear(&c);
        });
        Z gr, gs;
        for (Z k = 3; !valid(gr, gs); k++) { gr = zmod(zpow(g, k, p), q); gs = zmod(zinv(k, q) * (ztrunc(msg, q) + x * gr), q); }
        for (int bad = 0; bad < 4; bad++)
            explore("dsa_verify" + std::string(bad ? " of a wrong signature " + std::to_string(bad) : ""), [&] {
                cry_dsa_ctx c; load(&c);
                Z r = gr, s = gs;
                if (bad == 1) r = gr == 1 ? Z(2) : Z(gr - 1);
                if (bad == 2) s = gs == 1 ? Z(2) : Z(gs - 1);
                if (bad == 3) r = 0;
                M R(r), S(s); cry_dsa_sig sg = { R.m, S.m };
                int res = armed([&] { return cry_dsa_verify(&c, &sg, msg.data(), msg.size()); });
                same(&c);
                R.m = sg.r; S.m = sg.s;
                if (R.get() != r || S.get() != s) fail("operand", "the signature changed");
                bool v = valid(r, s);
                if (res == 0 && !v) fail("accept", "a wrong signature was accepted");
                if (res != 0 && v) { if (!g_hit) fail("result", "refused"); if (cry_dsa_verify(&c, &sg, msg.data(), msg.size()) != 0) fail("reuse", "repeated call failed"); }
                cry_dsa_clear(&c);
            });
    }
    // ElGamal, p = 2q+1
    {
        Z p = 2000003; while (!zprime(p) || !zprime((p - 1) / 2)) p += 2;
        Z g = 2; while (zpow(g, 2, p) == 1 || zpow(g, (p - 1) / 2, p) == 1) g++;
        Z x = 12345, y = zpow(g, x, p);
        size_t sz = (zbits(p) + 7) / 8;
        auto load = [&](cry_elgamal_ctx *c) { if (cry_elgamal_init(c)) abort(); zset(&c->p, p); zset(&c->g, g); zset(&c->d, x); zset(&c->y, y); };
        auto same = [&](cry_elgamal_ctx *c) { if (zget(&c->p) != p || zget(&c->g) != g || zget(&c->d) != x || zget(&c->y) != y) fail("operand", "the key changed"); };
        Bytes msg = patv(3, 9);
        auto valid = [&](const Z &r, const Z &s) { return r > 0 && r < p && s > 0 && s < p - 1 && zmod(zpow(y, r, p) * zpow(r, s, p), p) == zpow(g, zbytes(msg), p); };
        pk_init<cry_elgamal_ctx>("elgamal_init", [](cry_elgamal_ctx *c) { return cry_elgamal_init(c); }, [](cry_elgamal_ctx *c) { cry_elgamal_clear(c); });
        explore("elgamal_sign2", [&] {
            cry_elgamal_ctx c; load(&c);
            M R(0), S(0); cry_elgamal_sig sg = { R.m, S.m };
            gen_count(11);
            int res = armed([&] { return cry_elgamal_sign2(&c, &sg, msg.data(), msg.size()); });
            same(&c);
            if (res != 0) { if (!g_hit) fail("result", "refused"); gen_count(11); if (cry_elgamal_sign2(&c, &sg, msg.data(), msg.size()) != 0) fail("reuse", "repeated call failed"); }
            R.m = sg.r; S.m = sg.s;
            if (!valid(R.get(), S.get())) fail("result", "signature is not valid");
            cry_elgamal_clear(&c);
        });
        explore("elgamal_sign", [&] {
            cry_elgamal_ctx c; load(&c);
            Buf o(2 * sz);
            gen_count(11);
            int res = armed([&] { return cry_elgamal_sign(&c, o.p, msg.data(), msg.size()); });
            same(&c);
            if (res != 0) { if (!g_hit) fail("result", "refused"); gen_count(11); if (cry_elgamal_sign(&c, o.p, msg.data(), msg.size()) != 0) fail("reuse", "repeated call failed"); }
            if (!valid(zbytes(Bytes(o.p, o.p + sz)), zbytes(Bytes(o.p + sz, o.p + 2 * sz)))) fail("result", "signature is not valid");
            cry_elgamal_clear(&c);
        });
        Z gr, gs;
        for (Z k = 5; !valid(gr, gs); k += 2) { gr = zpow(g, k, p); gs = zmod((zbytes(msg) - x * gr) * zinv(k, p - 1), p - 1); }
        for (int form = 0; form < 2; form++)
            for (int bad = 0; bad < 5; bad++)
                explore(std::string(form ? "elgamal_verify" : "elgamal_verify2") + (bad ? " of a wrong signature " + std::to_string(bad) : ""), [&] {
                    cry_elgamal_ctx c; load(&c);
                    Z r = gr, s = gs;
                    if (bad == 1) r = gr == 1 ? Z(2) : Z(gr - 1);
                    if (bad == 2) s = gs == 1 ? Z(2) : Z(gs - 1);
                    if (bad == 3) r = 0;
                    if (bad == 4) s = gs + (p - 1);
                    if (form && zbits(s) > sz * 8) s = 0;
                    M R(r), S(s); cry_elgamal_sig sg = { R.m, S.m };
                    Bytes sb;
                    for (const Z &v : { r, s }) for (size_t i = sz; i-- > 0;) sb.push_back(Z(Z(v >> (8 * i)) & 255).get_ui());
                    Buf b(sb);
                    auto f = [&] { return form ? cry_elgamal_verify(&c, b.p, msg.data(), msg.size()) : cry_elgamal_verify2(&c, &sg, msg.data(), msg.size()); };
                    int res = armed(f);
                    same(&c);
                    R.m = sg.r; S.m = sg.s;
                    if (R.get() != r || S.get() != s || !b.eq(sb)) fail("operand", "the signature changed");
                    bool v = valid(r, s);
                    if (res == 0 && !v) fail("accept", "a wrong signature was accepted");
                    if (res != 0 && v) { if (!g_hit) fail("result", "refused"); if (f() != 0) fail("reuse", "repeated call failed"); }
                    cry_elgamal_clear(&c);
                });
    }
    // Diffie-Hellman
    {
        Z p = (Z(1) << 61) - 1, g = 37, e = 0x1234567, Y = zpow(g, e, p), W = zpow(g, 999, p);
        auto load = [&](cry_dh_ctx *c) { if (cry_dh_init(c)) abort(); zset(&c->p, p); zset(&c->g, g); zset(&c->e, e); };
        pk_init<cry_dh_ctx>("dh_init", [](cry_dh_ctx *c) { return cry_dh_init(c); }, [](cry_dh_ctx *c) { cry_dh_clear(c); });
        explore("dh_agree", [&] {
            cry_dh_ctx c; load(&c);
            int res = armed([&] { return cry_dh_agree(&c); });
            if (res != 0) { if (!g_hit) fail("result", "refused"); if (cry_dh_agree(&c) != 0) fail("reuse", "repeated call failed"); }
            rcheck("token", &c.Y, Y);
            if (zget(&c.e) != e || zget(&c.p) != p || zget(&c.g) != g) fail("operand", "parameters changed");
            cry_dh_clear(&c);
        });
        explore("dh_set_tok", [&] {
            cry_dh_ctx c; load(&c);
            Bytes t = patv(30, 3);
            int res = armed([&] { return cry_dh_set_tok(&c, t.data(), t.size()); });
            if (res != 0) { if (!g_hit) fail("result", "refused"); if (cry_dh_set_tok(&c, t.data(), t.size()) != 0) fail("reuse", "repeated call failed"); }
            rcheck("token", &c.Y, zbytes(t));
            cry_dh_clear(&c);
        });
        explore("dh_finalize", [&] {
            cry_dh_ctx c; load(&c);
            zset(&c.Y, W);
            int res = armed([&] { return cry_dh_finalize(&c); });
            if (res != 0) { if (!g_hit) fail("result", "refused"); if (cry_dh_finalize(&c) != 0) fail("reuse", "repeated call failed"); }
            rcheck("secret", &c.Z, zpow(W, e, p));
            if (zget(&c.e) != e || zget(&c.p) != p || zget(&c.Y) != W) fail("operand", "parameters changed");
            cry_dh_clear(&c);
        });
    }
    // RSA
    {
        bool small = CRY_MPI_DIGIT_BITS == 8 && !g_thorough;   // many more allocations per operation: shorter key
        Z p = znext(small ? Z(0xf000) : Zx("f000000000000000")), q = znext(small ? Z(0xe801) : Zx("e800000000000001")), e = 17;
        while (zinv(e, (p - 1) * (q - 1)) == 0) e += 2;
        Z n = p * q, d = zinv(e, (p - 1) * (q - 1));
        size_t sz = (zbits(n) + 7) / 8;
        auto E = [&](const Z &v) { Bytes b(sz); Z t = v; for (size_t i = sz; i-- > 0;) { b[i] = Z(t & 255).get_ui(); t >>= 8; } return b; };
        for (int pad : { CRY_RSA_PADDING_NONE, CRY_RSA_PADDING_PKCS_V15 }) {
            if (pad && small) continue;
            std::string nm = pad ? " padded" : " plain";
            auto load = [&](cry_rsa_ctx *c) { if (cry_rsa_init(c, pad)) abort(); zset(&c->n, n); zset(&c->e, e); zset(&c->d, d); zset(&c->p, p); zset(&c->q, q); };
            auto same = [&](cry_rsa_ctx *c) { if (zget(&c->n) != n || zget(&c->e) != e || zget(&c->d) != d) fail("operand", "the key changed"); };
            pk_init<cry_rsa_ctx>("rsa_init" + nm, [&](cry_rsa_ctx *c) { return cry_rsa_init(c, pad); }, [](cry_rsa_ctx *c) { cry_rsa_clear(c); });
            // two blocks
            Bytes msg = pad ? patv(7, 3) : patv(sz, 3);
            if (!pad) msg[0] = 1;
            if (!pad) msg.push_back(2);
            size_t blk = pad ? sz - 11 : sz, nb = (msg.size() + blk - 1) / blk;
            auto open = [&](const Bytes &ct, const Z &ex, int type, Bytes &o) {
                o.clear();
                if (ct.size() % sz || ct.empty()) return false;
                for (size_t i = 0; i < ct.size(); i += sz) {
                    Bytes em = E(zpow(zbytes(Bytes(ct.begin() + i, ct.begin() + i + sz)), ex, n));
                    if (!pad) { o.insert(o.end(), em.begin(), em.end()); continue; }
                    if (em[0] || em[1] != type) return false;
                    size_t k = 2; while (k < sz && em[k]) k++;
                    if (k == sz) return false;
                    o.insert(o.end(), em.begin() + k + 1, em.end());
                }
                return true;
            };
            Bytes full = msg; if (!pad) full.resize(nb * sz);
            Bytes sig, ct;
            for (int op = 0; op < 2; op++)
                explore((op ? "rsa_sign" : "rsa_encrypt") + nm, [&] {
                    cry_rsa_ctx c; load(&c);
                    Buf in(msg);
                    unsigned char *o = nullptr; size_t ol = 0;
                    gen_stream(8);
                    auto f = [&] { return op ? cry_rsa_sign(&c, &o, &ol, in.p, in.n) : cry_rsa_encrypt(&c, &o, &ol, in.p, in.n); };
                    int res = armed(f);
                    same(&c); if (!in.eq(msg)) fail("operand", "message changed");
                    if (res != 0) { if (!g_hit) fail("result", "refused"); if (o) fail("object", "output set after an error"); gen_stream(8); if (f() != 0) fail("reuse", "repeated call failed"); }
                    Bytes got(o, o + ol), back;
                    if (ol != nb * sz || !open(got, op ? e : d, op ? 1 : 2, back) || back != full) fail("result", "output does not open to the message");
                    (op ? sig : ct) = got;
                    free(o);
                    cry_rsa_clear(&c);
                });
            if (sig.empty() || ct.empty()) { g_armed = false; cry_rsa_ctx c; load(&c); unsigned char *o; size_t ol; gen_stream(8); cry_rsa_sign(&c, &o, &ol, msg.data(), msg.size()); sig.assign(o, o + ol); free(o); cry_rsa_encrypt(&c, &o, &ol, msg.data(), msg.size()); ct.assign(o, o + ol); free(o); cry_rsa_clear(&c); }
            for (int bad = 0; bad < 2; bad++)
                explore("rsa_decrypt" + nm + (bad ? " of altered data" : ""), [&] {
                    cry_rsa_ctx c; load(&c);
                    Bytes cc = ct; if (bad) cc[cc.size() - 1] ^= 1;
                    Buf in(cc);
                    unsigned char *o = nullptr; size_t ol = 0;
                    auto f = [&] { return cry_rsa_decrypt(&c, &o, &ol, in.p, in.n); };
                    int res = armed(f);
                    same(&c);
                    Bytes want; bool ok = open(cc, d, 2, want);
                    if (res != 0 && o) fail("object", "output set after an error");
                    if (res == 0 && !ok) fail("accept", "damaged data was accepted");
                    if (res != 0 && ok) { if (!g_hit) fail("result", "refused"); if ((res = f()) != 0) fail("reuse", "repeated call failed"); }
                    if (res == 0 && Bytes(o, o + ol) != want) fail("result", "plaintext is wrong");
                    if (res == 0) free(o);
                    cry_rsa_clear(&c);
                });
            for (int bad = 0; bad < 3; bad++)
                explore("rsa_verify" + nm + (bad ? " of a wrong signature " + std::to_string(bad) : ""), [&] {
                    cry_rsa_ctx c; load(&c);
                    Bytes s = sig, m = msg;
                    if (bad == 1) s[3] ^= 4;
                    if (bad == 2) m[1] ^= 1;
                    Buf sb(s), mb(m);
                    auto f = [&] { return cry_rsa_verify(&c, sb.p, sb.n, mb.p, mb.n); };
                    int res = armed(f);
                    same(&c); if (!sb.eq(s) || !mb.eq(m)) fail("operand", "input changed");
                    if (bad && res == 0) fail("accept", "a wrong signature was accepted");
                    if (!bad && res != 0) { if (!g_hit) fail("result", "refused"); if (f() != 0) fail("reuse", "repeated call failed"); }
                    cry_rsa_clear(&c);
                });
        }
        for (long pe : { 17L, 0L })
            explore("rsa_keygen e=" + std::to_string(pe), [&] {
                cry_rsa_ctx c; if (cry_rsa_init(&c, CRY_RSA_PADDING_NONE)) abort();
                gen_stream(21);
                int res = armed([&] { return cry_rsa_keygen(&c, 32, pe); });
                if (res != 0) { if (!g_hit) fail("result", "refused"); gen_stream(21); if (cry_rsa_keygen(&c, 32, pe) != 0) fail("reuse", "repeated call failed"); }
                Z P = zget(&c.p), Q = zget(&c.q), ph = (P - 1) * (Q - 1);
                if (!zprime(P) || !zprime(Q) || zget(&c.n) != P * Q || zmod(zget(&c.e) * zget(&c.d), ph) != 1) fail("result", "not a key pair");
                cry_rsa_clear(&c);
            });
    }
    // CBC in place: must work without its buffer
    for (size_t len : { 16u, 48u, 512u, 528u, 1600u })
        explore("cbc_decrypt in place, " + std::to_string(len) + " bytes", [&] {
            static const cry_ciph_itf itf = { (cry_ciph_init_f)cry_aes_init, (cry_ciph_clear_f)cry_aes_clear, (cry_ciph_key_set_f)cry_aes_key_set, (cry_ciph_encrypt_f)cry_aes_encrypt, (cry_ciph_decrypt_f)cry_aes_decrypt };
            Bytes key = patv(16, 1), iv = patv(16, 2), pt = patv(len, 3);
            cry_aes_ctx ax; cry_cbc_ctx cx;
            auto setup = [&] { cry_cbc_init(&cx, &ax, &itf); cry_cbc_key_set(&cx, key.data(), 16); cry_cbc_iv_set(&cx, iv.data(), 16); };
            setup();
            Buf ct(len); cry_cbc_encrypt(&cx, ct.p, pt.data(), len);
            setup();
            armed([&] { cry_cbc_decrypt(&cx, ct.p, ct.p, len); return 0; });
            if (!ct.eq(pt)) fail("result", "plaintext is wrong (the call cannot report an error)");
            cry_cbc_clear(&cx);
        });
}
static void keygen_part()
{
    g_hang_secs = 300;
    long upto = g_thorough ? 4000 : 300;
    // DSA key generation: every allocation among the first ones
    auto fn = [&] {
        cry_dsa_ctx c; if (cry_dsa_init(&c)) abort();
        gen_stream(104);
        int res = armed([&] { return cry_dsa_keygen(&c, 0); });
        if (g_hit && res == 0) {
            Z p = zget(&c.p), q = zget(&c.q);
            if (!zprime(p) || !zprime(q) || zmod(p - 1, q) != 0 || zget(&c.pub) != zpow(zget(&c.g), zget(&c.pvt), p)) fail("result", "not a key");
        }
        cry_dsa_clear(&c);
    };
    g_name = "dsa_keygen";
    if (g_shard == 0) one(fn, -1, false);
    for (long n = 0; n < upto; n++) {
        if (!mine()) continue;
        one(fn, n, true);
        g_states++;
    }
}
int main(int argc, char **argv)
{
    init(argc, argv);
    gen_stream(1);
    if (g_mode == "mpi") mpi_part();
    else if (g_mode == "ecp") ecp_part();
    else if (g_mode == "pk") pk_part();
    else keygen_part();
    return done();
}

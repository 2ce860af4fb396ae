// C06: random integers, primality test, prime generation under every scripted
// answer of the byte generator (the generator is replaced at link time).
#include "mpiref.hpp"
#include <memory>
static const unsigned DB = CRY_MPI_DIGIT_BITS;
static std::function<int(unsigned char *, size_t)> g_gen;
static unsigned g_draws;
extern "C" int __wrap_cry_prng_aes_rand(unsigned char *b, size_t n) { g_draws++; return g_gen(b, n); }
extern "C" int __wrap_cry_prng_aes_init(const unsigned char *, size_t) { return 0; }

static void constgen(unsigned long v) // value delivered big-endian, low bytes of v
{
    g_gen = [v](unsigned char *b, size_t n) { for (size_t i = 0; i < n; i++) b[n - 1 - i] = i < 8 ? (unsigned char)(v >> (8 * i)) : 0; return 0; };
}
static void bytesgen(const Bytes &w)
{
    g_gen = [w](unsigned char *b, size_t n) { for (size_t i = 0; i < n; i++) b[i] = w[i % w.size()]; return 0; };
}
static void prev(M &r, int k)
{
    if (k == 0) r.fit(0);
    else if (k == 1) r.set(-((Z(1) << (20 * DB)) - 1));
    else r.fit(-1);
}
static Z do_rand(size_t bits, int pv)
{
    M R; prev(R, pv);
    g_trans++; g_traces++;
    int res = cry_mpi_rand(R, bits);
    if (res != 0) fail("rand", "refused");
    const char *nc = noncanon(R);
    if (nc) fail("rand", "not canonical: %s", nc);
    Z v = R.get();
    if (bits == 0 ? v != 0 : (v <= 0 || mpz_sizeinbase(v.get_mpz_t(), 2) != bits)) fail("rand", "result %s does not have exactly %zu bits", zs(v).c_str(), bits);
    return v;
}
static void do_range(const Z &max, int pv, bool self = false)
{
    M R, X; X.fit(max); prev(R, pv);
    g_trans++; g_traces++;
    int res = cry_mpi_rand_range(self ? X : R, X);
    if (self) {
        if (res == 0 && (X.get() < 0 || X.get() >= max || noncanon(X))) fail("rand_range", "result %s outside [0,%s) (in place)", zs(X.get()).c_str(), zs(max).c_str());
        return;
    }
    if (res != 0) fail("rand_range", "refused");
    if (noncanon(R) || R.get() < 0 || R.get() >= max) fail("rand_range", "result %s outside [0,%s) %s", zs(R.get()).c_str(), zs(max).c_str(), noncanon(R) ? noncanon(R) : "");
    if (X.get() != max) fail("rand_range", "bound changed");
}
static unsigned long mulm(unsigned long a, unsigned long b, unsigned long m) { return (unsigned __int128)a * b % m; }
static unsigned long powm(unsigned long a, unsigned long e, unsigned long m) { unsigned long r = 1 % m; for (; e; e >>= 1, a = mulm(a, a, m)) if (e & 1) r = mulm(r, a, m); return r; }
static bool liar(unsigned long a, unsigned long c)
{
    unsigned long d = c - 1; int s = 0;
    while (!(d & 1)) d >>= 1, s++;
    unsigned long x = powm(a, d, c);
    if (x == 1 || x == c - 1) return true;
    for (int i = 1; i < s; i++) { x = mulm(x, x, c); if (x == c - 1) return true; }
    return false;
}
static int isprime(const Z &p, int pv = 0)
{
    M A; A.fit(p);
    g_trans++; g_traces++; g_draws = 0;
    int r = cry_mpi_is_prime(A);
    if (A.get() != p) fail("is_prime", "candidate changed");
    return r;
}
struct PR { int res; unsigned it; Z p; };
static PR gen(size_t bits, unsigned itmax, bool useiter = true)
{
    M R; prev(R, 1);
    unsigned it = itmax;
    g_trans++; g_traces++; g_draws = 0;
    int res = cry_mpi_prime(R, bits, useiter ? &it : nullptr);
    Z v = R.get();
    if (res == 0) {
        if (noncanon(R)) fail("prime", "not canonical");
        if (mpz_probab_prime_p(v.get_mpz_t(), 30) == 0) fail("prime", "generated %s is not prime", zs(v).c_str());
        if (v <= 0 || mpz_sizeinbase(v.get_mpz_t(), 2) != bits || !mpz_tstbit(v.get_mpz_t(), bits - 2)) fail("prime", "generated %s does not have %zu bits with two top bits set", zs(v).c_str(), bits);
        if (useiter && (it == 0 || it > itmax)) fail("prime", "reported iteration %u of %u", it, itmax);
    }
    return PR{ res, it, v };
}
int main(int argc, char **argv)
{
    init(argc, argv);
    bool T = g_thorough;
    if (g_mode == "rand") {
        // every answer of up to two bytes, and every n-bit value must be reachable
        for (size_t bits = 0; bits <= 16; bits++)
            for (int pv = 0; pv < 3; pv++) {
                if (!mine()) continue;
                std::set<Z> seen;
                for (unsigned long v = 0; v < (bits <= 8 ? 256u : 65536u); v++) {
                    constgen(v);
                    CASE("rand(%lld bits) generator answer %lld, previous content %lld", bits, v, pv);
                    sample(); g_states++;
                    seen.insert(do_rand(bits, pv));
                }
                if (bits && seen.size() != (1u << (bits - 1))) fail("rand", "only %zu of the %u-bit numbers can occur", seen.size(), (unsigned)bits);
            }
        // longer: leading-zero runs, all-ones, alternating
        for (size_t bits = 17; bits <= (T ? 1100u : 330u); bits++) {
            if (!mine()) continue;
            size_t n = (bits + 7) / 8;
            for (size_t z = 0; z <= n; z++)
                for (int k = 0; k < 5; k++) {
                    Bytes w(n, 0);
                    for (size_t i = z; i < n; i++) w[i] = k == 0 ? 0xff : k == 1 ? (i == z) : k == 2 ? pat(i, 9) : k == 3 ? (i == z ? 0x80 : 0) : 0x55;
                    if (k && z == n) continue;
                    bytesgen(w);
                    CASE("rand(%lld bits) generator answer: %lld zero bytes then pattern %lld", bits, z, k);
                    sample(); g_states++;
                    for (int pv = 0; pv < 3; pv++) do_rand(bits, pv);
                }
        }
        // long requests
        for (size_t bits : { 1023u, 1024u, 1025u, 2039u, 2040u, 2041u, 2047u, 2048u, 2049u, 2056u, 4095u, 4096u, 4097u, 8192u, 8200u, 16384u, 16385u, 32767u, 32768u, 32769u, 65535u, 65536u, 65537u, 65544u, 131072u, 131077u, 524288u, 524297u, 1048577u }) {
            if (!mine()) continue;
            size_t n = (bits + 7) / 8;
            for (size_t z : { (size_t)0, (size_t)1, (size_t)9, n / 2, n - 1, n })
                for (int k = 0; k < 3; k++) {
                    Bytes w(n, 0);
                    for (size_t i = z; i < n; i++) w[i] = k == 0 ? 0xff : k == 1 ? (i == z) : pat(i, 9);
                    bytesgen(w);
                    CASE("rand(%lld bits) generator answer: %lld zero bytes then pattern %lld", bits, z, k); sample(); g_states++;
                    Z v = do_rand(bits, k), e; w[0] &= 0xff >> (7 - (bits - 1) % 8); w[0] |= 1 << (bits - 1) % 8; mpz_import(e.get_mpz_t(), n, 1, 1, 0, 0, w.data());
                    if (v != e) fail("rand", "%zu-bit result does not carry the bits the generator delivered", bits);
                    if (bits <= 140000) for (int x = -1; x <= 1; x++) do_range((Z(1) << (bits - 1)) + x, k);
                }
        }
        for (unsigned long max = 1; max <= (T ? 1030u : 140u); max++) {
            if (!mine()) continue;
            for (unsigned long v = 0; v < (max < 256 ? 256u : 65536u); v++) {
                constgen(v);
                CASE("rand_range(%lld) generator answer %lld", max, v);
                sample(); g_states++;
                do_range(Z(max), v % 3);
                do_range(Z(max), 0, true);
            }
        }
        for (unsigned b = 9; b <= 4 * 64 + 2; b++)
            for (int e = -1; e <= 1; e++) {
                if (!mine()) continue;
                Z max = (Z(1) << b) + e;
                size_t n = (b + 8) / 8;
                for (size_t z = 0; z <= n; z++)
                    for (int k = 0; k < 3; k++) {
                        Bytes w(n, 0);
                        for (size_t i = z; i < n; i++) w[i] = k == 0 ? 0xff : k == 1 ? (i == z) : pat(i, 9);
                        bytesgen(w);
                        CASE("rand_range(2^%lld%+lld) generator answer: %lld zero bytes then pattern %lld", b, e, z, k);
                        sample(); g_states++;
                        do_range(max, (int)(z % 3));
                    }
            }
        g_gen = [](unsigned char *, size_t) { return -1; };
        for (size_t bits = 1; bits < 40; bits++) {
            M R; CASE("rand(%lld bits) with failing generator", bits); g_states++;
            if (cry_mpi_rand(R, bits) == 0) fail("rand", "generator failure reported as success");
            M X(Z(bits + 1));
            if (cry_mpi_rand_range(R, X) == 0) fail("rand_range", "generator failure reported as success");
        }
    } else if (g_mode == "small") {
        // exact decision for every small value, under several generator answers
        long N = T ? 1026168 : 66000;
        for (long c = -1024; c < N; c += 256) {
            if (!mine()) continue;
            for (long v = c; v < c + 256; v++) {
                Z z(v);
                bool pr = v > 1 && mpz_probab_prime_p(z.get_mpz_t(), 25);
                unsigned long ans[] = { (unsigned long)v, (unsigned long)v - 1, 0, 1, ~0UL, (unsigned long)v + 1, 2 };
                for (unsigned long a : ans) {
                    constgen(a);
                    CASE("is_prime(%lld), generator answer %lld", v, a);
                    sample(); g_states++;
                    int r = isprime(z);
                    if (pr ? r != 1 : r == 1) fail("is_prime", "returned %d", r);
                    if (v >= 0 && r < 0) fail("is_prime", "error %d", r);
                }
            }
        }
    } else if (g_mode == "bases") {
        // primes: every two-byte generator answer
        std::vector<unsigned long> P;
        for (Z p = 1012; P.size() < (T ? 60u : 10u);) { mpz_nextprime(p.get_mpz_t(), p.get_mpz_t()); P.push_back(p.get_ui()); }
        P.push_back(2); P.push_back(3); P.push_back(251); P.push_back(257); P.push_back(65521); P.push_back(65537);
        for (auto p : P)
            for (unsigned long h = 0; h < 256; h++) {
                if (!mine()) continue;
                for (unsigned long l = 0; l < 256; l++) {
                    constgen(h << 8 | l);
                    CASE("is_prime(prime %lld), generator answer %lld", p, h << 8 | l);
                    sample(); g_states++;
                    int r = isprime(Z(p));
                    if (r != 1) fail("is_prime", "prime rejected (returned %d)", r);
                }
            }
        // large primes, structured answers
        for (unsigned b : { 61u, 64u, 89u, 107u, 127u, 128u, 192u, 256u, 521u, 512u, 1024u, 2048u }) {
            if (!mine()) continue;
            Z p = Z(1) << (b - 1);
            mpz_nextprime(p.get_mpz_t(), p.get_mpz_t());
            Z q = (Z(1) << b) - 1;
            while (!mpz_probab_prime_p(q.get_mpz_t(), 20)) q -= 2;
            size_t n = (b + 7) / 8;
            for (const Z &x : { p, q })
                for (int k = 0; k < (b > 600 && !T ? 2 : 12); k++) {
                    Z a = k == 0 ? x : k == 1 ? Z(x - 1) : k == 2 ? Z(x + 1) : k == 3 ? Z(0) : k == 4 ? Z(1) : k == 5 ? Z((Z(1) << b) - 1) : k == 6 ? Z(x / 2) : k == 7 ? Z(x - 2) : Z(x / (k + 1));
                    Bytes w(n, 0);
                    size_t cnt = (mpz_sizeinbase(a.get_mpz_t(), 2) + 7) / 8;
                    if (a != 0 && cnt <= n) mpz_export(w.data() + n - cnt, nullptr, 1, 1, 0, 0, a.get_mpz_t());
                    bytesgen(w);
                    CASE("is_prime(%lld-bit prime), generator answer kind %lld", b, k);
                    sample(); g_states++;
                    if (isprime(x) != 1) fail("is_prime", "prime %s rejected", zs(x).c_str());
                    if (isprime(x * x) == 1 && k == 6) fail("is_prime", "square of a prime accepted");
                }
        }
    } else if (g_mode == "liars") {
        // composites without small factors: every generator answer; the set of
        // answers that lead to acceptance cannot exceed the strong liars
        std::vector<unsigned long> C;
        C.push_back(1013UL * 1013); C.push_back(1013UL * 1019);
        for (unsigned long a = 1013; C.size() < (T ? 16u : 8u); a += 2) {
            Z x(a), y(2 * a - 1);
            if (mpz_probab_prime_p(x.get_mpz_t(), 20) && mpz_probab_prime_p(y.get_mpz_t(), 20) && a * (2 * a - 1) > (1UL << 20)) C.push_back(a * (2 * a - 1));
        }
        unsigned parts = 64;
        for (auto c : C) {
            unsigned bits = 64 - __builtin_clzl(c);
            unsigned long nm = 1UL << (bits - 1), L = 0;
            // each shard takes contiguous pieces of the answers; the bound is checked per piece on the base set it maps to
            if (!mine()) continue;
            for (unsigned long a = 1; a < c; a++) L += liar(a, c);
            unsigned long acc = 0, lie = 0, wit = 0; bool hl = false, hw = false;
            unsigned long step = T ? 1 : 7;
            std::vector<unsigned long> Ls, Ws;
            for (unsigned long v = 0; v < nm; v += step) {
                constgen(v);
                CASE("is_prime(composite %lld), generator answer %lld", c, v);
                sample(); g_states++;
                int r = isprime(Z(c));
                if (r < 0) fail("is_prime", "error %d", r);
                if (r == 1) { acc++; if (Ls.size() < 12) Ls.push_back(v); if (g_draws < 5) fail("is_prime", "composite accepted after only %u random bases", g_draws); }
                else if (Ws.size() < 12) Ws.push_back(v);
            }
            if (acc > 2 * (L + 2)) fail("is_prime", "%lu of %lu generator answers lead to acceptance although only %lu bases are strong liars", acc, nm, L);
            g_extra["liar_bases"] += L; g_extra["accepting_answers"] += acc;
            // sequences: j lying answers followed by a witness must be rejected
            for (auto l : Ls)
                for (auto w : Ws)
                    for (unsigned j = 0; j < 5; j++)
                        for (int back = 0; back < 2; back++) {
                            unsigned n = 0;
                            g_gen = [&](unsigned char *b, size_t len) { unsigned long v = (n < j || (back && n > j)) ? l : w; n++; for (size_t i = 0; i < len; i++) b[len - 1 - i] = i < 8 ? (unsigned char)(v >> (8 * i)) : 0; return 0; };
                            CASE("is_prime(composite %lld), liar answer %lld, witness answer %lld as draw %lld, afterwards %lld", c, l, w, j, back);
                            g_states++;
                            if (isprime(Z(c)) != 0) fail("is_prime", "accepted although base number %u is a witness", j + 1);
                        }
        }
        // larger composites that fool weaker tests (Carmichael numbers without small factors, high powers
        // of two in n-1, squares, close factors): strong liars are at most a quarter of the bases, so of a
        // set of answer sequences of differing bases hardly any may lead to acceptance
        {
            std::vector<Z> B;
            auto pr = [](const Z &x) { return mpz_probab_prime_p(x.get_mpz_t(), 25) != 0; };
            for (unsigned long k = 170, n = 0; n < (T ? 20 : 8); k++) { Z a(6 * k + 1), b(12 * k + 1), c(18 * k + 1); if (pr(a) && pr(b) && pr(c)) { B.push_back(a * b * c); n++; } }
            for (unsigned long k = 1UL << 20, n = 0; n < 3; k++) { Z a(6 * k + 1), b(12 * k + 1), c(18 * k + 1); if (pr(a) && pr(b) && pr(c)) { B.push_back(a * b * c); n++; } }
            for (int e = 4; e <= 20; e += 4) {      // factors = 1 mod 2^e
                std::vector<Z> f; for (Z x = (Z(1) << e) + 1; f.size() < 3; x += Z(1) << e) if (x > 1100 && pr(x)) f.push_back(x);
                B.push_back(f[0] * f[1]); B.push_back(f[1] * f[2]); B.push_back(f[0] * f[0]); B.push_back(f[0] * f[1] * f[2]);
            }
            for (int e : { 31, 32, 33, 63, 64, 65 }) { Z p; mpz_nextprime(p.get_mpz_t(), Z(Z(1) << e).get_mpz_t()); Z q; mpz_nextprime(q.get_mpz_t(), p.get_mpz_t()); B.push_back(p * q); B.push_back(p * p); Z d = 2 * p - 1; if (pr(d)) B.push_back(p * d); }
            for (auto &c : B) {
                if (!mine()) continue;
                unsigned acc = 0, S = T ? 2000 : 400;
                for (unsigned k = 0; k < S; k++) {
                    unsigned n = 0;
                    g_gen = [&](unsigned char *b, size_t len) { for (size_t i = 0; i < len; i++) b[i] = pat(i + 40 * n, (int)(7 + k)); n++; return 0; };
                    CASET("is_prime(composite " + c.get_str() + "), answer sequence " + std::to_string(k)); sample(); g_states++; g_traces++; g_trans++;
                    int r = isprime(c);
                    if (r < 0) fail("is_prime", "error %d", r);
                    if (r == 1 && n < 5) fail("is_prime", "composite accepted after only %u draws", n);
                    acc += r == 1;
                }
                if (acc * 20 > S) fail("is_prime", "composite accepted for %u of %u sequences of five differing bases; strong liars allow about one in a thousand", acc, S);
            }
        }
        // a failing generator is not a verdict
        for (unsigned j = 0; j < 5; j++) {
            unsigned n = 0;
            g_gen = [&](unsigned char *b, size_t len) { if (n++ == j) return -1; memset(b, 0, len); b[len - 1] = 1; return 0; };
            CASE("is_prime(1009^2-ish prime) with generator failing at draw %lld", j);
            g_states++;
            if (isprime(Z(1000003)) >= 0 && g_draws > j) fail("is_prime", "generator failure not reported");
        }
    } else if (g_mode == "gen") {
        for (size_t bits = 0; bits <= 64; bits++) {
            constgen(1);
            CASE("prime of %lld bits", bits);
            if (bits == 0 || bits % 8) { g_states++; M R; unsigned it = 3; if (cry_mpi_prime(R, bits, &it) == 0) fail("prime", "size accepted"); }
        }
        // 8 bits: every sequence of generator answers over an alphabet, every budget
        std::vector<int> A8;
        int D = T ? 4 : 3;
        std::vector<int> alpha = T ? std::vector<int>{ 0x00, 0xff, 0xc1, 0x3f, 0x01, 0x02, 0x05, 0x21, 0x33, 0x0b, 0x3b } : std::vector<int>{ 0x00, 0xff, 0x01, 0x02, 0x05, 0x3b, 0x33, 0x80 };
        for (int v = 0; v < 256; v++) A8.push_back(v);
        auto script = [&](size_t bits, const std::vector<unsigned long> &seq) {
            auto set = [&]() { auto n = std::make_shared<size_t>(0); g_gen = [seq, n, bits](unsigned char *b, size_t len) { unsigned long v = seq[*n < seq.size() ? *n : seq.size() - 1]; if (bits > 16 && *n >= seq.size()) for (int k = 0; k < 8; k++) v = v << 8 | pat(*n * 8 + k, 4); ++*n; for (size_t i = 0; i < len; i++) b[len - 1 - i] = i < 8 ? (unsigned char)(v >> (8 * i)) : (unsigned char)(i * 37 + v); return 0; }; };
            std::string d = "prime(" + std::to_string(bits) + " bits), generator answers";
            for (auto x : seq) d += " " + std::to_string(x);
            CASET(d); sample(); g_states++;
            unsigned N = (unsigned)seq.size() + 1;
            set(); PR full = gen(bits, N);
            for (unsigned it = 0; it <= N; it++) {
                set();
                CASET(d + ", budget " + std::to_string(it));
                PR x = gen(bits, it);
                bool expect = full.res == 0 && it >= full.it;
                if (expect != (x.res == 0)) fail("prime", "budget %u: returned %d, but with budget %u it %s at iteration %u", it, x.res, N, full.res ? "fails" : "succeeds", full.it);
                if (expect && x.p != full.p) fail("prime", "budget changes the outcome");
                if (x.it > it) fail("prime", "more iterations reported than allowed");
            }
        };
        for (int v = 0; v < 256; v++) { if (!mine()) continue; script(8, { (unsigned long)v }); for (int w = 0; w < 256; w++) script(8, { (unsigned long)v, (unsigned long)w }); }
        long tot = 1; for (int i = 0; i < D + 1; i++) tot *= alpha.size();
        for (long c = 0; c < tot; c++) {
            if (!mine()) continue;
            std::vector<unsigned long> s; long x = c;
            for (int i = 0; i < D + 1; i++, x /= alpha.size()) s.push_back(alpha[x % alpha.size()]);
            script(8, s);
        }
        for (unsigned long v = 0; v < 65536; v += T ? 1 : 5) { if (!mine()) continue; script(16, { v }); }
        for (size_t bits : { 24, 32, 64, 72, 128, 136 })
            for (unsigned long v = 0; v < (T ? 3000u : 250u); v++) { if (!mine()) continue; {
                // a first candidate, then unrelated answers (bases and further candidates)
                std::vector<unsigned long> q = { v * 0x9E3779B97F4A7C15UL };
                for (unsigned long i = 1; i < 8; i++) q.push_back((v + 1) * 0xD1B54A32D192ED03UL * i ^ (i * 0xBF58476D1CE4E5B9UL));
                script(bits, q);
            } }
        if (CRY_MPI_DIGIT_BITS == 64) for (size_t bits : { 256, 264, 512 }) for (unsigned k = 0; k < (T ? 20u : bits > 300 ? 2u : 6u); k++) {
            if (!mine()) continue;
            unsigned n = 0;
            g_gen = [&](unsigned char *b, size_t len) { for (size_t i = 0; i < len; i++) b[i] = pat(i + 100 * n, (int)(17 + k)); n++; return 0; };
            CASE("prime(%lld bits), generator stream %lld", bits, k); g_states++;
            PR x = gen(bits, 4000); if (x.res != 0) fail("prime", "no prime within 4000 iterations");
            unsigned it = x.it; n = 0; PR y = gen(bits, it); if (y.res != 0 || y.p != x.p) fail("prime", "exact budget gives a different outcome");
            if (it > 1) { n = 0; PR z = gen(bits, it - 1); if (z.res == 0) fail("prime", "success before the iteration at which the candidate is found"); }
        }
        // sizes of real keys: the answer is a prime without its three forced bits (one kind each), after a composite one
        if (CRY_MPI_DIGIT_BITS == 64) for (size_t bits : { 768u, 1024u, 1032u, 1536u, 2048u, 3072u }) for (int k = 0; k < (T ? 4 : bits > 1100 ? 1 : 2); k++) {
            if (!mine() || (bits > 2048 && !T)) continue;
            Bytes c = patv(bits / 8, bits + k); Z p; mpz_import(p.get_mpz_t(), c.size(), 1, 1, 0, 0, c.data());
            mpz_setbit(p.get_mpz_t(), bits - 1); mpz_setbit(p.get_mpz_t(), bits - 2); if (k == 1) mpz_clrbit(p.get_mpz_t(), bits - 3);
            mpz_nextprime(p.get_mpz_t(), p.get_mpz_t());
            Z a = p; mpz_clrbit(a.get_mpz_t(), 0); mpz_clrbit(a.get_mpz_t(), bits - 1); mpz_clrbit(a.get_mpz_t(), bits - 2);
            Bytes w(bits / 8, 0); size_t cnt = (mpz_sizeinbase(a.get_mpz_t(), 2) + 7) / 8; mpz_export(w.data() + w.size() - cnt, nullptr, 1, 1, 0, 0, a.get_mpz_t());
            unsigned n = 0; Z t = p + 2; while (mpz_fdiv_ui(t.get_mpz_t(), 3)) t += 2;      // a composite to begin with
            Bytes v(bits / 8, 0); mpz_export(v.data(), nullptr, 1, 1, 0, 0, t.get_mpz_t());
            g_gen = [&](unsigned char *b, size_t len) { for (size_t i = 0; i < len; i++) b[i] = n == 0 ? v[i % v.size()] : n == 1 ? w[i % w.size()] : pat(i + 400 * n, k); n++; return 0; };
            CASE("prime(%lld bits), answers: a composite, then a prime without its forced bits, kind %lld", bits, k); sample(); g_states++;
            PR x = gen(bits, 2); if (x.res != 0 || x.it != 2 || x.p != p) fail("prime", "returned %d at iteration %u with %s, expected the prime %s", x.res, x.it, zs(x.p).c_str(), zs(p).c_str());
        }
        // without budget argument
        for (unsigned long v = 0; v < 256; v++) {
            if (!mine()) continue;
            CASE("prime(8 bits) default budget, generator answer %lld", v);
            constgen(v); PR a = gen(8, 3);
            constgen(v); PR b = gen(8, 0, false);
            if ((a.res == 0) != (b.res == 0) || (a.res == 0 && a.p != b.p)) fail("prime", "default budget gives a different outcome");
        }
        for (unsigned j = 0; j < 4; j++)
            for (size_t bits : { 8, 16, 64 }) {
                unsigned n = 0; bool hit = false;
                g_gen = [&](unsigned char *b, size_t len) { if (n++ == j) { hit = true; return -1; } memset(b, 0x10 + n, len); return 0; };
                CASE("prime(%lld bits) with generator failing at draw %lld", bits, j);
                g_states++;
                M R; unsigned it = 10;
                int res = cry_mpi_prime(R, bits, &it);
                if (hit && res == 0) fail("prime", "generator failure reported as success");
            }
    }
    return done();
}

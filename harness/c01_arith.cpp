// C01: exact signed arithmetic.  Exhaustive over operand alphabets x aliasing
// x previous destination content, plus breadth-first exploration of operation
// histories on three live registers.
#include "mpiref.hpp"
#include <unordered_set>
#include <deque>

static const unsigned DB = CRY_MPI_DIGIT_BITS;

// All values of up to `nd` digits over a digit alphabet, with both signs.
static std::vector<Z> values(const std::vector<unsigned long> &alpha, unsigned nd)
{
    std::set<Z> s;
    std::vector<Z> cur = { 0 };
    s.insert(0);
    for (unsigned d = 0; d < nd; d++) {
        std::vector<Z> nxt;
        for (auto &v : cur)
            for (auto a : alpha) {
                Z x = (v << DB) + Z(a);
                nxt.push_back(x);
                s.insert(x);
                s.insert(-x);
            }
        cur = nxt;
    }
    return std::vector<Z>(s.begin(), s.end());
}

static M *A, *Bm, *R;
static Z preset_val[4];
enum { NPRE = 4 };
static void preset(cry_mpi *r, int k)
{
    switch (k) {
    case 0: // cleared object: no storage
        free(r->data); r->data = nullptr; r->alloc = r->used = 0; r->sign = 0;
        break;
    default:
        zset(r, preset_val[k]);
        break;
    }
}

static void check(const char *tag, const cry_mpi *r, const Z &want, int res, const char *what)
{
    g_traces++;
    if (res != 0)
        fail(tag, "%s returned %d", what, res);
    const char *nc = noncanon(r);
    Z got = zget(r);
    if (got != want)
        fail(tag, "%s gave %s, expected %s", what, zs(got).c_str(), zs(want).c_str());
    if (nc)
        fail(tag, "%s result not canonical: %s", what, nc);
}
static void unchanged(const char *tag, const cry_mpi *a, const Z &v, const char *what)
{
    if (zget(a) != v)
        fail(tag, "%s changed an operand that is not the destination", what);
}

typedef int (*bin_f)(cry_mpi *, const cry_mpi *, const cry_mpi *);
typedef int (*un_f)(cry_mpi *, const cry_mpi *);

struct Bin { const char *name; bin_f f; int kind; };
static const Bin bins[] = {
    { "add", cry_mpi_add, 0 },
    { "sub", cry_mpi_sub, 1 },
    { "mul", cry_mpi_mul, 2 },
    { "add_abs", cry_mpi_add_abs, 3 },
    { "sub_abs", cry_mpi_sub_abs, 4 },
    { "mul_abs", cry_mpi_mul_abs, 5 },
};
static bool model(int kind, const Z &a, const Z &b, Z &o)
{
    switch (kind) {
    case 0: o = a + b; return true;
    case 1: o = a - b; return true;
    case 2: o = a * b; return true;
    case 3: o = abs(a) + abs(b); return true;
    case 4: o = abs(a) - abs(b); return o >= 0;
    case 5: o = abs(a) * abs(b); return true;
    }
    return false;
}

static void one_bin(const Bin &op, const Z &a, const Z &b, int alias, int pre)
{
    Z want;
    bool ok = model(op.kind, a, b, want);
    A->fit(a);
    if (alias != 3 && alias != 4)
        Bm->fit(b);
    cry_mpi *pa = &A->m, *pb = (alias == 3 || alias == 4) ? pa : &Bm->m, *pr;
    if (alias == 0 || alias == 3) { preset(&R->m, pre); pr = &R->m; }
    else if (alias == 1 || alias == 4) pr = pa;
    else pr = pb;
    g_trans++;
    int res = op.f(pr, pa, pb);
    if (!ok) {
        g_traces++;
        if (res == 0)
            fail("arith", "%s must be refused for a negative result", op.name);
        return;
    }
    // the absolute-value product's sign is unspecified for negative operands
    if (op.kind == 5 && (a < 0 || b < 0) && res == 0)
        pr->sign = 0;
    check("arith", pr, want, res, op.name);
    if (pr != pa) unchanged("arith", pa, a, op.name);
    if (pr != pb && pb != pa) unchanged("arith", pb, b, op.name);
}

static void pairs(const std::vector<Z> &va, const std::vector<Z> &vb)
{
    for (auto &a : va) {
        if (!mine()) continue;
        std::string as = zs(a);
        for (auto &b : vb) {
            CASET("a=" + as + " b=" + zs(b));
            sample();
            g_states++;
            for (auto &op : bins)
                for (int alias = 0; alias < 3; alias++)
                    one_bin(op, a, b, alias, 1 + (int)(g_states % 3));
            // comparisons and predicates
            int c = cmp(a, b), ca = cmp(abs(a), abs(b));
            c = c < 0 ? -1 : c > 0; ca = ca < 0 ? -1 : ca > 0;
            A->fit(a); Bm->fit(b);
            g_trans += 2;
            int r1 = cry_mpi_cmp(*A, *Bm), r2 = cry_mpi_cmp_abs(*A, *Bm);
            if ((r1 < 0 ? -1 : r1 > 0) != c) fail("cmp", "signed comparison gave %d, expected %d", r1, c);
            if ((r2 < 0 ? -1 : r2 > 0) != ca) fail("cmp", "magnitude comparison gave %d, expected %d", r2, ca);
        }
    }
}

static void unary(const std::vector<Z> &v, const std::vector<size_t> &shifts)
{
    struct U { const char *n; un_f f; };
    static const U us[] = { { "sqr", cry_mpi_sqr }, { "abs", cry_mpi_abs }, { "copy", cry_mpi_copy } };
    for (auto &a : v) {
        if (!mine()) continue;
        g_states++;
        CASET("a=" + zs(a));
        sample();
        for (int u = 0; u < 3; u++) {
            Z want = u == 0 ? Z(a * a) : u == 1 ? Z(abs(a)) : a;
            for (int pre = 0; pre < NPRE; pre++) {
                CASET(std::string(us[u].n) + " a=" + zs(a) + " previous destination #" + std::to_string(pre));
                A->fit(a);
                preset(&R->m, pre);
                g_trans++;
                int res = us[u].f(*R, *A);
                check("unary", *R, want, res, us[u].n);
                unchanged("unary", *A, a, us[u].n);
            }
            CASET(std::string(us[u].n) + " in place a=" + zs(a));
            A->fit(a);
            g_trans++;
            int res = us[u].f(*A, *A);
            check("unary", *A, want, res, us[u].n);
        }
        for (auto n : shifts)
            for (int dir = 0; dir < 2; dir++)
                for (int pre = 0; pre <= NPRE; pre++) {
                    CASET(std::string(dir ? "shr " : "shl ") + std::to_string(n) + " a=" + zs(a) + " dst#" + std::to_string(pre));
                    Z want = dir ? Z(abs(a) >> n) : Z(abs(a) << n);
                    if (a < 0) want = -want;
                    A->fit(a);
                    cry_mpi *r = &A->m;
                    if (pre < NPRE) { preset(&R->m, pre); r = &R->m; }
                    g_trans++;
                    int res = dir ? cry_mpi_shr(r, *A, n) : cry_mpi_shl(r, *A, n);
                    check("shift", r, want, res, dir ? "shr" : "shl");
                    if (r != &A->m) unchanged("shift", *A, a, "shift");
                }
        // bit count, predicates
        A->fit(a);
        size_t bits = a == 0 ? 0 : mpz_sizeinbase(a.get_mpz_t(), 2);
        g_trans++;
        CASET("count/predicates a=" + zs(a));
        if (cry_mpi_count_bits(*A) != bits) fail("count", "bit count %zu, expected %zu", cry_mpi_count_bits(*A), bits);
        if (cry_mpi_count_bytes(&A->m) != (bits + 7) / 8) fail("count", "byte count wrong");
        if ((bool)cry_mpi_is_zero(&A->m) != (a == 0)) fail("count", "zero test wrong");
        if ((bool)cry_mpi_is_odd(&A->m) != (bool)mpz_odd_p(a.get_mpz_t())) fail("count", "odd test wrong");
        if ((bool)cry_mpi_is_even(&A->m) != (bool)mpz_even_p(a.get_mpz_t())) fail("count", "even test wrong");
        if ((bool)cry_mpi_is_neg(&A->m) != (a < 0)) fail("count", "sign test wrong");
        if ((bool)cry_mpi_is_pos(&A->m) != (a >= 0)) fail("count", "sign test wrong");
        // init_copy, swap
        cry_mpi t;
        if (cry_mpi_init_copy(&t, *A) != 0) fail("copy", "init_copy failed");
        check("copy", &t, a, 0, "init_copy");
        preset(&R->m, 1);
        cry_mpi_swap(&t, &R->m);
        check("copy", &R->m, a, 0, "swap");
        check("copy", &t, preset_val[1], 0, "swap");
        cry_mpi_clear(&t);
        if (t.data || t.used || t.sign) fail("copy", "clear left something");
    }
}

static void all_aliases(const std::vector<Z> &v)
{
    for (auto &a : v)
        for (auto &b : v) {
            if (!mine()) continue;
            g_states++;
            for (auto &op : bins)
                for (int alias = 0; alias < 5; alias++)
                    for (int pre = 0; pre < NPRE; pre++) {
                        if (pre && alias != 0 && alias != 3) continue;
                        CASET(std::string(op.name) + " a=" + zs(a) + " b=" + zs(b) + " aliasing#" + std::to_string(alias) + " dst#" + std::to_string(pre));
                        one_bin(op, a, (alias == 3 || alias == 4) ? a : b, alias, pre);
                    }
        }
}

static void mul_dig(const std::vector<Z> &v, const std::vector<unsigned long> &alpha)
{
    for (auto &a : v) {
        if (!mine()) continue;
        for (auto d : alpha)
            for (int pre = 0; pre <= NPRE; pre++) {
                g_states++;
                CASET("mul_dig a=" + zs(a) + " d=" + std::to_string(d) + " dst#" + std::to_string(pre));
                A->fit(a);
                cry_mpi *r = &A->m;
                if (pre < NPRE) { preset(&R->m, pre); r = &R->m; }
                g_trans++;
                int res = cry_mpi_mul_dig(r, *A, (cry_mpi_digit)d);
                check("mul_dig", r, a * Z(d), res, "mul_dig");
                if (r != &A->m) unchanged("mul_dig", *A, a, "mul_dig");
            }
    }
}

// ---- operation histories on three live registers --------------------------
struct Reg { std::vector<cry_mpi_digit> d; size_t used; int sign; };
typedef std::array<Reg, 3> St;
static std::string key(const St &s)
{
    std::string k;
    for (auto &r : s) {
        k.append((const char *)r.d.data(), r.d.size() * sizeof(cry_mpi_digit));
        k += (char)r.used; k += (char)r.sign; k += (char)r.d.size(); k += (char)0xfe;
    }
    return k;
}
static void load(const St &s, cry_mpi *m)
{
    for (int i = 0; i < 3; i++) {
        m[i].data = (cry_mpi_digit *)malloc(std::max<size_t>(1, s[i].d.size()) * sizeof(cry_mpi_digit));
        std::copy(s[i].d.begin(), s[i].d.end(), m[i].data);
        m[i].alloc = s[i].d.size(); m[i].used = s[i].used; m[i].sign = s[i].sign;
        if (!m[i].alloc) { free(m[i].data); m[i].data = nullptr; }
    }
}
static St save(cry_mpi *m)
{
    St s;
    for (int i = 0; i < 3; i++) {
        // digits beyond `used` are kept: stale storage is part of the state
        s[i].d.assign(m[i].data, m[i].data + m[i].alloc);
        s[i].used = m[i].used; s[i].sign = m[i].sign;
        // never-written storage would be allocator-dependent: canonicalise
        for (size_t k = m[i].used; k < m[i].alloc; k++) s[i].d[k] = (cry_mpi_digit)0x5a;
    }
    return s;
}
static void history(unsigned depth, size_t maxdig, const std::vector<std::array<long, 3>> &inits)
{
    struct Op { int k, r, a, b; };
    std::vector<Op> ops;
    for (int k = 0; k < 4; k++)        // add sub mul div_q
        for (int r = 0; r < 3; r++) for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) ops.push_back({ k, r, a, b });
    for (int k = 10; k < 17; k++)
        for (int r = 0; r < 3; r++) for (int a = 0; a < 3; a++) ops.push_back({ k, r, a, 0 });
    static const char *nm[] = { "add", "sub", "mul", "mod", 0, 0, 0, 0, 0, 0, "sqr", "copy", "abs", "shl1", "shr1", "shlD", "shrD+1" };
    for (auto &in : inits) {
        if (!mine()) continue;
        std::unordered_set<std::string> seen;
        struct Node { St s; unsigned depth; std::string path; };
        std::deque<Node> q;
        cry_mpi m[3];
        St s0;
        for (int i = 0; i < 3; i++) { M t(Z(in[i])); m[i] = t.m; t.m.data = nullptr; t.m.alloc = 0; }
        s0 = save(m);
        for (int i = 0; i < 3; i++) cry_mpi_clear(&m[i]);
        seen.insert(key(s0));
        q.push_back({ s0, 0, "init(" + std::to_string(in[0]) + "," + std::to_string(in[1]) + "," + std::to_string(in[2]) + ")" });
        while (!q.empty()) {
            Node n = std::move(q.front());
            q.pop_front();
            g_states++;
            if (n.depth == depth) continue;
            for (auto &o : ops) {
                load(n.s, m);
                Z v[3] = { zget(&m[0]), zget(&m[1]), zget(&m[2]) };
                Z want;
                std::string path = n.path + " " + nm[o.k] + "(" + char('0' + o.r) + "," + char('0' + o.a) + (o.k < 10 ? std::string(",") + char('0' + o.b) : "") + ")";
                CASET(path);
                sample();
                int res = 0;
                bool skip = false;
                switch (o.k) {
                case 0: want = v[o.a] + v[o.b]; res = cry_mpi_add(&m[o.r], &m[o.a], &m[o.b]); break;
                case 1: want = v[o.a] - v[o.b]; res = cry_mpi_sub(&m[o.r], &m[o.a], &m[o.b]); break;
                case 2: want = v[o.a] * v[o.b]; res = cry_mpi_mul(&m[o.r], &m[o.a], &m[o.b]); break;
                case 3:
                    if (v[o.b] <= 0) { skip = true; break; }
                    mpz_fdiv_r(want.get_mpz_t(), v[o.a].get_mpz_t(), v[o.b].get_mpz_t());
                    res = cry_mpi_mod(&m[o.r], &m[o.a], &m[o.b]);
                    break;
                case 10: want = v[o.a] * v[o.a]; res = cry_mpi_sqr(&m[o.r], &m[o.a]); break;
                case 11: want = v[o.a]; res = cry_mpi_copy(&m[o.r], &m[o.a]); break;
                case 12: want = abs(v[o.a]); res = cry_mpi_abs(&m[o.r], &m[o.a]); break;
                case 13: want = v[o.a] * 2; res = cry_mpi_shl(&m[o.r], &m[o.a], 1); break;
                case 14: mpz_tdiv_q_2exp(want.get_mpz_t(), v[o.a].get_mpz_t(), 1); res = cry_mpi_shr(&m[o.r], &m[o.a], 1); break;
                case 15: want = v[o.a] << DB; res = cry_mpi_shl(&m[o.r], &m[o.a], DB); break;
                case 16: mpz_tdiv_q_2exp(want.get_mpz_t(), v[o.a].get_mpz_t(), DB + 1); res = cry_mpi_shr(&m[o.r], &m[o.a], DB + 1); break;
                }
                if (!skip) {
                    g_trans++;
                    check("history", &m[o.r], want, res, nm[o.k]);
                    for (int i = 0; i < 3; i++)
                        if (i != o.r) unchanged("history", &m[i], v[i], nm[o.k]);
                    bool grow = false;
                    for (int i = 0; i < 3; i++) if (m[i].used > maxdig) grow = true;
                    if (!grow) {
                        St t = save(m);
                        if (seen.insert(key(t)).second) q.push_back({ t, n.depth + 1, path });
                    }
                }
                for (int i = 0; i < 3; i++) cry_mpi_clear(&m[i]);
            }
        }
    }
}

int main(int argc, char **argv)
{
    init(argc, argv);
    A = new M; Bm = new M; R = new M;
    unsigned long top = (unsigned long)CRY_MPI_DIGIT_MAX, mid = top / 2 + 1;
    preset_val[1] = -((Z(1) << (5 * DB)) - 1);
    preset_val[2] = (Z(1) << (7 * DB)) - 3;
    preset_val[3] = -5;
    std::vector<unsigned long> full = { 0, 1, 2, mid - 1, mid, top - 1, top };
    std::vector<unsigned long> lean = { 0, 1, mid, top };
    if (g_mode == "pairs") {
        auto v = values(full, 3);
        if (DB == 8) {
            std::set<Z> s(v.begin(), v.end());
            int lim = g_thorough ? 1300 : 270;
            for (int i = -lim; i <= lim; i++) s.insert(i);
            v.assign(s.begin(), s.end());
        }
        if (g_thorough) {
            auto w = values(lean, 5);
            v.insert(v.end(), w.begin(), w.end());
        }
        pairs(v, v);
    } else if (g_mode == "long") {
        // carry/borrow chains across many digits and around the allocation quantum
        std::vector<Z> v;
        for (unsigned n : { 1u, 2u, 6u, 7u, 8u, 9u, 10u, 14u, 15u, 16u, 17u, 18u, 24u, 25u, 33u }) {
            Z t = Z(1) << (n * DB);
            for (int d = -2; d <= 2; d++) { v.push_back(t + d); v.push_back(-(t + d)); }
            Z h = Z(1) << (n * DB - 1);
            v.push_back(h); v.push_back(-h); v.push_back(t - h / 2); v.push_back(h + 1);
            Z alt = 0;
            for (unsigned i = 0; i < n; i++) alt = (alt << DB) + Z((i & 1) ? top : 0UL);
            v.push_back(alt); v.push_back(-alt);
            v.push_back((t - 1) - (Z(top) << ((n / 2) * DB)));
            if (n > 2) { v.push_back((Z(1) << ((n - 1) * DB)) + top); v.push_back((Z(top) << ((n - 1) * DB))); }
        }
        pairs(v, v);
        // long shifts and values beyond 2^16 bits and digits
        std::vector<Z> u;
        for (unsigned long n : { 1UL, 64UL, 1000UL, 4096UL, 65535UL, 65536UL, 65537UL, 1048577UL }) { Z t = Z(1) << n; u.push_back(t - 1); u.push_back(t + 1); u.push_back(-t); }
        unary(u, { 0, 255, 256, 257, 511, 512, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 65600, 131072, 131075, 1048577 });
        std::vector<Z> w;
        for (unsigned long n : { 65535UL, 65536UL, 65537UL, 65540UL }) { Z t = Z(1) << (n * DB); w.push_back(t - 1); w.push_back(-t); }
        for (auto &a : w) for (auto &b : w) for (int op = 0; op < 4; op++) {
            if (!mine() || (DB == 8 && !g_thorough)) continue;
            CASE("values of about 65536 digits, operation %lld", op); g_states++; g_trans++;
            A->fit(a); Bm->fit(b); preset(&R->m, 1);
            int res; Z want;
            if (op == 0) { want = a + b; res = cry_mpi_add(*R, *A, *Bm); } else if (op == 1) { want = a - b; res = cry_mpi_sub(*R, *A, *Bm); }
            else if (op == 2) { want = a << 65; res = cry_mpi_shl(*R, *A, 65); } else { want = abs(a) >> 65; if (a < 0) want = -want; res = cry_mpi_shr(*R, *A, 65); }
            check("long", *R, want, res, "65536 digits");
            if (cry_mpi_count_bits(*R) != (int)(want == 0 ? 0 : mpz_sizeinbase(Z(abs(want)).get_mpz_t(), 2))) fail("bits", "bit count of a long value");
        }
    } else if (g_mode == "alias") {
        all_aliases(values(g_thorough ? full : lean, DB == 8 || g_thorough ? 3 : 2));
    } else if (g_mode == "unary") {
        auto v = values(full, g_thorough ? 5 : 4);
        std::set<size_t> sh;
        for (size_t i = 0; i <= (DB == 8 ? 4 * DB + 1 : 10); i++) sh.insert(i);
        for (size_t k = 1; k <= 4; k++) for (int d = -2; d <= 2; d++) sh.insert(k * DB + d);
        if (g_thorough) for (size_t i = 0; i <= 5 * DB + 2; i++) sh.insert(i);
        std::vector<Z> v3 = g_thorough ? v : values(full, 3);
        unary(v3, std::vector<size_t>(sh.begin(), sh.end()));
        unary(v, { 1, DB - 1, DB, DB + 1 });
        auto vd = values(full, 3);
        mul_dig(vd, full);
        // every value of the leading byte at every byte of a digit, with zeros or ones below: bit counts and neighbouring shifts
        std::vector<Z> lead;
        for (size_t by = 0; by < 2 * DB / 8 + 1; by++) for (unsigned b = 1; b < 256; b++) for (int low = 0; low < 2; low++) { Z t = Z(b) << (8 * by); if (low) t += (Z(1) << (8 * by)) - 1; lead.push_back(b & 1 ? Z(-t) : t); }
        unary(lead, { 1, 7, DB - 1, DB + 3 });
    } else if (g_mode == "history") {
        std::vector<std::array<long, 3>> in;
        std::vector<long> al = { 0, 1, -1, 255, -256, 65535 };
        if (DB != 8) al = { 0, 1, -1, 0x7fffffffffffffffL, -0x7fffffffffffffffL, 3 };
        for (auto a : al) for (auto b : al) for (auto c : al)
            if (g_thorough || (a == al[0] || b == al[4] || (a == -1 && c != b))) in.push_back({ a, b, c });
        history(g_thorough ? 3 : 2, 6, in);
    }
    return done();
}

// C05: conversions between numbers and bytes, text, machine integers.
#include "mpiref.hpp"
#include <climits>
#include <sys/mman.h>
static const unsigned DB = CRY_MPI_DIGIT_BITS;

// previous contents of a destination
enum { NPREV = 5 };
static void prev(M &r, int k)
{
    switch (k) {
    case 0: r.set(0); break;
    case 1: r.set(-((Z(1) << (20 * DB)) - 1)); break;
    case 2: r.fit(5); break;
    case 3: free(r.m.data); r.m.data = nullptr; r.m.alloc = r.m.used = 0; r.m.sign = 0; break; // as init_size(0)
    case 4: r.fit(-((Z(1) << DB) - 1)); break;
    }
}
static Z frombytes(const Bytes &b)
{
    Z v;
    if (b.size()) mpz_import(v.get_mpz_t(), b.size(), 1, 1, 0, 0, b.data());
    return v;
}
static void want(const char *tag, cry_mpi *r, const Z &v)
{
    const char *nc = noncanon(r);
    if (nc) fail(tag, "not canonical: %s", nc);
    if (zget(r) != v) fail(tag, "got %s expected %s", zs(zget(r)).c_str(), zs(v).c_str());
}
static void check_store(const Z &v, size_t maxextra, size_t lo = 0)
{
    M A; A.fit(v);
    size_t need = v == 0 ? 0 : (mpz_sizeinbase(v.get_mpz_t(), 2) + 7) / 8;
    Bytes raw(need);
    if (need) mpz_export(raw.data(), nullptr, 1, 1, 0, 0, v.get_mpz_t());
    for (size_t sz = lo; sz <= (lo ? lo : need + maxextra); sz++)
        for (int pad = 0; pad < 2; pad++) {
            Buf b(sz, 0xA5);
            g_trans++; g_traces++;
            CASET("store_bin of " + zs(v) + " into " + std::to_string(sz) + " bytes, pad " + std::to_string(pad));
            sample();
            int res = cry_mpi_store_bin(A, b.p, sz, pad);
            if (sz < need) {
                if (res == 0) fail("store_bin", "accepted although %zu bytes are needed", need);
                continue;
            }
            if (res != 0) fail("store_bin", "refused");
            Bytes w(sz, 0xA5);
            if (pad) { std::fill(w.begin(), w.end(), 0); std::copy(raw.begin(), raw.end(), w.end() - need); }
            else std::copy(raw.begin(), raw.end(), w.begin());
            if (!b.eq(w)) fail("store_bin", "got %s expected %s", hex(b.p, b.n).c_str(), hex(w).c_str());
            if (A.get() != v) fail("store_bin", "value changed");
        }
}
static void check_store_at(const Z &v, size_t sz) { check_store(v, 0, sz); }
static void check_load(const Bytes &in, bool all)
{
    Z v = frombytes(in);
    for (int p = 0; p < (all ? NPREV : 1); p++) {
        M R;
        prev(R, all ? p : 1);
        Buf b(in);
        g_trans++; g_traces++;
        CASET("load_bin of " + hex(in) + " over previous content " + std::to_string(p));
        sample();
        int res = cry_mpi_load_bin(R, b.p, b.n);
        if (res != 0) fail("load_bin", "refused");
        want("load_bin", R, v);
        if (!b.eq(in)) fail("load_bin", "input changed");
    }
    if (all) {
        cry_mpi x; memset(&x, 0x5a, sizeof x);
        Buf b(in);
        CASET("init_bin of " + hex(in));
        if (cry_mpi_init_bin(&x, b.p, b.n) != 0) fail("init_bin", "refused");
        want("init_bin", &x, v);
        cry_mpi_clear(&x);
    }
}
static int dig(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 255; }
static void check_str(const std::string &s, unsigned radix, int p)
{
    Z v = 0;
    bool ok = true, any = false;
    size_t i = 0; bool neg = false;
    if (s[0] == '-') { neg = true; i++; } else if (s[0] == '+') i++;
    size_t i0 = i;
    for (; i < s.size(); i++) {
        int d = dig(s[i]);
        if (d >= (int)radix) { ok = false; break; }
        if (s.size() < 1000) v = v * radix + d;
        any = true;
    }
    if (ok && any && s.size() >= 1000) v = Z(s.substr(i0), radix);
    if (neg) v = -v;
    M R; prev(R, p);
    Buf b(Bytes(s.c_str(), s.c_str() + s.size() + 1));
    g_trans++; g_traces++;
    CASET("load_str radix " + std::to_string(radix) + " bytes " + hex(s.data(), s.size()) + " '" + s + "' over previous content " + std::to_string(p));
    sample();
    int res = cry_mpi_load_str(R, radix, (char *)b.p);
    if (!ok) {
        if (res == 0) fail("load_str", "malformed text accepted as %s", zs(R.get()).c_str());
    } else if (any || res == 0) {
        if (res != 0) fail("load_str", "valid text refused");
        want("load_str", R, v);
    }
    const char *nc = noncanon(R);
    if (nc) fail("load_str", "destination not canonical: %s", nc);
    if (p == 0) {
        cry_mpi x; memset(&x, 0x5a, sizeof x);
        res = cry_mpi_init_str(&x, radix, (char *)b.p);
        if (!ok && res == 0) fail("init_str", "malformed text accepted");
        if (ok && any) { if (res) fail("init_str", "valid text refused"); want("init_str", &x, v); }
        if (res == 0) cry_mpi_clear(&x);
    }
}
static void roundtrip_str(const Z &v, unsigned radix)
{
    std::string s = v.get_str(radix);
    if (radix <= 16) {
        M A; A.fit(v);
        Buf b(s.size() + 1);
        g_trans++; g_traces++;
        CASET("store_str radix " + std::to_string(radix) + " of " + zs(v));
        sample();
        int res = cry_mpi_store_str(A, radix, (char *)b.p);
        if (res != 0) fail("store_str", "refused");
        if (memcmp(b.p, s.c_str(), s.size() + 1)) fail("store_str", "got %.300s expected %.300s", b.p, s.c_str());
        if (A.get() != v) fail("store_str", "value changed");
    }
    check_str(s, radix, 1);
    std::string u = s;
    for (auto &c : u) c = toupper(c);
    if (u != s) check_str(u, radix, 2);
    check_str(v < 0 ? "-000" + s.substr(1) : "00" + s, radix, 3);
    if (v >= 0) check_str("+" + s, radix, 4);
}
static std::vector<Z> family(unsigned maxdigs)
{
    std::set<Z> s;
    for (unsigned d = 0; d <= maxdigs * DB; d += (DB == 8 ? 1 : 4))
        for (int e = -2; e <= 2; e++) s.insert((Z(1) << d) + e);
    for (unsigned n = 1; n <= 30; n++) { Z t; mpz_ui_pow_ui(t.get_mpz_t(), 10, n); s.insert(t); s.insert(t - 1); mpz_ui_pow_ui(t.get_mpz_t(), 7, n); s.insert(t); }
    for (unsigned n = 1; n <= maxdigs * DB / 8; n++) s.insert(frombytes(patv(n, 5)));
    return std::vector<Z>(s.begin(), s.end());
}
int main(int argc, char **argv)
{
    init(argc, argv);
    bool T = g_thorough;
    if (g_mode == "bin") {
        unsigned L = DB == 8 ? 14 : 42;
        if (T) L = DB == 8 ? 24 : 90;
        for (unsigned n = 0; n <= L; n++)
            for (unsigned z = 0; z <= n; z++) {        // leading zero bytes
                if (!mine()) continue;
                for (int k = 0; k < 8; k++) {
                    Bytes b(n, 0);
                    for (unsigned i = z; i < n; i++)
                        b[i] = k == 0 ? 0xff : k == 1 ? (i == z) : k == 2 ? pat(i, 3) | (i == z) : k == 3 ? ((i == z) ? 0x80 : 0) : k == 4 ? 0x01 : k == 5 ? ((i == z || i == n - 1) ? 0x7f : 0) : k == 6 ? ((i - z) & 1 ? 0 : 0xff) : 0x80;
                    g_states++;
                    check_load(b, true);
                    Z v = frombytes(b);
                    if (z <= 1) { check_store(v, DB / 8 + 2); check_store(-v, 2); }
                }
            }
        long N = T ? (1L << 24) : (1L << 17);
        for (long c = 0; c < N; c += 1024) {
            if (!mine()) continue;
            for (long v = c; v < c + 1024; v++) {
                Bytes b = { (uint8_t)(v >> 16), (uint8_t)(v >> 8), (uint8_t)v };
                g_states++;
                check_load(b, v < 70000);
                if (v < 70000) check_store(Z(v), 1);
            }
        }
        // long paddings: rooms and leading zeros around the byte and word counters
        std::vector<size_t> zs_ = { 250, 254, 255, 256, 257, 300, 511, 512, 513, 600, 1000 };
        for (size_t z : { 65534, 65535, 65536, 65537 }) zs_.push_back(z);
        for (size_t z : zs_)
            for (unsigned n : { 0u, 1u, 2u, 3u, 7u, 8u, 9u, 16u, 33u }) {
                if (!mine()) continue;
                Bytes b(z, 0);
                for (unsigned i = 0; i < n; i++) b.push_back(pat(i, 5) | (i == 0));
                g_states++;
                check_load(b, z < 2000);
            }
        for (unsigned n : { 0u, 1u, 7u, 8u, 9u, 31u, 32u, 33u, 127u, 128u, 129u, 255u, 256u, 257u, 300u }) {
            if (!mine()) continue;
            Bytes b; for (unsigned i = 0; i < n; i++) b.push_back(pat(i, 6) | (i == 0));
            g_states++;
            check_load(b, true);
            check_store(frombytes(b), T ? 1100 : 530);
            for (size_t sz : { 4095, 4096, 65534, 65535, 65536, 65537, 65600 }) check_store_at(frombytes(b), sz);
        }
        // long values, every digit significant
        for (size_t n : LONGS) for (int k = 0; k < 3; k++) for (unsigned lead : { 0u, 1u, 5u }) {
            if (!mine() || n > 140000) continue;
            Bytes b(n, k == 0 ? 0xff : 0);
            for (size_t i = 0; i < n && k; i++) b[i] = k == 1 ? pat(i, 8) | (i == 0) : i == 0 || i == n - 1;
            b.insert(b.begin(), lead, 0);
            g_states++;
            check_load(b, true);
            if (!lead) for (size_t sz : { n - 1, n, n + 1, n + 9 }) check_store_at(frombytes(b), sz);
        }
    } else if (g_mode == "str") {
        for (size_t n : LONGS) for (int k = 0; k < 3; k++) {         // long hexadecimal text
            if (!mine() || n > 140000) continue;
            std::string t(n, k == 0 ? 'f' : '0');
            for (size_t i = 0; i < n && k; i++) t[i] = k == 1 ? "0123456789abcdef"[i == 0 ? 7 : pat(i, 9) & 15] : i == 0 || i == n - 1 ? '1' : '0';
            Z v(t, 16);
            g_states++; roundtrip_str(v, 16); if (k == 1) roundtrip_str(-v, 16);
            for (size_t pos : { (size_t)0, n / 2, n - 1 }) { std::string u = t; u[pos] = 'g'; check_str(u, 16, 1); }
        }
        for (unsigned radix : { 2u, 8u, 10u, 36u }) for (unsigned n : { 254u, 255u, 256u, 257u, 511u, 512u, 513u, 1023u, 1024u, 1025u, 2048u, 4097u }) for (int k = 0; k < 2; k++) {
            if (!mine() || (!T && DB == 8 && n > 1025)) continue;
            std::string t;
            for (unsigned i = 0; i < n; i++) t += "0123456789abcdefghijklmnopqrstuvwxyz"[k == 0 ? radix - 1 : i == 0 ? 1 : pat(i, 9) % radix];
            g_states++; roundtrip_str(Z(t, radix), radix);
        }
        long N = T ? 20000 : 2600;
        for (unsigned radix = 2; radix <= 36; radix++)
            for (long c = -N; c < N; c += 200) {
                if (!mine()) continue;
                for (long v = c; v < c + 200; v++) { g_states++; roundtrip_str(Z(v), radix); }
            }
        for (unsigned radix = 2; radix <= 36; radix++)
            for (auto &v : family(DB == 8 ? 10 : 5)) {
                if (!mine()) continue;
                if (!T && radix > 17 && radix != 32 && radix != 36) continue;
                g_states++; roundtrip_str(v, radix); roundtrip_str(-v, radix);
            }
        // sizes of real keys
        for (unsigned radix : { 2u, 3u, 8u, 10u, 16u, 17u, 32u, 36u })
            for (unsigned n : { 15u, 16u, 17u, 31u, 32u, 33u, 63u, 64u, 65u, 66u, 129u })
                for (int k = 0; k < 6; k++) {
                    if (!mine()) continue;
                    Z v = bigv(n, k, 9); g_states++; roundtrip_str(k & 1 ? Z(-v) : v, radix);
                }
        for (unsigned radix = 0; radix < 70; radix++) {
            M A(Z(1234)); Buf b(64);
            CASET("radix limits " + std::to_string(radix));
            g_trans++; g_traces++; g_states++;
            if ((radix < 2 || radix > 16) && cry_mpi_store_str(A, radix, (char *)b.p) == 0 && radix < 2) fail("store_str", "radix %u accepted", radix);
            if (radix > 36 && cry_mpi_load_str(A, radix, "101") == 0) fail("load_str", "radix %u accepted", radix);
        }
    } else if (g_mode == "badstr") {
        static const unsigned char al[] = { '0', '1', '7', '9', 'a', 'f', 'g', 'z', 'A', 'F', 'G', 'Z', ' ', '-', '+', '/', ':', '@', '[', '`', '{', 0x80, 0xff, '.', 'x', '\n' };
        const int NA = sizeof al;
        int maxlen = T ? 4 : 3;
        for (unsigned radix = 2; radix <= 36; radix++) {
            if (!T && radix > 12 && radix != 15 && radix != 16 && radix != 17 && radix != 35 && radix != 36) continue;
            for (int a = 0; a < NA; a++) {
                if (!mine()) continue;
                long tot = 1; for (int l = 1; l < maxlen; l++) tot *= (NA + 1);
                for (long c = 0; c < tot; c++) {
                    std::string s(1, (char)al[a]);
                    long x = c; bool end = false, skip = false;
                    for (int l = 1; l < maxlen; l++, x /= NA + 1) { int d = x % (NA + 1); if (d == NA) end = true; else if (end) skip = true; else s += (char)al[d]; }
                    if (skip) continue;
                    g_states++;
                    check_str(s, radix, (int)(c % NPREV));
                }
            }
            // long text with one bad character anywhere
            for (int len : { 8, 9, 16, 17, 33 }) for (int pos = 0; pos < len; pos++) for (int k = 0; k < NA; k++) {
                if (!mine()) continue;
                std::string s(len, '1'); s[pos] = (char)al[k]; g_states++; check_str(s, radix, 1);
            }
        }
        if (mine()) check_str("", 16, 0), check_str("", 10, 0);
    } else if (g_mode == "int") {
        std::set<long> V;
        for (int b = 0; b < 64; b++) for (int e = -3; e <= 3; e++) { unsigned long u = (1UL << b) + e; V.insert((long)u); V.insert(-(long)u); }
        for (long v = -70000; v <= 70000; v++) V.insert(v);
        V.insert(LONG_MIN); V.insert(LONG_MAX); V.insert(LONG_MIN + 1);
        for (long v : V) {
            if (!mine()) continue;
            for (int p = 0; p < NPREV; p++) {
                M R; prev(R, p);
                CASE("set_int(%lld) over previous content %lld", v, p);
                sample();
                g_states++; g_trans++; g_traces++;
                if (cry_mpi_set_int(R, v) != 0) fail("set_int", "refused");
                want("set_int", R, Z(v));
                long o = 77;
                if (cry_mpi_get_int(R, &o) != 0 || o != v) fail("get_int", "got %ld expected %ld", o, v);
            }
            cry_mpi x; memset(&x, 0x5a, sizeof x);
            CASE("init_int(%lld)", v);
            if (cry_mpi_init_int(&x, v) != 0) fail("init_int", "refused");
            want("init_int", &x, Z(v));
            cry_mpi_clear(&x);
        }
        for (unsigned b = 50; b < 200; b++)
            for (int e = -4; e <= 4; e++)
                for (int s = 0; s < 2; s++) {
                    if (!mine()) continue;
                    Z v = (Z(1) << b) + e; if (s) v = -v;
                    M A; A.fit(v);
                    long o = 77;
                    CASET("get_int of " + zs(v));
                    g_states++; g_trans++; g_traces++;
                    int res = cry_mpi_get_int(A, &o);
                    bool fits = v >= Z(LONG_MIN) && v <= Z(LONG_MAX);
                    if (fits != (res == 0)) fail("get_int", "returned %d", res);
                    if (fits && Z(o) != v) fail("get_int", "got %ld", o);
                    if (!fits && o != 77) fail("get_int", "output written although refused");
                }
    } else if (g_mode == "print") {
        int fd = memfd_create("out", 0), so = dup(1);
        for (auto &v0 : family(3))
            for (unsigned radix = 2; radix <= 16; radix++)
                for (int s = 0; s < 2; s++) {
                    if (!mine()) continue;
                    Z v = s ? Z(-v0) : v0;
                    M A; A.fit(v);
                    CASET("print radix " + std::to_string(radix) + " of " + zs(v));
                    g_states++; g_trans++; g_traces++;
                    fflush(stdout);
                    if (ftruncate(fd, 0)) {} lseek(fd, 0, SEEK_SET); dup2(fd, 1);
                    cry_mpi_print(A, radix);
                    fflush(stdout);
                    dup2(so, 1);
                    char buf[4096]; ssize_t n = pread(fd, buf, sizeof buf - 1, 0); buf[n > 0 ? n : 0] = 0;
                    if (std::string(buf) != v.get_str(radix) + "\n") fail("print", "printed %s", buf);
                }
    }
    return done();
}

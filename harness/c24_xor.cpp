// C24: buffer XOR: every placement of two or three ranges in one arena, every length.
#include "h.hpp"
extern "C" {
void cry_memxor(unsigned char *dst, const unsigned char *src, size_t size);
void cry_memxor2(unsigned char *dst, const unsigned char *src1, const unsigned char *src2, size_t size);
}
static void chk(unsigned char *ar, const unsigned char *or_, const unsigned char *want, size_t n, const char *what)
{
    g_traces++; g_trans++; (void)or_;
    if (memcmp(ar, want, n)) { size_t i = 0; while (ar[i] == want[i]) i++; fail("xor", "%s: byte %zu of the arena is %02x, must be %02x", what, i, ar[i], want[i]); }
}
static void place3(size_t n, size_t W)
{
    size_t L = W + n;
    unsigned char *ar = (unsigned char *)malloc(L + 1), *o = (unsigned char *)malloc(L + 1), *w = (unsigned char *)malloc(L + 1);
    for (size_t i = 0; i < L; i++) o[i] = pat(i, n);
    for (size_t a = 0; a <= W; a++) {
        if (!mine()) continue;
        for (size_t b = 0; b <= W; b++) for (size_t d = 0; d <= W; d++) {
            CASE("size %lld sources at %lld and %lld, destination at %lld", n, a, b, d); sample(); g_states++;
            memcpy(ar, o, L); memcpy(w, o, L);
            for (size_t i = 0; i < n; i++) w[d + i] = o[a + i] ^ o[b + i];
            cry_memxor2(ar + d, ar + a, ar + b, n);
            chk(ar, o, w, L, "two sources");
        }
    }
    free(ar); free(o); free(w);
}
static void all()
{
    bool T = g_thorough;
    for (size_t n = 0; n <= (T ? 20 : 13); n++) place3(n, 2 * n + 3);
    for (size_t n : { 16, 17, 24, 33 }) if (T || n <= 24) place3(n, 2 * n + 1);
    for (size_t n = 0; n <= 48; n++) for (size_t a = 0; a <= 2 * n + 3; a++) {
        if (!mine()) continue;
        size_t L = 3 * n + 6; Bytes o = patv(L, 2);
        for (size_t d = 0; d <= 2 * n + 3; d++) {
            CASE("size %lld source at %lld, destination at %lld", n, a, d); sample(); g_states++;
            Bytes ar = o, w = o; for (size_t i = 0; i < n; i++) w[d + i] = o[d + i] ^ o[a + i];
            cry_memxor(ar.data() + d, ar.data() + a, n); chk(ar.data(), o.data(), w.data(), L, "one source");
        }
    }
    // longer overlapping ranges: every size class, distances around 0, word sizes and the length
    for (size_t n : { 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 4096, 4097 }) {
        std::vector<long> D; for (long k : { 0L, 1L, 2L, 3L, 4L, 7L, 8L, 9L, 15L, 16L, 17L, 31L, 32L, 33L, 64L, (long)n / 2, (long)n - 1, (long)n, (long)n + 1 }) { D.push_back(k); if (k) D.push_back(-k); }
        size_t B = 2 * n + 70, L = 2 * B + n; Bytes o = patv(L, 9);
        for (long x : D) {
            if (!mine()) continue;
            { CASE("size %lld destination at distance %lld from the source", n, x); sample(); g_states++;
              Bytes ar = o, w = o; for (size_t i = 0; i < n; i++) w[B + x + i] = o[B + x + i] ^ o[B + i];
              cry_memxor(ar.data() + B + x, ar.data() + B, n); chk(ar.data(), o.data(), w.data(), L, "one source"); }
            if (n > 1024 && !T) continue;
            for (long y : D) {
                CASE("size %lld second source at distance %lld, destination at distance %lld from the first", n, y, x); sample(); g_states++;
                Bytes ar = o, w = o; for (size_t i = 0; i < n; i++) w[B + x + i] = o[B + i] ^ o[B + y + i];
                cry_memxor2(ar.data() + B + x, ar.data() + B, ar.data() + B + y, n); chk(ar.data(), o.data(), w.data(), L, "two sources");
            }
        }
    }
    // separate exact-size buffers, every alignment, long sizes
    for (size_t n = 0; n <= (T ? 700 : 300); n++) for (size_t al = 0; al < 64; al++) {
        if (!mine()) continue;
        size_t x = al & 3, y = al >> 2 & 3, z = al >> 4;
        CASE("size %lld alignments %lld %lld %lld", n, x, y, z); sample(); g_states++;
        Bytes p = patv(n, 3), q = patv(n, 4), e = patv(n, 5);
        auto mk = [](const Bytes &v, size_t off) { Bytes t(off, 0x77); t.insert(t.end(), v.begin(), v.end()); return t; };
        Buf a(mk(p, x)), b(mk(q, y)), d(mk(e, z));
        cry_memxor2(d.p + z, a.p + x, b.p + y, n);
        Bytes w = mk(p, z); for (size_t i = 0; i < n; i++) w[z + i] ^= q[i];
        if (!d.eq(w)) fail("xor", "separate buffers, two sources");
        if (!a.eq(mk(p, x)) || !b.eq(mk(q, y))) fail("source", "source changed");
        Buf d2(mk(e, z)); cry_memxor(d2.p + z, a.p + x, n);
        w = mk(e, z); for (size_t i = 0; i < n; i++) w[z + i] ^= p[i];
        if (!d2.eq(w) || !a.eq(mk(p, x))) fail("xor", "separate buffers, one source");
        g_traces += 2; g_trans += 2;
    }
    for (size_t n : LONGS) for (size_t al = 0; al < 16; al++) {
        if (!mine()) continue;
        size_t x = al & 3, z = al >> 2; CASE("long size %lld alignments %lld %lld", n, x, z); g_states++;
        Bytes p = patv(n + x, 3), q = patv(n, 4), e = patv(n + z, 5), w = e, w2 = e;
        for (size_t i = 0; i < n; i++) { w[z + i] ^= p[x + i]; w2[z + i] = p[x + i] ^ q[i]; }
        Buf a(p), b(q), d(e), d2(e); cry_memxor(d.p + z, a.p + x, n); cry_memxor2(d2.p + z, a.p + x, b.p, n);
        if (!d.eq(w) || !d2.eq(w2) || !a.eq(p) || !b.eq(q)) fail("xor", "long separate buffers");
        // in place and shifted by one
        Bytes m = patv(n + 1, 6), m2 = m, m3 = m; for (size_t i = 0; i < n; i++) { m2[1 + i] = m[i] ^ q[i]; m3[i] = m[1 + i] ^ q[i]; }
        Buf s(m), s3(m); cry_memxor2(s.p + 1, s.p, b.p, n); cry_memxor2(s3.p, s3.p + 1, b.p, n);
        if (!s.eq(m2) || !s3.eq(m3)) fail("xor", "long overlapping buffers");
        g_traces += 4; g_trans += 4;
    }
    // all byte pairs
    for (unsigned i = 0; i < 256; i++) { if (!mine()) continue; for (unsigned j = 0; j < 256; j++) { unsigned char a = i, b = j, c = 0; cry_memxor2(&c, &a, &b, 1); if (c != (i ^ j)) fail("xor", "byte"); cry_memxor(&a, &b, 1); if (a != (i ^ j)) fail("xor", "byte"); g_states++; } }
}
int main(int argc, char **argv) { init(argc, argv); all(); return done(); }

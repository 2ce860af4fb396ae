// C18: MD5, SHA-1, SHA-256, SHA-384, SHA-512 against OpenSSL: all lengths, all
// splits into updates, all short histories of a context, very long messages.
#include "h.hpp"
#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/evp.h>
#include <openssl/md5.h>
#include <openssl/sha.h>
#include <sys/mman.h>
extern "C" {
#include <cry/md5.h>
#include <cry/sha1.h>
#include <cry/sha256.h>
#include <cry/sha512.h>
}
enum { M5, S1, S256, S384, S512, NH };
static const char *hn[] = { "MD5", "SHA-1", "SHA-256", "SHA-384", "SHA-512" };
static const size_t dl[] = { 16, 20, 32, 48, 64 }, bl[] = { 64, 64, 64, 128, 128 };
static Bytes ref(int h, const uint8_t *p, size_t n)
{
    Bytes o(dl[h]);
    switch (h) { case M5: MD5(p, n, o.data()); break; case S1: SHA1(p, n, o.data()); break; case S256: SHA256(p, n, o.data()); break; case S384: SHA384(p, n, o.data()); break; default: SHA512(p, n, o.data()); }
    return o;
}
struct L {
    int h; union { cry_md5_ctx m; cry_sha1_ctx a; cry_sha256_ctx b; cry_sha512_ctx c; } u;
    L(int h_) : h(h_) { memset(&u, 0xA5, sizeof u); }
    void ini() { switch (h) { case M5: cry_md5_init(&u.m); break; case S1: cry_sha1_init(&u.a); break; case S256: cry_sha256_init(&u.b); break; default: cry_sha512_init(&u.c, h == S384); } g_trans++; }
    void upd(const uint8_t *p, size_t n) { switch (h) { case M5: cry_md5_update(&u.m, p, n); break; case S1: cry_sha1_update(&u.a, p, n); break; case S256: cry_sha256_update(&u.b, p, n); break; default: cry_sha512_update(&u.c, p, n); } g_trans++; }
    void dig(uint8_t *o) { switch (h) { case M5: cry_md5_digest(&u.m, o); break; case S1: cry_sha1_digest(&u.a, o); break; case S256: cry_sha256_digest(&u.b, o); break; default: cry_sha512_digest(&u.c, o); } g_trans++; }
    void clr() { switch (h) { case M5: cry_md5_clear(&u.m); break; case S1: cry_sha1_clear(&u.a); break; case S256: cry_sha256_clear(&u.b); break; default: cry_sha512_clear(&u.c); } g_trans++; }
    void one(uint8_t *o, const uint8_t *p, size_t n) { switch (h) { case M5: cry_md5(o, p, n); break; case S1: cry_sha1(o, p, n); break; case S256: cry_sha256(o, p, n); break; case S384: cry_sha384(o, p, n); break; default: cry_sha512(o, p, n); } g_trans++; }
};
static void cmp(int h, const Buf &o, const Bytes &w, const char *how) { g_traces++; if (!o.eq(w)) fail("digest", "%s %s: got %s, standard %s", hn[h], how, hex(o.bytes()).c_str(), hex(w).c_str()); }
static void lens()
{
    size_t N = g_thorough ? 4200 : 1100;
    for (int h = 0; h < NH; h++)
        for (size_t n = 0; n <= N; n++)
            for (int v = 0; v < 3; v++) {
                if (!mine()) continue;
                CASE("hash=%lld length=%lld variant=%lld", h, n, v); sample(); g_states++;
                Bytes d = v == 0 ? Bytes(n, 0) : v == 1 ? Bytes(n, 0xff) : patv(n, 1);
                Bytes w = ref(h, d.data(), n);
                Buf in(d), o(dl[h]); L l(h);
                l.ini(); l.upd(in.p, n); l.dig(o.p); cmp(h, o, w, "single update");
                Buf o2(dl[h]); l.one(o2.p, in.p, n); cmp(h, o2, w, "one-shot");
                if (!in.eq(d)) fail("source", "message changed");
                // after the digest a context initialised again is new
                l.ini(); Bytes d2 = patv(n % 150, 2); l.upd(d2.data(), d2.size()); l.dig(o.p); cmp(h, o, ref(h, d2.data(), d2.size()), "initialised again");
            }
    // each byte value at each position of a one- and two-block message
    for (int h = 0; h < NH; h++)
        for (size_t pos = 0; pos < bl[h] + 4; pos++)
            for (int v = 0; v < 256; v++) {
                if (!mine()) continue;
                CASE("hash=%lld position=%lld value=%lld", h, pos, v); g_states++;
                Bytes d(bl[h] + 4, 0x61); d[pos] = v;
                Buf o(dl[h]); L l(h); l.one(o.p, d.data(), d.size()); cmp(h, o, ref(h, d.data(), d.size()), "byte sweep");
            }
}
static void splits()
{
    for (int h = 0; h < NH; h++) {
        size_t B = bl[h], N = g_thorough ? 3 * B + 20 : 2 * B + 10;
        // all splits in two and (around the block edges) three pieces of every length
        for (size_t n = 0; n <= N; n++)
            for (size_t a = 0; a <= n; a++) {
                if (!mine()) continue;
                CASE("hash=%lld length=%lld first=%lld", h, n, a); sample();
                Bytes d = patv(n, 5), w = ref(h, d.data(), n);
                Buf in(d), o(dl[h]); L l(h);
                g_states++;
                l.ini(); l.upd(in.p, a); l.upd(in.p + a, n - a); l.dig(o.p); cmp(h, o, w, "two updates");
                for (size_t b = a; b <= n; b++) {
                    if (!g_thorough) { size_t x = (b - a) % B; if (b - a > 2 && b - a < B - 2 && n - b > 2 && x) continue; }
                    g_states++;
                    l.ini(); l.upd(in.p, a); l.upd(in.p + a, b - a); l.upd(in.p + b, n - b); l.dig(o.p);
                    cmp(h, o, w, "three updates");
                }
            }
        // every composition of a stretch that straddles the padding and block boundaries
        unsigned K = g_thorough ? 12 : 10;
        for (size_t pre : { (size_t)0, B - 5, B - (B / 8) - 5, 2 * B - 4 })
            for (unsigned cut = 0; cut < (1u << (K - 1)); cut++) {
                if (!mine()) continue;
                CASE("hash=%lld prefix=%lld cuts=%llx", h, pre, cut); sample(); g_states++;
                Bytes d = patv(pre + K, 6); Buf o(dl[h]); L l(h);
                l.ini(); if (pre) l.upd(d.data(), pre);
                size_t len = 1, at = pre;
                for (unsigned i = 0; i < K; i++, len++) if (i == K - 1 || (cut >> i & 1)) { Buf c(Bytes(d.begin() + at, d.begin() + at + len)); l.upd(c.p, len); at += len; len = 0; if (i & 1) l.upd(c.p, 0); }
                l.dig(o.p); cmp(h, o, ref(h, d.data(), d.size()), "composition");
            }
    }
}
static void hist()
{
    unsigned D = g_thorough ? 8 : 7;
    for (int h = 0; h < NH; h++) {
        size_t B = bl[h];
        std::vector<size_t> sz = { 0, 1, B - 9, B, 2 * B + 1 };
        const int NO = 7;   // 5 updates, digest (then init), clear+init
        uint64_t total = 1; for (unsigned i = 0; i < D; i++) total *= NO;
        for (uint64_t x = 0; x < total; x++) {
            if (!mine()) continue;
            // only the histories whose last operation is a digest are distinct observations
            if ((x / (total / NO)) != 5) continue;
            CASE("hash=%lld history %lld depth %lld", h, x, D); sample();
            L l(h); l.ini(); Bytes msg; uint64_t t = x;
            for (unsigned i = 0; i < D; i++, t /= NO) {
                int o = t % NO; g_states++;
                if (o < 5) { Bytes d = patv(sz[o], i); l.upd(d.data(), d.size()); msg.insert(msg.end(), d.begin(), d.end()); }
                else if (o == 5) { Buf b(dl[h]); l.dig(b.p); cmp(h, b, ref(h, msg.data(), msg.size()), "history"); l.ini(); msg.clear(); }
                else { l.clr(); l.ini(); msg.clear(); }
            }
        }
    }
}
// long messages: the bit counter passes 2^32 and single updates pass 4 GB
static void big()
{
    struct J { int h; size_t n; int chunks; };
    std::vector<J> js;
    size_t G = (size_t)1 << 30;
    for (int h = 0; h < NH; h++) js.push_back({ h, G / 2 + 3, 1 });
    for (int h = 0; h < NH; h++) js.push_back({ h, G / 2 + 77, 3 });
    for (int h = 0; h < NH; h++) js.insert(js.begin(), { h, 4 * G + 5, 1 });   // the longest first
    if (g_thorough) for (int h = 0; h < NH; h++) js.push_back({ h, 4 * G + 70, 2 });
    for (auto &j : js) {
        if (!mine()) continue;
        CASE("hash=%lld length=%lld in %lld updates", j.h, j.n, j.chunks); g_hang_secs = 900; sample(); g_states++;
        uint8_t *z = (uint8_t *)mmap(nullptr, j.n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (z == MAP_FAILED) continue;
        L l(j.h); Buf o(dl[j.h]); l.ini();
        size_t c = j.n / j.chunks, at = 0;
        for (int i = 0; i < j.chunks; i++) { size_t n = i == j.chunks - 1 ? j.n - at : c; l.upd(z + at, n); at += n; }
        l.dig(o.p);
        cmp(j.h, o, ref(j.h, z, j.n), "long message");
        munmap(z, j.n);
    }
}
int main(int argc, char **argv)
{
    init(argc, argv);
    if (g_mode == "lens") lens(); else if (g_mode == "splits") splits(); else if (g_mode == "big") big(); else hist();
    return done();
}

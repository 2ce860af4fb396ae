// C21: AES counter generator and LFSR-113 against reference models, all histories of
// seeding and drawing. The generators are process-global, so each history starts by seeding,
// and the very first histories of each process start without.
#include "h.hpp"
#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/aes.h>
extern "C" {
#include <cry/prng.h>
}
struct RA {
    AES_KEY k; uint8_t ctr[16]; uint8_t blk[16]; int at = 16;
    void seed(Bytes s) { s.resize(std::max<size_t>(s.size(), 32), 0); AES_set_encrypt_key(s.data(), 128, &k); memcpy(ctr, &s[16], 16); at = 16; }
    Bytes rand(size_t n) { Bytes o; while (n--) { if (at == 16) { AES_encrypt(ctr, blk, &k); for (int i = 15; i >= 0 && !++ctr[i]; i--); at = 0; } o.push_back(blk[at++]); } return o; }
};
struct RL {
    uint32_t z[4];
    void seed(const Bytes &s)
    {
        uint8_t b[16] = { 0 }; for (size_t i = 0; i < s.size(); i++) b[i % 16] ^= s[i];
        for (int i = 0; i < 4; i++) z[i] = b[4 * i] | b[4 * i + 1] << 8 | b[4 * i + 2] << 16 | (uint32_t)b[4 * i + 3] << 24;
        const uint32_t min[4] = { 2, 8, 16, 128 };     // L'Ecuyer: larger than 1, 7, 15, 127
        for (int i = 0; i < 4; i++) if (z[i] < min[i]) z[i] = 987654321;
    }
    uint32_t next()
    {
        uint32_t b;
        b = ((z[0] << 6) ^ z[0]) >> 13; z[0] = ((z[0] & 0xfffffffe) << 18) ^ b;
        b = ((z[1] << 2) ^ z[1]) >> 27; z[1] = ((z[1] & 0xfffffff8) << 2) ^ b;
        b = ((z[2] << 13) ^ z[2]) >> 21; z[2] = ((z[2] & 0xfffffff0) << 7) ^ b;
        b = ((z[3] << 3) ^ z[3]) >> 12; z[3] = ((z[3] & 0xffffff80) << 13) ^ b;
        return z[0] ^ z[1] ^ z[2] ^ z[3];
    }
    Bytes rand(size_t n) { Bytes o; while (n) { uint32_t r = next(); for (int i = 0; i < 4 && n; i++, n--, r <<= 8) o.push_back(r >> 24); } return o; }
};
static RA ra; static RL rl;
static void seed(int g, const Bytes &s, bool null = false)
{
    Buf b(s); g_trans++;
    const unsigned char *p = null ? nullptr : b.p;
    int r = g == 0 ? cry_prng_aes_init(p, s.size()) : cry_prng_lfsr113_init(p, s.size());
    if (r) fail("seed", "seeding with %zu bytes failed", s.size());
    if (g == 0) ra.seed(s); else rl.seed(s);
    if (!b.eq(s)) fail("seed", "seed changed");
}
static void draw(int g, size_t n)
{
    Bytes w = g == 0 ? ra.rand(n) : rl.rand(n); Buf b(n); g_trans++; g_traces++;
    int r = g == 0 ? cry_prng_aes_rand(b.p, n) : cry_prng_lfsr113_rand(b.p, n);
    if (r) fail("draw", "drawing %zu bytes failed", n);
    if (!b.eq(w)) fail(g ? "lfsr" : "aes", "request of %zu bytes: got %s, published algorithm %s", n, hex(b.bytes()).substr(0, 160).c_str(), hex(w).substr(0, 160).c_str());
}
static void all()
{
    bool T = g_thorough;
    // before any seeding the generators behave as seeded with nothing
    for (int g = 0; g < 2; g++) { CASE("generator %lld unseeded", g); if (g == 0) ra.seed(Bytes()); else rl.seed(Bytes()); draw(g, 5 + g_shard); draw(g, 16); draw(g, 3); g_states++; }
    for (int g = 0; g < 2; g++) {
        // every seed length, contents, after different previous states
        for (size_t n = 0; n <= 80; n++) for (int v = 0; v < 4; v++) for (int prev = 0; prev < 3; prev++) {
            if (!mine()) continue;
            CASE("generator %lld seed of %lld bytes, content %lld, previous %lld", g, n, v, prev); sample(); g_states++;
            if (prev) { seed(g, patv(40, prev)); draw(g, prev * 7); }
            seed(g, v == 0 ? Bytes(n, 0) : v == 1 ? Bytes(n, 0xff) : patv(n, v), n == 0 && v == 1);
            draw(g, 50); draw(g, 1); draw(g, 33);
            seed(g, v == 0 ? Bytes(n, 0) : v == 1 ? Bytes(n, 0xff) : patv(n, v)); draw(g, 8);
        }
        // every request length from every offset in the block
        for (size_t off = 0; off < 20; off++) for (size_t n = 0; n <= (T ? 200 : 70); n++) {
            if (!mine()) continue;
            CASE("generator %lld offset %lld request %lld", g, off, n); g_states++;
            seed(g, patv(32, 1)); draw(g, off); draw(g, n); draw(g, 9);
        }
        for (size_t n : LONGS) for (size_t off : { 0, 5 }) {
            if (!mine()) continue;
            CASE("generator %lld offset %lld long request %lld", g, off, n); g_states++;
            seed(g, patv(32, 1)); draw(g, off); draw(g, n); draw(g, 9);
            if (n < 140000) { seed(g, patv(n, 3)); draw(g, 40); }
        }
        // single-bit seeds
        for (size_t bit = 0; bit < 40 * 8; bit++) { if (!mine()) continue; CASE("generator %lld seed bit %lld", g, bit); g_states++; Bytes s(40, 0); s[bit / 8] = 1 << (bit % 8); seed(g, s); draw(g, 64); }
        if (mine()) { CASE("generator %lld long stream", g); g_states++; seed(g, patv(16, 7)); for (int i = 0; i < 60; i++) draw(g, 9000 + i); }
        // histories
        unsigned D = T ? 6 : 5; const size_t rq[] = { 0, 1, 3, 4, 15, 16, 17, 33 }, sl[] = { 0, 3, 16, 21, 35 }; const int NO = 13;
        uint64_t total = 1; for (unsigned i = 0; i < D; i++) total *= NO;
        for (uint64_t h = 0; h < total; h++) {
            if (!mine()) continue;
            CASE("generator %lld history %lld depth %lld", g, h, D); sample();
            seed(g, patv(20, 2)); uint64_t x = h;
            for (unsigned i = 0; i < D; i++, x /= NO) { int o = x % NO; g_states++; if (o < 8) draw(g, rq[o]); else seed(g, patv(sl[o - 8], o)); }
        }
    }
    // LFSR components around their minimum values, each and together
    for (int c = 0; c < 4; c++) for (uint32_t v = 0; v < 300; v++) for (int rest = 0; rest < 3; rest++) {
        if (!mine()) continue;
        CASE("lfsr component %lld = %lld, others %lld", c, v, rest); g_states++;
        Bytes s(16, rest == 0 ? 0 : rest == 1 ? 0x81 : 0x33);
        for (int i = 0; i < 4; i++) s[4 * c + i] = v >> (8 * i);
        seed(1, s); draw(1, 80);
    }
    // counter carries
    for (size_t ff = 0; ff <= 16; ff++) for (int below = 0; below < 5; below++) {
        if (!mine()) continue;
        CASE("aes counter with %lld trailing ff minus %lld", ff, below); g_states++;
        Bytes s(32, 0x42); for (size_t i = 0; i < ff; i++) s[31 - i] = 0xff;
        s[31] -= below; seed(0, s); draw(0, 100); draw(0, 5);
    }
    // both generators are independent of each other
    if (mine()) { CASE("both generators interleaved"); seed(0, patv(32, 1)); seed(1, patv(16, 2)); for (int i = 0; i < 200; i++) { draw(i & 1, i % 37); g_states++; } }
}
int main(int argc, char **argv) { init(argc, argv); all(); return done(); }

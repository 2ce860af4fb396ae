// C20: CRC-16 (CCITT, IBM, DNP) and CRC-32 against bit-by-bit polynomial division.
// All three-byte messages drive the 16-bit registers through every (state, byte)
// transition, so the whole state machine is covered, not a sample of it.
#include "h.hpp"
extern "C" {
#include <cry/crc.h>
}
enum { CC, IB, DN, ET, NC };
static const char *cn[] = { "CCITT", "IBM", "DNP", "Ethernet" };
// reflected polynomials, start value, final complement, byte swap (published X-25 / MODBUS / DNP / Ethernet parameters)
static const uint32_t poly[] = { 0x8408, 0xA001, 0xA6BC, 0xEDB88320 }, start[] = { 0xffff, 0xffff, 0, 0xffffffff }, xo[] = { 0xffff, 0, 0xffff, 0xffffffff };
static const bool swp[] = { true, false, true, false };
static uint32_t step(int c, uint32_t r, uint8_t b) { for (int i = 0; i < 8; i++) { uint32_t f = (r ^ (b >> i)) & 1; r >>= 1; if (f) r ^= poly[c]; } return r; }
static uint32_t fin(int c, uint32_t r) { r ^= xo[c]; if (swp[c]) r = (r << 8 | r >> 8) & 0xffff; return r; }
struct X {
    int c; cry_crc16_ctx a; cry_crc32_ctx b;
    X(int c_) : c(c_) { memset(&a, 0xA5, sizeof a); memset(&b, 0xA5, sizeof b); ini(); }
    void ini() { if (c == CC) cry_crc16_ccitt_init(&a); else if (c == IB) cry_crc16_ibm_init(&a); else if (c == DN) cry_crc16_dnp_init(&a); else cry_crc32_eth_init(&b); }
    void upd(const uint8_t *p, size_t n) { if (c < ET) cry_crc16_update(&a, p, n); else cry_crc32_update(&b, p, n); }
    uint32_t fi() { return c < ET ? cry_crc16_final(&a) : cry_crc32_final(&b); }
    void dig(uint8_t *o) { if (c < ET) cry_crc16_digest(&a, o); else cry_crc32_digest(&b, o); }
};
static uint32_t one(int c, const uint8_t *p, size_t n) { return c == CC ? cry_crc16_ccitt(p, n) : c == IB ? cry_crc16_ibm(p, n) : c == DN ? cry_crc16_dnp(p, n) : cry_crc32_eth(p, n); }
static uint32_t ref(int c, const Bytes &d) { uint32_t r = start[c]; for (uint8_t b : d) r = step(c, r, b); return fin(c, r); }
static void chk(int c, uint32_t got, uint32_t want, const char *how) { g_traces++; if (got != want) fail("crc", "CRC-%s %s: got %x, polynomial %x", cn[c], how, got, want); }
static void machine()
{
    for (int c = 0; c < NC; c++) {
        for (unsigned hi = 0; hi < 256; hi++) {
            if (!mine()) continue;
            uint32_t r1 = step(c, start[c], hi);
            for (unsigned m = 0; m < 256; m++) {
                uint32_t r2 = step(c, r1, m);
                for (unsigned l = 0; l < 256; l++) {
                    CASE("crc=%lld message %02llx %02llx %02llx", c, hi, m, l);
                    g_states++; g_trans++;
                    uint8_t d[3] = { (uint8_t)hi, (uint8_t)m, (uint8_t)l };
                    uint32_t w = fin(c, step(c, r2, l)), g = one(c, d, 3);
                    if (g != w) chk(c, g, w, "three bytes");
                }
            }
            g_traces += 65536;
            sample();
        }
        // messages with one (and two) nonzero bits of every length: every table entry at every register byte
        for (size_t n = 0; n <= 300; n++) {
            if (!mine()) continue;
            for (int v = 0; v < 5; v++) {
                Bytes d = v == 0 ? Bytes(n, 0) : v == 1 ? Bytes(n, 0xff) : patv(n, v);
                CASE("crc=%lld length %lld variant %lld", c, n, v); g_states++; sample();
                Buf in(d); X x(c);
                uint32_t w = ref(c, d);
                chk(c, one(c, in.p, n), w, "one-shot");
                x.upd(in.p, n); chk(c, x.fi(), w, "init/update/final");
                x.ini(); x.upd(in.p, n); size_t k = c < ET ? 2 : 4; Buf o(k); x.dig(o.p);
                uint32_t g = 0; for (size_t i = 0; i < k; i++) g = g << 8 | o.p[i];
                chk(c, g, w, "digest"); g_trans += 3;
                for (size_t a = 0; a <= n; a++) { x.ini(); x.upd(in.p, a); x.upd(in.p + a, n - a); chk(c, x.fi(), w, "two updates"); g_trans++; g_states++; }
            }
        }
        for (size_t n : LONGS) {
            if (!mine()) continue;
            CASE("crc=%lld long length %lld", c, n); g_states++;
            Bytes d = patv(n, 6); Buf in(d); X x(c); uint32_t w = ref(c, d);
            chk(c, one(c, in.p, n), w, "one-shot"); x.upd(in.p, n); chk(c, x.fi(), w, "init/update/final");
            x.ini(); x.upd(in.p, 3); x.upd(in.p + 3, n - 3); chk(c, x.fi(), w, "two updates"); g_trans += 3;
        }
        unsigned K = g_thorough ? 18 : 14;
        Bytes d = patv(K, 9); uint32_t w = ref(c, d);
        for (unsigned cut = 0; cut < (1u << (K - 1)); cut++) {
            if (!mine()) continue;
            CASE("crc=%lld cuts=%llx", c, cut); g_states++; sample();
            X x(c); size_t at = 0, len = 1;
            for (unsigned i = 0; i < K; i++, len++) if (i == K - 1 || (cut >> i & 1)) { x.upd(&d[at], len); at += len; len = 0; x.upd(&d[0], 0); }
            chk(c, x.fi(), w, "composition"); g_trans++;
        }
    }
    // the 32-bit register: a byte against every value of each byte of the register (three free bytes after a prefix)
    for (unsigned p = 0; p < (g_thorough ? 256u : 16u); p++) for (unsigned hi = 0; hi < 256; hi++) {
        if (!mine()) continue;
        CASE("crc32 prefix %lld then %02llx and all pairs", p, hi);
        uint32_t r0 = start[ET]; uint8_t d[5] = { (uint8_t)(p * 17), (uint8_t)(p ^ 0x5c), (uint8_t)hi, 0, 0 };
        for (int i = 0; i < 3; i++) r0 = step(ET, r0, d[i]);
        for (unsigned m = 0; m < 256; m++) for (unsigned l = 0; l < 256; l += (g_thorough ? 1 : 5)) {
            d[3] = m; d[4] = l; g_states++; g_trans++;
            uint32_t w = fin(ET, step(ET, step(ET, r0, m), l)), g = cry_crc32_eth(d, 5);
            if (g != w) chk(ET, g, w, "five bytes");
        }
    }
    // generic init: any start value, any flag combination
    for (unsigned s = 0; s < 65536; s++) {
        if (!mine()) continue;
        static uint16_t t16[256]; static uint32_t t32[256];
        if (!t16[1]) for (int i = 0; i < 256; i++) { t16[i] = step(CC, 0, i); t32[i] = step(ET, 0, i); }
        for (int f = 0; f < 4; f++) {
            CASE("start %llx flags %lld", s, f); g_states++;
            uint8_t d[3] = { (uint8_t)s, 0x31, (uint8_t)(s >> 8) };
            cry_crc16_ctx a; cry_crc16_init(&a, s, t16, f); cry_crc16_update(&a, d, 3);
            uint32_t r = s; for (uint8_t b : d) r = step(CC, r, b);
            if (f & CRY_CRC_FLAG_COMPLEMENT) r ^= 0xffff;
            if (f & CRY_CRC_FLAG_SWAP) r = (r << 8 | r >> 8) & 0xffff;
            chk(CC, cry_crc16_final(&a), r, "generic 16");
            cry_crc32_ctx b; uint32_t s32 = s * 65537u; cry_crc32_init(&b, s32, t32, f); cry_crc32_update(&b, d, 3);
            r = s32; for (uint8_t x : d) r = step(ET, r, x);
            if (f & CRY_CRC_FLAG_COMPLEMENT) r = ~r;
            if (f & CRY_CRC_FLAG_SWAP) r = __builtin_bswap32(r);
            chk(ET, cry_crc32_final(&b), r, "generic 32"); g_trans += 2;
        }
    }
}
int main(int argc, char **argv) { init(argc, argv); machine(); return done(); }

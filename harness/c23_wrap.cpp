// C23: AES key wrap against OpenSSL, and refusal of every single-bit alteration.
#include "h.hpp"
#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/aes.h>
extern "C" {
#include <cry/utils.h>
}
static Bytes ref(const Bytes &k, const Bytes &d)
{
    // RFC 3394, index-based description, with the 64-bit step counter
    AES_KEY a; AES_set_encrypt_key(k.data(), k.size() * 8, &a);
    size_t n = d.size() / 8; Bytes A(8, 0xa6), R = d;
    for (int j = 0; j < 6; j++) for (size_t i = 0; i < n; i++) {
        uint8_t b[16]; memcpy(b, A.data(), 8); memcpy(b + 8, &R[8 * i], 8); AES_encrypt(b, b, &a);
        uint64_t t = n * j + i + 1; for (int x = 0; x < 8; x++) A[x] = b[x] ^ (uint8_t)(t >> (56 - 8 * x));
        memcpy(&R[8 * i], b + 8, 8);
    }
    A.insert(A.end(), R.begin(), R.end());
    return A;
}
static Bytes wrapit(const Bytes &k, const Bytes &d)
{
    Bytes w = ref(k, d); Buf kb(k), db(d), o(w.size()); g_trans++; g_traces++;
    int r = cry_aes_wrap(o.p, db.p, db.n, kb.p, kb.n);
    if (r) fail("wrap", "wrapping %zu bytes failed", d.size());
    if (!o.eq(w)) fail("wrap", "%zu bytes: got %s, standard %s", d.size(), hex(o.bytes()).substr(0, 300).c_str(), hex(w).substr(0, 300).c_str());
    if (!db.eq(d) || !kb.eq(k)) fail("source", "input changed");
    return w;
}
static int unwrap(const Bytes &k, const Bytes &w, Bytes &out)
{
    Buf kb(k), wb(w), o(w.size() - 8); g_trans++; g_traces++;
    int r = cry_aes_unwrap(o.p, wb.p, o.n, kb.p, kb.n);
    if (!wb.eq(w) || !kb.eq(k)) fail("source", "input changed");
    out = o.bytes(); return r;
}
static void good(const Bytes &k, const Bytes &d) { Bytes w = wrapit(k, d), o; g_states++; if (unwrap(k, w, o) || o != d) fail("unwrap", "unwrapping the wrapped %zu bytes does not give them back", d.size()); }
static void bad(const Bytes &k, const Bytes &w, const Bytes &d) { Bytes o; g_states++; if (!unwrap(k, w, o)) fail("tamper", "altered data is accepted"); if (o == d) fail("tamper", "refused data is delivered"); }
static void all()
{
    bool T = g_thorough;
    // model self-check: RFC 3394 4.1
    { Bytes k, d; for (int i = 0; i < 16; i++) { k.push_back(i); d.push_back(i * 17); } if (hex(ref(k, d)) != "1fa68b0a8112b447aef34bd8fb5a7b829d3e862371d2cfe5") fail("model", "RFC vector"); }
    for (size_t kl : { 16, 24, 32 }) {
        std::vector<size_t> ns; for (size_t n = 2; n <= (T ? 400 : 100); n++) ns.push_back(n);
        for (size_t n : { 128, 255, 256, 257, 1000, 11000 }) ns.push_back(n);       // 11000*6 > 2^16 steps
        for (size_t n : ns) for (int v = 0; v < 4; v++) {
            if (!mine()) continue;
            if (n > 300 && v != 3) continue;
            CASE("kek %lld bytes, data %lld bytes, content %lld", kl, 8 * n, v); sample();
            good(v == 0 ? Bytes(kl, 0) : v == 1 ? Bytes(kl, 0xff) : patv(kl, v), v == 0 ? Bytes(8 * n, 0) : v == 1 ? Bytes(8 * n, 0xff) : patv(8 * n, v));
        }
        // every bit of data and key over a background
        for (size_t bit = 0; bit < 16 * 8; bit++) { if (!mine()) continue; CASE("kek %lld data bit %lld", kl, bit); Bytes d(16, 0); d[bit / 8] = 1 << (bit % 8); good(patv(kl, 1), d); }
        for (size_t bit = 0; bit < kl * 8; bit++) { if (!mine()) continue; CASE("kek %lld key bit %lld", kl, bit); Bytes k(kl, 0); k[bit / 8] = 1 << (bit % 8); good(k, patv(24, 1)); }
        // alterations: every single bit, every byte replaced by several values, pairs of bits in the first block, swaps of blocks, truncations
        for (size_t n : { 2, 3, 5, 8, 44 }) {
            Bytes k = patv(kl, 3), d = patv(8 * n, 4), w = ref(k, d);
            for (size_t bit = 0; bit < w.size() * 8; bit++) { if (!mine()) continue; CASE("kek %lld data %lld flipped bit %lld", kl, 8 * n, bit); sample(); Bytes x = w; x[bit / 8] ^= 1 << (bit % 8); bad(k, x, d); }
            for (size_t bit = 0; bit < kl * 8; bit++) { if (!mine()) continue; CASE("kek %lld data %lld flipped key bit %lld", kl, 8 * n, bit); Bytes x = k; x[bit / 8] ^= 1 << (bit % 8); bad(x, w, d); }
            for (size_t i = 0; i <= n; i++) for (size_t j = i + 1; j <= n; j++) { if (!mine()) continue; CASE("kek %lld data %lld swapped blocks %lld %lld", kl, 8 * n, i, j); Bytes x = w; std::swap_ranges(x.begin() + 8 * i, x.begin() + 8 * i + 8, x.begin() + 8 * j); bad(k, x, d); }
            for (size_t p = 0; p < w.size(); p++) for (int v = 0; v < (T || n == 2 ? 256 : 16); v++) { if (!mine()) continue; Bytes x = w; if (x[p] == (uint8_t)(v * 37)) continue; x[p] = v * 37; CASE("kek %lld data %lld byte %lld = %lld", kl, 8 * n, p, x[p]); bad(k, x, d); }
            for (size_t m = 3; m <= n; m++) { if (!mine()) continue; CASE("truncated"); bad(k, Bytes(w.begin(), w.begin() + 8 * m), d); }
            // the check value must be right in each of its eight bytes: forge data whose unwrapped check value differs in one byte
            for (int pos = 0; pos < 8; pos++) for (int bit = 0; bit < 8; bit++) {
                if (!mine()) continue;
                CASE("kek %lld data %lld check value with bit %lld of byte %lld changed", kl, 8 * n, bit, pos); sample();
                AES_KEY a; AES_set_encrypt_key(k.data(), k.size() * 8, &a);
                Bytes A(8, 0xa6), R = d; A[pos] ^= 1 << bit;
                for (int j = 0; j < 6; j++) for (size_t i = 0; i < n; i++) { uint8_t b[16]; memcpy(b, A.data(), 8); memcpy(b + 8, &R[8 * i], 8); AES_encrypt(b, b, &a); uint64_t t = n * j + i + 1; for (int x = 0; x < 8; x++) A[x] = b[x] ^ (uint8_t)(t >> (56 - 8 * x)); memcpy(&R[8 * i], b + 8, 8); }
                A.insert(A.end(), R.begin(), R.end());
                bad(k, A, d);
            }
        }
        // lengths that are not a multiple of 8 are refused
        for (size_t len = 0; len < 80; len++) {
            if (len && len % 8 == 0) continue;
            if (!mine()) continue;
            CASE("kek %lld length %lld", kl, len); g_states++;
            Bytes k = patv(kl, 1), d = patv(len, 2); Buf db(d), o(len + 8), o2(len), w(patv(len + 8, 3));
            if (!cry_aes_wrap(o.p, db.p, len, k.data(), kl)) fail("length", "wrap accepts %zu bytes", len);
            if (!cry_aes_unwrap(o2.p, w.p, len, k.data(), kl)) fail("length", "unwrap accepts %zu bytes", len);
            g_trans += 2;
        }
    }
}
int main(int argc, char **argv) { init(argc, argv); all(); return done(); }

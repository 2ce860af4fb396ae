// C17: RC4 and Trivium against bit/byte-level textbook models.
#include "h.hpp"
extern "C" {
#include <cry/arc4.h>
#include <cry/trivium.h>
}
struct Rc4 {
    uint8_t S[256]; int i = 0, j = 0;
    void key(const Bytes &k) { for (int n = 0; n < 256; n++) S[n] = n; int t = 0; for (int n = 0; n < 256; n++) { t = (t + S[n] + k[n % k.size()]) & 255; std::swap(S[n], S[t]); } i = j = 0; }
    uint8_t next() { i = (i + 1) & 255; j = (j + S[i]) & 255; std::swap(S[i], S[j]); return S[(S[i] + S[j]) & 255]; }
};
struct LRc4 { cry_arc4_ctx c; LRc4() { memset(&c, 0xA5, sizeof c); cry_arc4_init(&c); } };
static const char *G4 = "keystream";
static void rc4_run(LRc4 &l, Rc4 &r, const Bytes &in, bool inp)
{
    Bytes want(in); for (auto &b : want) b ^= r.next();
    g_trans++; g_traces++;
    Bytes got;
    if (inp) { Buf b(in); cry_arc4_crypt(&l.c, b.p, b.p, b.n); got = b.bytes(); }
    else { Buf s(in), b(in.size()); cry_arc4_crypt(&l.c, b.p, s.p, s.n); got = b.bytes(); if (!s.eq(in)) fail("source", "source changed"); }
    if (got != want) fail("rc4", "%s differs: got %s, standard %s", G4, hex(got).substr(0, 200).c_str(), hex(want).substr(0, 200).c_str());
}
static void rc4_key(LRc4 &l, Rc4 &r, const Bytes &k) { Buf b(k); cry_arc4_key_set(&l.c, b.p, b.n); r.key(k); g_trans++; if (!b.eq(k)) fail("key", "key changed"); }
static void rc4()
{
    bool T = g_thorough;
    // RFC 6229 sanity of the model
    { Rc4 r; r.key({ 1, 2, 3, 4, 5 }); if (r.next() != 0xb2 || r.next() != 0x39 || r.next() != 0x63 || r.next() != 0x05) fail("model", "RC4 model"); }
    for (size_t kl = 1; kl <= 256; kl++)
        for (int v = 0; v < (T ? 256 : 24); v++) {
            if (!mine()) continue;
            CASE("rc4 key size %lld variant %lld", kl, v); sample(); g_states++;
            Bytes k = v == 0 ? Bytes(kl, 0) : v == 1 ? Bytes(kl, 0xff) : patv(kl, v);
            LRc4 l; Rc4 r; rc4_key(l, r, k);
            rc4_run(l, r, patv(700 + v, 2), v & 1);
            // twice with the same key restores
            Bytes p = patv(33, 9); Buf b(p);
            cry_arc4_key_set(&l.c, k.data(), kl); cry_arc4_crypt(&l.c, b.p, b.p, b.n);
            cry_arc4_key_set(&l.c, k.data(), kl); cry_arc4_crypt(&l.c, b.p, b.p, b.n);
            if (!b.eq(p)) fail("rc4-roundtrip", "encrypting twice does not restore the data");
        }
    for (int b0 = 0; b0 < 256; b0++) for (int b1 = 0; b1 < 256; b1++) {
        if (!mine()) continue;
        CASE("rc4 two byte key %02llx%02llx", b0, b1); g_states++;
        LRc4 l; Rc4 r; rc4_key(l, r, { (uint8_t)b0, (uint8_t)b1 }); rc4_run(l, r, Bytes(24, 0), true);
    }
    for (size_t n = 0; n <= 600; n++) { if (!mine()) continue; CASE("rc4 length %lld", n); g_states++; LRc4 l; Rc4 r; rc4_key(l, r, patv(16, 1)); rc4_run(l, r, patv(n, 1), n & 1); rc4_run(l, r, patv(5, 1), false); }
    for (size_t n : LONGS) for (int inp = 0; inp < 2; inp++) { if (!mine()) continue; CASE("rc4 long length %lld", n); g_states++; LRc4 l; Rc4 r; rc4_key(l, r, patv(16, 1)); rc4_run(l, r, patv(n, 1), inp); rc4_run(l, r, patv(5, 1), !inp); }
    unsigned N = T ? 16 : 13;
    for (unsigned cut = 0; cut < (1u << (N - 1)); cut++) for (size_t pre : { 0, 250 }) {
        if (!mine()) continue;
        CASE("rc4 cuts %llx after %lld bytes", cut, pre); sample(); g_states++;
        LRc4 l; Rc4 r; rc4_key(l, r, patv(9, 1));
        if (pre) rc4_run(l, r, patv(pre, 3), false);
        size_t len = 1;
        for (unsigned i = 0; i < N; i++, len++) if (i == N - 1 || (cut >> i & 1)) { rc4_run(l, r, patv(len, i), i & 1); len = 0; }
    }
    // long stream
    if (mine()) { CASE("rc4 long stream"); LRc4 l; Rc4 r; rc4_key(l, r, patv(16, 5)); for (int i = 0; i < 40; i++) rc4_run(l, r, patv(70000 + i, i), i & 1); g_states++; }
}
// ---- Trivium: 288 single bits -----------------------------------------
struct Triv {
    bool s[289]; Bytes k;   // 1-based as in the specification
    bool step()
    {
        bool t1 = s[66] ^ s[93], t2 = s[162] ^ s[177], t3 = s[243] ^ s[288], z = t1 ^ t2 ^ t3;
        t1 ^= (s[91] & s[92]) ^ s[171]; t2 ^= (s[175] & s[176]) ^ s[264]; t3 ^= (s[286] & s[287]) ^ s[69];
        for (int i = 93; i > 1; i--) s[i] = s[i - 1];
        s[1] = t3;
        for (int i = 177; i > 94; i--) s[i] = s[i - 1];
        s[94] = t1;
        for (int i = 288; i > 178; i--) s[i] = s[i - 1];
        s[178] = t2;
        return z;
    }
    void key(Bytes kk) { kk.resize(10, 0); k = kk; }
    void iv(Bytes v)
    {
        v.resize(10, 0); memset(s, 0, sizeof s);
        for (int i = 0; i < 80; i++) { s[1 + i] = k[i / 8] >> (i % 8) & 1; s[94 + i] = v[i / 8] >> (i % 8) & 1; }
        s[286] = s[287] = s[288] = true;
        for (int i = 0; i < 4 * 288; i++) step();
    }
    Bytes word() { uint32_t w = 0; for (int i = 0; i < 32; i++) w |= (uint32_t)step() << (31 - i); return { (uint8_t)w, (uint8_t)(w >> 8), (uint8_t)(w >> 16), (uint8_t)(w >> 24) }; }
    Bytes crypt(Bytes d) { for (size_t i = 0; i < d.size(); i += 4) { Bytes w = word(); for (size_t j = 0; j < 4 && i + j < d.size(); j++) d[i + j] ^= w[j]; } return d; }
};
struct LTriv { cry_trivium_ctx c; LTriv() { memset(&c, 0xA5, sizeof c); cry_trivium_init(&c); } };
static void tkey(LTriv &l, Triv &r, const Bytes &k) { Buf b(k); cry_trivium_key_set(&l.c, b.p, b.n); r.key(k); g_trans++; }
static void tiv(LTriv &l, Triv &r, const Bytes &k) { Buf b(k); cry_trivium_iv_set(&l.c, b.p, b.n); r.iv(k); g_trans++; }
static void trun(LTriv &l, Triv &r, const Bytes &in, bool inp)
{
    Bytes want = r.crypt(in); g_trans++; g_traces++;
    Bytes got;
    if (inp) { Buf b(in); cry_trivium_crypt(&l.c, b.p, b.p, b.n); got = b.bytes(); }
    else { Buf s(in), b(in.size()); cry_trivium_crypt(&l.c, b.p, s.p, s.n); got = b.bytes(); if (!s.eq(in)) fail("source", "source changed"); }
    if (got != want) fail("trivium", "keystream differs: got %s, standard %s", hex(got).substr(0, 200).c_str(), hex(want).substr(0, 200).c_str());
}
static void trivium()
{
    bool T = g_thorough;
    for (int base = 0; base < 3; base++)
        for (int bit = -1; bit < 160; bit++) {      // every single key and IV bit over three backgrounds
            if (!mine()) continue;
            CASE("trivium background %lld flipped bit %lld", base, bit); sample(); g_states++;
            Bytes k = base == 0 ? Bytes(10, 0) : base == 1 ? Bytes(10, 0xff) : patv(10, 3), v = base == 0 ? Bytes(10, 0) : base == 1 ? Bytes(10, 0xff) : patv(10, 4);
            if (bit >= 80) v[(bit - 80) / 8] ^= 1 << (bit % 8); else if (bit >= 0) k[bit / 8] ^= 1 << (bit % 8);
            LTriv l; Triv r; tkey(l, r, k); tiv(l, r, v); trun(l, r, Bytes(T ? 2000 : 200, 0), bit & 1);
        }
    for (size_t kl = 0; kl <= 12; kl++) for (size_t vl = 0; vl <= 12; vl++) for (int s = 0; s < 2; s++) {
        if (!mine()) continue;
        CASE("trivium key size %lld iv size %lld", kl, vl); g_states++;
        LTriv l; Triv r;
        if (s) { tkey(l, r, Bytes(10, 0xee)); tiv(l, r, Bytes(10, 0xdd)); trun(l, r, patv(9, 1), false); }
        tkey(l, r, patv(kl, 1)); tiv(l, r, patv(vl, 2)); trun(l, r, patv(37, 3), kl & 1);
    }
    for (size_t n = 0; n <= (T ? 600 : 200); n++) for (int inp = 0; inp < 2; inp++) {
        if (!mine()) continue;
        CASE("trivium length %lld inplace %lld", n, inp); g_states++;
        LTriv l; Triv r; tkey(l, r, patv(10, 1)); tiv(l, r, patv(10, 2)); trun(l, r, patv(n, 1), inp);
        if (n % 4 == 0) trun(l, r, patv(7, 1), !inp);
        Bytes p = patv(n, 9); Buf b(p); for (int i = 0; i < 2; i++) { cry_trivium_iv_set(&l.c, p.data() ? patv(10, 3).data() : patv(10, 3).data(), 10); cry_trivium_crypt(&l.c, b.p, b.p, b.n); }
        if (!b.eq(p)) fail("trivium-roundtrip", "encrypting twice does not restore the data");
    }
    for (size_t n : LONGS) for (int inp = 0; inp < 2; inp++) {
        if (!mine() || (!T && n > 140000)) continue;
        CASE("trivium long length %lld inplace %lld", n, inp); g_states++;
        LTriv l; Triv r; tkey(l, r, patv(10, 1)); tiv(l, r, patv(10, 2)); trun(l, r, patv(n, 1), inp); if (n % 4 == 0) trun(l, r, patv(7, 1), !inp);
    }
    unsigned N = T ? 12 : 10;
    for (unsigned cut = 0; cut < (1u << (N - 1)); cut++) for (size_t tail = 0; tail < 4; tail++) {
        if (!mine()) continue;
        CASE("trivium cuts %llx tail %lld", cut, tail); sample(); g_states++;
        LTriv l; Triv r; tkey(l, r, patv(10, 1)); tiv(l, r, patv(10, 5));
        size_t len = 1;
        for (unsigned i = 0; i < N; i++, len++) if (i == N - 1 || (cut >> i & 1)) { trun(l, r, patv(len * 4, i), i & 1); len = 0; }
        if (tail) trun(l, r, patv(tail, 7), false);
    }
    if (mine()) { CASE("trivium long stream"); LTriv l; Triv r; tkey(l, r, patv(10, 5)); tiv(l, r, patv(10, 6)); for (int i = 0; i < 10; i++) trun(l, r, patv(4000, i), i & 1); g_states++; }
}
static void hist()
{
    unsigned D = g_thorough ? 6 : 5;
    for (int c = 0; c < 2; c++) {
        const int NO = 8; uint64_t total = 1; for (unsigned i = 0; i < D; i++) total *= NO;
        for (uint64_t h = 0; h < total; h++) {
            if (!mine()) continue;
            CASE("%lld history %lld depth %lld", c, h, D); sample();
            LRc4 a; Rc4 ar; LTriv t; Triv tr;
            if (!c) rc4_key(a, ar, patv(16, 1)); else { tkey(t, tr, patv(10, 1)); tiv(t, tr, patv(10, 1)); }
            uint64_t x = h; bool ok = true, ivok = true;
            for (unsigned i = 0; i < D && ok; i++, x /= NO) {
                g_states++;
                int o = x % NO;
                if (!c) switch (o) {
                    case 0: rc4_key(a, ar, patv(16, 1)); break;
                    case 1: rc4_key(a, ar, patv(5, 2)); break;
                    case 2: rc4_run(a, ar, patv(1, i), true); break;
                    case 3: rc4_run(a, ar, patv(7, i), false); break;
                    case 4: rc4_run(a, ar, patv(256, i), true); break;
                    case 5: rc4_run(a, ar, patv(0, i), false); break;
                    case 6: cry_arc4_init(&a.c); rc4_key(a, ar, patv(16, 3)); break;
                    case 7: cry_arc4_clear(&a.c); rc4_key(a, ar, patv(16, 4)); break;
                } else switch (o) {
                    case 0: tkey(t, tr, patv(10, 2)); ivok = false; break;
                    case 1: tkey(t, tr, patv(6, 3)); ivok = false; break;
                    case 2: tiv(t, tr, patv(10, 4)); ivok = true; break;
                    case 3: tiv(t, tr, patv(3, 5)); ivok = true; break;
                    case 4: if (!ivok) ok = false; else trun(t, tr, patv(4, i), true); break;
                    case 5: if (!ivok) ok = false; else trun(t, tr, patv(24, i), false); break;
                    case 6: cry_trivium_clear(&t.c); cry_trivium_init(&t.c); tkey(t, tr, patv(10, 7)); tiv(t, tr, patv(10, 8)); ivok = true; break;
                    case 7: if (!ivok) ok = false; else trun(t, tr, patv(0, i), true); break;
                }
            }
        }
    }
}
int main(int argc, char **argv)
{
    init(argc, argv);
    if (g_mode == "rc4") rc4(); else if (g_mode == "trivium") trivium(); else hist();
    return done();
}

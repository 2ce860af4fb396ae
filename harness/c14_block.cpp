// C14: AES, DES, Triple-DES against OpenSSL: structured key/plaintext sweeps and
// all histories of operations on one context.
#include "h.hpp"
#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/aes.h>
#include <openssl/des.h>
extern "C" {
#include <cry/aes.h>
#include <cry/des.h>
}
struct RefAes {
    AES_KEY e, d;
    void key(const Bytes &k) { AES_set_encrypt_key(k.data(), k.size() * 8, &e); AES_set_decrypt_key(k.data(), k.size() * 8, &d); }
    Bytes run(const Bytes &in, bool enc) { Bytes o(in.size()); for (size_t i = 0; i + 16 <= in.size(); i += 16) enc ? AES_encrypt(&in[i], &o[i], &e) : AES_decrypt(&in[i], &o[i], &d); return o; }
    static const size_t B = 16;
};
struct RefDes {
    DES_key_schedule s[3]; size_t kl;
    void key(const Bytes &k) { kl = k.size(); for (size_t i = 0; i < kl / 8; i++) DES_set_key_unchecked((const_DES_cblock *)&k[8 * i], &s[i]); }
    Bytes run(const Bytes &in, bool enc)
    {
        Bytes o(in.size());
        for (size_t i = 0; i + 8 <= in.size(); i += 8) {
            if (kl == 8) DES_ecb_encrypt((const_DES_cblock *)&in[i], (DES_cblock *)&o[i], &s[0], enc);
            else DES_ecb3_encrypt((const_DES_cblock *)&in[i], (DES_cblock *)&o[i], &s[0], &s[1], &s[2], enc);
        }
        return o;
    }
    static const size_t B = 8;
};
struct LibAes {
    cry_aes_ctx c; LibAes() { memset(&c, 0xA5, sizeof c); cry_aes_init(&c); }
    void key(const unsigned char *k, size_t n) { cry_aes_key_set(&c, k, n); }
    void enc(unsigned char *d, const unsigned char *s, size_t n) { cry_aes_encrypt(&c, d, s, n); }
    void dec(unsigned char *d, const unsigned char *s, size_t n) { cry_aes_decrypt(&c, d, s, n); }
};
struct LibDes {
    cry_des_ctx c; LibDes() { memset(&c, 0xA5, sizeof c); cry_des_init(&c); }
    void key(const unsigned char *k, size_t n) { cry_des_key_set(&c, k, n); }
    void enc(unsigned char *d, const unsigned char *s, size_t n) { cry_des_encrypt(&c, d, s, n); }
    void dec(unsigned char *d, const unsigned char *s, size_t n) { cry_des_decrypt(&c, d, s, n); }
};
template <class L, class Rf> struct Chk {
    L l; Rf r; Bytes k;
    void key(const Bytes &kk) { k = kk; r.key(k); Buf b(k); l.key(b.p, b.n); if (!b.eq(k)) fail("key", "key buffer changed"); g_trans++; }
    void op(const Bytes &in, bool enc, bool inplace, size_t off = 0)
    {
        Bytes want = r.run(in, enc);
        g_trans++; g_traces++;
        if (off == 0) {
            if (inplace) {
                Buf b(in); enc ? l.enc(b.p, b.p, b.n) : l.dec(b.p, b.p, b.n);
                if (!b.eq(want)) bad(in, enc, b.bytes(), want);
            } else {
                Buf a(in), b(in.size()); enc ? l.enc(b.p, a.p, a.n) : l.dec(b.p, a.p, a.n);
                if (!b.eq(want)) bad(in, enc, b.bytes(), want);
                if (!a.eq(in)) fail("source", "source changed");
            }
        } else {
            Bytes x(off); x.insert(x.end(), in.begin(), in.end());
            Buf a(x), b(in.size() + off + 1);
            enc ? l.enc(b.p + off + 1, a.p + off, in.size()) : l.dec(b.p + off + 1, a.p + off, in.size());
            Bytes got(b.p + off + 1, b.p + b.n);
            if (got != want) bad(in, enc, got, want);
            for (size_t i = 0; i <= off; i++) if (b.p[i] != 0xA5) fail("bounds", "wrote before the destination");
        }
    }
    void bad(const Bytes &in, bool enc, const Bytes &got, const Bytes &want) { fail(enc ? "encrypt" : "decrypt", "key %s input %s gives %s, standard %s", hex(k).c_str(), hex(in).c_str(), hex(got).c_str(), hex(want).c_str()); }
};
template <class L, class Rf> static void sweep(const std::vector<size_t> &kls, const char *nm, int scale)
{
    const size_t B = Rf::B;
    bool T = g_thorough;
    for (size_t kl : kls) {
        // one byte of key at every value, on three base keys
        for (int base = 0; base < 3; base++)
            for (size_t pos = 0; pos < kl; pos++)
                for (int v = 0; v < 256; v++) {
                    if (!mine()) continue;
                    Bytes k = base == 0 ? Bytes(kl, 0) : base == 1 ? Bytes(kl, 0xff) : patv(kl, 5);
                    k[pos] = v;
                    CASET(std::string(nm) + " key size " + std::to_string(kl) + " base " + std::to_string(base) + " byte " + std::to_string(pos) + " = " + std::to_string(v));
                    sample();
                    Chk<L, Rf> c; c.key(k);
                    g_states++;
                    c.op(patv(B, v + pos), 1, 0); c.op(patv(B, v + pos), 0, 1); c.op(patv(B, v), 1, 1);
                }
        // one byte of plaintext at every value
        for (int base = 0; base < 3; base++)
            for (size_t pos = 0; pos < B; pos++)
                for (int kk = 0; kk < 3; kk++) {
                    if (!mine()) continue;
                    Chk<L, Rf> c, d; Bytes key = kk == 0 ? Bytes(kl, 0) : patv(kl, kk); c.key(key); d.key(key);
                    for (int v = 0; v < 256; v++) {
                        Bytes in = base == 0 ? Bytes(B, 0) : base == 1 ? Bytes(B, 0xff) : patv(B, 7);
                        in[pos] = v;
                        CASET(std::string(nm) + " key " + hex(key) + " block " + hex(in));
                        sample(); g_states++;
                        c.op(in, 1, v & 1); d.op(in, 0, v & 1);
                    }
                }
        // all pairs of set bits in key / block
        for (size_t i = 0; i < kl * 8; i++) {
            if (!mine()) continue;
            for (size_t j = 0; j <= i; j++) {
                Bytes k(kl, 0); k[i / 8] |= 0x80 >> i % 8; k[j / 8] |= 0x80 >> j % 8;
                CASET(std::string(nm) + " key " + hex(k));
                Chk<L, Rf> c; c.key(k); g_states++;
                c.op(Bytes(B, 0), 1, 0); c.op(Bytes(B, 0x3c), 0, 0);
            }
        }
        // long runs of blocks: every table entry in every round many times
        for (int s = 0; s < 64; s++) {
            if (!mine()) continue;
            Chk<L, Rf> c; c.key(patv(kl, 100 + s));
            CASET(std::string(nm) + " key size " + std::to_string(kl) + " long run " + std::to_string(s));
            g_states++;
            for (int q = 0; q < (T ? 16 : 2); q++) { c.op(patv(B * 64 * scale, s * 40 + q), 1, 0); }
            Chk<L, Rf> d; d.key(patv(kl, 100 + s));
            for (int q = 0; q < (T ? 16 : 2); q++) { d.op(patv(B * 64 * scale, s * 40 + q), 0, 1); }
        }
        // number of blocks 0..40, buffer offsets
        for (size_t n = 0; n <= 40; n++)
            for (size_t off = 0; off < 9; off++) {
                if (!mine()) continue;
                CASET(std::string(nm) + " key size " + std::to_string(kl) + " blocks " + std::to_string(n) + " offset " + std::to_string(off));
                Chk<L, Rf> c; c.key(patv(kl, n)); g_states++;
                c.op(patv(B * n, 1), 1, 0, off); c.op(patv(B * n, 1), 1, 1); 
                Chk<L, Rf> d; d.key(patv(kl, n));
                d.op(patv(B * n, 1), 0, 0, off); d.op(patv(B * n, 1), 0, 1);
            }
        for (size_t len : LONGS) for (int inp = 0; inp < 2; inp++) {
            if (!mine() || (!T && len > 140000)) continue;
            len = len / B * B;
            CASET(std::string(nm) + " key size " + std::to_string(kl) + " bytes " + std::to_string(len)); g_states++;
            Chk<L, Rf> c; c.key(patv(kl, len)); c.op(patv(len, 2), 1, inp); c.op(patv(B, 2), 1, inp);
            Chk<L, Rf> d; d.key(patv(kl, len)); d.op(patv(len, 2), 0, inp); d.op(patv(B, 2), 0, inp);
        }
    }
}
template <class L, class Rf> static void histories(const std::vector<size_t> &kls, const char *nm, unsigned depth)
{
    const size_t B = Rf::B;
    // operations: set each key size (two keys), encrypt/decrypt 0,1,3 blocks, separate or in place
    struct Op { int kind; size_t n; bool inpl; const char *name; };
    std::vector<Op> ops;
    for (size_t kl : kls) ops.push_back({ 0, kl, false, kl == 8 ? "key8" : kl == 16 ? "key16" : kl == 24 ? "key24" : "key32" });
    ops.push_back({ 1, 1, false, "enc1" }); ops.push_back({ 2, 1, false, "dec1" });
    ops.push_back({ 1, 3, true, "enc3-inplace" }); ops.push_back({ 2, 2, true, "dec2-inplace" });
    ops.push_back({ 1, 0, false, "enc0" }); ops.push_back({ 2, 0, false, "dec0" });
    size_t N = ops.size();
    std::vector<size_t> h(depth, 0);
    for (;;) {
        if (mine()) {
            g_states++;
            Chk<L, Rf> c;
            c.key(patv(kls[0], 1));
            std::string t = std::string(nm) + ": key" + std::to_string(kls[0]);
            for (size_t i = 0; i < depth; i++) {
                Op &o = ops[h[i]];
                t += " "; t += o.name;
                CASET(t);
                if (o.kind == 0) c.key(patv(o.n, i + 2));
                else c.op(patv(o.n * B, i + 20), o.kind == 1, o.inpl);
            }
            sample();
        }
        size_t i = 0;
        while (i < depth && ++h[i] == N) h[i++] = 0;
        if (i == depth) break;
    }
}
int main(int argc, char **argv)
{
    init(argc, argv);
    bool T = g_thorough;
    if (g_mode == "aes-sweep") sweep<LibAes, RefAes>({ 16, 24, 32 }, "AES", 20);
    else if (g_mode == "des-sweep") sweep<LibDes, RefDes>({ 8, 24 }, "DES", 1);
    else if (g_mode == "aes-hist") histories<LibAes, RefAes>({ 16, 24, 32 }, "AES", T ? 7 : 6);
    else if (g_mode == "des-hist") histories<LibDes, RefDes>({ 8, 24 }, "DES", T ? 6 : 5);
    return done();
}

// C12: RSA encryption, signatures, paddings, key generation.
#include "sigref.hpp"
extern "C" {
#include <cry/rsa.h>
}
struct Key { Z n, e, d, p, q; };
static Key mk(const Z &p, const Z &q, const Z &e)
{
    Z ph = (p - 1) * (q - 1);
    return Key{ p * q, e, zinv(e, ph), p, q };
}
struct Ctx {
    cry_rsa_ctx c; Key k; size_t sz; int pad;
    Ctx(const Key &K, int padding) : k(K), sz((zbits(K.n) + 7) / 8), pad(padding)
    {
        if (cry_rsa_init(&c, padding)) abort();
        zset(&c.n, K.n); zset(&c.e, K.e); zset(&c.d, K.d); zset(&c.p, K.p); zset(&c.q, K.q);
    }
    ~Ctx() { cry_rsa_clear(&c); }
    bool same() const { return zget(&c.n) == k.n && zget(&c.e) == k.e && zget(&c.d) == k.d && c.padding == pad; }
    std::string str() const { return "n=" + zs(k.n) + " e=" + zs(k.e) + " d=" + zs(k.d); }
};
static Bytes enc(const Z &v, size_t n)
{
    Bytes b(n); Z t = v;
    for (size_t i = n; i-- > 0;) { b[i] = Z(t & 255).get_ui(); t >>= 8; }
    return b;
}
static Bytes cat(Bytes a, const Bytes &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
struct R { int res; Bytes out; };
enum Op { ENC, DEC, SIGN };
static R call(Ctx &C, Op op, const Bytes &in)
{
    Buf b(in);
    unsigned char *o = (unsigned char *)0x10; size_t ol = 0x1234;
    g_trans++; g_traces++; g_draws = 0;
    int res = op == ENC ? cry_rsa_encrypt(&C.c, &o, &ol, b.p, b.n) : op == DEC ? cry_rsa_decrypt(&C.c, &o, &ol, b.p, b.n) : cry_rsa_sign(&C.c, &o, &ol, b.p, b.n);
    if (!b.eq(in)) fail("input", "the input was changed");
    if (!C.same()) fail("input", "the key was changed");
    R r{ res, {} };
    if (res == 0) { if (ol) r.out.assign(o, o + ol); free(o); }
    else if (o != (unsigned char *)0x10 && o != nullptr) fail("error", "output pointer left set after an error");
    return r;
}
static int lib_verify(Ctx &C, const Bytes &sig, const Bytes &m)
{
    Buf s(sig), b(m);
    g_trans++; g_traces++;
    int res = cry_rsa_verify(&C.c, s.p, s.n, b.p, b.n);
    if (!s.eq(sig) || !b.eq(m)) fail("verify", "verification changed its input");
    return res;
}
// reference block decoding; type 2 = encryption, type 1 = signature
static bool ref_unpad(const Bytes &em, int type, Bytes &out)
{
    if (em.size() < 11 || em[0] != 0 || em[1] != type) return false;
    size_t i = 2;
    for (; i < em.size() && em[i] != 0; i++) if (type == 1 && em[i] != 0xff) return false;
    if (i == em.size() || i - 2 < 8) return false;
    out.insert(out.end(), em.begin() + i + 1, em.end());
    return true;
}
static bool ref_open(const Ctx &C, const Bytes &in, const Z &exp, int type, Bytes &out)
{
    out.clear();
    if (in.size() == 0 || in.size() % C.sz) return false;
    for (size_t i = 0; i < in.size(); i += C.sz) {
        Z c = zbytes(Bytes(in.begin() + i, in.begin() + i + C.sz));
        if (c >= C.k.n) return false;
        Bytes em = enc(zpow(c, exp, C.k.n), C.sz);
        if (C.pad == CRY_RSA_PADDING_NONE) out = cat(out, em);
        else if (!ref_unpad(em, type, out)) return false;
    }
    return true;
}
static bool ref_verify(const Ctx &C, const Bytes &sig, const Bytes &m)
{
    Bytes o;
    if (!ref_open(C, sig, C.k.e, 1, o)) return false;
    if (C.pad != CRY_RSA_PADDING_NONE) return o == m;
    if (o.size() < m.size()) return false;
    Bytes x = m; x.resize(o.size());
    return o == x;
}
static void chk_verify(Ctx &C, const Bytes &sig, const Bytes &m)
{
    bool want = ref_verify(C, sig, m);
    int res = lib_verify(C, sig, m);
    if ((res == 0) != want) fail("verify", "%s signature %s message %s: returned %d, should %s", C.str().c_str(), hex(sig).c_str(), hex(m).c_str(), res, want ? "be accepted" : "be refused");
}
static void chk_decrypt(Ctx &C, const Bytes &ct)
{
    Bytes o;
    bool want = ref_open(C, ct, C.k.d, 2, o);
    R r = call(C, DEC, ct);
    if ((r.res == 0) != want) fail("decrypt", "%s ciphertext %s: returned %d, should %s", C.str().c_str(), hex(ct).c_str(), r.res, want ? "be accepted" : "be refused");
    if (want && r.out != o) fail("decrypt", "%s ciphertext %s: plaintext %s, expected %s", C.str().c_str(), hex(ct).c_str(), hex(r.out).c_str(), hex(o).c_str());
}
// blocks of the message under this key, all representable?
static bool fits(const Ctx &C, const Bytes &m)
{
    if (C.pad != CRY_RSA_PADDING_NONE) return true;
    for (size_t i = 0; i < m.size(); i += C.sz) {
        Bytes b(m.begin() + i, m.begin() + std::min(i + C.sz, m.size()));
        b.resize(C.sz);
        if (zbytes(b) >= C.k.n) return false;
    }
    return true;
}
static void roundtrip(Ctx &C, const Bytes &m, Bytes *sigout = nullptr)
{
    size_t blk = C.pad == CRY_RSA_PADDING_NONE ? C.sz : C.sz - 11;
    size_t nb = m.empty() ? 1 : (m.size() + blk - 1) / blk;
    bool ok = fits(C, m);
    R e = call(C, ENC, m);
    if (C.pad == CRY_RSA_PADDING_NONE && m.empty()) { if (e.res == 0 && !e.out.empty()) chk_decrypt(C, e.out); return; }
    if (!ok) { if (e.res == 0) fail("encrypt", "%s: a block not less than the modulus was encrypted", C.str().c_str()); }
    else {
        if (e.res != 0) { if (g_draws > g_failat) return; fail("encrypt", "%s message %s refused", C.str().c_str(), hex(m).c_str()); }
        if (C.pad != CRY_RSA_PADDING_NONE && g_draws > g_failat) fail("encrypt", "the generator failed and encryption reported success");
        if (e.out.size() != nb * C.sz) fail("encrypt", "ciphertext of %zu bytes for %zu bytes", e.out.size(), m.size());
        Bytes o;
        Bytes want = m;
        if (C.pad == CRY_RSA_PADDING_NONE) want.resize(nb * C.sz);
        if (!ref_open(C, e.out, C.k.d, 2, o) || o != want) fail("encrypt", "%s message %s: ciphertext %s is not a standard encryption", C.str().c_str(), hex(m).c_str(), hex(e.out).c_str());
        chk_decrypt(C, e.out);
    }
    R s = call(C, SIGN, m);
    if (!ok) { if (s.res == 0) fail("sign", "%s: a block not less than the modulus was signed", C.str().c_str()); return; }
    if (s.res != 0) fail("sign", "%s message %s refused", C.str().c_str(), hex(m).c_str());
    Bytes want;
    for (size_t b = 0; b < nb; b++) {
        Bytes ch(m.begin() + b * blk, m.begin() + std::min((b + 1) * blk, m.size())), em;
        if (C.pad == CRY_RSA_PADDING_NONE) { em = ch; em.resize(C.sz); }
        else { em = { 0, 1 }; em.resize(C.sz - ch.size() - 1, 0xff); em.push_back(0); em = cat(em, ch); }
        want = cat(want, enc(zpow(zbytes(em), C.k.d, C.k.n), C.sz));
    }
    if (s.out != want) fail("sign", "%s message %s: signature %s expected %s", C.str().c_str(), hex(m).c_str(), hex(s.out).c_str(), hex(want).c_str());
    chk_verify(C, s.out, m);
    if (sigout) *sigout = s.out;
}
static Key key(unsigned bits, unsigned salt, unsigned long e = 65537)
{
    unsigned h = bits / 2;
    Z p = (Z(3) << (h - 2)) + zbytes(patv((h - 3) / 8, salt));
    do p = znext(p); while (zmod(p - 1, e) == 0);
    Z q = (Z(3) << (bits - h - 2)) + zbytes(patv((bits - h - 3) / 8, salt + 77));
    do q = znext(q); while (zmod(q - 1, e) == 0 || q == p);
    return mk(p, q, e);
}
int main(int argc, char **argv)
{
    init(argc, argv);
    gen_stream(1);
    bool T = g_thorough;
    if (g_mode == "raw") {
        // unpadded, tiny moduli: all messages, ciphertexts, signatures
        std::vector<Key> ks = { mk(3, 5, 3), mk(3, 11, 3), mk(7, 13, 5), mk(11, 23, 3), mk(13, 17, 5), mk(17, 31, 7), mk(3, 11, 7), mk(251, 241, 7) };
        for (auto &K : ks) {
            Ctx C(K, CRY_RSA_PADDING_NONE);
            unsigned top = C.sz == 1 ? 256 : 65536;
            for (unsigned v = 0; v < top; v++) {
                if (!mine()) continue;
                Bytes b = enc(v, C.sz);
                CASE("no padding n=%lld e=%lld value %lld", K.n.get_si(), K.e.get_si(), v);
                sample();
                g_states++;
                roundtrip(C, b);
                chk_decrypt(C, b);
                if (C.sz == 1) {
                    for (unsigned w = 0; w < 256; w++) {
                        CASE("no padding n=%lld e=%lld first byte %lld second byte %lld", K.n.get_si(), K.e.get_si(), v, w);
                        chk_verify(C, b, Bytes{ (uint8_t)w });
                        if (T || w % 5 == 0) { roundtrip(C, Bytes{ (uint8_t)v, (uint8_t)w }); chk_decrypt(C, Bytes{ (uint8_t)v, (uint8_t)w }); }
                        if (w < 3) { Z a = zpow(v, K.e, K.n); chk_verify(C, Bytes{ (uint8_t)v, (uint8_t)w }, Bytes{ (uint8_t)a.get_ui() }); chk_verify(C, Bytes{ (uint8_t)v, (uint8_t)w }, Bytes{ (uint8_t)a.get_ui(), (uint8_t)(w == 0 ? 0 : zpow(w, K.e, K.n).get_ui()) }); }
                    }
                } else {
                    Bytes o = enc(zpow(v, K.e, K.n), C.sz);
                    if (v < K.n) { chk_verify(C, b, o); chk_verify(C, b, { o[0] }); chk_verify(C, b, cat(o, { 0 })); o[1] ^= 1; chk_verify(C, b, o); o[0] ^= 0x80; chk_verify(C, b, o); }
                    if (v % 256 == 0) roundtrip(C, { (uint8_t)(v >> 8) });
                    if (v % 251 == 0) roundtrip(C, cat(b, { (uint8_t)v, 0, (uint8_t)(v >> 9) }));
                }
                chk_verify(C, b, Bytes{}); chk_verify(C, Bytes{}, Bytes{}); chk_verify(C, Bytes{}, b);
                chk_decrypt(C, Bytes{});
                chk_decrypt(C, cat(b, { 0 })); if (C.sz == 2) chk_decrypt(C, { 0 });
            }
        }
    } else if (g_mode == "pad") {
        std::vector<unsigned> bits = { 96, 97, 103, 104, 128, 129, 192, 256 };
        if (T) bits.insert(bits.end(), { 90, 111, 160, 200, 264, 512, 520 });
        for (unsigned nb : bits)
            for (unsigned salt = 0; salt < 2; salt++) {
                if (zmod(nb, 8) != 0 && salt && !T) continue;
                Key K = key(nb, salt, salt ? 3 : 65537);
                size_t sz = (zbits(K.n) + 7) / 8, blk = sz - 11;
                for (size_t len = 0; len <= 3 * blk + 1; len += (T || blk < 6 || len % blk < 2 || len % blk > blk - 2) ? 1 : blk < 12 ? 2 : 5)
                    for (int pt = 0; pt < 4; pt++) {
                        if (!mine()) continue;
                        Bytes m = pt == 0 ? patv(len, 3) : pt == 1 ? Bytes(len, 0) : pt == 2 ? Bytes(len, 0xff) : Bytes(len, 2);
                        if (pt == 3) for (size_t i = 0; i < len; i += 2) m[i] = 0;
                        Ctx C(K, CRY_RSA_PADDING_PKCS_V15);
                        for (int g = 0; g < 4; g++) {
                            if (g == 0) gen_stream(len); else gen_const(g == 1 ? 0 : g == 2 ? 0xff : 2);
                            CASE("padded, %lld-bit modulus %lld, message length %lld pattern %lld, generator %lld", nb, salt, len, pt, g);
                            sample();
                            g_states++;
                            Bytes sig;
                            roundtrip(C, m, &sig);
                            if (g) continue;
                            // altered signature, every bit of it (or a spread)
                            for (size_t i = 0; i < sig.size() * 8; i += T || sig.size() < 14 ? 1 : 11) { Bytes x = sig; x[i / 8] ^= 0x80 >> i % 8; chk_verify(C, x, m); }
                            for (size_t i = 0; i < len * 8; i += T || len < 4 ? 1 : 7) { Bytes x = m; x[i / 8] ^= 0x80 >> i % 8; chk_verify(C, sig, x); }
                            { Bytes x = m; x.push_back(0); chk_verify(C, sig, x); }
                            if (len) { Bytes x = m; x.pop_back(); chk_verify(C, sig, x); chk_verify(C, sig, {}); }
                            { Bytes x = sig; x.push_back(0); chk_verify(C, x, m); chk_decrypt(C, x); x = sig; x.pop_back(); chk_verify(C, x, m); chk_decrypt(C, x); x = cat(Bytes{ 0 }, sig); chk_verify(C, x, m); }
                            chk_verify(C, {}, m); chk_decrypt(C, {});
                            chk_verify(C, cat(sig, sig), m); chk_verify(C, cat(sig, sig), cat(m, m));
                            if (sig.size() > sz) { chk_verify(C, Bytes(sig.begin(), sig.end() - sz), m); chk_verify(C, Bytes(sig.begin() + sz, sig.end()), m); }
                            Z sv = zbytes(Bytes(sig.begin(), sig.begin() + sz)) + K.n;
                            if (zbits(sv) <= 8 * sz) { Bytes x = cat(enc(sv, sz), Bytes(sig.begin() + sz, sig.end())); chk_verify(C, x, m); }
                            chk_verify(C, cat(enc(K.n, sz), Bytes(sig.begin() + sz, sig.end())), m);
                            chk_verify(C, Bytes(sz, 0), m); chk_decrypt(C, Bytes(sz, 0)); chk_decrypt(C, enc(K.n, sz)); chk_decrypt(C, Bytes(sz, 0xff)); chk_decrypt(C, enc(K.n - 1, sz));
                            // another key
                            Ctx D(key(nb, salt + 5), CRY_RSA_PADDING_PKCS_V15);
                            if (D.sz == C.sz) chk_verify(D, sig, m);
                        }
                        for (unsigned f = 0; f < 4; f++) { gen_stream(3); g_failat = f; CASE("padded, %lld-bit modulus, message length %lld, generator fails at draw %lld", nb, len, f); roundtrip(C, m); g_failat = ~0UL; }
                    }
            }
        // long messages
        for (unsigned nb : { 96u, 256u }) for (int pd : { CRY_RSA_PADDING_PKCS_V15, CRY_RSA_PADDING_NONE }) for (size_t len : { 200u, 255u, 256u, 257u, 1024u, 2049u, 4096u, 4097u, 6000u, 8193u, 16384u, 32768u, 32769u, 65535u, 65536u, 65537u, 66000u, 131077u }) {
            if (!mine()) continue;
            if (!T && nb == 96 && pd == CRY_RSA_PADDING_PKCS_V15 && len > 9000) continue;
            if (!T && len > 66000) continue;
            Ctx C(key(nb, 3, 3), pd); gen_stream(len);
            CASE("%lld-bit modulus, padding %lld, long message of %lld bytes", nb, pd, len); sample(); g_states++;
            Bytes m = patv(len, nb); if (pd == CRY_RSA_PADDING_NONE) for (size_t i = 0; i < len; i += C.sz) m[i] = 0;
            Bytes sig; roundtrip(C, m, &sig); if (sig.empty()) continue;
            { Bytes x = m; x[len - 1] ^= 1; chk_verify(C, sig, x); x = m; x.push_back(0); chk_verify(C, sig, x); x = m; x.pop_back(); chk_verify(C, sig, x); x = sig; x[sig.size() - C.sz + 5] ^= 1; chk_verify(C, x, m); }
        }
    } else if (g_mode == "real") {
        for (unsigned nb : { 512u, 520u, 768u, 1024u, 1031u, 2048u, 3072u, 4096u })
            for (unsigned e : { 3u, 65537u })
                for (int pd : { CRY_RSA_PADDING_PKCS_V15, CRY_RSA_PADDING_NONE }) {
                    if (nb > 2048 && (!T || e == 3)) continue;
                    Key K = key(nb, 3, e);
                    size_t sz = (zbits(K.n) + 7) / 8, blk = pd == CRY_RSA_PADDING_NONE ? sz : sz - 11;
                    for (size_t len : { (size_t)0, (size_t)1, (size_t)20, blk - 1, blk, blk + 1, 2 * blk, 3 * blk - 5 }) {
                        if (!T && nb > 1031 && len > blk + 1) continue;
                        if (!mine()) continue;
                        Ctx C(K, pd); gen_stream(len);
                        CASE("%lld-bit modulus, exponent %lld, padding %lld, message length %lld", nb, e, pd, len); sample(); g_states++;
                        Bytes m = patv(len, nb); if (pd == CRY_RSA_PADDING_NONE) for (size_t i = 0; i < len; i += sz) m[i] = 0;
                        if (len && pd != CRY_RSA_PADDING_NONE) m[0] = 0;
                        Bytes sig; roundtrip(C, m, &sig);
                        if (sig.empty()) continue;
                        for (size_t i : { (size_t)0, (size_t)9, sz * 4 + 3, sz * 8 - 1, sig.size() * 8 - 1 }) { Bytes x = sig; x[i / 8] ^= 0x80 >> i % 8; chk_verify(C, x, m); if (nb < 1100) chk_decrypt(C, x); }
                        for (size_t i : { (size_t)0, len / 2, len - 1 }) if (i < len) { Bytes x = m; x[i] ^= 1; chk_verify(C, sig, x); }
                        { Bytes x = m; x.push_back(0); chk_verify(C, sig, x); if (len) { x = m; x.pop_back(); chk_verify(C, sig, x); } }
                    }
                }
    } else if (g_mode == "blocks") {
        // every shape of the decoded block
        for (unsigned nb : { 88u, 96u, 104u, 136u }) {
            Key K = key(nb, 9, 65537);
            Ctx C(K, CRY_RSA_PADDING_PKCS_V15);
            size_t sz = C.sz;
            for (unsigned b0 = 0; b0 < 3; b0++)
                for (unsigned b1 = 0; b1 < 256; b1 += b1 < 5 ? 1 : 50)
                    for (unsigned fill : { 0xffu, 0x01u, 0xfeu, 0x7fu })
                        for (size_t z1 = 2; z1 <= sz; z1++)             // first zero
                            for (size_t odd = 1; odd <= sz; odd++) {    // position of one deviating byte
                                if (!mine()) continue;
                                Bytes em(sz, fill);
                                em[0] = b0; em[1] = b1;
                                if (z1 < sz) em[z1] = 0;
                                if (odd >= 2 && odd < sz && odd != z1) em[odd] = odd > z1 ? 0 : 0xf0;
                                if (zbytes(em) >= K.n) continue;
                                CASE("%lld-bit modulus, decoded block: first byte %lld type %lld fill %lld zero at %lld deviation at %lld", nb, b0, b1, fill, z1, odd);
                                sample();
                                g_states++;
                                chk_decrypt(C, enc(zpow(zbytes(em), K.e, K.n), sz));
                                Bytes sig = enc(zpow(zbytes(em), K.d, K.n), sz);
                                Bytes m; if (z1 + 1 <= sz && z1 < sz) m.assign(em.begin() + z1 + 1, em.end());
                                chk_verify(C, sig, m);
                                chk_verify(C, sig, Bytes{});
                            }
        }
        // moduli too short for the padding
        for (auto &K : { mk(3, 11, 3), mk(251, 241, 7), key(40, 1), key(64, 1), key(72, 1), key(80, 2), key(86, 1), key(88, 1) })
            for (int pd : { CRY_RSA_PADDING_PKCS_V15, CRY_RSA_PADDING_PKCS_V21 })
                for (size_t len = 0; len < 14; len++) {
                    if (!mine()) continue;
                    Ctx C(K, pd);
                    CASE("modulus of %lld bytes, padding %lld, message of %lld bytes", C.sz, pd, len);
                    Bytes m = patv(len, 1);
                    g_states++;
                    R r = call(C, ENC, m);
                    if (r.res == 0 && (pd != CRY_RSA_PADDING_PKCS_V15 || C.sz < 11)) fail("encrypt", "modulus too short for the padding accepted");
                    R s = call(C, SIGN, m);
                    if (s.res == 0 && (pd != CRY_RSA_PADDING_PKCS_V15 || C.sz < 11)) fail("sign", "modulus too short for the padding accepted");
                    if (pd == CRY_RSA_PADDING_PKCS_V15) { chk_decrypt(C, enc(1, C.sz)); chk_decrypt(C, enc(K.n - 1, C.sz)); chk_decrypt(C, enc(2, C.sz)); chk_verify(C, enc(1, C.sz), m); chk_verify(C, enc(K.n - 1, C.sz), Bytes{}); }
                }
    } else if (g_mode == "keygen") {
        for (unsigned bits : { 16u, 17u, 24u, 32u, 33u, 48u, 63u, 64u, 65u, 96u, 97u, 128u, 129u, 144u, 255u, 256u, 512u, 1024u })
            for (long e : { 3L, 17L, 65537L, 0L, 2L })
                for (unsigned salt = 0; salt < (T ? 12u : 3u); salt++) {
                    if (!mine()) continue;
                    if (e == 2 && (bits > 24 || salt)) continue;
                    if (bits > 128 && salt > 0 && !T) continue;
                    if (bits > 512 && (!T || e != 65537 || salt > 2)) continue;
                    gen_stream(salt * 31 + bits);
                    g_draws = 0;
                    g_hang_secs = 200;
                    cry_rsa_ctx c;
                    if (cry_rsa_init(&c, bits < 96 ? CRY_RSA_PADDING_NONE : CRY_RSA_PADDING_PKCS_V15)) abort();
                    CASE("key generation %lld bits, exponent %lld, generator stream %lld", bits, e, salt);
                    sample();
                    g_states++; g_trans++; g_traces++;
                    int res = cry_rsa_keygen(&c, bits, e);
                    Key K{ zget(&c.n), zget(&c.e), zget(&c.d), zget(&c.p), zget(&c.q) };
                    cry_rsa_clear(&c);
                    if (res != 0) { if (bits % 16 == 0 && e != 2) fail("keygen", "refused"); continue; }
                    if (!zprime(K.p) || !zprime(K.q) || K.p == K.q) fail("keygen", "factors %s and %s are not two distinct primes", zs(K.p).c_str(), zs(K.q).c_str());
                    if (K.p * K.q != K.n || zbits(K.n) != bits) fail("keygen", "modulus %s is not the product or has not %u bits", zs(K.n).c_str(), bits);
                    if (e && K.e != e) fail("keygen", "exponent changed");
                    Z l; Z p1 = K.p - 1, q1 = K.q - 1; mpz_lcm(l.get_mpz_t(), p1.get_mpz_t(), q1.get_mpz_t());
                    if (zmod(K.e * K.d, l) != 1 || K.d <= 0 || K.e <= 0) fail("keygen", "n=%s e=%s d=%s: exponents are not inverse", zs(K.n).c_str(), zs(K.e).c_str(), zs(K.d).c_str());
                    gen_stream(5);
                    Ctx C(K, bits < 96 ? CRY_RSA_PADDING_NONE : CRY_RSA_PADDING_PKCS_V15);
                    Bytes m = bits < 96 ? Bytes{ 0x20, 7 } : patv(C.sz - 11 + 3, 4);
                    if (bits == 65 || bits == 97 || bits == 129 || bits == 33 || bits == 255 || bits == 63) m = bits < 96 ? Bytes{ 0, 0x20 } : m;
                    roundtrip(C, m);
                }
        // every answer sequence of the first requests over an alphabet of extremes and primes, 16-bit keys
        static const unsigned char AL[] = { 0x00, 0x01, 0x83, 0xbf, 0xc1, 0xfb, 0xff };
        for (unsigned v = 0; v < 16807; v++) for (long e : { 17L, 0L }) {
            if (!mine()) continue;
            if (e == 0 && v % 7 && !T) continue;
            std::map<unsigned long, Bytes> sub; unsigned u = v; for (unsigned long i = 0; i < 5; i++, u /= 7) sub[i] = Bytes(2, AL[u % 7]);
            gen_subst(v % 5, sub); g_draws = 0;
            cry_rsa_ctx c; if (cry_rsa_init(&c, 0)) abort();
            CASE("16-bit key generation, exponent %lld, answers number %lld", e, v); sample();
            g_states++; g_trans++; g_traces++;
            int res = cry_rsa_keygen(&c, 16, e);
            Key K{ zget(&c.n), zget(&c.e), zget(&c.d), zget(&c.p), zget(&c.q) };
            cry_rsa_clear(&c);
            if (res != 0) { fail("keygen", "refused"); continue; }
            if (!zprime(K.p) || !zprime(K.q) || K.p == K.q) fail("keygen", "factors %s and %s are not two distinct primes", zs(K.p).c_str(), zs(K.q).c_str());
            if (K.p * K.q != K.n || zbits(K.n) != 16) fail("keygen", "modulus %s is not the product or has not 16 bits", zs(K.n).c_str());
            Z l; Z p1 = K.p - 1, q1 = K.q - 1; mpz_lcm(l.get_mpz_t(), p1.get_mpz_t(), q1.get_mpz_t());
            if (zmod(K.e * K.d, l) != 1 || K.d <= 0 || K.e <= 0) fail("keygen", "n=%s e=%s d=%s: exponents are not inverse", zs(K.n).c_str(), zs(K.e).c_str(), zs(K.d).c_str());
        }
        // equal factors for ever / generator failures
        for (unsigned v = 0; v < 8; v++) {
            if (!mine()) continue;
            cry_rsa_ctx c;
            if (cry_rsa_init(&c, 0)) abort();
            gen_const(v * 36);
            CASE("key generation with a generator that only delivers %lld", v * 36);
            int res = cry_rsa_keygen(&c, 16, 17);
            g_trans++;
            if (res == 0 && (zget(&c.p) == zget(&c.q) || zget(&c.n) != zget(&c.p) * zget(&c.q) || !zprime(zget(&c.p)))) fail("keygen", "success reported without a valid key");
            cry_rsa_clear(&c);
            if (cry_rsa_init(&c, 0)) abort();
            gen_stream(v); g_draws = 0; g_failat = v;
            CASE("key generation, generator fails at draw %lld", v);
            res = cry_rsa_keygen(&c, 64, v & 1 ? 17 : 0);
            g_trans++;
            if (res == 0 && g_draws > v) fail("keygen", "the generator failed and key generation reported success");
            g_failat = ~0UL;
            cry_rsa_clear(&c);
        }
    }
    return done();
}

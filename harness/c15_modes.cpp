// C15: CBC, CFB, CFB-8, CTR over AES / DES / 3DES against a textbook model over
// OpenSSL's block functions: all lengths, all chunkings, all short histories.
#include "h.hpp"
#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/aes.h>
#include <openssl/des.h>
extern "C" {
#include <cry/aes.h>
#include <cry/des.h>
#include <cry/cbc.h>
#include <cry/cfb.h>
#include <cry/ctr.h>
}
static const cry_ciph_itf aes_itf = { (cry_ciph_init_f)cry_aes_init, (cry_ciph_clear_f)cry_aes_clear, (cry_ciph_key_set_f)cry_aes_key_set, (cry_ciph_encrypt_f)cry_aes_encrypt, (cry_ciph_decrypt_f)cry_aes_decrypt };
static const cry_ciph_itf des_itf = { (cry_ciph_init_f)cry_des_init, (cry_ciph_clear_f)cry_des_clear, (cry_ciph_key_set_f)cry_des_key_set, (cry_ciph_encrypt_f)cry_des_encrypt, (cry_ciph_decrypt_f)cry_des_decrypt };
static const cry_ciph_itf aes_itf_min = { nullptr, nullptr, (cry_ciph_key_set_f)cry_aes_key_set, (cry_ciph_encrypt_f)cry_aes_encrypt, (cry_ciph_decrypt_f)cry_aes_decrypt };

enum { AES128, AES256, DES1, DES3, NC };
static const char *cn[] = { "AES-128", "AES-256", "DES", "3DES" };
static size_t bs(int c) { return c <= AES256 ? 16 : 8; }
static size_t klen(int c) { return c == AES128 ? 16 : c == AES256 ? 32 : c == DES1 ? 8 : 24; }
struct RefC {
    int c = -1; AES_KEY e, d; DES_key_schedule s[3];
    void key(int c_, const Bytes &k)
    {
        c = c_;
        if (c <= AES256) { AES_set_encrypt_key(k.data(), k.size() * 8, &e); AES_set_decrypt_key(k.data(), k.size() * 8, &d); }
        else for (size_t i = 0; i < k.size() / 8; i++) DES_set_key_unchecked((const_DES_cblock *)&k[8 * i], &s[i]);
    }
    Bytes blk(const Bytes &in, bool enc)
    {
        Bytes o(in.size());
        if (c <= AES256) { enc ? AES_encrypt(in.data(), o.data(), &e) : AES_decrypt(in.data(), o.data(), &d); }
        else if (c == DES1) DES_ecb_encrypt((const_DES_cblock *)in.data(), (DES_cblock *)o.data(), &s[0], enc);
        else DES_ecb3_encrypt((const_DES_cblock *)in.data(), (DES_cblock *)o.data(), &s[0], &s[1], &s[2], enc);
        return o;
    }
};
enum { CBCE, CBCD, CFBE, CFBD, CFB8E, CFB8D, CTR, NM };
static const char *mn[] = { "CBC encrypt", "CBC decrypt", "CFB encrypt", "CFB decrypt", "CFB-8 encrypt", "CFB-8 decrypt", "CTR" };
// model: chaining register v; spent = a partial block ended the stream
struct Model {
    RefC r; Bytes v; bool spent = false;
    Bytes run(int m, const Bytes &in)
    {
        Bytes out; size_t b = v.size();
        if (m == CBCE || m == CBCD) {
            for (size_t i = 0; i + b <= in.size(); i += b) {
                Bytes x(in.begin() + i, in.begin() + i + b), y;
                if (m == CBCE) { for (size_t j = 0; j < b; j++) x[j] ^= v[j]; y = r.blk(x, true); v = y; }
                else { y = r.blk(x, false); for (size_t j = 0; j < b; j++) y[j] ^= v[j]; v = x; }
                out.insert(out.end(), y.begin(), y.end());
            }
        } else if (m == CFB8E || m == CFB8D) {
            for (uint8_t x : in) {
                uint8_t y = x ^ r.blk(v, true)[0];
                v.erase(v.begin()); v.push_back(m == CFB8E ? y : x);
                out.push_back(y);
            }
        } else {
            for (size_t i = 0; i < in.size(); i += b) {
                size_t n = std::min(b, in.size() - i);
                Bytes k = r.blk(v, true);
                for (size_t j = 0; j < n; j++) out.push_back(in[i + j] ^ k[j]);
                if (m == CTR) { for (size_t j = b; j-- > 0;) if (++v[j]) break; }
                else { for (size_t j = 0; j < n; j++) v[j] = m == CFBE ? out[i + j] : in[i + j]; }
                if (n < b) spent = true;
            }
        }
        return out;
    }
};
struct Lib {
    cry_aes_ctx a; cry_des_ctx d; cry_cbc_ctx cbc; cry_cfb_ctx cfb; cry_ctr_ctx ctr;
    int c, fam; bool min;
    Lib(int c_, int m, bool min_ = false) : c(c_), fam(m <= CBCD ? 0 : m <= CFB8D ? 1 : 2), min(min_) { memset(&a, 0xA5, sizeof a); memset(&d, 0xA5, sizeof d); memset(&cbc, 0xA5, sizeof cbc); memset(&cfb, 0xA5, sizeof cfb); memset(&ctr, 0xA5, sizeof ctr); init(); }
    void init()
    {
        void *x = c <= AES256 ? (void *)&a : (void *)&d; const cry_ciph_itf *t = c <= AES256 ? (min ? &aes_itf_min : &aes_itf) : &des_itf;
        if (fam == 0) cry_cbc_init(&cbc, x, t); else if (fam == 1) cry_cfb_init(&cfb, x, t); else cry_ctr_init(&ctr, x, t);
    }
    void clear() { if (fam == 0) cry_cbc_clear(&cbc); else if (fam == 1) cry_cfb_clear(&cfb); else cry_ctr_clear(&ctr); }
    void key(const Bytes &k) { Buf b(k); if (fam == 0) cry_cbc_key_set(&cbc, b.p, b.n); else if (fam == 1) cry_cfb_key_set(&cfb, b.p, b.n); else cry_ctr_key_set(&ctr, b.p, b.n); }
    void iv(const Bytes &k) { Buf b(k); if (fam == 0) cry_cbc_iv_set(&cbc, b.p, b.n); else if (fam == 1) cry_cfb_iv_set(&cfb, b.p, b.n); else cry_ctr_iv_set(&ctr, b.p, b.n); }
    void run(int m, unsigned char *o, const unsigned char *i, size_t n)
    {
        switch (m) {
        case CBCE: cry_cbc_encrypt(&cbc, o, i, n); break;
        case CBCD: cry_cbc_decrypt(&cbc, o, i, n); break;
        case CFBE: cry_cfb_encrypt(&cfb, o, i, n); break;
        case CFBD: cry_cfb_decrypt(&cfb, o, i, n); break;
        case CFB8E: cry_cfb8_encrypt(&cfb, o, i, n); break;
        case CFB8D: cry_cfb8_decrypt(&cfb, o, i, n); break;
        case CTR: cry_ctr_encrypt(&ctr, o, i, n); break;
        }
    }
    // one call on exact-size heap buffers; CBC leaves the bytes of an incomplete block alone
    void call(Model &M, int m, const Bytes &in, bool inplace)
    {
        Bytes want = M.run(m, in);
        g_trans++; g_traces++;
        Bytes got;
        if (inplace) {
            Buf b(in); run(m, b.p, b.p, b.n); got = b.bytes();
            want.insert(want.end(), in.begin() + want.size(), in.end());
        } else {
            Buf s(in), b(in.size(), 0x5c); run(m, b.p, s.p, s.n); got = b.bytes();
            if (!s.eq(in)) fail("source", "%s: source buffer changed", mn[m]);
            while (want.size() < in.size()) want.push_back(0x5c);
        }
        if (got != want) {
            size_t i = 0; while (got[i] == want[i]) i++;
            fail("output", "%s with %s, %zu bytes %s: byte %zu differs; got %s, standard %s", mn[m], cn[c], in.size(), inplace ? "in place" : "between buffers", i, hex(got).c_str(), hex(want).c_str());
        }
    }
};
static Bytes K(int c, int n) { return patv(klen(c), 100 + n); }
static Bytes IV(int c, int n) { return patv(bs(c), 200 + n); }
struct Ctx {
    Lib l; Model m;
    Ctx(int c, int mode, bool min = false) : l(c, mode, min) {}
    void key(int c, const Bytes &k) { l.key(k); m.r.key(c, k); }
    void iv(const Bytes &v) { l.iv(v); m.v = v; m.spent = false; }
};

static void lens()
{
    size_t lim = g_thorough ? 2200 : 1100;
    for (int c = 0; c < NC; c++)
        for (int m = 0; m < NM; m++)
            for (int inp = 0; inp < 2; inp++)
                for (size_t n = 0; n <= ((m == CFB8E || m == CFB8D) ? 300 : lim); n++) {
                    if (!mine()) continue;
                    if (!g_thorough && n > 140 && n % bs(c) > 1) continue;
                    if (!g_thorough && c & 1 && n > 140) continue;
                    CASE("cipher=%lld mode=%lld inplace=%lld len=%lld", c, m, inp, n); sample();
                    g_states++;
                    Ctx x(c, m, c == AES128 && n % 2);
                    x.key(c, K(c, 0)); x.iv(IV(c, n % 3));
                    x.l.call(x.m, m, patv(n, m), inp);
                    if (!x.m.spent) { x.l.call(x.m, m, patv(3 * bs(c), 7), !inp); if (m >= CFBE) x.l.call(x.m, m, patv(bs(c) + 3, 9), inp); }
                    // reverse direction restores the plaintext with a fresh context of the same key and IV
                    Ctx e(c, m); e.key(c, K(c, 0)); e.iv(IV(c, 1));
                    int inv = m == CTR ? CTR : (m ^ 1);
                    size_t nn = m <= CBCD ? n / bs(c) * bs(c) : n;
                    Bytes p = patv(nn, 3); Buf b(p);
                    e.l.run(m, b.p, b.p, b.n);
                    Ctx f(c, m); f.key(c, K(c, 0)); f.iv(IV(c, 1));
                    f.l.run(inv, b.p, b.p, b.n);
                    if (!b.eq(p)) fail("roundtrip", "%s then its inverse does not restore the data", mn[m]);
                }
    for (int c = 0; c < NC; c++)
        for (int m = 0; m < NM; m++)
            for (int inp = 0; inp < 2; inp++)
                for (size_t n : LONGS) {
                    if (!mine() || (!g_thorough && (n > 140000 || (c & 1) || ((m == CFB8E || m == CFB8D) && n > 66000)))) continue;
                    CASE("cipher=%lld mode=%lld inplace=%lld long len=%lld", c, m, inp, n); sample(); g_states++;
                    Ctx x(c, m); x.key(c, K(c, 0)); x.iv(IV(c, 1));
                    x.l.call(x.m, m, patv(n, m), inp);
                    if (!x.m.spent) x.l.call(x.m, m, patv(2 * bs(c), 7), !inp);
                }
}
// all compositions of N units into chunks, each chunk in place or not (alternating patterns), optional partial tail
static void splits()
{
    unsigned N = g_thorough ? 12 : 9;
    for (int c = 0; c < NC; c++)
        for (int m = 0; m < NM; m++) {
            bool byte = m == CFB8E || m == CFB8D;
            size_t u = byte ? 1 : bs(c);
            for (unsigned extra = 0; extra < (byte ? 3u : 1u); extra++)
                for (unsigned cut = 0; cut < (1u << (N - 1)); cut++)
                    for (int ip = 0; ip < 4; ip++) {
                        if (!mine()) continue;
                        // for byte granularity a long first chunk moves the cuts across block boundaries
                        size_t pre = byte ? (extra == 0 ? 0 : extra == 1 ? bs(c) - 4 : 2 * bs(c) - 5) : 0;
                        for (size_t tail : { (size_t)0, (size_t)1, bs(c) - 1 }) {
                            if (byte && tail > 1) continue;
                            if (m <= CBCD && tail) continue;
                            CASE("cipher=%lld mode=%lld prefix=%lld units=%lld cuts=%llx inplace-pattern=%lld tail=%lld", c, m, pre, N, cut, ip, tail); sample();
                            g_states++;
                            Ctx x(c, m); x.key(c, K(c, 1)); x.iv(IV(c, 2));
                            Model one = x.m;
                            Bytes all = patv(pre + N * u + tail, 11), want = one.run(m, all);
                            size_t at = 0; int k = 0; Bytes got;
                            auto chunk = [&](size_t n) {
                                Bytes in(all.begin() + at, all.begin() + at + n);
                                bool inp = ip == 0 ? false : ip == 1 ? true : ip == 2 ? (k & 1) : !(k & 1);
                                x.l.call(x.m, m, in, inp);
                                at += n; k++;
                            };
                            if (pre) chunk(pre);
                            size_t len = 1;
                            for (unsigned i = 0; i < N; i++, len++)
                                if (i == N - 1 || (cut >> i & 1)) { chunk(len * u); len = 0; }
                            if (tail) chunk(tail);
                            if (at != all.size()) fail("harness", "chunks");
                        }
                    }
        }
}
static void wrap()
{
    for (int c = 0; c < NC; c++)
        for (size_t ff = 0; ff <= bs(c); ff++)
            for (int below = 0; below < 4; below++)
                for (int inp = 0; inp < 2; inp++)
                    for (size_t n = 0; n <= 10 * bs(c); n++) {
                        if (!mine()) continue;
                        CASE("cipher=%lld trailing-ff=%lld minus=%lld inplace=%lld len=%lld", c, ff, below, inp, n); sample();
                        g_states++;
                        Bytes v(bs(c), 0x37);
                        for (size_t i = 0; i < ff; i++) v[bs(c) - 1 - i] = 0xff;
                        v[bs(c) - 1] -= below;
                        Ctx x(c, CTR); x.key(c, K(c, 2)); x.iv(v);
                        x.l.call(x.m, CTR, patv(n, 5), inp);
                        if (!x.m.spent) x.l.call(x.m, CTR, patv(2 * bs(c) + 1, 6), !inp);
                    }
}
// all histories of operations on one context, against the model
static void hist()
{
    unsigned D = g_thorough ? 6 : 5;
    for (int c : { (int)AES128, (int)DES1 })
        for (int fam = 0; fam < 3; fam++) {
            struct Op { int kind; int a; size_t n; bool inp; };   // 0 key 1 iv 2 crypt 3 clear+init+key+iv
            std::vector<Op> ops = { { 0, 1, 0, false }, { 0, 2, 0, false }, { 1, 3, 0, false }, { 1, 4, 0, false }, { 3, 0, 0, false } };
            size_t b = bs(c);
            std::vector<int> modes = fam == 0 ? std::vector<int>{ CBCE, CBCD } : fam == 1 ? std::vector<int>{ CFBE, CFBD, CFB8E, CFB8D } : std::vector<int>{ CTR };
            for (int m : modes)
                for (int i = 0; i < 2; i++) {
                    if (m == CFB8E || m == CFB8D) { ops.push_back({ 2, m, (size_t)(i ? 3 : b + 1), (bool)i }); continue; }
                    ops.push_back({ 2, m, i ? b : 2 * b, (bool)i });
                    if (m == CTR) { ops.push_back({ 2, m, 5 * b, (bool)i }); ops.push_back({ 2, m, b + 3, (bool)i }); }
                    if (m == CFBE || m == CFBD) if (i) ops.push_back({ 2, m, b + 3, (bool)i });
                }
            unsigned d = fam == 1 ? D - 1 : D;
            uint64_t total = 1; for (unsigned i = 0; i < d; i++) total *= ops.size();
            for (uint64_t h = 0; h < total; h++) {
                if (!mine()) continue;
                CASE("history %lld of depth %lld, cipher=%lld family=%lld", h, d, c, fam); sample();
                Ctx x(c, modes[0]); x.key(c, K(c, 0)); x.iv(IV(c, 0));
                uint64_t t = h;
                for (unsigned i = 0; i < d; i++, t /= ops.size()) {
                    const Op &o = ops[t % ops.size()];
                    g_states++;
                    if (o.kind == 0) { x.key(c, K(c, o.a)); g_trans++; }
                    else if (o.kind == 1) { x.iv(IV(c, o.a)); g_trans++; }
                    else if (o.kind == 3) { x.l.clear(); x.l.init(); x.key(c, K(c, 0)); x.iv(IV(c, 0)); g_trans++; }
                    else if (x.m.spent) break;   // a partial block ends the message
                    else x.l.call(x.m, o.a, patv(o.n, i), o.inp);
                }
            }
        }
}
int main(int argc, char **argv)
{
    init(argc, argv);
    if (g_mode == "lens") lens(); else if (g_mode == "splits") splits(); else if (g_mode == "wrap") wrap(); else hist();
    return done();
}

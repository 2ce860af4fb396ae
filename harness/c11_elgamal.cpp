// C11: ElGamal signatures, both forms of the interface.
#include "sigref.hpp"
extern "C" {
#include <cry/elgamal.h>
}
struct Ctx {
    cry_elgamal_ctx c; Z p, g, x, y;
    Ctx(const Z &p_, const Z &g_, const Z &x_) : p(p_), g(g_), x(x_), y(zpow(g_, x_, p_))
    {
        if (cry_elgamal_init(&c)) abort();
        zset(&c.p, p); zset(&c.g, g); zset(&c.d, x); zset(&c.y, y);
    }
    ~Ctx() { cry_elgamal_clear(&c); }
    bool same() const { return zget(&c.p) == p && zget(&c.g) == g && zget(&c.d) == x && zget(&c.y) == y; }
    size_t siz() const { return (zbits(p) + 7) / 8; }
    std::string str() const { return "p=" + zs(p) + " g=" + zs(g) + " d=" + zs(x); }
};
static bool ref_verify(const Ctx &C, const Z &r, const Z &s, const Bytes &m)
{
    if (m.size() > C.siz()) return false;    // longer messages are refused
    if (r <= 0 || r >= C.p || s <= 0 || s >= C.p - 1) return false;
    return zpow(C.g, zbytes(m), C.p) == zmod(zpow(C.y, r, C.p) * zpow(r, s, C.p), C.p);
}
static Bytes enc(const Z &v, size_t n)
{
    Bytes b(n); Z t = v;
    for (size_t i = n; i-- > 0;) { b[i] = Z(t & 255).get_ui(); t >>= 8; }
    return b;
}
static void chk_verify(Ctx &C, const Z &r, const Z &s, const Bytes &m)
{
    bool want = ref_verify(C, r, s, m);
    M R(0), S(0); R.fit(r); S.fit(s);
    cry_elgamal_sig sig = { R.m, S.m };
    Buf b(m);
    g_trans++; g_traces++;
    int res = cry_elgamal_verify2(&C.c, &sig, b.p, b.n);
    R.m = sig.r; S.m = sig.s;
    if (R.get() != r || S.get() != s || !b.eq(m)) fail("verify2", "verification changed its input");
    if ((res == 0) != want) fail("verify2", "%s r=%s s=%s msg=%s: returned %d, the pair is %s", C.str().c_str(), zs(r).c_str(), zs(s).c_str(), hex(m).c_str(), res, want ? "valid" : "not valid");
    size_t n = C.siz();
    if (r >= 0 && s >= 0 && zbits(r) <= 8 * n && zbits(s) <= 8 * n) {
        Bytes e = enc(r, n), f = enc(s, n);
        e.insert(e.end(), f.begin(), f.end());
        Buf sb(e);
        g_trans++; g_traces++;
        res = cry_elgamal_verify(&C.c, sb.p, b.p, b.n);
        if ((res == 0) != want) fail("verify", "%s r=%s s=%s msg=%s: returned %d, the pair is %s", C.str().c_str(), zs(r).c_str(), zs(s).c_str(), hex(m).c_str(), res, want ? "valid" : "not valid");
        if (!sb.eq(e)) fail("verify", "verification changed the signature");
    }
}
static int chk_sign(Ctx &C, const Bytes &m, bool bytes, Z *ro = 0, Z *so = 0, int stale = 0)
{
    Buf b(m);
    g_trans++; g_traces++; g_draws = 0;
    Z r, s;
    int res;
    if (bytes) {
        Buf o(2 * C.siz(), 0x77);
        res = cry_elgamal_sign(&C.c, o.p, b.p, b.n);
        Bytes v = o.bytes();
        r = zbytes(Bytes(v.begin(), v.begin() + C.siz())); s = zbytes(Bytes(v.begin() + C.siz(), v.end()));
    } else {
        M R(0), S(0);
        if (stale) { R.set(-C.p * C.p); S.set(-5); }
        cry_elgamal_sig sig = { R.m, S.m };
        res = cry_elgamal_sign2(&C.c, &sig, b.p, b.n);
        R.m = sig.r; S.m = sig.s;
        r = R.get(); s = S.get();
        if (res == 0 && (noncanon(R) || noncanon(S))) fail("sign", "components not canonical");
    }
    if (!C.same()) fail("sign", "signing changed the key");
    if (!b.eq(m)) fail("sign", "signing changed the message");
    if (g_draws > g_failat && res == 0) fail("sign", "the generator failed and signing reported success");
    if (res == 0) {
        if (m.size() > C.siz()) fail("sign", "message longer than the modulus accepted");
        if (!ref_verify(C, r, s, m)) fail("sign", "%s msg=%s: signature (%s,%s) is not valid", C.str().c_str(), hex(m).c_str(), zs(r).c_str(), zs(s).c_str());
        chk_verify(C, r, s, m);
        if (ro) *ro = r;
        if (so) *so = s;
    }
    return res;
}
int main(int argc, char **argv)
{
    init(argc, argv);
    gen_stream(1);
    bool T = g_thorough;
    if (g_mode == "verify") {
        std::vector<long> ps = { 5, 7, 11, 13 };
        if (T) ps.insert(ps.end(), { 17, 19, 23, 29 });
        for (long p : ps)
            for (long g = 1; g < p; g++)
                for (long x = 1; x < p - 1; x++) {
                    if (!mine()) continue;
                    Ctx C(p, g, x);
                    g_states++;
                    for (long z = 0; z < 256; z += z < 2 * p ? 1 : 37)
                        for (long r = -1; r <= p + 1; r++)
                            for (long s = -1; s <= p; s++) {
                                CASE("p=%lld g=%lld d=%lld msg=%lld r=%lld s=%lld", p, g, x, z, r, s);
                                sample();
                                chk_verify(C, r, s, Bytes{ (uint8_t)z });
                            }
                    for (long r : { 2 * p, 2 * p + 1, 255L }) for (long s : { 1L, 2 * p, 255L, 2 * p - 2 }) chk_verify(C, r, s, Bytes{ 3 }), chk_verify(C, s, r, Bytes{ 3 });
                    for (long r = 0; r <= p; r++) for (long s = 0; s <= p; s++) { chk_verify(C, r, s, Bytes{}); chk_verify(C, r, s, Bytes{ 0, 1 }); }
                }
    } else if (g_mode == "sign") {
        std::vector<long> ps = { 5, 7, 11, 13, 23, 257 };
        if (T) ps.insert(ps.end(), { 17, 19, 29, 31, 263 });
        for (long p : ps)
            for (long g = 1; g < p; g += p > 100 ? 51 : p > 20 && !T ? 5 : 1)
                for (long x = 1; x < p - 1; x += p > 100 ? 43 : 1)
                    for (long z = 0; z < (p > 100 ? 65536 : 256); z += p > 100 ? 4391 : z < 2 * p ? 1 : T ? 11 : 73) {
                        if (!mine()) continue;
                        Ctx C(p, g, x);
                        Bytes m = p > 256 ? Bytes{ (uint8_t)(z >> 8), (uint8_t)z } : Bytes{ (uint8_t)z };
                        g_states++;
                        unsigned good = 0, tot = 0;
                        for (unsigned v = 0; v < 32; v += T || p < 8 ? 1 : 3) {
                            gen_count(v * 257);
                            CASE("p=%lld g=%lld d=%lld msg=%lld generator counts up from %lld", p, g, x, z, v);
                            sample();
                            good += chk_sign(C, m, v & 1, 0, 0, 1) == 0;
                            good += chk_sign(C, m, !(v & 1)) == 0;
                            tot += 2;
                            if (v % 4 == 0 && (T || z % 8 == 0)) { gen_const(v); chk_sign(C, m, v & 1); }
                        }
                        if (p > 13 && zpow(g, 12, p) != 1 && zpow(g, 2, p) != 1 && good * 2 < tot) fail("sign", "signing fails for most answers of the generator (%u of %u)", tot - good, tot);
                        for (unsigned f = 0; f < 3; f++) {
                            gen_count(f + x);
                            g_failat = f;
                            CASE("p=%lld g=%lld d=%lld msg=%lld generator fails at draw %lld", p, g, x, z, f);
                            chk_sign(C, m, f & 1);
                            g_failat = ~0UL;
                        }
                        chk_sign(C, Bytes(C.siz() + 1, 1), 0);
                        chk_sign(C, Bytes(C.siz() + 1, 0), 1);
                    }
        // messages of every class of length
        for (long p : { 5L, 251L, 257L, 65521L, 65537L }) for (int kd = 0; kd < 3; kd++) for (size_t n = 0; n <= 300 + LONGS.size(); n++) {
            if (!mine()) continue;
            Ctx C(p, 3, 2); size_t len = n <= 300 ? n : LONGS[n - 301]; Bytes m = kd == 0 ? Bytes(len, 0) : kd == 1 ? Bytes(len, 1) : patv(len, 3); if (kd == 2 && len) { m.assign(len, 0); m[len - 1] = 3; }
            CASE("p=%lld message of %lld bytes, kind %lld", p, len, kd); sample(); g_states++; gen_count(7 * n);
            chk_sign(C, m, n & 1); chk_sign(C, m, !(n & 1));
            // a pair valid for the value, or for the leading or trailing part of the message
            for (size_t q : { len, (size_t)(len & 0xff), (size_t)(len & 0xffff), C.siz() }) { Bytes u(m.begin(), m.begin() + std::min(q, len)); if (u.size() > C.siz()) continue; Z z = zbytes(u); for (long k : { 1L, p - 2 }) { Z r = zpow(3, k, p), s = zmod((z - C.x * r) * k, p - 1); chk_verify(C, r, s, m); } }
        }
    } else if (g_mode == "big" || g_mode == "real") {
        bool real = g_mode == "real";
        for (unsigned pb : real ? std::vector<unsigned>{ 384u, 512u, 513u, 1024u, 2048u } : std::vector<unsigned>{ 64u, 65u, 129u, 200u, 128u, 256u, 384u }) {
            if (!T && !real && (pb == 128 || pb > 200)) continue;
            Z p = znext((Z(1) << (pb - 1)) + zbytes(patv(7, pb)));
            for (size_t len = 0; len <= (pb + 7) / 8 + 1; len += T || len > (pb + 7) / 8 - 3 || len < 2 ? 1 : 5)
                for (int pt = 0; pt < 3; pt++)
                    for (int gi = 0; gi < 2; gi++) {
                        if (real && (pt != (int)(len % 3) || gi != (int)(len / 3 % 2) || (len > 1 && len % 40 && len + 2 < (pb + 7) / 8))) continue;
                        if (!mine()) continue;
                        Bytes m = pt == 0 ? patv(len, 3) : Bytes(len, pt == 1 ? 0xff : 0);
                        Ctx C(p, gi ? Z(p - 2) : Z(3), pt == 0 ? zmod(zbytes(patv(50, 2)), p - 1) : pt == 1 ? Z(p - 2) : Z(1));
                        gen_stream(len * 3 + pt);
                        CASE("%lld-bit p, generator %lld, message length %lld pattern %lld", pb, gi, len, pt);
                        sample();
                        g_states++;
                        for (int by = 0; by < 2; by++) {
                            Z r, s;
                            int res = chk_sign(C, m, by, &r, &s, 1);
                            if (res != 0) { if (len <= C.siz()) fail("sign", "signing refused"); continue; }
                            for (auto &a : { Z(r + p), Z(-r), Z(p - r), Z(r + 1), Z(0), p, Z(r + p * (p - 1)), Z(r + (Z(1) << 64)) }) chk_verify(C, a, s, m);
                            for (auto &a : { Z(s + p - 1), Z(-s), Z(p - 1 - s), Z(s + 1), Z(0), Z(p - 1), p, Z(s + (Z(1) << 64)) }) chk_verify(C, r, a, m);
                            for (size_t i = 0; i < len * 8; i += real ? 401 : T ? 1 : 13) { Bytes n = m; n[i / 8] ^= 0x80 >> (i % 8); chk_verify(C, r, s, n); }
                            if (len) { Bytes n = m; n.pop_back(); chk_verify(C, r, s, n); }
                            Bytes n = m; n.push_back(0); chk_verify(C, r, s, n);
                            Ctx D(p, C.g, C.x + 1); chk_verify(D, r, s, m);
                            // Bleichenbacher-style forgery for an out of range r
                            Z u = zmod(zbytes(patv(9, 4)) * zinv(zbytes(m), p - 1), p - 1);
                            Z rr = zmod(r * u, p - 1);
                            Z R; Z d1 = zmod(rr - r, p - 1);
                            R = r + p * 0 + p * zmod((rr - r) , p - 1);
                            chk_verify(C, R, s, m);
                        }
                    }
        }
    }
    return done();
}

// C08: named curves against the published parameters (OpenSSL's tables) and
// boundary scalars against the reference group law.
#include "ecref.hpp"
#include <openssl/ec.h>
#include <openssl/bn.h>
#include <openssl/obj_mac.h>
static const struct { int id, nid; const char *n; } CV[] = {
    { CRY_ECP_GRP_SECP192R1, NID_X9_62_prime192v1, "secp192r1" }, { CRY_ECP_GRP_SECP224R1, NID_secp224r1, "secp224r1" },
    { CRY_ECP_GRP_SECP256R1, NID_X9_62_prime256v1, "secp256r1" }, { CRY_ECP_GRP_SECP384R1, NID_secp384r1, "secp384r1" },
    { CRY_ECP_GRP_SECP521R1, NID_secp521r1, "secp521r1" }, { CRY_ECP_GRP_SECP192K1, NID_secp192k1, "secp192k1" },
    { CRY_ECP_GRP_SECP224K1, NID_secp224k1, "secp224k1" }, { CRY_ECP_GRP_SECP256K1, NID_secp256k1, "secp256k1" },
    { CRY_ECP_GRP_BP256R1, NID_brainpoolP256r1, "brainpoolP256r1" }, { CRY_ECP_GRP_BP384R1, NID_brainpoolP384r1, "brainpoolP384r1" },
    { CRY_ECP_GRP_BP512R1, NID_brainpoolP512r1, "brainpoolP512r1" },
};
static Z bn(const BIGNUM *b) { char *h = BN_bn2hex(b); Z v(h, 16); OPENSSL_free(h); return v; }
static Z val(const cry_mpi *a) { return zget(a); }
int main(int argc, char **argv)
{
    init(argc, argv);
    bool T = g_thorough;
    for (auto &cv : CV) {
        EC_GROUP *eg = EC_GROUP_new_by_curve_name(cv.nid);
        if (!eg) { fprintf(stderr, "reference lacks %s\n", cv.n); return 3; }
        BIGNUM *bp = BN_new(), *ba = BN_new(), *bb = BN_new(), *bx = BN_new(), *by = BN_new();
        EC_GROUP_get_curve(eg, bp, ba, bb, nullptr);
        EC_POINT_get_affine_coordinates(eg, EC_GROUP_get0_generator(eg), bx, by, nullptr);
        Curve c{ bn(bp), bn(ba), bn(bb) };
        Pt G{ false, bn(bx), bn(by) };
        Z n = bn(EC_GROUP_get0_order(eg));
        cry_ecp_grp g;
        memset(&g, 0x5a, sizeof g);
        CASET(std::string("load ") + cv.n);
        g_states++; g_trans++; g_traces++;
        if (cry_ecp_grp_load(&g, cv.id) != 0) fail("load", "refused");
        struct { const char *n; Z got, want; } F[] = { { "p", val(&g.p), c.p }, { "a (mod p)", c.m(val(&g.a)), c.m(c.a) }, { "b", val(&g.b), c.b }, { "Gx", val(&g.g.x), G.x }, { "Gy", val(&g.g.y), G.y }, { "Gz", val(&g.g.z), 1 }, { "n", val(&g.n), n } };
        for (auto &f : F) {
            g_states++; g_trans++; g_traces++;
            if (f.got != f.want) fail("load", "parameter %s is %s, published value %s", f.n, zs(f.got).c_str(), zs(f.want).c_str());
        }
        for (const cry_mpi *q : { &g.p, &g.a, &g.b, &g.g.x, &g.g.y, &g.g.z, &g.n }) if (q->used && q->data[q->used - 1] == 0) fail("load", "a parameter has leading zero digits");
        // sizes the rest of the library relies on
        if (cry_mpi_count_bits(&g.p) != mpz_sizeinbase(c.p.get_mpz_t(), 2) || cry_mpi_count_bits(&g.n) != mpz_sizeinbase(n.get_mpz_t(), 2)) fail("load", "bit length of p or n");
        if (cry_mpi_cmp(&g.n, &g.p) != (n < c.p ? -1 : 1)) fail("load", "comparison of n and p");
        // loading twice gives the same thing
        cry_ecp_grp g2; memset(&g2, 0, sizeof g2);
        cry_ecp_grp_load(&g2, cv.id);
        if (val(&g2.p) != c.p || val(&g2.n) != n) fail("load", "second load differs");

        // scalars
        std::set<Z> K;
        unsigned nb = mpz_sizeinbase(n.get_mpz_t(), 2);
        for (int i = 0; i <= 40; i++) K.insert(i);
        for (int i = -18; i <= 18; i++) { K.insert(n + i); K.insert(2 * n + i); }
        for (unsigned b = 4; b <= nb + 2; b++)
            for (int e = -1; e <= 1; e++)
                if (T || b % 8 <= 1 || b % 8 == 7) K.insert((Z(1) << b) + e);
        for (unsigned b = 8; b + 8 < nb; b += T ? 1 : 8) { K.insert((Z(1) << nb) - (Z(1) << b)); K.insert((Z(1) << (nb - 1)) | (Z(1) << b)); K.insert((Z(0x8001)) << b); K.insert((Z(0x1111)) << b); }
        K.insert(n / 2); K.insert(n / 2 + 1); K.insert(n / 3); K.insert((Z(1) << nb) / 3); K.insert((Z(1) << nb) / 7 * 5);
        for (auto &k : K) {
            if (!mine()) continue;
            Pt w = c.mul(k, G);
            CASET(std::string(cv.n) + ": " + zs(k) + " * G");
            sample(); g_states++;
            EP r; r.set(Pt{ false, Z(3), Z(4) });
            M kk; kk.fit(k);
            int res = cry_ecp_mul(r, &g.g, kk, &g);
            ptcheck("mul", res, r, w, c.p);
            if (val(&g.g.x) != G.x || val(&g.p) != c.p || val(&g.a) != F[1].got && c.m(val(&g.a)) != c.m(c.a)) fail("mul", "curve parameters changed");
        }
        // additions with exceptional pairs
        if (mine()) {
            Pt A = c.mul(Z(12345), G);
            Pt S[] = { INF, G, c.neg(G), A, c.neg(A), c.add(G, G), c.mul(n - 2, G) };
            for (auto &x : S) for (auto &y : S) {
                CASET(std::string(cv.n) + ": " + ps(x) + " + " + ps(y));
                g_states++;
                EP p(x), q(y), r;
                ptcheck("add", cry_ecp_add(r, p, q, &g), r, c.add(x, y), c.p);
                ptcheck("add", cry_ecp_add(p, p, q, &g), p, c.add(x, y), c.p);
            }
        }
        EC_GROUP_free(eg);
    }
    for (int id = -3; id < 64; id++) {
        bool known = false;
        for (auto &cv : CV) known |= cv.id == id;
        if (known) continue;
        cry_ecp_grp g; memset(&g, 0, sizeof g);
        CASE("load of unknown identifier %lld", id); g_states++;
        if (cry_ecp_grp_load(&g, id) == 0) fail("load", "accepted");
    }
    return done();
}

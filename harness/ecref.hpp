// Reference model of short Weierstrass curves over a prime field (GMP).
#pragma once
#include "mpiref.hpp"
extern "C" {
#include <cry/ecp.h>
}
struct Pt { bool inf; Z x, y; bool operator==(const Pt &o) const { return inf == o.inf && (inf || (x == o.x && y == o.y)); } };
static const Pt INF = { true, 0, 0 };
struct Curve {
    Z p, a, b;
    static Z mod(const Z &v, const Z &m) { Z r; mpz_mod(r.get_mpz_t(), v.get_mpz_t(), m.get_mpz_t()); return r; }
    Z m(const Z &v) const { return mod(v, p); }
    Z inv(const Z &v) const { Z r, t = m(v); if (!mpz_invert(r.get_mpz_t(), t.get_mpz_t(), p.get_mpz_t())) { fprintf(stderr, "model: inverse of %s\n", zs(v).c_str()); abort(); } return r; }
    bool on(const Pt &P) const { return P.inf || m(P.y * P.y - P.x * P.x * P.x - a * P.x - b) == 0; }
    Pt neg(const Pt &P) const { return P.inf ? P : Pt{ false, P.x, m(-P.y) }; }
    Pt add(const Pt &P, const Pt &Q) const
    {
        if (P.inf) return Q;
        if (Q.inf) return P;
        Z l;
        if (P.x == Q.x) {
            if (m(P.y + Q.y) == 0) return INF;
            l = m((3 * P.x * P.x + a) * inv(2 * P.y));
        } else
            l = m((Q.y - P.y) * inv(Q.x - P.x));
        Z x = m(l * l - P.x - Q.x);
        return Pt{ false, x, m(l * (P.x - x) - P.y) };
    }
    Pt mul(const Z &k, const Pt &P) const
    {
        Pt r = INF;
        for (size_t i = k == 0 ? 0 : mpz_sizeinbase(k.get_mpz_t(), 2); i-- > 0;) {
            r = add(r, r);
            if (mpz_tstbit(k.get_mpz_t(), i)) r = add(r, P);
        }
        return r;
    }
};
struct EP {   // library point
    cry_ecp e;
    EP() { if (cry_ecp_init(&e)) abort(); }
    explicit EP(const Pt &P) : EP() { set(P); }
    ~EP() { cry_ecp_clear(&e); }
    EP(const EP &) = delete;
    void set(const Pt &P)
    {
        if (P.inf) { zset(&e.x, 1); zset(&e.y, 1); zset(&e.z, 0); }
        else { zset(&e.x, P.x); zset(&e.y, P.y); zset(&e.z, 1); }
    }
    // value, with the representation checked
    static const char *bad(const cry_ecp *q, const Z &p)
    {
        if (noncanon(&q->x) || noncanon(&q->y) || noncanon(&q->z)) return "coordinate not canonical";
        if (zget(&q->z) == 0) return nullptr;
        if (zget(&q->z) != 1) return "z is neither 0 nor 1";
        if (zget(&q->x) < 0 || zget(&q->x) >= p || zget(&q->y) < 0 || zget(&q->y) >= p) return "coordinate outside the field";
        return nullptr;
    }
    static Pt get(const cry_ecp *q) { if (zget(&q->z) == 0) return INF; return Pt{ false, zget(&q->x), zget(&q->y) }; }
    operator cry_ecp *() { return &e; }
};
struct EG {   // library group
    cry_ecp_grp g;
    EG(const Curve &c, const Pt &G = INF, const Z &n = 0, bool nega = false)
    {
        if (cry_ecp_grp_init(&g)) abort();
        zset(&g.p, c.p); zset(&g.a, nega ? Z(c.m(c.a) - c.p) : c.a); zset(&g.b, c.b); zset(&g.n, n);
        if (!G.inf) { zset(&g.g.x, G.x); zset(&g.g.y, G.y); zset(&g.g.z, 1); }
    }
    ~EG() { cry_ecp_grp_clear(&g); }
    EG(const EG &) = delete;
    operator cry_ecp_grp *() { return &g; }
};
static inline std::string ps(const Pt &P) { return P.inf ? "O" : "(" + zs(P.x) + "," + zs(P.y) + ")"; }
static inline void ptcheck(const char *tag, int res, const cry_ecp *r, const Pt &want, const Z &p)
{
    g_trans++; g_traces++;
    if (res != 0) fail(tag, "returned %d, expected %s", res, ps(want).c_str());
    const char *b = EP::bad(r, p);
    if (b) fail(tag, "%s", b);
    if (!(EP::get(r) == want)) fail(tag, "got %s expected %s", ps(EP::get(r)).c_str(), ps(want).c_str());
}

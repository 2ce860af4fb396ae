// Shared by the signature checks: scripted byte generator (the library's
// generator is replaced at link time) and reference hash truncation.
#pragma once
#include "mpiref.hpp"
#include <map>
#include <memory>
#include <array>
static std::function<int(unsigned char *, size_t)> g_gen;
static unsigned long g_draws, g_failat = ~0UL;
extern "C" int __wrap_cry_prng_aes_rand(unsigned char *b, size_t n)
{
    if (g_draws++ == g_failat) return -1;
    return g_gen(b, n);
}
extern "C" int __wrap_cry_prng_aes_init(const unsigned char *, size_t) { return 0; }
static inline void gen_const(unsigned v)
{
    g_gen = [v](unsigned char *b, size_t n) { memset(b, v, n); return 0; };
}
// low two bytes of consecutive answers count up from v; other bytes from a pattern
static inline void gen_count(unsigned v)
{
    g_gen = [v](unsigned char *b, size_t n) mutable {
        for (size_t i = 0; i < n; i++) b[n - 1 - i] = i == 0 ? v & 255 : i == 1 ? v >> 8 : pat(i, v);
        v++;
        return 0;
    };
}
// deterministic full stream
static inline void gen_stream(unsigned salt)
{
    g_gen = [salt, k = 0ULL](unsigned char *b, size_t n) mutable { for (size_t i = 0; i < n; i++) b[i] = pat(k++, salt); return 0; };
}
// deterministic stream, but the answers to the numbered requests are replaced
static inline void gen_subst(unsigned salt, std::map<unsigned long, Bytes> sub)
{
    g_gen = [salt, sub, k = 0ULL, i = 0UL](unsigned char *b, size_t n) mutable {
        for (size_t j = 0; j < n; j++) b[j] = pat(k++, salt);
        auto it = sub.find(i++);
        if (it != sub.end()) for (size_t j = 0; j < n; j++) b[n - 1 - j] = j < it->second.size() ? it->second[it->second.size() - 1 - j] : 0;
        return 0;
    };
}
static inline Z zmod(const Z &v, const Z &m) { Z r; mpz_mod(r.get_mpz_t(), v.get_mpz_t(), m.get_mpz_t()); return r; }
static inline Z zpow(const Z &b, const Z &e, const Z &m) { Z r; mpz_powm(r.get_mpz_t(), b.get_mpz_t(), e.get_mpz_t(), m.get_mpz_t()); return r; }
static inline Z zinv(const Z &v, const Z &m) { Z r; if (!mpz_invert(r.get_mpz_t(), v.get_mpz_t(), m.get_mpz_t())) return 0; return r; }
static inline size_t zbits(const Z &v) { return v == 0 ? 0 : mpz_sizeinbase(v.get_mpz_t(), 2); }
static inline Z zbytes(const Bytes &b) { Z r; if (b.size()) mpz_import(r.get_mpz_t(), b.size(), 1, 1, 0, 0, b.data()); return r; }
// leftmost bits of the message, as many as q has
static inline Z ztrunc(const Bytes &m, const Z &q)
{
    Z v = zbytes(m);
    size_t nb = m.size() * 8, qb = zbits(q);
    if (nb > qb) v >>= nb - qb;
    return v;
}
static inline bool zprime(const Z &p) { return p > 1 && mpz_probab_prime_p(p.get_mpz_t(), 40) > 0; }
static inline Z znext(const Z &p) { Z r; mpz_nextprime(r.get_mpz_t(), p.get_mpz_t()); return r; }

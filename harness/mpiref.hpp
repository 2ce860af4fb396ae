// Bridge between the library's big integers and GMP (the reference model).
#pragma once
#include "h.hpp"
#include <gmpxx.h>
extern "C" {
#include <cry/mpi.h>
}
typedef mpz_class Z;

// Reads the *represented* value; complains if the representation is not
// canonical (leading zero digits, negative zero, used > alloc).
inline Z zget(const cry_mpi *a)
{
    Z r;
    if (a->used)
        mpz_import(r.get_mpz_t(), a->used, -1, sizeof(cry_mpi_digit), 0, 0, a->data);
    if (a->sign)
        r = -r;
    return r;
}
inline const char *noncanon(const cry_mpi *a)
{
    if (a->used > a->alloc) return "more digits in use than allocated";
    if (a->used && a->data[a->used - 1] == 0) return "leading zero digit";
    if (a->used == 0 && a->sign) return "negative zero";
    if (a->sign != 0 && a->sign != 1) return "sign neither 0 nor 1";
    return nullptr;
}
// Sets an initialised object to a value, building the representation
// directly (independent of the library's own conversion functions).
inline void zset(cry_mpi *a, const Z &v, size_t extra = 0)
{
    size_t need = (mpz_sizeinbase(v.get_mpz_t(), 2) + CRY_MPI_DIGIT_BITS - 1) / CRY_MPI_DIGIT_BITS;
    if (v == 0) need = 0;
    if (a->alloc < need + extra || !a->data) {
        size_t n = need + extra;
        a->data = (cry_mpi_digit *)realloc(a->data, (n ? n : 1) * sizeof(cry_mpi_digit));
        a->alloc = n ? n : 1;
    }
    size_t cnt = 0;
    if (need)
        mpz_export(a->data, &cnt, -1, sizeof(cry_mpi_digit), 0, 0, v.get_mpz_t());
    a->used = cnt;
    a->sign = v < 0;
}
inline std::string zs(const Z &v) { return v.get_str(16); }

// n-digit values of 6 kinds: all ones, a power, scattered, zero digits inside, half ones, scattered with extreme digits
inline Z bigv(unsigned n, int kind, uint64_t salt = 0)
{
    const unsigned DBI = CRY_MPI_DIGIT_BITS;
    Z one = 1, v = 0;
    if (kind == 0) return (one << (n * DBI)) - 1;
    if (kind == 1) return (one << (n * DBI - 1)) + 1;
    if (kind == 4) return (one << (n * DBI)) - (one << (n * DBI / 2));
    for (unsigned i = 0; i < n; i++) {
        Z d = 0;
        for (unsigned k = 0; k < DBI / 8; k++) d = (d << 8) + pat(i * 8 + k, salt + 31 * kind);
        if (kind == 3 && (i % 3)) d = 0;
        if (kind == 5) { int x = pat(i, salt + 5) % 4; if (x == 0) d = 0; else if (x == 1) d = (one << DBI) - 1; }
        v = (v << DBI) + d;
    }
    Z top = one << (n * DBI - 1);
    if (v < (one << ((n - 1) * DBI))) v += top;
    return v;
}

struct M {   // RAII number with exactly fitting storage
    cry_mpi m;
    M() { m.sign = 0; m.used = 0; m.alloc = 1; m.data = (cry_mpi_digit *)malloc(sizeof(cry_mpi_digit)); m.data[0] = (cry_mpi_digit)0x5a5a5a5a5a5a5a5aULL; }
    explicit M(const Z &v) : M() { zset(&m, v); }
    explicit M(long v) : M() { zset(&m, Z(v)); }
    ~M() { cry_mpi_clear(&m); }
    M(const M &) = delete;
    M &operator=(const M &) = delete;
    void set(const Z &v) { zset(&m, v); }
    // exact-size re-allocation: any access past the last digit is a memory error
    void fit(const Z &v)
    {
        free(m.data);
        m.data = nullptr; m.alloc = 0;
        zset(&m, v);
    }
    Z get() const { return zget(&m); }
    operator cry_mpi *() { return &m; }
};

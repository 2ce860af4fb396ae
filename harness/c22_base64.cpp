// C22: Base64
#include "h.hpp"
extern "C" {
#include <cry/base64.h>
}
static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string enc(const Bytes &d)
{
    std::string s; uint32_t acc = 0; int nb = 0;
    for (uint8_t b : d) { acc = acc << 8 | b; nb += 8; while (nb >= 6) { nb -= 6; s += A[acc >> nb & 63]; } acc &= 0xffff; }
    if (nb) s += A[acc << (6 - nb) & 63];
    while (s.size() % 4) s += '=';
    return s;
}
static void both(const Bytes &d)
{
    std::string w = enc(d); g_trans += 2; g_traces++;
    Buf in(d), o(w.size());
    size_t n = cry_base64_encode((char *)o.p, (const char *)in.p, in.n);
    if (n != w.size() || memcmp(o.p, w.data(), n)) fail("encode", "%s encodes to %zu characters '%.200s', standard '%.200s'", hex(d).substr(0, 200).c_str(), n, std::string((char *)o.p, std::min(n, w.size())).c_str(), w.c_str());
    if (!in.eq(d)) fail("source", "input changed");
    Buf b(d.size());
    size_t m = cry_base64_decode((char *)b.p, (const char *)o.p, n);
    if (m != d.size() || !b.eq(d)) fail("decode", "'%.200s' decodes to %zu bytes %s", w.c_str(), m, hex(b.p, std::min(m, b.n)).substr(0, 200).c_str());
}
static void valid()
{
    if (mine()) { CASE("empty"); both(Bytes()); g_states++; }
    for (unsigned a = 0; a < 256; a++) {
        if (!mine()) continue;
        CASE("byte %02llx", a); sample(); both({ (uint8_t)a }); g_states++;
        for (unsigned b = 0; b < 256; b++) {
            CASE("bytes %02llx %02llx", a, b); both({ (uint8_t)a, (uint8_t)b }); g_states++;
            for (unsigned c = 0; c < 256; c += (g_thorough ? 1 : ((a ^ b) % 16 ? 15 : 1))) { CASE("bytes %02llx %02llx %02llx", a, b, c); sample(); both({ (uint8_t)a, (uint8_t)b, (uint8_t)c }); g_states++; }
        }
    }
    for (size_t n = 0; n <= (g_thorough ? 4000 : 1000); n++) for (int v = 0; v < 4; v++) { if (!mine()) continue; CASE("length %lld content %lld", n, v); if (v == 3) for (size_t i = n; i < LONGS.size() * 3 && n < LONGS.size() * 3; i += 100000) { CASE("long length %lld", LONGS[n / 3] + n % 3); both(patv(LONGS[n / 3] + n % 3, 1)); CASE("length %lld content %lld", n, v); } sample(); g_states++; both(v == 0 ? Bytes(n, 0) : v == 1 ? Bytes(n, 0xff) : patv(n, v)); }
}
// arbitrary text of n characters: exact-size input, output of the decoded size of that length
static void text(const std::string &t)
{
    Bytes tb(t.begin(), t.end()); Buf in(tb), o(t.size() / 4 * 3, 0x5c); g_trans++; g_traces++;
    size_t m = cry_base64_decode((char *)o.p, (const char *)in.p, in.n);
    if (!in.eq(tb)) fail("source", "text changed");
    bool alien = false; for (char c : t) if (c == 0 || !strchr("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=", c)) alien = true;
    if ((alien || t.size() % 4) && m != (size_t)-1) fail("malformed", "text %s is accepted", hex(tb).c_str());
    if (m != (size_t)-1 && m > o.n) fail("length", "text of %zu characters gives %zu bytes", t.size(), m);
    // well-formed text gives exactly its value
    size_t pad = t.size() - std::min(t.find('='), t.size());
    bool wf = !alien && t.size() % 4 == 0 && pad <= 2 && t.find_first_not_of('=', t.size() - pad) == std::string::npos;
    if (wf) {
        Bytes w; uint32_t acc = 0; int nb = 0;
        for (size_t i = 0; i < t.size() - pad; i++) { acc = (acc << 6 | (uint32_t)(strchr(A, t[i]) - A)) & 0xffffff; nb += 6; if (nb >= 8) { nb -= 8; w.push_back(acc >> nb); } }
        if (m != w.size() || memcmp(o.p, w.data(), m)) fail("value", "text '%s' gives %zu bytes %s", t.c_str(), m, hex(o.p, std::min(m, o.n)).c_str());
    }
}
static void any()
{
    // every character value at every position of one and two groups
    for (size_t n : { 4, 8, 12 }) for (size_t p = 0; p < n; p++) for (int c = 0; c < 256; c++) for (const char *base : { "QUJDREVGR0hJ", "////++++0000" }) {
        if (!mine()) continue;
        CASE("length %lld position %lld character %02llx", n, p, c); sample(); g_states++;
        std::string t(base, n); t[p] = (char)c; text(t);
    }
    // all texts of one group over 20 representative characters, two groups over 6 (7)
    const std::string al("A/+9z=Z0a \n-_.\x7f\x80\xff[@{", 20);
    for (int i = 0; i < 160000; i++) { if (!mine()) continue; std::string t; int x = i; for (int j = 0; j < 4; j++, x /= 20) t += al[x % 20]; CASE("group number %lld over 20 characters", i); sample(); g_states++; text(t); }
    int R = g_thorough ? 7 : 6; const char *a2 = "A/9=\xff z"; uint64_t tot = 1; for (int i = 0; i < 8; i++) tot *= R;
    for (uint64_t i = 0; i < tot; i++) { if (!mine()) continue; std::string t; uint64_t x = i; for (int j = 0; j < 8; j++, x /= R) t += a2[x % R]; CASE("text number %lld over %lld characters", i, R); sample(); g_states++; text(t); }
    // every length, multiple of four or not, with and without padding
    for (size_t n = 0; n <= 300; n++) for (int v = 0; v < 4; v++) {
        if (!mine()) continue;
        CASE("length %lld kind %lld", n, v); sample(); g_states++;
        std::string t(n, 'Q'); if (v == 1 && n) t[n - 1] = '='; if (v == 2 && n > 1) t[n - 1] = t[n - 2] = '='; if (v == 3) t.assign(n, '='); text(t);
    }
}
int main(int argc, char **argv) { init(argc, argv); if (g_mode == "valid") valid(); else any(); return done(); }

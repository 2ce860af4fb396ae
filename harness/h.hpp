// Common runtime of all exhaustive-exploration harnesses.
//
// A harness enumerates a finite, stated space completely (optionally sharded
// by index), runs the real library code on every element and compares with an
// independent reference.  Protocol on stdout:
//   STAT states=N transitions=N traces=N [extra=N ...]
//   SAMPLE <one explored case written out>
//   VIOL <tag> | <description>          (then exit status 1)
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <csignal>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <functional>
#include <algorithm>
#include <unistd.h>
#include <sys/time.h>

namespace H {

inline uint64_t g_states, g_trans, g_traces;
inline std::map<std::string, uint64_t> g_extra;
inline unsigned g_shard = 0, g_nshards = 1;
inline bool g_thorough = false;
inline std::string g_mode;            // harness-specific selector
inline std::vector<std::string> g_args;
inline std::set<std::string> g_known, g_known_seen;
inline volatile uint64_t g_progress;
inline int g_hang_secs = 40;

// ---- current case (cheap to set, printed only on failure) -----------------
inline const char *g_fmt = "(start)";
inline long long g_v[10];
inline char g_text[4096];
inline bool g_use_text = false;

template <class... A> inline void CASE(const char *fmt, A... a)
{
    long long v[] = { (long long)a..., 0 };
    g_fmt = fmt;
    for (size_t i = 0; i < sizeof...(a) && i < 10; i++)
        g_v[i] = v[i];
    g_use_text = false;
    g_progress = g_progress + 1;
}

inline void CASET(const std::string &s)
{
    snprintf(g_text, sizeof g_text, "%s", s.c_str());
    g_use_text = true;
    g_progress = g_progress + 1;
}

inline std::string case_str()
{
    if (g_use_text)
        return g_text;
    char b[1024];
    snprintf(b, sizeof b, g_fmt, g_v[0], g_v[1], g_v[2], g_v[3], g_v[4],
             g_v[5], g_v[6], g_v[7], g_v[8], g_v[9]);
    return b;
}

inline void stats()
{
    printf("STAT states=%llu transitions=%llu traces=%llu",
           (unsigned long long)g_states, (unsigned long long)g_trans,
           (unsigned long long)g_traces);
    for (auto &e : g_extra)
        printf(" %s=%llu", e.first.c_str(), (unsigned long long)e.second);
    printf("\n");
    fflush(stdout);
}

[[noreturn]] inline void die_now() { stats(); fflush(stdout); _exit(1); }

// Report a violation of the property.  A tag listed as a known finding is
// printed once and exploration goes on; any other tag ends the run.
inline void fail(const char *tag, const char *fmt, ...)
{
    char b[6000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (g_known.count(tag)) {
        if (g_known_seen.insert(tag).second)
            printf("VIOL %s | %s :: %s\n", tag, case_str().c_str(), b);
        return;
    }
    printf("VIOL %s | %s :: %s\n", tag, case_str().c_str(), b);
    die_now();
}

inline void on_death()
{
    static bool done = false;
    if (done) return;
    done = true;
    printf("VIOL crash | %s :: memory error or crash in this case\n",
           case_str().c_str());
    fflush(stdout);
}

inline void on_sig(int s)
{
    if (s == SIGVTALRM) {
        static uint64_t last = ~0ULL;
        static int same = 0;
        if (g_progress == last) {
            if (++same >= g_hang_secs) {
                printf("VIOL hang | %s :: no progress for %d CPU seconds\n",
                       case_str().c_str(), g_hang_secs);
                fflush(stdout);
                _exit(1);
            }
        } else {
            same = 0;
            last = g_progress;
        }
        return;
    }
    on_death();
    _exit(78);
}

} // namespace H

#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_set_death_callback(void (*cb)(void));
extern "C" const char *__asan_default_options();
#endif

namespace H {

inline void init(int argc, char **argv)
{
    setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--shard" && i + 1 < argc)
            sscanf(argv[++i], "%u/%u", &g_shard, &g_nshards);
        else if (a == "--thorough")
            g_thorough = true;
        else if (a == "--mode" && i + 1 < argc)
            g_mode = argv[++i];
        else if (a == "--known" && i + 1 < argc)
            g_known.insert(argv[++i]);
        else
            g_args.push_back(a);
    }
#if defined(__SANITIZE_ADDRESS__)
    __sanitizer_set_death_callback(on_death);
#else
    for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }) {
        static char stk[1 << 16];
        stack_t ss = {};
        ss.ss_sp = stk; ss.ss_size = sizeof stk;
        sigaltstack(&ss, nullptr);
        struct sigaction sa = {};
        sa.sa_handler = on_sig;
        sa.sa_flags = SA_ONSTACK;
        sigaction(s, &sa, nullptr);
    }
#endif
    struct sigaction sa = {};
    sa.sa_handler = on_sig;
    sa.sa_flags = SA_RESTART;
    sigaction(SIGVTALRM, &sa, nullptr);
    struct itimerval it = { { 1, 0 }, { 1, 0 } };
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

inline uint64_t g_idx = 0;
// Round-robin work distribution: true if the next work item is this shard's.
inline bool mine() { return (g_idx++ % g_nshards) == g_shard; }

inline int done()
{
    stats();
    return 0;
}

// Print a sample for the 1st, 10th, 100th, ... explored case.
inline void sample()
{
    static uint64_t n = 0, next = 1;
    if (++n == next) {
        next *= 10;
        if (g_shard == 0)
            printf("SAMPLE %.300s\n", case_str().c_str());
    }
}

inline std::string hex(const void *p, size_t n)
{
    static const char d[] = "0123456789abcdef";
    std::string s;
    for (size_t i = 0; i < n; i++) {
        unsigned char c = ((const unsigned char *)p)[i];
        s += d[c >> 4];
        s += d[c & 15];
    }
    return s;
}

typedef std::vector<uint8_t> Bytes;
inline std::string hex(const Bytes &b) { return hex(b.data(), b.size()); }

// Exact-size heap block, so that AddressSanitizer sees any access beyond it.
struct Buf {
    unsigned char *p;
    size_t n;
    explicit Buf(size_t n_, int fill = 0xA5) : p((unsigned char *)malloc(n_ ? n_ : 1)), n(n_)
    {
        memset(p, fill, n ? n : 1);
        if (n == 0) { free(p); p = (unsigned char *)malloc(0); if (!p) p = (unsigned char*)malloc(1); }
    }
    explicit Buf(const Bytes &b) : Buf(b.size())
    {
        if (n) memcpy(p, b.data(), n);
    }
    ~Buf() { free(p); }
    Buf(const Buf &) = delete;
    Buf &operator=(const Buf &) = delete;
    bool eq(const Bytes &b) const { return b.size() == n && (n == 0 || memcmp(p, b.data(), n) == 0); }
    Bytes bytes() const { return Bytes(p, p + n); }
};

// Lengths around the limits of narrow length variables.
inline const std::vector<size_t> LONGS = { 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 16387, 32767, 32768, 32769, 65519, 65520, 65535, 65536, 65537, 65552, 65555, 131072, 131093, 262144 + 7, (1 << 20) + 3 };

// Deterministic byte pattern (not random: a fixed non-repeating sequence).
inline uint8_t pat(uint64_t i, uint64_t salt = 0)
{
    uint64_t x = (i + 1) * 0x9E3779B97F4A7C15ULL + salt * 0xD1B54A32D192ED03ULL;
    x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ULL; x ^= x >> 32;
    return (uint8_t)x;
}
inline Bytes patv(size_t n, uint64_t salt = 0)
{
    Bytes b(n);
    for (size_t i = 0; i < n; i++) b[i] = pat(i, salt);
    return b;
}

} // namespace H
using namespace H;

// Shared by the replay / bounded stand-in drivers.  A driver exercises the real code built from
// /repo's current tree and compares it with the same specification the contracts state.
#ifndef VC_DRV_HPP
#define VC_DRV_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <sstream>
#include <functional>
#include <algorithm>
#include <limits>
#include <cmath>
#include <type_traits>
#include <unistd.h>
#include "conduit.hpp"
#include "conduit_error.hpp"
#include "conduit_utils.hpp"
extern "C" void __sanitizer_set_death_callback(void (*)(void));
namespace drv {
static uint64_t S = 0x9E3779B97F4A7C15ull;
inline uint64_t rnd() { S ^= S << 13; S ^= S >> 7; S ^= S << 17; return S * 2685821657736338717ull; }
inline long ri(long lo, long hi) { return lo + (long)(rnd() % (uint64_t)(hi - lo + 1)); }
static char CUR[4000] = "start"; static char KEY[200] = "?";
static long evals = 0; static int fails = 0; static std::set<std::string> keys; static std::set<uint64_t> seen; static std::vector<std::string> samples;
static int effort = 1;
inline void where(const char *key, const char *fmt, ...) {
    snprintf(KEY, sizeof KEY, "%s", key);
    va_list ap; va_start(ap, fmt); vsnprintf(CUR, sizeof CUR, fmt, ap); va_end(ap);
    evals++;
    uint64_t h = 1469598103934665603ull; for (const char *p = KEY; *p; p++) h = (h ^ (unsigned char)*p) * 1099511628211ull;
    for (const char *p = CUR; *p; p++) h = (h ^ (unsigned char)*p) * 1099511628211ull;
    if (seen.size() < 4000000) seen.insert(h);
    if (samples.size() < 3 || (samples.size() < 6 && evals % 1009 == 0)) samples.push_back(std::string(KEY) + ": " + std::string(CUR).substr(0, 200));
}
inline void fail(const char *fmt, ...) {
    fails++;
    if (!keys.insert(KEY).second || keys.size() > 20) return;
    char m[2000]; va_list ap; va_start(ap, fmt); vsnprintf(m, sizeof m, fmt, ap); va_end(ap);
    for (char *p = m; *p; p++) if (*p == '\n' || *p == '\r') *p = ' ';
    for (char *p = CUR; *p; p++) if (*p == '\n' || *p == '\r') *p = ' ';
    printf("FAIL key=%s case=[%s] %s\n", KEY, CUR, m); fflush(stdout);
}
#define CHECK(c, ...) do { if (!(c)) drv::fail(__VA_ARGS__); } while (0)
inline void death() { printf("FAIL key=%s case=[%s] the process died here (memory error)\n", KEY, CUR); fflush(stdout); }
inline int done() {
    printf("DRVDONE evaluations=%ld distinct=%zu fails=%d\n", evals, seen.size(), fails);
    for (auto &s : samples) { std::string t; for (char c : s) t += (c < 32 || c > 126) ? '?' : c; printf("SAMPLE %s\n", t.c_str()); }
    fflush(stdout); _exit(fails ? 1 : 0);
}
inline void quiet(const std::string &, const std::string &, int) {}
inline void init(int argc, char **argv) {
    if (argc > 1) { S ^= strtoull(argv[1], 0, 10) * 0x2545F4914F6CDD1Dull; if (!S) S = 1; }
    if (argc > 2) effort = atoi(argv[2]);
    __sanitizer_set_death_callback(death);
    conduit::utils::set_info_handler(quiet); conduit::utils::set_warning_handler(quiet);
}
template <class F> bool throws(F f) { try { f(); return false; } catch (const conduit::Error &) { return true; } }
template <class T> bool same(T a, T b) { return memcmp(&a, &b, sizeof(T)) == 0; }
}
#endif

// Environment stand-ins shared by symbolic execution and native replay: clock, randomness, logging, sockets.
#include "vp.h"
#include <chrono>
#include <cstdarg>
extern "C" {
int64_t vp_clock_ns = 1000000000ll;
int64_t vp_sysclock_us = 1700000000000000ll;
int vp_rand_mode = 0;
uint64_t vp_rand_sym = 0;
uint64_t vp_rand_ctr = 0; // where the counter of mode 2 begins
uint64_t vp_env_random(uint64_t lo, uint64_t hi)
{
    if (vp_rand_mode == 1) return lo;
    if (vp_rand_mode == 2) { uint64_t r = lo + vp_rand_ctr % (hi - lo + 1); vp_rand_ctr += 7919; return r; }
    if (vp_rand_mode == 3) { // a few arbitrary draws among few values, then distinct ones
        if (vp_rand_sym) { vp_rand_sym--; return vp_range(lo, lo + 3 < hi ? lo + 3 : hi, "rand"); }
        uint64_t r = lo + (hi - lo < 16 ? 0 : 16) + vp_rand_ctr % (hi - lo + 1); vp_rand_ctr += 1; return r > hi ? hi : r;
    }
    return vp_range(lo, hi, "rand");
}
}
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(vp_clock_ns)); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(vp_sysclock_us * 1000)); }
} } }
namespace srtc
{
class CustomLogger;
void setLogLevel(int) {}
void log(int, const char*, const char*...) {}
void log_v(int, const char*, const char*, va_list) {}
void setThreadSpecificCustomLogger(CustomLogger*) {}
} // namespace srtc
#include <time.h>
extern "C" int vp_clock_gettime(int clk, struct timespec* ts)
{
    if (clk == 1 /* CLOCK_MONOTONIC */) { ts->tv_sec = vp_clock_ns / 1000000000ll; ts->tv_nsec = vp_clock_ns % 1000000000ll; }
    else { ts->tv_sec = vp_sysclock_us / 1000000; ts->tv_nsec = vp_sysclock_us % 1000000 * 1000; }
    return 0;
}
#include <sys/socket.h>
extern "C" {
// datagrams sent are recorded, never sent
void (*vp_on_sendto)(const uint8_t* p, size_t n) = nullptr;
ssize_t vp_sendto(int, const void* p, size_t n, int, const struct sockaddr*, socklen_t) { if (vp_on_sendto) vp_on_sendto((const uint8_t*)p, n); return (ssize_t)n; }
}

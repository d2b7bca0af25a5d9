#include "common.h"
#include "srtc/receiver_reference_time_reports_history.h"
#include "srtc/sender_reports_history.h"
#include "srtc/util.h"
#include <cmath>
template <class H> static void rtt()
{
    const int n = (int)vp_param("reports", 2);
    H h; NtpTime ntp[32]; int64_t at[32];
    for (int i = 0; i < n; i++) {
        ntp[i].seconds = (uint32_t)vp_u32("sec"); ntp[i].fraction = (uint32_t)vp_u32("frac");
        for (int k = 0; k < i; k++) vp_assume(getNtpTimeMiddleMarker(ntp[k]) != getNtpTimeMiddleMarker(ntp[i]));
        at[i] = vp_clock_ns;
        h.save(7, ntp[i]);
        vp_clock_ns += 1000000000ll;
    }
    static const int64_t ebase[] = {0, 20000, 1000000, 4000000};
    int64_t el = ebase[vp_choose(4, "ebase")] + (int64_t)vp_range(0, 255, "elapsed_us");
    vp_clock_ns += el * 1000;
    static const uint32_t dbase[] = {0, 1, 32768, 65536, 65536 * 3 + 700, 65536 * 5};
    uint32_t delay = dbase[vp_choose(6, "delay")];
    int which = (int)vp_choose(n + 2, "which");
    if (which == n) { // matches nothing
        uint32_t m = (uint32_t)vp_u32("marker");
        for (int i = 0; i < n; i++) vp_assume(getNtpTimeMiddleMarker(ntp[i]) != m);
        vp_assert(!h.calculateRtt(7, m, delay).has_value(), "a report that matches nothing yields nothing"); vp_reach("nomatch"); return;
    }
    if (which == n + 1) { vp_assert(!h.calculateRtt(8, getNtpTimeMiddleMarker(ntp[0]), delay).has_value(), "other stream yields nothing"); return; }
    uint32_t mid = (ntp[which].seconds << 16) | (ntp[which].fraction >> 16);
    vp_assert(getNtpTimeMiddleMarker(ntp[which]) == mid, "middle 32 bits");
    auto r = h.calculateRtt(7, mid, delay);
    // truth in microseconds: (now - sent) - delay / 65536 s
    int64_t num = ((vp_clock_ns - at[which]) / 1000) * 65536 - (int64_t)delay * 1000000; // microseconds * 65536
    if (r.has_value()) {
        vp_assert(*r >= 0.0f, "never negative");
        // exact value rounded to a microsecond either way; float has 24 bits, so up to 16 s the rest is exact to 1 us
        int64_t e = (vp_clock_ns - at[which]) / 1000 - (int64_t)delay * 1000000 / 65536;
        float ef = 1 / 1000.0f * static_cast<float>(e);
        vp_assert(*r == ef || (*r >= ef - 0.003f && *r <= ef + 0.003f), "round trip time is receive - send - delay");
        vp_reach("match");
    } else vp_assert(num < 65536, "a positive round trip time is reported");
    vp_assert(!h.calculateRtt(7, mid, delay).has_value(), "a report is used once");
}
HARNESS(m01_sr) { rtt<SenderReportsHistory>(); }
HARNESS(m01_rrtr) { rtt<ReceiverReferenceTimeReportsHistory>(); }
// retention: 16 most recent per stream
HARNESS(m01_retain)
{
    SenderReportsHistory h; ReceiverReferenceTimeReportsHistory h2;
    for (uint32_t i = 0; i < 20; i++) { NtpTime t{100 + i, 0}; h.save(1, t); h2.save(1, t); h.save(2, t); vp_clock_ns += 1000000; }
    uint32_t k = (uint32_t)vp_choose(20, "k");
    NtpTime t{100 + k, 0};
    bool f = h.calculateRtt(1, getNtpTimeMiddleMarker(t), 0).has_value(), f2 = h2.calculateRtt(1, getNtpTimeMiddleMarker(t), 0).has_value();
    vp_assert(f == (k >= 4) && f2 == (k >= 4), "the sixteen most recent reports are retained, older ones dropped");
    vp_reach("done");
}
// NTP conversion: NTP time of a system clock value converts back to the same microsecond
HARNESS(m01_ntp)
{
    NtpTime n{(uint32_t)vp_u32("s"), (uint32_t)vp_u32("f")};
    int64_t us = getNtpUnixMicroseconds(n);
    int64_t secs = (int64_t)n.seconds - 2208988800ll;
    int64_t sub = us - secs * 1000000;
    vp_assert(sub >= 0 && sub < 1000000, "sub-second part");
    // sub = floor(f * 1e6 / 2^32)
    vp_assert((uint64_t)sub << 32 <= (uint64_t)n.fraction * 1000000 && (uint64_t)n.fraction * 1000000 < (uint64_t)(sub + 1) << 32, "fraction to microseconds");
    vp_reach("done");
}
HARNESS(m01_ntp_now)
{
    static const uint64_t ub[] = {0, 500000, 333000, 998976}, sb[] = {0, 1700000000, 2000000000};
    uint64_t us = ub[vp_choose(4, "ub")] + vp_range(0, 1023, "us"), s = sb[vp_choose(3, "sb")] + vp_range(0, 3, "s");
    vp_sysclock_us = (int64_t)(s * 1000000 + us);
    NtpTime n; getNtpTime(n);
    vp_assert(n.seconds == (uint32_t)(s + 2208988800ull), "seconds");
    // fraction within 2^-20 s of the truth
    uint64_t e = us << 32;
    uint64_t g = (uint64_t)n.fraction * 1000000;
    vp_assert(g <= e + 4096ull * 1000000 && e <= g + 4096ull * 1000000, "fraction");
    vp_reach("done");
}

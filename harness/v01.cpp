#include "common.h"
#include "srtc/rtp_packet_source.h"
#include "srtc/rtp_time_source.h"
// RTP time follows media time to within one tick at every step, for non-decreasing media times
HARNESS(v01_time)
{
    const uint32_t clock = (uint32_t)vp_param("clock", 90000);
    const int steps = (int)vp_param("steps", 4), bits = (int)vp_param("bits", 9);
    RtpTimeSource ts(clock);
    int64_t p0 = (int64_t)vp_range(0, 1ull << 40, "pts0"), p = p0;
    uint32_t r0 = ts.getFrameTimestamp(p0);
    uint64_t total = 0;
    for (int i = 0; i < steps; i++) {
        static const uint64_t base[] = {0, 33000, 900000};
        uint64_t d = base[vp_choose(3, "base")] + vp_range(0, (1ull << bits) - 1, "dpts");
        p += (int64_t)d; total += d;
        vp_clock_ns += 1000;
        uint32_t r = ts.getFrameTimestamp(p);
        uint64_t got = (uint32_t)(r - r0);
        uint64_t e = total * clock / 1000000; // exact value rounded down: one of the two ticks next to the exact time
        vp_assert(got == e || got == e + 1, "RTP time is within one tick of media time");
    }
    vp_reach("done");
}
// frame cadence: after n equal steps of d microseconds the timestamp is still within one tick
HARNESS(v01_drift)
{
    const uint32_t clock = (uint32_t)vp_param("clock", 90000);
    const int n = (int)vp_param("n", 40);
    static const uint32_t steps[] = {33333, 33367, 16667, 41708, 20000, 2500, 66666, 1};
    uint64_t d = steps[vp_choose(8, "d")];
    RtpTimeSource ts(clock);
    int64_t p0 = (int64_t)vp_range(0, 0xffff, "pts0");
    uint32_t r0 = ts.getFrameTimestamp(p0);
    for (int i = 1; i <= n; i++) {
        uint64_t got = (uint32_t)(ts.getFrameTimestamp(p0 + (int64_t)(d * i)) - r0), e = d * i * clock;
        vp_assert((got + 1) * 1000000 > e && got * 1000000 < e + 1000000, "no drift");
    }
    vp_reach("done");
}
// a media time that goes backwards does not move RTP time backwards; the current timestamp interpolates from the last frame
HARNESS(v01_current)
{
    const uint32_t clock = (uint32_t)vp_param("clock", 90000);
    RtpTimeSource ts(clock);
    uint32_t r0 = ts.getFrameTimestamp(1000000);
    uint64_t back = vp_range(0, 900000, "back");
    uint32_t r1 = ts.getFrameTimestamp(1000000 - (int64_t)back);
    vp_assert(r1 == r0, "never backwards");
    static const uint64_t base[] = {0, 10000, 33000, 999000};
    uint64_t el = base[vp_choose(4, "base")] + vp_range(0, 1023, "elapsed_us");
    vp_clock_ns += (int64_t)el * 1000;
    uint64_t got = (uint32_t)(ts.getCurrentTimestamp() - r0), e = el * clock / 1000000;
    vp_assert(got == e || got == e + 1, "interpolated time");
    vp_reach("done");
}
// sequence numbers increase by one, rollover counts wraps; any starting point, n packets around the wrap
HARNESS(v01_seq)
{
    const int n = (int)vp_param("n", 6);
    RtpPacketSource s(1, 96);
    vp_assert(s.getSSRC() == 1 && s.getPayloadId() == 96, "identity");
    auto [ro, seq] = s.getNextSequence();
    vp_assert(ro == 0, "rollover starts at zero");
    uint64_t prev = seq;
    for (int i = 0; i < n; i++) { auto [r2, s2] = s.getNextSequence(); uint64_t cur = (uint64_t)r2 << 16 | s2; vp_assert(cur == prev + 1, "packet index advances by one"); prev = cur; }
    vp_reach("done");
}
// concrete long runs from several starting points: across every wrap
HARNESS(v01_seq_long)
{
    vp_rand_mode = 2;
    const int redraw = (int)vp_param("redraw", 0), n = (int)vp_param("n", 140000);
    RtpPacketSource s(1, 96);
    for (int i = 0; i < redraw; i++) s.clear();
    auto [ro, seq] = s.getNextSequence();
    const uint64_t first = (uint64_t)ro << 16 | seq;
    vp_assert(ro == 0, "rollover starts at zero");
    uint64_t prev = first;
    for (int i = 0; i < n; i++) { auto [r2, s2] = s.getNextSequence(); uint64_t cur = (uint64_t)r2 << 16 | s2; if (cur != prev + 1) { vp_assert(false, "packet index advances by one"); } prev = cur; }
    vp_assert(prev == first + (uint64_t)n && (prev >> 16) >= 1, "wraps counted");
    vp_reach("done");
}

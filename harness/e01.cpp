#include "common.h"
#include "srtc/extended_value.h"
// true position moves by any signed step smaller than the margin; time moves by at most 1 s overall between a rollover and going back
template <typename T> static void run(uint64_t span)
{
    const int steps = (int)vp_param("steps", 4);
    const int64_t margin = (int64_t)(span / 4) - 1;
    ExtendedValue<T> ev;
    vp_assert(!ev.get().has_value(), "empty");
    int64_t pos = (int64_t)(span + vp_range(0, span - 1, "start"));
    uint64_t first = ev.extend((T)pos);
    vp_assert((T)first == (T)pos, "low bits kept");
    int64_t base = (int64_t)first - pos;
    int64_t maxPos = pos, epochAt = vp_clock_ns; // when the newest rollover happened
    for (int i = 0; i < steps; i++) {
        int64_t d = (int64_t)vp_range(0, (uint64_t)(2 * margin), "step") - margin;
        // reordered packets trail the newest position by less than the margin
        vp_assume(pos + d > maxPos - margin);
        vp_assume(pos + d >= 0);
        static const int64_t dts[] = {0, 400000000ll, 3000000000ll};
        vp_clock_ns += dts[vp_choose(3, "dt")];
        pos += d;
        uint64_t ep = (uint64_t)pos / span, em = (uint64_t)maxPos / span;
        // a value from before a rollover is recovered within a second of it
        if (ep < em) vp_assume(vp_clock_ns - epochAt <= 1000000000ll);
        if (ep > em) epochAt = vp_clock_ns;
        if (pos > maxPos) maxPos = pos;
        uint64_t got = ev.extend((T)pos);
        vp_assert((T)got == (T)pos, "low bits kept");
        vp_assert(got == (uint64_t)(pos + base), "extended value is the true position");
    }
    vp_reach("done");
}
HARNESS(e01_u16) { run<uint16_t>(0x10000ull); }
HARNESS(e01_u32) { run<uint32_t>(0x100000000ull); }

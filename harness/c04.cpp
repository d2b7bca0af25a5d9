#include "common.h"
#include "srtc/replay_protection.h"
// Any history of received indices (true, unwrapped positions) against an exact list of accepted ones.
HARNESS(c04)
{
    const uint32_t maxv = vp_param("bits", 16) == 16 ? 0xffffu : 0xffffffffu;
    const uint32_t size = (uint32_t)vp_param("size", 16);
    const int steps = (int)vp_param("steps", 5);
    const uint32_t fwd = size / 4;
    ReplayProtection rp(maxv, size);
    static const uint64_t some[] = {0, 3, 12345, 0xffffffff, 0xfffffffb};
    uint64_t start = vp_param("anystart", 1) ? (uint64_t)vp_range(0, maxv, "start") : (some[vp_choose(vp_param("starts", 5), "start")] & maxv);
    start += (uint64_t)maxv + 1;
    uint64_t acc[16]; int n = 0;
    uint64_t top = start;
    vp_assert(rp.canProceed((uint32_t)(start & maxv)), "first index accepted");
    vp_assert(rp.set((uint32_t)(start & maxv)), "first index recorded");
    acc[n++] = start;
    for (int i = 0; i < steps; i++) {
        // any position from well behind the window to well ahead of the forward limit
        uint64_t pos = top - (size + 4) + vp_range(0, size + 4 + fwd + 4, "delta");
        uint32_t v = (uint32_t)(pos & maxv);
        bool seen = false;
        for (int k = 0; k < n; k++) seen = seen | (acc[k] == pos);
        bool inWindow = pos <= top ? (top - pos < size) : (pos - top <= fwd);
        bool can = rp.canProceed(v);
        bool old = pos <= top && top - pos >= size;
        vp_assert(!(seen && can) && !(!seen && inWindow && !can) && !(old && can), "refused if already accepted or older than the window, else accepted in the window");
        bool can2 = rp.canProceed(v);
        vp_assert(can2 == can, "asking has no effect");
        if (can) {
            vp_assert(rp.set(v), "an accepted index is recorded");
            vp_assert(!rp.canProceed(v), "a recorded index is refused at once");
            acc[n++] = pos;
            if (pos > top) top = pos;
            vp_reach("accepted");
        } else vp_reach("refused");
    }
    vp_observe(n);
}
// the size used in production, concrete window distances around every boundary, symbolic position in the index space
HARNESS(c04_real)
{
    const uint32_t maxv = vp_param("bits", 16) == 16 ? 0xffffu : 0xffffffffu;
    const uint32_t size = 2048;
    ReplayProtection rp(maxv, size);
    static const uint64_t starts[] = {0, 1, 7, 100, 511, 512, 2047, 30000, 65535 - 511, 65535 - 100, 65534, 65535};
    uint64_t start = starts[vp_choose(12, "start")];
    if (maxv != 0xffff && vp_choose(2, "hi")) start = 0xffffffffull - start;
    start += (uint64_t)maxv + 1;
    rp.set((uint32_t)(start & maxv));
    static const int d1[] = {1, 2, 8, 511, 512, -1, -9, -2047};
    uint64_t a = start + d1[vp_choose(8, "d1")];
    bool ca = rp.canProceed((uint32_t)(a & maxv));
    vp_assert(ca, "in the window");
    rp.set((uint32_t)(a & maxv));
    uint64_t top = a > start ? a : start;
    uint64_t pos = top - (size + 8) + vp_range(0, size + 8 + 520, "delta");
    bool seen = pos == a || pos == start;
    bool inWindow = pos <= top ? top - pos < size : pos - top <= size / 4;
    bool can = rp.canProceed((uint32_t)(pos & maxv));
    vp_assert(can == (inWindow && !seen), "window of the configured size");
    vp_reach("done");
}

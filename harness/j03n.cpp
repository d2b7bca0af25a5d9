#include "common.h"
#include "srtc/util.h"
// The compact request encoding names exactly the given set, for any list in stream order (possibly across the wrap), with gaps of any size
HARNESS(j03_compress)
{
    const int n = (int)vp_param("n", 4);
    std::vector<uint16_t> v;
    uint16_t s = (uint16_t)vp_u16("first");
    v.push_back(s);
    for (int i = 1; i < n; i++) { s = (uint16_t)(s + vp_range(vp_param("dup", 0) ? 0 : 1, 0x2000, "gap")); v.push_back(s); }
    uint16_t* a = new uint16_t[n]; uint16_t* b = new uint16_t[n];
    size_t k = compressNackList(v, a, b);
    vp_assert(k >= 1 && k <= (size_t)n, "count");
    size_t named = 0;
    for (size_t i = 0; i < k; i++) {
        named += 1;
        bool ok = false;
        for (int j = 0; j < n; j++) ok = ok | (v[j] == a[i]);
        vp_assert(ok, "only requested packets are named");
        for (int bit = 0; bit < 16; bit++) {
            bool on = (b[i] >> bit) & 1;
            uint16_t q = (uint16_t)(a[i] + bit + 1);
            bool in = false;
            for (int j = 0; j < n; j++) in = in | (v[j] == q);
            vp_assert(!on | in, "only requested packets are named");
        }
    }
    for (int j = 0; j < n; j++) {
        bool ok = false;
        for (size_t i = 0; i < k; i++) { uint16_t d = (uint16_t)(v[j] - a[i]); ok = ok | (d == 0) | ((d <= 16) & ((b[i] >> ((d - 1) & 15)) & 1)); }
        vp_assert(ok, "every requested packet is named");
    }
    vp_observe(k);
    vp_reach("done");
    delete[] a; delete[] b;
}

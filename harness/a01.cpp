#include "common.h"
#include "srtc/pool_allocator.h"
// Any sequence of allocate / release; each live block is filled with its own pattern and must keep it.
HARNESS(a01)
{
    const size_t item = (size_t)vp_param("item", 24);
    const int steps = (int)vp_param("steps", 6), pre = (int)vp_param("pre", 0);
    std::vector<uint8_t*> live; std::vector<uint8_t> tag;
    {
        PoolAllocatorImpl pool(item);
        auto chk = [&]() { for (size_t i = 0; i < live.size(); i++) { bool ok = true; for (size_t k = 0; k < item; k++) ok = ok & (live[i][k] == tag[i]); vp_assert(ok, "live block keeps its content"); } };
        auto add = [&](uint8_t c) {
            auto p = (uint8_t*)pool.allocate();
            vp_assert(p != nullptr, "allocation succeeds");
            vp_assert(((uintptr_t)p % sizeof(size_t)) == 0, "aligned");
            for (auto q : live) vp_assert((uintptr_t)p + item <= (uintptr_t)q || (uintptr_t)q + item <= (uintptr_t)p, "disjoint");
            memset(p, c, item); live.push_back(p); tag.push_back(c);
        };
        for (int i = 0; i < pre; i++) add((uint8_t)i);
        for (int i = 0; i < steps; i++) {
            size_t c = vp_choose(live.size() < 3 ? live.size() + 1 : 4, "op");
            if (c == 0) add((uint8_t)vp_u8("tag"));
            else { // release first, last or middle
                size_t k = c == 1 ? 0 : c == 2 ? live.size() - 1 : live.size() / 2;
                uint8_t* p = live[k]; pool.release(p); live.erase(live.begin() + k); tag.erase(tag.begin() + k);
                if (vp_choose(2, "re")) { size_t n0 = live.size(); add((uint8_t)vp_u8("tag")); vp_assert(live.size() == n0 + 1 && live[n0] == p, "released block is reused"); }
            }
            chk();
        }
        vp_reach("done");
        vp_observe(live.size());
        while (!live.empty()) { pool.release(live.back()); live.pop_back(); }
        pool.release(nullptr);
    }
}
struct Big { uint64_t a = 1; double b = 2; std::vector<int> v; uint8_t t[13] = {}; };
HARNESS(a01_typed)
{
    PoolAllocator<Big> pool;
    Big* x[70];
    int n = (int)vp_param("n", 66);
    for (int i = 0; i < n; i++) { x[i] = pool.create(); vp_assert(((uintptr_t)x[i] % alignof(Big)) == 0, "aligned"); x[i]->a = (uint64_t)i; x[i]->v.assign(3, i); x[i]->t[12] = (uint8_t)i; }
    size_t k = vp_choose(n, "k");
    pool.destroy(x[k]); x[k] = pool.create(); vp_assert(x[k]->a == 1 && x[k]->v.empty(), "constructed anew"); x[k]->a = k; x[k]->v.assign(3, (int)k); x[k]->t[12] = (uint8_t)k;
    for (int i = 0; i < n; i++) vp_assert(x[i]->a == (uint64_t)i && x[i]->v.size() == 3 && x[i]->v[2] == i && x[i]->t[12] == (uint8_t)i, "content kept");
    for (int i = 0; i < n; i++) pool.destroy(x[i]);
    vp_reach("done");
}

#include "common.h"
#include "srtc/depacketizer.h"
#include "srtc/jitter_buffer_item.h"
typedef std::vector<const JitterBufferItem*> Run;
struct Dp {
    std::shared_ptr<Depacketizer> d;
    JitterBufferItem item[6]; int n = 0;
    Dp(Codec c) : d(Depacketizer::make(mkTrack(c)).first) {}
    void add(ByteBuffer&& b, bool marker, uint64_t ts) { item[n].payload = std::move(b); item[n].marker = marker; item[n].rtp_timestamp_ext = ts; item[n].received = true; n++; }
    std::vector<ByteBuffer> extract(int from, int to) { Run r; for (int i = from; i < to; i++) r.push_back(&item[i]); std::vector<ByteBuffer> out; d->extract(out, r); return out; }
};
static Codec codecParam() { static const Codec c[] = {Codec::VP8, Codec::VP9, Codec::H264, Codec::H265, Codec::AV1, Codec::Opus}; return c[vp_param("codec", 0)]; }
// any payloads at all, classified and extracted in one run or one by one, twice
HARNESS(s03)
{
    Codec c = codecParam();
    Dp p(c);
    int n = 1 + (int)vp_choose(vp_param("packets", 2), "packets");
    size_t lim = vp_param("count", 5), base = vp_param("base", 0);
    for (int i = 0; i < n; i++) {
        size_t len = base + vp_choose(lim, "len");
        Exact in(len, "payload");
        p.add(ByteBuffer(in.p, len), vp_bool("marker"), i == 0 ? 0 : vp_range(0, 1, "ts"));
        p.d->getPacketKind(p.item[i].payload, p.item[i].marker);
    }
    size_t total = 0;
    bool single = c == Codec::Opus || vp_choose(2, "onebyone");
    for (int pass = 0; pass < 2; pass++) {
        if (single) for (int i = 0; i < n; i++) { auto o = p.extract(i, i + 1); for (auto& f : o) { ByteBuffer x = f.copy(); total += x.size(); } }
        else { auto o = p.extract(0, n); for (auto& f : o) { ByteBuffer x = f.copy(); total += x.size(); } }
        if (pass == 0 && vp_param("once", 0)) break;
    }
    p.d->reset();
    vp_observe(total);
    vp_reach(total ? "frames" : "nothing");
}

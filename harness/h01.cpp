#include "common.h"
#include "srtc/send_rtp_history.h"
// Any interleaving of sends on two streams with arbitrary sequence numbers
HARNESS(h01)
{
    const int steps = (int)vp_param("steps", 4);
    auto t1 = mkTrack(Codec::H264, 1001), t2 = mkTrack(Codec::VP8, 1002);
    SendRtpHistory h;
    struct Rec { uint32_t ssrc; uint16_t seq; PacketP p; } rec[8]; int n = 0;
    for (int i = 0; i < steps; i++) {
        auto& t = vp_choose(2, "track") ? t2 : t1;
        uint16_t seq = (uint16_t)vp_u16("seq");
        auto p = std::make_shared<RtpPacket>(t, false, 0, seq, 1000 + i, 0, ByteBuffer());
        h.save(p);
        rec[n++] = {t->getSSRC(), seq, p};
    }
    uint32_t qs = 1000 + (uint32_t)vp_choose(4, "qssrc");
    uint16_t q = (uint16_t)vp_u16("q");
    auto f = h.find(qs, q);
    PacketP want;
    for (int i = 0; i < n; i++) if (rec[i].ssrc == qs && rec[i].seq == q) want = rec[i].p;
    vp_assert(f == want, "lookup returns the packet last sent with this SSRC and sequence number");
    if (f) { vp_reach("found"); vp_assert(f->getSSRC() == qs && f->getSequence() == q, "right packet"); } else vp_reach("absent");
}
// retention: `count` consecutive packets from any starting sequence number; the latest 512 are all found, older ones are not, also after wrap
HARNESS(h01_long)
{
    const int count = (int)vp_param("count", 530);
    auto t = mkTrack(Codec::H264, 1001);
    SendRtpHistory h;
    static const uint32_t starts[] = {0, 1000, 65536 - 512, 65536 - 100};
    uint32_t s0 = starts[vp_choose(4, "s0")];
    std::vector<PacketP> v;
    for (int i = 0; i < count; i++) { auto p = std::make_shared<RtpPacket>(t, false, 0, (uint16_t)(s0 + i), (uint32_t)i, 0, ByteBuffer()); v.push_back(p); h.save(p); }
    // also a re-send of the same number (restart of the stream): newest wins
    uint32_t k = (uint32_t)vp_choose(count, "k");
    auto f = h.find(1001, (uint16_t)(s0 + k));
    const int lim = 512;
    if ((int)k >= count - lim) { vp_assert(f == v[k], "a packet among the last 512 is retained"); vp_reach("kept"); }
    else { vp_assert(!f, "retention is bounded"); vp_reach("dropped"); }
}
// a sequence number sent twice with other packets between and evictions of the first copy
HARNESS(h01_dup)
{
    auto t = mkTrack(Codec::H264, 1001);
    SendRtpHistory h;
    uint32_t gap = (uint32_t)vp_param("gap", 300), after = (uint32_t)vp_choose(3, "after") * 128;
    auto mk = [&](uint16_t s, uint32_t ts) { auto p = std::make_shared<RtpPacket>(t, false, 0, s, ts, 0, ByteBuffer()); h.save(p); return p; };
    mk(7, 1);
    for (uint32_t i = 0; i < gap; i++) mk((uint16_t)(100 + i), 2);
    auto second = mk(7, 3);
    for (uint32_t i = 0; i < after; i++) mk((uint16_t)(1000 + i), 4);
    vp_assert(h.find(1001, 7) == second, "the packet sent last is found while retained");
    vp_reach("done");
}

#include "common.h"
#include "srtc/rtcp_packet.h"
#include "srtc/rtcp_packet_multi.h"
// every datagram of n bytes against a reference walk of RFC 3550 section 6
HARNESS(s02)
{
    size_t n = (size_t)vp_param("base", 0) + vp_choose(vp_param("count", 21), "len");
    Exact in(n, "rtcp");
    const uint8_t* d = in.p;
    ByteBuffer b(in.p, n);
    auto list = RtcpPacket::fromUdpPacket(b);
    auto it = list.begin();
    size_t pos = 0;
    while (n - pos >= 8) {
        size_t len = (((size_t)d[pos + 2] << 8 | d[pos + 3]) + 1) * 4;
        if (len > n - pos) break;
        if (len == 4) { pos += 4; vp_reach("short"); continue; }
        vp_assert(it != list.end(), "every complete sub-packet is reported");
        const RtcpPacket& p = **it;
        vp_assert(p.getRC() == (d[pos] & 31) && p.getPayloadId() == d[pos + 1], "report count and type");
        vp_assert(p.getSSRC() == ((uint32_t)d[pos + 4] << 24 | (uint32_t)d[pos + 5] << 16 | (uint32_t)d[pos + 6] << 8 | d[pos + 7]), "SSRC");
        size_t pl = len - 8;
        if ((d[pos] & 0x20) && pl && d[pos + len - 1] <= pl) pl -= d[pos + len - 1];
        vp_assert(p.getPayload().size() == pl, "payload inside the datagram, padding removed");
        vp_assert(vp_eq(p.getPayload().data(), d + pos + 8, pl), "payload bytes");
        ++it; pos += len;
        vp_reach("packet");
    }
    vp_assert(it == list.end(), "nothing beyond the datagram is reported");
    vp_reach("done");
}
HARNESS(r09)
{
    int n = (int)vp_param("n", 3);
    struct { uint32_t ssrc; uint8_t rc, pt; Exact* pay; } e[4];
    std::vector<std::shared_ptr<RtcpPacket>> v;
    static const size_t sizes[] = {0, 4, 6, 20, 13, 24};
    for (int i = 0; i < n; i++) {
        e[i].ssrc = (uint32_t)vp_u32("ssrc"); e[i].rc = (uint8_t)vp_range(0, 31, "rc"); e[i].pt = (uint8_t)vp_range(0, 255, "pt");
        e[i].pay = new Exact(sizes[vp_choose(6, "size")], "payload");
        v.push_back(std::make_shared<RtcpPacket>(e[i].ssrc, e[i].rc, e[i].pt, ByteBuffer(e[i].pay->p, e[i].pay->n)));
        auto one = v.back()->generate();
        vp_assert(one.size() % 4 == 0 && one.size() == (((size_t)one.data()[2] << 8 | one.data()[3]) + 1) * 4, "length word counts 32-bit words");
        vp_assert(one.data()[0] == (0x80 | e[i].rc) && one.data()[1] == e[i].pt, "version, no padding, count, type");
    }
    auto buf = RtcpPacketMulti(v).generate();
    auto l = RtcpPacket::fromUdpPacket(buf);
    vp_assert(l.size() == (size_t)n, "same number of packets");
    int i = 0;
    for (auto& p : l) {
        size_t sz = e[i].pay->n, pad = (sz + 3) / 4 * 4;
        vp_assert(p->getSSRC() == e[i].ssrc && p->getRC() == e[i].rc && p->getPayloadId() == e[i].pt, "header survives");
        vp_assert(p->getPayload().size() == pad, "payload size, rounded to words");
        vp_assert(vp_eq(p->getPayload().data(), e[i].pay->p, sz), "payload bytes survive");
        for (size_t k = sz; k < pad; k++) vp_assert(p->getPayload().data()[k] == 0, "zero fill");
        i++;
    }
    vp_reach("done");
}
// large single packet: length word with both bytes in use
HARNESS(r09_large)
{
    static const size_t sizes[] = {1000, 1024, 1016, 1400};
    size_t n = sizes[vp_choose(4, "size")];
    ByteBuffer b = symBuf(n, "payload");
    ByteBuffer c = b.copy();
    RtcpPacket p((uint32_t)vp_u32("ssrc"), 5, 205, std::move(b));
    auto l = RtcpPacket::fromUdpPacket(p.generate());
    vp_assert(l.size() == 1 && eqBuf(l.front()->getPayload(), c.data(), n), "survives");
    vp_reach("done");
}

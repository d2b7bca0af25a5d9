#include "common.h"
#include "crcref.h"
#include "sctp/sctp_packet.h"
#include "sctp/sctp_packet_builder.h"
using namespace srtc::sctp;
// what the builder writes has the published layout and is read back the same
HARNESS(d02_build)
{
    Ref ref;
    size_t maxChunks = vp_param("chunks", 2), maxLen = vp_param("len", 5);
    uint16_t sp = (uint16_t)vp_u16("src"), dp = (uint16_t)vp_u16("dst");
    uint32_t tag = (uint32_t)vp_u32("tag");
    size_t n = vp_choose(maxChunks + 1, "chunks");
    uint8_t type[4], flags[4], data[4][64]; size_t len[4];
    SctpPacketBuilder b(sp, dp, tag);
    for (size_t i = 0; i < n; i++) {
        type[i] = (uint8_t)vp_u8("type"); flags[i] = (uint8_t)vp_u8("flags");
        len[i] = vp_choose(maxLen + 1, "len");
        if (len[i]) vp_bytes(data[i], len[i], "data");
        if (vp_choose(2, "how")) b.addChunk(type[i], flags[i], ByteBuffer(data[i], len[i]));
        else b.addChunk(type[i], flags[i], len[i] ? data[i] : nullptr, len[i]);
    }
    ByteBuffer out = b.build();
    // published layout
    uint8_t want[512]; size_t m = 12;
    memset(want, 0, sizeof want);
    want[0] = sp >> 8; want[1] = (uint8_t)sp; want[2] = dp >> 8; want[3] = (uint8_t)dp;
    for (int i = 0; i < 4; i++) want[4 + i] = (uint8_t)(tag >> (24 - 8 * i));
    for (size_t i = 0; i < n; i++) {
        want[m] = type[i]; want[m + 1] = flags[i]; want[m + 2] = (uint8_t)((4 + len[i]) >> 8); want[m + 3] = (uint8_t)(4 + len[i]);
        memcpy(want + m + 4, data[i], len[i]);
        m += (4 + len[i] + 3) / 4 * 4;
    }
    vp_assert(out.size() == m, "size of the packet, padded to four bytes");
    vp_assert(vp_eq(out.data(), want, 8) && vp_eq(out.data() + 12, want + 12, m - 12), "bytes of the packet");
    uint32_t crc = ref.packet(want, m);
    const uint8_t* d = out.data();
    vp_assert(((uint32_t)d[8] | (uint32_t)d[9] << 8 | (uint32_t)d[10] << 16 | (uint32_t)d[11] << 24) == crc, "checksum of the packet");
    auto p = SctpPacket::parse(d, out.size());
    vp_assert(p.has_value(), "what was built can be parsed");
    vp_assert(p->srcPort() == sp && p->dstPort() == dp && p->verificationTag() == tag, "header");
    vp_assert(p->chunks().size() == n, "number of chunks");
    for (size_t i = 0; i < n; i++) {
        const auto& c = p->chunks()[i];
        vp_assert(c.type == type[i] && c.flags == flags[i] && c.size == len[i] && vp_eq(c.data, data[i], len[i]), "chunk");
        vp_assert(c.data >= d && c.data + c.size <= d + m, "chunk lies inside the packet");
    }
    vp_reach("built");
}
// long chunks, one at a time
HARNESS(d02_long)
{
    size_t len = vp_param("lo", 60) + vp_choose(vp_param("span", 8), "len");
    uint8_t* data = new uint8_t[len];
    memset(data, 0x5a, len);
    data[0] = (uint8_t)vp_u8("first"); data[len - 1] = (uint8_t)vp_u8("last"); data[len / 2] = (uint8_t)vp_u8("mid");
    uint8_t f = (uint8_t)vp_u8("flags");
    SctpPacketBuilder b(5000, 5001, 0x01020304);
    b.addChunk(0, f, data, len);
    b.addChunk(3, 7, data, 1);
    ByteBuffer out = b.build();
    size_t pad = (4 + len + 3) / 4 * 4;
    vp_assert(out.size() == 12 + pad + 8, "size");
    for (size_t i = 4 + len; i < pad; i++) vp_assert(out.data()[12 + i] == 0, "padding is zero");
    auto p = SctpPacket::parse(out.data(), out.size());
    vp_assert(p.has_value() && p->chunks().size() == 2, "parsed");
    const auto& c = p->chunks()[0];
    vp_assert(c.type == 0 && c.flags == f && c.size == len && vp_eq(c.data, data, len), "long chunk");
    vp_assert(p->chunks()[1].size == 1 && p->chunks()[1].type == 3 && p->chunks()[1].flags == 7 && p->chunks()[1].data[0] == data[0], "the chunk after it");
    vp_reach("long");
    delete[] data;
}
// any body behind a right checksum: split exactly as the lengths in it say, or rejected
HARNESS(d02_any)
{
    Ref ref;
    size_t n = vp_param("lo", 12) + vp_choose(vp_param("hi", 24) - vp_param("lo", 12) + 1, "n");
    Exact e(n, "packet");
    putCrc(e.p, ref.packet(e.p, n));
    auto p = SctpPacket::parse(e.p, n);
    size_t pos = 12, k = 0; bool bad = false;
    while (n - pos >= 4) {
        size_t l = ((size_t)e.p[pos + 2] << 8) | e.p[pos + 3];
        if (l < 4 || l > n - pos) { bad = true; break; }
        l = vp_fix(l);
        if (p.has_value()) {
            vp_assert(k < p->chunks().size(), "every chunk is reported");
            const auto& c = p->chunks()[k];
            vp_assert(c.type == e.p[pos] && c.flags == e.p[pos + 1] && c.data == e.p + pos + 4 && c.size == l - 4, "chunk");
        }
        k++;
        pos += (l + 3) / 4 * 4;
        if (pos > n) pos = n;
    }
    vp_assert(p.has_value() == !bad, "rejected exactly when a chunk runs past the end");
    if (p.has_value()) { vp_assert(p->chunks().size() == k, "number of chunks"); vp_reach("split"); } else vp_reach("rejected");
}
// parameters of a chunk
HARNESS(d02_params)
{
    size_t n = vp_choose(vp_param("hi", 14) + 1, "n"), off = vp_choose(6, "offset");
    Exact e(n, "chunk");
    SctpPacket::Chunk c{ 1, 0, e.p, n };
    auto v = c.parseParams(off);
    size_t pos = off, k = 0;
    while (pos <= n && n - pos >= 4) {
        size_t l = ((size_t)e.p[pos + 2] << 8) | e.p[pos + 3];
        if (l < 4 || l > n - pos) break;
        l = vp_fix(l);
        vp_assert(k < v.size(), "every parameter is reported");
        vp_assert(v[k].type == (((unsigned)e.p[pos] << 8) | e.p[pos + 1]) && v[k].data == e.p + pos + 4 && v[k].size == l - 4, "parameter");
        k++;
        pos += (l + 3) / 4 * 4;
        if (pos > n) pos = n;
        vp_reach("param");
    }
    vp_assert(v.size() == k, "number of parameters");
}

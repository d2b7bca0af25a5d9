#include "common.h"
#include "srtc/depacketizer.h"
#include "srtc/encoded_frame.h"
#include "srtc/jitter_buffer.h"
#include "srtc/rtp_packet_source.h"
// hands every packet's payload out unchanged, one frame per packet
struct PassDepacketizer : Depacketizer {
    using Depacketizer::Depacketizer;
    PacketKind getPacketKind(const ByteBuffer&, bool) const override { return PacketKind::Standalone; }
    void reset() override {}
    void extract(std::vector<ByteBuffer>& out, const std::vector<const JitterBufferItem*>& l) override { for (auto* i : l) if (!i->payload.empty()) out.push_back(i->payload.copy()); }
};
static uint32_t be16(const uint8_t* p) { return (uint32_t)p[0] << 8 | p[1]; }
static uint32_t be32(const uint8_t* p) { return be16(p) << 16 | be16(p + 2); }
struct Elem { bool found; size_t off, len; };
// RFC 8285 section 4: first element with the id
static Elem refFind(uint16_t profile, const uint8_t* d, size_t n, uint8_t id)
{
    size_t i = 0;
    if (profile == 0xBEDE) {
        while (i < n) {
            uint8_t b = d[i];
            if (b == 0) { i++; continue; }
            uint8_t k = b >> 4; size_t l = (b & 15) + 1u;
            if (k == 15 || k == 0) break;
            if (n - i - 1 < l) break;
            if (k == id) return {true, i + 1, l};
            i += 1 + l;
        }
    } else if ((profile & 0xfff0) == 0x1000) {
        while (i < n) {
            uint8_t k = d[i];
            if (k == 0) { i++; continue; }
            if (n - i < 2) break;
            size_t l = d[i + 1];
            if (n - i - 2 < l) break;
            if (k == id) return {true, i + 2, l};
            i += 2 + l;
        }
    }
    return {false, 0, 0};
}
static void checkFind(const RtpExtension& x, uint16_t profile, const uint8_t* d, size_t n, uint8_t id)
{
    Elem e = n ? refFind(profile, d, n, id) : Elem{false, 0, 0};
    auto v = x.findAny(id);
    vp_assert(v.has_value() == e.found, "value found exactly when present");
    if (v) {
        vp_assert(v->size == e.len, "value length");
        vp_assert(vp_eq(v->ptr, d + e.off, e.len), "value bytes");
        auto a = x.findU16(id); auto b = x.findU32(id); auto c = x.findU64(id);
        vp_assert(a.has_value() == (e.len >= 2) && b.has_value() == (e.len >= 4) && c.has_value() == (e.len >= 8), "typed look-ups");
        if (a) vp_assert(*a == be16(d + e.off), "u16");
        if (b) vp_assert(*b == be32(d + e.off), "u32");
        if (c) vp_assert(*c == ((uint64_t)be32(d + e.off) << 32 | be32(d + e.off + 4)), "u64");
        vp_reach("found");
    } else vp_reach("absent");
}
// any datagram of the given length, accepted exactly when well formed, with the fields at their standard places
HARNESS(s01)
{
    size_t n = (size_t)vp_param("base", 0) + vp_choose(vp_param("count", 29), "len");
    Exact in(n, "pkt");
    auto track = mkTrack(Codec::H264);
    if (n > 0 && vp_param("cc", 99) != 99) vp_assume((in.p[0] & 15) == vp_param("cc", 99));
    std::shared_ptr<RtpPacket> p;
    { ByteBuffer b(in.p, n); p = RtpPacket::fromUdpPacket(track, b); }
    // reference
    const uint8_t* d = in.p;
    bool ok = n >= 12; size_t pos = 12, xl = 0, xoff = 0, pay = 0; uint16_t prof = 0;
    if (ok) { pos += (size_t)(d[0] & 15) * 4; ok = pos <= n; }
    if (ok && (d[0] & 0x10)) {
        if (n - pos < 4) ok = false;
        else { prof = (uint16_t)be16(d + pos); xl = be16(d + pos + 2) * 4; xoff = pos + 4; pos += 4; if (n - pos < xl) ok = false; else pos += xl; }
    }
    if (ok) {
        pay = n - pos;
        if (d[0] & 0x20) { if (pay == 0 || d[n - 1] == 0 || d[n - 1] > pay) ok = false; else pay -= d[n - 1]; }
    }
    if (!p) { vp_assert(!ok, "a well formed packet is accepted"); vp_reach("rejected"); return; }
    vp_assert(ok, "a truncated packet is rejected");
    vp_assert(p->getSequence() == be16(d + 2) && p->getTimestamp() == be32(d + 4) && p->getSSRC() == be32(d + 8), "fixed header fields");
    vp_assert(p->getMarker() == (d[1] >> 7) && p->getPayloadId() == (d[1] & 127), "marker and payload type");
    vp_assert(p->getPayloadSize() == pay, "payload length");
    vp_assert(vp_eq(p->getPayload().data(), d + pos, pay), "payload bytes");
    vp_reach("parsed");
    uint8_t id = (uint8_t)vp_range(1, 255, "id");
    checkFind(p->getExtension(), prof, d + xoff, xl, id);
    RtpExtension c = p->getExtension().copy();
    auto v1 = c.findAny(id); auto v2 = p->getExtension().findAny(id);
    vp_assert(v1.has_value() == v2.has_value() && (!v1 || v1->size == v2->size), "copy");
}
// any datagram on the retransmission stream is unwrapped safely and to the right number
HARNESS(s01_rtx)
{
    size_t n = 12 + vp_choose(vp_param("count", 8), "len");
    Exact in(n, "pkt");
    auto track = mkTrack(Codec::H264);
    if (n >= 12) { vp_assume(be32(in.p + 8) == 0x55667788 && (in.p[1] & 127) == 97); }
    ByteBuffer b(in.p, n);
    auto p = RtpPacket::fromUdpPacket(track, b);
    if (!p) return;
    size_t pn = p->getPayloadSize(); uint8_t copy[64]; memcpy(copy, p->getPayload().data(), pn);
    JitterBuffer jb(track, std::make_shared<PassDepacketizer>(track), 64, std::chrono::milliseconds(100), std::chrono::milliseconds(10));
    jb.consume(p);
    vp_clock_ns += 200000000;
    auto f = jb.processDeque();
    if (pn <= 2) { vp_assert(f.empty(), "nothing to deliver"); return; }
    vp_assert(f.size() == 1, "unwrapped packet delivered");
    vp_assert((uint16_t)f[0]->seq_ext == be16(copy), "original sequence number");
    vp_assert(eqBuf(f[0]->data, copy + 2, pn - 2), "original payload");
    vp_reach("unwrapped");
}
static RtpExtension someExtension(int kind, uint8_t* id1, uint8_t* id2)
{
    RtpExtensionBuilder b;
    *id1 = (uint8_t)vp_range(1, 255, "id1"); *id2 = (uint8_t)vp_range(1, 255, "id2");
    vp_assume(*id1 != *id2);
    if (kind >= 1) b.addU16Value(*id1, 0xABCD);
    if (kind >= 2) { ByteBuffer v = symBuf(kind == 2 ? 3 : 4, "xv"); b.addBinaryValue(*id2, v); }
    return b.build();
}
// serialise and parse back
HARNESS(r07_roundtrip)
{
    static const size_t sizes[] = {0, 1, 2, 7, 64};
    static const uint8_t pads[] = {0, 1, 2, 5, 255};
    size_t n = sizes[vp_choose(5, "size")]; uint8_t pad = pads[vp_choose(5, "pad")];
    auto track = mkTrack(Codec::H264, (uint32_t)vp_u32("ssrc"), (uint8_t)vp_range(0, 127, "pt"));
    Exact body(n, "payload");
    uint16_t seq = (uint16_t)vp_u16("seq"); uint32_t ts = (uint32_t)vp_u32("ts"), roll = (uint32_t)vp_u32("roll"); bool m = vp_bool("marker");
    int kind = (int)vp_choose(4, "ext"); uint8_t id1, id2;
    auto x = someExtension(kind, &id1, &id2);
    auto xc = x.copy();
    auto p = std::make_shared<RtpPacket>(track, m, roll, seq, ts, pad, std::move(x), ByteBuffer(body.p, n));
    auto out = p->generate();
    vp_assert(out.rollover == roll, "rollover passed through");
    const uint8_t* d = out.buf.data();
    size_t xs = kind == 0 ? 0 : kind == 1 ? 8 : kind == 2 ? 16 : 16;
    vp_assert(out.buf.size() == 12 + xs + n + pad, "size on the wire");
    vp_assert(d[0] == (0x80 | (pad ? 0x20 : 0) | (kind ? 0x10 : 0)), "version, padding, extension, no CSRC");
    vp_assert(d[1] == ((m ? 0x80 : 0) | track->getPayloadId()) && be16(d + 2) == seq && be32(d + 4) == ts && be32(d + 8) == track->getSSRC(), "fixed header");
    if (kind) vp_assert((be16(d + 12) & 0xfff0) == 0x1000 && be16(d + 14) * 4 == xs - 4, "extension header");
    vp_assert(vp_eq(d + 12 + xs, body.p, n), "payload on the wire");
    if (pad) vp_assert(d[out.buf.size() - 1] == pad, "padding count");
    auto q = RtpPacket::fromUdpPacket(track, out.buf);
    vp_assert(q != nullptr, "own packet is accepted");
    vp_assert(q->getMarker() == m && q->getSequence() == seq && q->getTimestamp() == ts && q->getSSRC() == track->getSSRC() && q->getPayloadId() == track->getPayloadId(), "fields survive");
    vp_assert(eqBuf(q->getPayload(), body.p, n), "payload survives, padding removed");
    uint8_t id = (uint8_t)vp_range(1, 255, "probe");
    auto a = xc.findAny(id), b = q->getExtension().findAny(id);
    vp_assert(a.has_value() == b.has_value(), "extension values survive");
    if (a) vp_assert(a->size == b->size && vp_eq(a->ptr, b->ptr, a->size), "extension value bytes survive");
    vp_reach("done");
}
// retransmission form and back
HARNESS(r07_rtx)
{
    static const size_t sizes[] = {0, 1, 5, 40};
    static const uint8_t pads[] = {0, 1, 9};
    size_t n = sizes[vp_choose(4, "size")]; uint8_t pad = pads[vp_choose(3, "pad")];
    auto track = mkTrack(Codec::H264);
    Exact body(n, "payload");
    uint16_t seq = (uint16_t)vp_u16("seq"); uint32_t ts = (uint32_t)vp_u32("ts"); bool m = vp_bool("marker");
    int kind = (int)vp_choose(3, "ext"); uint8_t id1, id2;
    auto x = someExtension(kind, &id1, &id2);
    auto p = std::make_shared<RtpPacket>(track, m, 0, seq, ts, pad, ByteBuffer(body.p, n));
    uint64_t prev = 0;
    for (int i = 0; i < 2; i++) {
        auto out = p->generateRtx(x);
        auto q = RtpPacket::fromUdpPacket(track, out.buf);
        vp_assert(q != nullptr, "retransmission is accepted");
        vp_assert(q->getSSRC() == 0x55667788 && q->getPayloadId() == 97 && q->getTimestamp() == ts && q->getMarker() == m, "retransmission stream identity");
        uint64_t idx = (uint64_t)out.rollover << 16 | q->getSequence();
        vp_assert(i == 0 || idx == prev + 1, "retransmission stream has its own consecutive numbers");
        prev = idx;
        vp_assert(q->getPayloadSize() == n + 2 && be16(q->getPayload().data()) == seq, "original sequence number first");
        vp_assert(vp_eq(q->getPayload().data() + 2, body.p, n), "then the original payload");
        auto a = x.findAny(id1), b = q->getExtension().findAny(id1);
        vp_assert(a.has_value() == b.has_value(), "extension survives");
        if (i == 1 && n) {
            JitterBuffer jb(track, std::make_shared<PassDepacketizer>(track), 64, std::chrono::milliseconds(100), std::chrono::milliseconds(10));
            jb.consume(q);
            vp_clock_ns += 200000000;
            auto f = jb.processDeque();
            vp_assert(f.size() == 1 && (uint16_t)f[0]->seq_ext == seq && (uint32_t)f[0]->rtp_timestamp_ext == ts, "unwraps to the original number");
            vp_assert(eqBuf(f[0]->data, body.p, n), "unwraps to the original payload");
        }
    }
    vp_reach("done");
}
// arbitrary extension bytes of both forms against RFC 8285, before and after trimming
HARNESS(r08_wire)
{
    size_t n = vp_choose(vp_param("n", 9), "len");
    static const uint16_t profs[] = {0xBEDE, 0x1000, 0x1007, 0x1234};
    uint16_t prof = profs[vp_choose(4, "profile")];
    Exact in(n, "ext");
    RtpExtension x(prof, ByteBuffer(in.p, n));
    uint8_t id = (uint8_t)vp_range(1, 255, "id");
    checkFind(x, prof, in.p, n, id);
    x.trimPadding();
    vp_assert(x.getData().size() <= n, "trimming only shortens");
    checkFind(x, prof, in.p, n, id);
    vp_reach("done");
}
struct Val { uint8_t id; size_t n; uint8_t b[300]; };
static void addOne(RtpExtensionBuilder& b, Val& v, const char* tag)
{
    v.id = (uint8_t)vp_range(1, 255, "id");
    static const size_t sizes[] = {0, 1, 16, 255};
    switch (vp_choose(5, tag)) {
    case 0: { uint16_t x = (uint16_t)vp_u16("v"); b.addU16Value(v.id, x); v.n = 2; v.b[0] = (uint8_t)(x >> 8); v.b[1] = (uint8_t)x; break; }
    case 1: { uint32_t x = (uint32_t)vp_u32("v"); b.addU32Value(v.id, x); v.n = 4; for (int i = 0; i < 4; i++) v.b[i] = (uint8_t)(x >> (24 - 8 * i)); break; }
    case 2: { uint64_t x = vp_range(0, ~0ull, "v"); b.addU64Value(v.id, x); v.n = 8; for (int i = 0; i < 8; i++) v.b[i] = (uint8_t)(x >> (56 - 8 * i)); break; }
    case 3: { v.n = sizes[vp_choose(4, "n")]; vp_bytes(v.b, v.n, "v"); ByteBuffer q(v.b, v.n); b.addBinaryValue(v.id, q); break; }
    default: { v.n = sizes[vp_choose(3, "n")]; vp_bytes(v.b, v.n, "v"); b.addStringValue(v.id, std::string((const char*)v.b, v.n)); break; }
    }
}
static void checkVal(const RtpExtension& x, const Val& v)
{
    auto f = x.findAny(v.id);
    vp_assert(f.has_value(), "an added value is found");
    vp_assert(f->size == v.n, "with its exact length");
    vp_assert(vp_eq(f->ptr, v.b, v.n), "and bytes");
    if (v.n == 2) vp_assert(x.findU16(v.id) == (uint16_t)be16(v.b), "u16");
    if (v.n == 4) vp_assert(x.findU32(v.id) == be32(v.b), "u32");
    if (v.n == 8) vp_assert(x.findU64(v.id) == ((uint64_t)be32(v.b) << 32 | be32(v.b + 4)), "u64");
}
HARNESS(r08_build)
{
    int n = (int)vp_param("n", 2);
    Val v[4];
    RtpExtensionBuilder b;
    vp_assert(RtpExtensionBuilder().build().empty(), "nothing added: no extension");
    for (int i = 0; i < n; i++) { addOne(b, v[i], "kind"); for (int k = 0; k < i; k++) vp_assume(v[k].id != v[i].id); }
    uint8_t other = (uint8_t)vp_range(1, 255, "other");
    for (int i = 0; i < n; i++) vp_assume(other != v[i].id);
    for (int i = 0; i < n; i++) vp_assert(b.contains(v[i].id), "builder knows what was added");
    vp_assert(!b.contains(other), "and nothing else");
    auto x = b.build();
    for (int i = 0; i < n; i++) checkVal(x, v[i]);
    vp_assert(!x.findAny(other).has_value(), "an id not added is not found");
    vp_assert(x.size() % 4 == 0 && x.size() >= 4 + x.getData().size() && x.size() < 8 + x.getData().size(), "padded to four bytes");
    auto c = x.copy();
    auto b2 = RtpExtensionBuilder::from(c);
    b2.addU32Value(other, 0x01020304);
    auto y = b2.build();
    for (int i = 0; i < n; i++) { checkVal(c, v[i]); checkVal(y, v[i]); }
    vp_assert(y.findU32(other) == 0x01020304u, "appended value found");
    // on the wire
    auto track = mkTrack(Codec::VP8);
    auto p = std::make_shared<RtpPacket>(track, false, 0, 1, 2, 0, std::move(y), ByteBuffer());
    auto out = p->generate();
    const uint8_t* d = out.buf.data();
    size_t words = be16(d + 14);
    vp_assert(out.buf.size() == 16 + words * 4, "length word counts 32-bit words");
    for (int i = 0; i < n; i++) { Elem e = refFind((uint16_t)be16(d + 12), d + 16, words * 4, v[i].id); vp_assert(e.found && e.len == v[i].n, "standard wire format"); vp_assert(vp_eq(d + 16 + e.off, v[i].b, v[i].n), "value on the wire"); }
    vp_reach("done");
}
HARNESS(r08_replace)
{
    Val v[2];
    RtpExtensionBuilder b;
    int pos = (int)vp_choose(3, "pos"); // where the u16 is
    uint8_t id = (uint8_t)vp_range(1, 255, "uid");
    uint16_t o = (uint16_t)vp_u16("old"), w = (uint16_t)vp_u16("new");
    bool present = vp_choose(2, "present");
    for (int i = 0; i <= 2; i++) {
        if (i == pos) { if (present) b.addU16Value(id, o); }
        if (i < 2) { addOne(b, v[i], "kind"); vp_assume(v[i].id != id); for (int k = 0; k < i; k++) vp_assume(v[k].id != v[i].id); }
    }
    b.addOrReplaceU16Value(id, w);
    auto x = b.build();
    vp_assert(x.findU16(id) == w, "replaced value");
    auto f = x.findAny(id); vp_assert(f && f->size == 2, "replaced value length");
    for (int i = 0; i < 2; i++) checkVal(x, v[i]);
    size_t sz = 4 + v[0].n + v[1].n + 4;
    vp_assert(x.getData().size() == sz, "stored once");
    vp_reach("done");
}
// too long for the format: the other values stay intact
HARNESS(r08_long)
{
    RtpExtensionBuilder b;
    size_t n = 254 + vp_choose(5, "n");
    bool str = vp_choose(2, "str");
    ByteBuffer big = symBuf(n, "v");
    if (str) b.addStringValue(7, std::string((const char*)big.data(), n)); else b.addBinaryValue(7, big);
    b.addU16Value(9, 0x1234);
    auto x = b.build();
    auto f = x.findAny(7);
    vp_assert(f && f->size == (n > 255 ? 255 : n), "value limited to what the format can carry");
    vp_assert(vp_eq(f->ptr, big.data(), f->size), "bytes");
    vp_assert(x.findU16(9) == 0x1234, "next value unharmed");
    vp_reach("done");
}

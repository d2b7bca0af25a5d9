#include "common.h"
#include "srtc/depacketizer.h"
#include "srtc/jitter_buffer_item.h"
#include "srtc/packetizer.h"
#include "srtc/rtp_extension_builder.h"
#include "srtc/rtp_extension_source.h"
#include "srtc/codec_vp9.h"
#include "srtc/rtp_packet_source.h"
typedef std::vector<std::shared_ptr<RtpPacket>> Packets;
// every packet gets an extension value of the given size and every long remainder the given padding
struct Src : RtpExtensionSource {
    size_t size; uint8_t pad; bool firstOnly;
    Src(size_t s, uint8_t p, bool f) : size(s), pad(p), firstOnly(f) {}
    uint8_t getPadding(const std::shared_ptr<Track>&, size_t) override { return pad; }
    bool wantsExtension(const std::shared_ptr<Track>&, bool, unsigned n) const override { return size > 0 && (!firstOnly || n == 0); }
    void addExtension(RtpExtensionBuilder& b, const std::shared_ptr<Track>&, bool, unsigned) override { ByteBuffer v(size); v.resize(size); memset(v.data(), 7, size); b.addBinaryValue(5, v); }
};
static std::vector<std::shared_ptr<RtpExtensionSource>> sources()
{
    static const size_t ext[] = {0, 2, 40, 2}; static const uint8_t pad[] = {0, 0, 0, 120};
    uint64_t k = vp_choose(vp_param("sources", 3), "source"); // 3: padding
    if (vp_param("source", 99) != 99) k = vp_param("source", 0);
    std::vector<std::shared_ptr<RtpExtensionSource>> r;
    if (k) r.push_back(std::make_shared<Src>(ext[k], pad[k], k == 2));
    return r;
}
static size_t overhead() { static const size_t o[] = {10, 0, 28}; return o[vp_choose(vp_param("overheads", 1), "overhead")]; }
struct Pair {
    TrackP tr; std::shared_ptr<Packetizer> pk; std::shared_ptr<Depacketizer> dp;
    std::vector<std::shared_ptr<RtpExtensionSource>> src; size_t ov, budget;
    bool first = true; uint16_t nextSeq = 0; uint32_t nextRoll = 0;
    Pair(Codec c) : tr(mkTrack(c, 0x11223344, 96, 0x55667788, 97, c == Codec::Opus ? 48000 : 90000)), pk(Packetizer::make(tr).first), dp(Depacketizer::make(tr).first), src(sources()), ov(overhead()), budget(1200 - 12 - ov) {}
    Packets send(int64_t pts, const ByteBuffer& f, bool video = true, bool nal = false)
    {
        Packets p = pk->generate(src, ov, pts, f);
        for (size_t i = 0; i < p.size(); i++) {
            if (first) { nextSeq = p[i]->getSequence(); nextRoll = p[i]->getRollover(); first = false; }
            vp_assert(p[i]->getSequence() == nextSeq && p[i]->getRollover() == nextRoll, "consecutive sequence numbers");
            if (++nextSeq == 0) nextRoll++;
            vp_assert(p[i]->getTimestamp() == p[0]->getTimestamp(), "one timestamp per frame");
            if (video) vp_assert(p[i]->getMarker() == (i + 1 == p.size()), "exactly the last packet of a frame is marked");
            vp_assert(p[i]->getSSRC() == 0x11223344 && p[i]->getPayloadId() == 96, "stream identity");
            vp_assert(p[i]->getPayloadSize() <= 1188 && p[i]->generate().buf.size() + ov <= 1200, "within the packet budget");
            if (i > 0 && video && !nal) vp_assert(dp->getPacketKind(p[i]->getPayload(), p[i]->getMarker()) == (i + 1 == p.size() ? PacketKind::End : PacketKind::Middle), "only the first packet starts a frame");
        }
        return p;
    }
    std::vector<ByteBuffer> receive(const Packets& p, uint64_t ts)
    {
        std::vector<ByteBuffer> out; if (p.empty()) return out;
        JitterBufferItem* it = new JitterBufferItem[p.size()];
        std::vector<const JitterBufferItem*> run;
        for (size_t i = 0; i < p.size(); i++) { it[i].payload = p[i]->getPayload().copy(); it[i].marker = p[i]->getMarker(); it[i].rtp_timestamp_ext = ts; it[i].received = true; run.push_back(&it[i]); }
        dp->extract(out, run);
        delete[] it;
        return out;
    }
};
struct Unit { size_t n; uint8_t* d; };
static size_t sizeAround(size_t budget, size_t min)
{
    size_t k = vp_choose(vp_param("k", 3), "k"); size_t spread = vp_param("spread", 3);
    if (k == 0) return min + vp_choose(spread, "d");
    size_t d = vp_choose(2 * spread + 1, "d");
    return k * budget + d - spread;
}
static Unit mkUnit(size_t n, size_t head)
{
    Unit u{n, new uint8_t[n ? n : 1]};
    for (size_t i = 0; i < n; i++) u.d[i] = i % 7 == 3 ? 0 : (uint8_t)(0x41 + i % 101);
    size_t h = n < head ? n : head;
    vp_bytes(u.d, h, "head");
    for (size_t i = 0; i < h; i++) vp_assume(u.d[i] > 1);
    if (n > head) { vp_bytes(u.d + n - 1, 1, "tail"); vp_assume(u.d[n - 1] > 1); }
    return u;
}
static void addCode(ByteBuffer& b, bool four) { static const uint8_t c[4] = {0, 0, 0, 1}; b.append(four ? c : c + 1, four ? 4 : 3); }
static void put(ByteBuffer& b, const Unit& u, bool four) { addCode(b, four); b.append(u.d, u.n); }
static void same(const std::vector<ByteBuffer>& out, const ByteBuffer& want, const char* what)
{
    vp_assert(out.size() == 1, "one frame out");
    vp_assert(eqBuf(out[0], want.data(), want.size()), what);
}
// key frame with parameter sets first, then an access unit of any units
static void nalus(bool h265)
{
    Pair p(h265 ? Codec::H265 : Codec::H264);
    uint8_t hl = h265 ? 2 : 1;
    auto hdr = [&](Unit& u, uint8_t type) { if (h265) { u.d[0] = (uint8_t)(type << 1 | (u.d[0] & 1)); } else u.d[0] = (uint8_t)(type | (u.d[0] & 0x60)); };
    auto typeOf = [&](const Unit& u) { return h265 ? (u.d[0] >> 1) & 63 : u.d[0] & 31; };
    auto isKey = [&](uint64_t t) { return h265 ? t >= 19 && t <= 21 : t == 5; };
    Unit ps[3]; int nps = h265 ? 3 : 2; // VPS SPS PPS or SPS PPS
    ByteBuffer f0, want;
    for (int i = 0; i < nps; i++) { ps[i] = mkUnit(hl + 3, 2); hdr(ps[i], h265 ? 32 + i : 7 + i); put(f0, ps[i], true); put(want, ps[i], true); }
    Unit idr = mkUnit(20, hl + 1); hdr(idr, h265 ? 19 : 5);
    put(f0, idr, vp_choose(2, "code")); put(want, idr, true);
    if (vp_param("csd", 0)) { // parameter sets out of band
        std::vector<ByteBuffer> csd; for (int i = 0; i < nps; i++) { ByteBuffer b; put(b, ps[i], true); csd.push_back(std::move(b)); }
        p.pk->setCodecSpecificData(csd);
        ByteBuffer g; put(g, idr, true); f0 = std::move(g);
    }
    auto out = p.receive(p.send(0, f0, true, true), 1000);
    same(out, want, "key frame with its parameter sets");
    // second access unit
    int n = 1 + (int)vp_choose(vp_param("units", 2), "units");
    ByteBuffer f1, w1; bool added = false, any = false;
    Unit cur[3] = {ps[0], ps[1], ps[2]};
    int big = (int)vp_choose(n, "big");
    for (int i = 0; i < n; i++) {
        Unit u = mkUnit(i == big ? sizeAround(p.budget, hl) : hl + 2, hl + 1);
        uint8_t t = (uint8_t)(h265 ? vp_range(0, 40, "type") : vp_range(1, 23, "type"));
        hdr(u, t);
        if (h265) vp_assume(u.d[0] > 1 || true);
        put(f1, u, vp_choose(2, "code"));
        bool param = h265 ? t >= 32 && t <= 34 : t == 7 || t == 8;
        if (param) { vp_assume(u.n < 200 && u.n > hl); t = (uint8_t)vp_fix(t); cur[t - (h265 ? 32 : 7)] = u; continue; }
        if (isKey(t) && !added) { for (int k = 0; k < nps; k++) put(w1, cur[k], true); added = true; }
        put(w1, u, true); any = true;
    }
    (void)typeOf;
    auto p1 = p.send(33000, f1, true, true);
    auto o1 = p.receive(p1, 4000);
    if (any) { same(o1, w1, "the same units in the same order"); vp_reach(p1.size() > 1 ? "fragmented" : "single"); }
    else { vp_assert(p1.empty(), "parameter sets wait for the key frame"); vp_reach("params"); }
}
HARNESS(r01) { nalus(false); }
HARNESS(r02) { nalus(true); }
// VP8 and VP9: inter frame before any key frame, key frame, inter frame
static void vpx(Codec c)
{
    Pair p(c);
    bool vp9c = c == Codec::VP9;
    uint64_t ts = 0; bool seen = false;
    int frames = (int)vp_param("frames", 2);
    for (int i = 0; i < frames; i++) {
        size_t n = i + 1 == frames ? sizeAround(p.budget - (vp9c ? 3 : 1), vp9c ? 1 : 3) : (size_t)3;
        Unit u = mkUnit(n, vp9c ? 1 : 3);
        if (!vp9c && n < 3) return;
        bool key = vp9c ? vp9::isKeyFrame(u.d, u.n) : !(u.d[0] & 1);
        ByteBuffer f(u.d, u.n);
        auto pk = p.send((int64_t)i * 33000, f);
        vp_assert(!pk.empty(), "sent");
        vp_assert(p.dp->getPacketKind(pk[0]->getPayload(), pk[0]->getMarker()) == (pk.size() == 1 ? PacketKind::Standalone : PacketKind::Start), "first packet starts the frame");
        auto o = p.receive(pk, ts += 3000);
        if (key) seen = true;
        if (seen) { same(o, f, "the same frame"); vp_reach(pk.size() > 1 ? "fragmented" : "single"); }
        else { vp_assert(o.empty(), "nothing before a key frame"); vp_reach("early"); }
    }
}
HARNESS(r03) { vpx(Codec::VP8); }
HARNESS(r04) { vpx(Codec::VP9); }
// any standard VP9 payload descriptor from a peer is skipped in full
HARNESS(r04_desc)
{
    uint8_t d[64]; size_t n = 1; vp_bytes(d, 1, "flags");
    uint8_t fl = d[0];
    if (fl & 0x80) { vp_bytes(d + n, 2, "pid"); n += (d[n] & 0x80) ? 2 : 1; }
    uint16_t pid = (fl & 0x80) ? (d[1] & 0x80 ? (uint16_t)((d[1] & 0x7f) << 8 | d[2]) : d[1]) : 0;
    if (fl & 0x20) { vp_bytes(d + n, 1, "layer"); n++; if (!(fl & 0x10)) { vp_bytes(d + n, 1, "tl0"); n++; } }
    if ((fl & 0x50) == 0x50) { for (int i = 0; i < 3; i++) { vp_bytes(d + n, 1, "pdiff"); uint8_t b = d[n++]; if (!(b & 1)) break; if (i == 2) vp_assume(false); } }
    if (fl & 2) {
        vp_bytes(d + n, 1, "ss"); uint8_t ss = d[n++];
        if (ss & 0x10) { uint64_t ns = vp_fix((ss >> 5) & 7); vp_assume(ns <= vp_param("layers", 3)); vp_bytes(d + n, 4 * (ns + 1), "dims"); n += 4 * (ns + 1); }
        if (ss & 8) { uint64_t ng = vp_choose(vp_param("ng", 3), "ng"); d[n++] = (uint8_t)ng; for (uint64_t i = 0; i < ng; i++) { vp_bytes(d + n, 1, "pg"); uint64_t r = vp_fix((d[n] >> 2) & 3); n++; vp_bytes(d + n, r, "pgd"); n += r; } }
    }
    size_t body = 1 + vp_choose(2, "body");
    vp_bytes(d + n, body, "frame");
    Exact e(n + body, "wire"); memcpy(e.p, d, n + body);
    vp9::PayloadDescriptor desc = {}; const uint8_t* pd = nullptr; size_t ps = 0;
    bool ok = vp9::parsePayloadDescriptor(e.p, n + body, desc, pd, ps);
    vp_assert(ok, "a standard descriptor is accepted");
    vp_assert(pd == e.p + n && ps == body, "and skipped in full");
    vp_assert(desc.picture_id == pid && desc.picture_id_present == ((fl & 0x80) != 0), "picture id");
    vp_assert(desc.start_of_frame == ((fl & 8) != 0) && desc.end_of_frame == ((fl & 4) != 0) && desc.inter_picture == ((fl & 0x40) != 0), "flags");
    // truncated anywhere inside the descriptor: rejected
    size_t cut = vp_choose(n, "cut");
    Exact t(cut, "cutwire"); memcpy(t.p, d, cut);
    vp_assert(!vp9::parsePayloadDescriptor(t.p, cut, desc, pd, ps), "a truncated descriptor is rejected");
    vp_reach("done");
}
// AV1 temporal units: any number of OBUs with or without layer ids
static void putLeb(ByteBuffer& b, size_t v) { ByteWriter w(b); do { w.writeU8((uint8_t)((v & 0x7f) | (v > 0x7f ? 0x80 : 0))); v >>= 7; } while (v); }
HARNESS(r05)
{
    Pair p(Codec::AV1);
    int n = 1 + (int)vp_choose(vp_param("units", 2), "units");
    int big = (int)vp_choose(n, "big"); bool delim = vp_choose(2, "delimiter");
    ByteBuffer f, want;
    if (delim) { static const uint8_t td[] = {0x12, 0}; f.append(td, 2); }
    bool seq = vp_choose(2, "sequence");
    if (seq) { static const uint8_t sh[] = {0x0a, 3, 1, 2, 3}; f.append(sh, 5); want.append(sh, 5); }
    for (int i = 0; i < n; i++) {
        size_t sz = i == big ? sizeAround(p.budget, 0) : vp_choose(2, "small") * 3;
        Unit u = mkUnit(sz, 2);
        uint8_t t = (uint8_t)vp_range(3, 15, "type"); // frame headers, frames, tile groups, metadata, padding
        bool x = vp_choose(2, "layered"); uint8_t xb = (uint8_t)(vp_range(0, 31, "layer") << 3);
        if (x) vp_assume(xb != 0);
        uint8_t h[2] = {(uint8_t)(t << 3 | (x ? 4 : 0) | 2), xb};
        f.append(h, x ? 2 : 1); putLeb(f, sz); f.append(u.d, sz);
        want.append(h, x ? 2 : 1); putLeb(want, sz); want.append(u.d, sz);
    }
    auto pk = p.send(0, f);
    auto o = p.receive(pk, 1000);
    if (seq) { same(o, want, "the same OBUs in the same order"); vp_reach(pk.size() > 1 ? "fragmented" : "single"); }
    else { vp_assert(o.empty(), "nothing before a sequence header"); vp_reach("early"); }
}
HARNESS(r06)
{
    Pair p(Codec::Opus);
    for (int i = 0; i < 3; i++) {
        size_t n = i == 1 ? sizeAround(p.budget - vp_param("spread", 3) - 48, 1) : 5;
        if (i == 1 && vp_param("k", 3) < 2) n = 1 + 27 * vp_choose(41, "n");
        if (n + 48 > p.budget) n = p.budget - 48; // leaves room for the largest extension used here
        Unit u = mkUnit(n, 4);
        ByteBuffer f(u.d, u.n);
        auto pk = p.send(i * 20000, f, false);
        vp_assert(pk.size() == 1, "one packet per frame");
        vp_assert(eqBuf(pk[0]->getPayload(), u.d, u.n), "carried unchanged");
        vp_assert(p.dp->getPacketKind(pk[0]->getPayload(), pk[0]->getMarker()) == PacketKind::Standalone, "standalone");
        auto o = p.receive(pk, 1000 + i);
        vp_assert(o.size() == 1 && eqBuf(o[0], u.d, u.n), "the identical bytes");
    }
    vp_reach("done");
}
// packets built by another conforming sender
struct Feed {
    std::shared_ptr<Depacketizer> dp; std::vector<std::unique_ptr<JitterBufferItem>> it; uint64_t ts = 0;
    explicit Feed(Codec c) : dp(Depacketizer::make(mkTrack(c)).first) {}
    void add(const ByteBuffer& b) { auto i = std::make_unique<JitterBufferItem>(); i->payload = b.copy(); i->received = true; i->rtp_timestamp_ext = ts; it.push_back(std::move(i)); }
    std::vector<ByteBuffer> done() { it.back()->marker = true; std::vector<const JitterBufferItem*> r; for (auto& x : it) r.push_back(x.get()); std::vector<ByteBuffer> o; dp->extract(o, r); it.clear(); ts += 3000; return o; }
};
static void peerNal(bool h265)
{
    Feed f(h265 ? Codec::H265 : Codec::H264);
    size_t hl = h265 ? 2 : 1;
    for (int round = 0; round < 2; round++) {
        Unit u[4]; int n = round == 0 ? (h265 ? 4 : 3) : 1 + (int)vp_choose(vp_param("units", 3), "units");
        ByteBuffer want;
        for (int i = 0; i < n; i++) {
            size_t sz = round == 0 ? hl + 2 : hl + 1 + vp_choose(2, "size");
            u[i] = Unit{sz, new uint8_t[sz]}; vp_bytes(u[i].d, sz, "unit");
            uint64_t t = round == 0 ? (h265 ? (i < 3 ? 32 + i : 20) : (i < 2 ? 7 + i : 5)) : h265 ? vp_range(0, 40, "type") : vp_range(1, 23, "type");
            u[i].d[0] = h265 ? (uint8_t)(t << 1 | (u[i].d[0] & 1)) : (uint8_t)(t | (u[i].d[0] & 0x60));
            addCode(want, true); want.append(u[i].d, sz);
        }
        int start = round == 0 && vp_param("first", 0) == 0 ? 99 : 0; // 99: plain single packets
        for (int i = 0; i < n;) {
            int mode = start == 99 ? 0 : (int)vp_choose(3, "mode");
            if (mode == 0) { ByteBuffer b(u[i].d, u[i].n); f.add(b); i++; }
            else if (mode == 1) {
                size_t body = u[i].n - hl; size_t cut = 1 + (body > 2 ? vp_choose(body - 1, "cut") : 0);
                for (size_t o = 0, k = 0; o < body; k++) {
                    size_t m = o == 0 ? cut : body - o; bool st = o == 0, en = o + m == body;
                    ByteBuffer b; ByteWriter w(b);
                    if (h265) { w.writeU8((uint8_t)(49 << 1 | (u[i].d[0] & 1))); w.writeU8(u[i].d[1]); w.writeU8((uint8_t)((st ? 0x80 : 0) | (en ? 0x40 : 0) | ((u[i].d[0] >> 1) & 63))); }
                    else { w.writeU8((uint8_t)((u[i].d[0] & 0x60) | 28)); w.writeU8((uint8_t)((st ? 0x80 : 0) | (en ? 0x40 : 0) | (u[i].d[0] & 31))); }
                    w.write(u[i].d + hl + o, m);
                    f.add(b); o += m;
                }
                i++;
            } else {
                ByteBuffer b; ByteWriter w(b);
                if (h265) { w.writeU8(48 << 1); w.writeU8(1); } else w.writeU8(24);
                int k = 1 + (i + 1 < n ? (int)vp_choose(2, "more") : 0);
                for (; k > 0; k--, i++) { w.writeU16((uint16_t)u[i].n); w.write(u[i].d, u[i].n); }
                f.add(b);
            }
        }
        same(f.done(), want, "the units the packets carry");
    }
    vp_reach("done");
}
HARNESS(r01_peer) { peerNal(false); }
HARNESS(r02_peer) { peerNal(true); }
HARNESS(r05_peer)
{
    Feed f(Codec::AV1);
    int n = 1 + (int)vp_choose(vp_param("units", 3), "units");
    ByteBuffer want, flat; size_t ends[4]; 
    for (int i = 0; i < n; i++) {
        uint8_t t = i == 0 ? 1 : (uint8_t)vp_range(3, 15, "type"); bool x = vp_choose(2, "layered"); uint8_t xb = (uint8_t)vp_u8("layer");
        size_t sz = vp_choose(3, "size"); uint8_t d[2]; vp_bytes(d, sz, "body");
        uint8_t h[2] = {(uint8_t)(t << 3 | (x ? 4 : 0)), xb};
        flat.append(h, x ? 2 : 1); flat.append(d, sz);
        h[0] |= 2; want.append(h, x ? 2 : 1); putLeb(want, sz); want.append(d, sz);
        ends[i] = flat.size();
    }
    // break the element stream into packets at one or two arbitrary places
    size_t total = flat.size(), cut1 = total, hd = 0;
    if (vp_choose(2, "split")) cut1 = 1 + vp_choose(total, "cut");
    (void)hd;
    size_t at = 0; int first = 1;
    while (at < total) {
        size_t to = first ? cut1 : total; if (to > total) to = total;
        bool z = false, y = true; int cnt = 0;
        size_t begins[4]; (void)begins;
        if (at > 0) { z = true; for (int i = 0; i < n; i++) if (ends[i] == at) z = false; }
        for (int i = 0; i < n; i++) if (ends[i] == to) y = false;
        ByteBuffer b; ByteWriter w(b);
        // count elements
        for (int i = 0; i < n; i++) { size_t s = i ? ends[i - 1] : 0; if (ends[i] > at && s < to) cnt++; }
        bool useW = cnt <= 3 && vp_choose(2, "W");
        w.writeU8((uint8_t)((z ? 0x80 : 0) | (y ? 0x40 : 0) | (useW ? cnt << 4 : 0) | (first ? 8 : 0)));
        int k = 0;
        for (int i = 0; i < n; i++) {
            size_t s = i ? ends[i - 1] : 0, e = ends[i];
            if (e <= at || s >= to) continue;
            if (s < at) s = at; if (e > to) e = to;
            k++;
            if (!(useW && k == cnt)) putLeb(b, e - s);
            w.write(flat.data() + s, e - s);
        }
        f.add(b);
        // a header split from its extension byte is not a case real senders produce
        for (int i = 0; i < n; i++) { size_t s = i ? ends[i - 1] : 0; if (to == s + 1 && to < ends[i] && (flat.data()[s] & 4)) vp_assume(false); }
        at = to; first = 0;
    }
    same(f.done(), want, "the OBUs the packets carry");
    vp_reach("done");
}
HARNESS(r03_peer)
{
    Feed f(Codec::VP8);
    size_t sz = 3 + vp_choose(3, "size"); Exact u(sz, "frame"); vp_assume(!(u.p[0] & 1));
    size_t cut = vp_choose(2, "split") ? 1 + vp_choose(sz - 1, "cut") : sz;
    for (size_t at = 0; at < sz;) {
        size_t to = at == 0 ? cut : sz;
        ByteBuffer b; ByteWriter w(b);
        uint8_t h = (uint8_t)vp_u8("h"); h = (uint8_t)((h & 0xa7) | (at == 0 ? 0x10 : 0));
        w.writeU8(h);
        if (h & 0x80) {
            uint8_t x = (uint8_t)vp_u8("x"); w.writeU8(x);
            if (x & 0x80) { uint8_t p = (uint8_t)vp_u8("pid"); w.writeU8(p); if (p & 0x80) w.writeU8((uint8_t)vp_u8("pid2")); }
            if (x & 0x40) w.writeU8((uint8_t)vp_u8("tl0"));
            if (x & 0x30) w.writeU8((uint8_t)vp_u8("tk"));
        }
        w.write(u.p + at, to - at);
        auto kind = f.dp->getPacketKind(b, to == sz);
        bool st = at == 0 && !(h & 7);
        vp_assert(kind == (st ? (to == sz ? PacketKind::Standalone : PacketKind::Start) : to == sz ? PacketKind::End : PacketKind::Middle), "kind of packet");
        f.add(b); at = to;
    }
    ByteBuffer want(u.p, sz);
    same(f.done(), want, "the frame the packets carry");
    vp_reach("done");
}

#include "common.h"
#include "srtc/depacketizer.h"
#include "srtc/encoded_frame.h"
#include "srtc/jitter_buffer.h"
#include "srtc/packetizer.h"
#include "srtc/rtp_extension_source.h"
// payload: kind, number, content.  Extraction lists the numbers of the packets used.
struct StubDepacketizer : Depacketizer {
    using Depacketizer::Depacketizer;
    PacketKind getPacketKind(const ByteBuffer& b, bool) const override { return (PacketKind)b.data()[0]; }
    void reset() override {}
    void extract(std::vector<ByteBuffer>& out, const std::vector<const JitterBufferItem*>& l) override
    {
        out.clear();
        ByteBuffer r;
        for (auto* i : l) r.append(i->payload.data() + 1, 2);
        if (!r.empty()) out.push_back(std::move(r));
    }
};
static const int64_t MS = 1000000;
struct Stream {
    TrackP tr; int n; uint16_t base; uint32_t ts0, step;
    int frame[8], first[8], last[8], frames = 0; uint8_t kind[8], body[8];
    uint64_t sent = 0, gone = 0;                 // arrived packets, delivered frames
    int64_t arrival[8]; int lastFrame = -1;
    std::unique_ptr<JitterBuffer> jb;
    Stream(int n_, size_t capacity, int length, int nack) : n(n_)
    {
        static const uint16_t bases[] = {1000, 65534, 65535, 0};
        tr = mkTrack(Codec::VP8);
        base = bases[vp_choose(vp_param("bases", 2), "base")];
        ts0 = vp_param("wrapts", 0) ? 0xffffffffu - 4000 : 5000; step = (uint32_t)vp_param("step", 2700); // 30 ms
        uint64_t cuts = vp_param("cuts", 99) != 99 ? vp_param("cuts", 0) : vp_choose(1u << (n - 1), "cuts");
        int f = 0;
        for (int i = 0; i < n; i++) {
            bool start = i == 0 || (cuts >> (i - 1) & 1), end = i == n - 1 || (cuts >> i & 1);
            if (start) first[f] = i;
            frame[i] = f; kind[i] = (uint8_t)(start ? (end ? PacketKind::Standalone : PacketKind::Start) : end ? PacketKind::End : PacketKind::Middle);
            if (end) { last[f] = i; f++; }
        }
        frames = f;
        vp_bytes(body, 8, "body");
        jb.reset(new JitterBuffer(tr, std::make_shared<StubDepacketizer>(tr), capacity, std::chrono::milliseconds(length), std::chrono::milliseconds(nack)));
    }
    uint16_t seq(int i) const { return (uint16_t)(base + i); }
    void arrive(int i)
    {
        uint8_t d[3] = {kind[i], (uint8_t)i, body[i]};
        bool end = i == n - 1 || frame[i + 1] != frame[i];
        auto p = std::make_shared<RtpPacket>(tr, end, 0, seq(i), ts0 + step * frame[i], 0, ByteBuffer(d, 3));
        jb->consume(p);
        if (!(sent >> i & 1)) arrival[i] = vp_clock_ns;
        sent |= 1ull << i;
    }
    // J01 oracle
    void poll()
    {
        auto out = jb->processDeque();
        for (auto& o : out) {
            vp_assert(o->data.size() >= 2, "frame has packets");
            int i = o->data.data()[0]; int f = frame[i];
            vp_assert(f > lastFrame, "increasing stream order, never twice");
            vp_assert(i == first[f], "starts at its first packet");
            vp_assert(o->data.size() == 2u * (last[f] - first[f] + 1), "exactly its own packets");
            for (int k = first[f]; k <= last[f]; k++) {
                vp_assert(o->data.data()[2 * (k - i)] == k && o->data.data()[2 * (k - i) + 1] == body[k], "its own packets, unchanged, in order");
                vp_assert(sent >> k & 1, "only packets that arrived");
            }
            vp_assert((uint16_t)o->seq_ext == seq(i) && (uint32_t)o->rtp_timestamp_ext == ts0 + step * f, "stamped with its own number and timestamp");
            vp_assert(o->marker, "the last packet of the frame ends it");
            lastFrame = f; gone |= 1ull << f;
            vp_reach("frame");
        }
    }
};
// any arrival schedule
HARNESS(j01)
{
    int n = (int)vp_param("n", 4), steps = (int)vp_param("steps", 4);
    Stream s(n, 64, 100, 10);
    for (int k = 0; k < steps; k++) {
        s.arrive((int)vp_choose(n, "packet"));
        if (vp_param("time", 1)) vp_clock_ns += vp_range(0, 150 * MS, "wait"); else vp_clock_ns += vp_choose(2, "wait") * 130 * MS;
        s.poll();
    }
    vp_clock_ns += 1000 * MS;
    s.poll();
    vp_observe(s.gone);
    vp_reach("done");
}
// the ring is filled to its capacity and beyond
HARNESS(j01_full)
{
    TrackP tr = mkTrack(Codec::VP8);
    int n = (int)vp_param("n", 11); uint32_t base = vp_bool("wrap") ? 65530 : 100;
    JitterBuffer jb(tr, std::make_shared<StubDepacketizer>(tr), 8, std::chrono::milliseconds(100), std::chrono::milliseconds(10));
    int last = -1; uint64_t gone = 0;
    auto poll = [&] {
        for (auto& o : jb.processDeque()) {
            int i = o->data.data()[0];
            vp_assert(o->data.size() == 2 && (uint16_t)o->seq_ext == (uint16_t)(base + i), "own packet");
            vp_assert(i > last, "increasing stream order, never twice");
            last = i; gone |= 1ull << i;
        }
    };
    uint64_t sent = 0; int stopAt = (int)vp_choose(n, "poll");
    for (int i = 0; i < n; i++) {
        if (i && vp_choose(2, "skip")) continue;
        uint8_t d[3] = {(uint8_t)PacketKind::Standalone, (uint8_t)i, 9};
        jb.consume(std::make_shared<RtpPacket>(tr, true, 0, (uint16_t)(base + i), 5000 + 90 * i, 0, ByteBuffer(d, 3)));
        sent |= 1ull << i;
        vp_clock_ns += MS;
        if (i == stopAt) { vp_clock_ns += 110 * MS; poll(); }
    }
    vp_clock_ns += 1000 * MS;
    poll();
    vp_assert((gone & ~sent) == 0, "only packets that arrived");
    vp_assert(gone & 1, "the first one is delivered");
    vp_observe(gone); vp_reach("done");
}
// every packet, or every packet but one, arrives in time, in any order
HARNESS(j02)
{
    int n = (int)vp_param("n", 4); int lost = (int)vp_choose(vp_param("loss", 1) ? n + 1 : 1, "lost"); // 0: none
    Stream s(n, 64, 100, 10);
    const int64_t length = 100 * MS, step = s.step * 1000ll * MS / 90000;
    int64_t t0 = 0; int f0 = -1;
    int left = n - (lost ? 1 : 0); uint64_t mask = lost ? 1ull << (lost - 1) : 0;
    while (left > 0) {
        int i = 0;
        for (uint64_t k = left > 1 ? vp_choose(left, "packet") : 0;; i++) { if (mask >> i & 1) continue; if (k-- == 0) break; }
        mask |= 1ull << i; left--;
        if (f0 >= 0) { vp_clock_ns += vp_range(0, 60 * MS, "wait"); vp_assume(vp_clock_ns <= t0 + (s.frame[i] - f0) * step + length - MS); s.poll(); }
        else { t0 = vp_clock_ns; f0 = s.frame[i]; }
        s.arrive(i);
        s.poll();
    }
    if (f0 < 0) vp_end();
    for (int f = 0; f < s.frames; f++) {
        if (lost && s.frame[lost - 1] == f) continue;
        int64_t d = t0 + (f - f0) * step + length + MS;
        if (d > vp_clock_ns) vp_clock_ns = d;
        s.poll();
        vp_assert(s.gone >> f & 1, "delivered by its deadline");
    }
    vp_observe(s.gone);
    vp_reach("done");
}
// retransmission requests
HARNESS(j03)
{
    int n = (int)vp_param("n", 5), steps = (int)vp_param("steps", 4);
    const int length = (int)vp_param("length", 400);
    Stream s(n, 64, length, 20);
    int64_t t0 = 0; int f0 = 0; // abandoned no earlier than this
    auto dead = [&](int i) { return t0 + (s.frame[i] - f0) * (s.step * 1000ll * MS / 90000) + length * MS - MS; };
    int64_t due[8]; uint64_t missing = 0, asked = 0; int lo = -1, hi = -1; // due: when the request becomes due
    auto poll = [&] {
        uint64_t now = 0; int prev = -1;
        auto v = s.jb->processNack();
        for (uint16_t q : v) {
            int i = (uint16_t)(q - s.base);
            vp_assert(i < n && (missing >> i & 1), "only a packet missing between received ones");
            vp_assert(!(asked >> i & 1), "requested once");
            vp_assert(i > prev, "in stream order"); prev = i;
            vp_assert(due[i] <= vp_clock_ns + MS, "not before the reordering delay has passed");
            now |= 1ull << i; vp_reach("request");
        }
        asked |= now;
        for (int i = 0; i < n; i++) if (missing >> i & 1) vp_assert((asked >> i & 1) | (due[i] + MS > vp_clock_ns) | (vp_clock_ns > dead(i)), "requested when the reordering delay has passed");
    };
    for (int k = 0; k < steps; k++) {
        int i = (int)vp_choose(n, "packet");
        s.arrive(i);
        if (lo < 0) { lo = hi = i; t0 = vp_clock_ns; f0 = s.frame[i]; }
        for (int j = i + 1; j < lo; j++) { missing |= 1ull << j; due[j] = vp_clock_ns + 20 * MS; }
        for (int j = hi + 1; j < i; j++) { missing |= 1ull << j; due[j] = vp_clock_ns + 20 * MS; }
        if (i < lo) lo = i;
        if (i > hi) hi = i;
        missing &= ~(1ull << i);
        vp_clock_ns += vp_range(0, 40 * MS, "wait");
        poll();
    }
    vp_clock_ns += 40 * MS;
    poll(); poll();
    vp_observe(asked); vp_reach("done");
}
// malformed streams (any packet kinds): nothing foreign is merged, and complete frames beside a broken one are still delivered
HARNESS(j01_any)
{
    int n = (int)vp_param("n", 4);
    TrackP tr = mkTrack(Codec::VP8);
    JitterBuffer jb(tr, std::make_shared<StubDepacketizer>(tr), 64, std::chrono::milliseconds(100), std::chrono::milliseconds(10));
    PacketKind kind[8]; int ts[8]; bool skip[8];
    for (int i = 0; i < n; i++) { kind[i] = (PacketKind)vp_choose(4, "kind"); ts[i] = i == 0 ? 0 : ts[i - 1] + (int)vp_choose(2, "next"); skip[i] = false; }
    int late = (int)vp_choose(n, "late"), lost = (int)vp_choose(n + 1, "lost") - 1; // one packet is swapped with its follower, one is lost
    int order[8]; for (int i = 0; i < n; i++) order[i] = i;
    if (late + 1 < n) { order[late] = late + 1; order[late + 1] = late; }
    if (lost >= 0) skip[lost] = true;
    for (int k = 0; k < n; k++) {
        int i = order[k]; if (skip[i]) continue;
        uint8_t d[3] = {(uint8_t)kind[i], (uint8_t)i, 7};
        jb.consume(std::make_shared<RtpPacket>(tr, false, 0, (uint16_t)(65534 + i), 5000 + 900 * ts[i], 0, ByteBuffer(d, 3)));
        vp_clock_ns += MS;
    }
    int last = -1; uint64_t got = 0;
    for (int r = 0; r < 16; r++) {
        for (auto& o : jb.processDeque()) {
            size_t m = o->data.size() / 2; int a = o->data.data()[0];
            vp_assert(a > last, "increasing stream order, never twice");
            vp_assert(kind[a] == PacketKind::Start || kind[a] == PacketKind::Standalone, "starts with a start");
            for (size_t k = 0; k < m; k++) {
                int i = o->data.data()[2 * k];
                vp_assert(i == a + (int)k && ts[i] == ts[a], "consecutive packets of one frame");
                if (m > 1 && k + 1 == m) vp_assert(kind[i] == PacketKind::End || kind[i] == PacketKind::Standalone, "up to its end");
                if (m > 1 && k + 1 < m) vp_assert(kind[i] == PacketKind::Start || kind[i] == PacketKind::Middle, "up to its end");
                last = i; got |= 1ull << i;
            }
        }
        vp_clock_ns += 20 * MS;
    }
    for (int a = 0; a < n;) { // groups of one timestamp
        int b = a; while (b + 1 < n && ts[b + 1] == ts[a]) b++;
        bool whole = a == b ? kind[a] == PacketKind::Standalone : kind[a] == PacketKind::Start && kind[b] == PacketKind::End;
        for (int i = a + 1; i < b; i++) whole = whole && kind[i] == PacketKind::Middle;
        for (int i = a; i <= b; i++) whole = whole && !skip[i];
        if (whole) { vp_assert(got >> a & 1, "a complete frame is delivered"); vp_reach("frame"); }
        a = b + 1;
    }
    vp_observe(got); vp_reach("done");
}
// a burst of losses of any length: the stream goes on afterwards
HARNESS(j02_burst)
{
    TrackP tr = mkTrack(Codec::VP8);
    JitterBuffer jb(tr, std::make_shared<StubDepacketizer>(tr), 64, std::chrono::milliseconds(100), std::chrono::milliseconds(10));
    uint64_t got = 0; int last = -1;
    auto poll = [&] { for (auto& o : jb.processDeque()) { int i = o->data.data()[0]; vp_assert(i > last, "in order, once"); last = i; got |= 1ull << i; } };
    uint64_t burst = vp_choose(41, "burst"); int64_t silence = (int64_t)burst * 20 * MS;
    int n = 40; uint16_t seq = (uint16_t)(vp_choose(2, "base") ? 65510 : 300);
    for (int i = 0; i < n; i++) {
        uint64_t pos = i < 3 ? i : i + burst;
        if (i == 3) { vp_clock_ns += silence; }
        uint8_t d[3] = {(uint8_t)PacketKind::Standalone, (uint8_t)i, 7};
        // later packets come every 80 ms so that the 2 s reset delay is exceeded
        uint64_t media = i < 3 ? 20 * i : 60 + 20 * burst + 80 * (i - 3);
        jb.consume(std::make_shared<RtpPacket>(tr, true, 0, (uint16_t)(seq + pos), (uint32_t)(5000 + 90 * media), 0, ByteBuffer(d, 3)));
        poll();
        int64_t step = (i < 3 ? 20 : 80) * MS;
        vp_clock_ns += step - 10 * MS; if (i < 6) vp_clock_ns += vp_range(0, 10 * MS, "jitter"); else vp_clock_ns += 10 * MS;
    }
    vp_clock_ns += 300 * MS; poll();
    for (int i = 0; i < n; i++) {
        bool must = burst < 14 || i < 3 || i >= 34; // a jump of a quarter of the capacity: after the reset delay
        if (must) vp_assert(got >> i & 1, "frames before and after the burst are delivered");
    }
    vp_observe(got); vp_reach("done");
}

#include "common.h"
#include "srtc/extension_map.h"
#include "srtc/rtp_extension_source_twcc.h"
#include "srtc/rtp_std_extensions.h"
#include "srtc/scheduler.h"
#include "srtc/twcc_publish.h"
#include "srtc/twcc_subscribe.h"

// ---- T01: receiver side reports

static const int kMaxRec = 700;
struct Rec { uint16_t seq; bool got; int64_t time; bool named; };

// decodes one report by the published format; calls f(seq, received, time)
template <class F> static int decode(const ByteBuffer& b, uint8_t& fb, F f)
{
    vp_assert(b.size() >= 8, "report header is complete");
    const uint8_t* d = b.data(); size_t n = b.size(), p = 8;
    unsigned base = d[0] << 8 | d[1], count = (unsigned)vp_fix(d[2] << 8 | d[3]);
    int32_t ref = (int32_t)((uint32_t)d[4] << 24 | (uint32_t)d[5] << 16 | (uint32_t)d[6] << 8) >> 8;
    fb = d[7];
    static uint8_t st[70000]; unsigned k = 0;
    vp_assert(count > 0, "report names at least one packet");
    while (k < count) {
        vp_assert(p + 2 <= n, "every packet has a status");
        unsigned h = (unsigned)vp_fix(d[p] << 8 | d[p + 1]); p += 2;
        if (!(h & 0x8000)) {
            unsigned s = (h >> 13) & 3, r = h & 0x1fff;
            vp_assert(r >= 1 && r <= count - k, "run length within the packet count");
            for (unsigned i = 0; i < r; i++) st[k++] = (uint8_t)s;
        } else if (!(h & 0x4000)) { for (int i = 13; i >= 0 && k < count; i--) st[k++] = (h >> i) & 1; }
        else for (int i = 12; i >= 0 && k < count; i -= 2) st[k++] = (h >> i) & 3;
    }
    int64_t t = (int64_t)ref * 64000;
    for (unsigned i = 0; i < count; i++) {
        vp_assert(st[i] != 3, "no reserved status");
        if (st[i] == 1) { vp_assert(p + 1 <= n, "delta present"); t += 250 * (int64_t)d[p]; p += 1; }
        else if (st[i] == 2) { vp_assert(p + 2 <= n, "delta present"); t += 250 * (int64_t)(int16_t)(d[p] << 8 | d[p + 1]); p += 2; }
        f((uint16_t)(base + i), st[i] != 0, t);
    }
    vp_assert(p == n, "nothing is left after the last delta");
    return (int)count;
}

struct T01 {
    twcc::SubscribePacketHistory h; int64_t base; Rec rec[kMaxRec]; int n = 0; int nextFb = 0; int reports = 0;
    explicit T01(int64_t b) : h(b), base(b) {}
    void save(uint16_t seq, int64_t t)
    {
        h.saveIncomingPacket(seq, t);
        for (int i = 0; i < n; i++) if (rec[i].seq == seq) return; // a duplicate keeps its first arrival time
        rec[n++] = {seq, true, t, false};
    }
    void generate(int64_t t)
    {
        for (int i = 0; i < n; i++) rec[i].named = false;
        vp_hang_limit(4000000);
        auto list = h.generate(t);
        for (auto& b : list) {
            uint8_t fb; reports++;
            decode(b, fb, [&](uint16_t seq, bool got, int64_t tm) {
                Rec* r = nullptr;
                for (int i = 0; i < n; i++) if (rec[i].seq == seq) r = &rec[i];
                if (!r) { vp_assert(!got, "a packet which did not arrive is reported as missing"); vp_reach("missing"); return; }
                vp_assert(got, "a packet which arrived is reported as received");
                vp_assert(!r->named, "a packet is reported once");
                r->named = true;
                int64_t d = (r->time - base) - tm;
                vp_assert(d > -250 && d < 250, "arrival time within the resolution");
                vp_reach("received");
            });
            vp_assert(fb == (nextFb & 0xff), "reports are numbered consecutively");
            nextFb++;
        }
        for (int i = 0; i < n; i++) vp_assert(rec[i].named, "every arrival is reported");
        n = 0;
    }
};
// a few packets with any gaps, order, duplicates and arrival times; a report after any of them
HARNESS(t01)
{
    vp_rand_mode = 2;
    const int steps = (int)vp_param("steps", 4);
    const int64_t base = 1000000;
    T01 t(base);
    static const uint32_t starts[] = {100, 65534};
    static const int jump[] = {1, 2, 14, 40, 0, -1, -3};
    static const int64_t t0s[] = {0, 1, 63999, 64000, 123456789}, dts[] = {0, 250, 124, 63875, 12345678};
    const int sym = (int)vp_param("sym", 1);   // which of the times takes every value
    int64_t tm = base + (sym == 0 ? (int64_t)vp_range(0, 200000000, "t0") : t0s[vp_choose(vp_param("t0s", 5), "t0")]);
    uint32_t s = starts[vp_choose(2, "start")], mx = s;
    t.save((uint16_t)s, tm);
    bool split = false;
    for (int i = 1; i < steps; i++) {
        if (!split && vp_choose(2, "report")) { t.generate(tm); split = true; mx = mx + 3; s = mx; }
        else { s = mx + jump[vp_choose(vp_param("jumps", 7), "jump")]; if (s > mx) mx = s; }
        int64_t lim = (int64_t)vp_param("maxdt", 20000000);
        tm += sym == i ? (int64_t)vp_range(0, (uint64_t)lim, "dt") : dts[vp_choose(vp_param("dts", 5), "dt")];
        t.save((uint16_t)s, tm);
    }
    t.generate(tm);
    vp_reach("done");
}
// full vectors: runs of consecutive packets, one of them lost, one of them with any delay
HARNESS(t01_run)
{
    vp_rand_mode = 2;
    const int64_t base = 5000;
    T01 t(base);
    int n = (int)vp_param("n", 16) ;
    int lost = (int)vp_choose(n - 1, "lost"), late = vp_param("sym", 0) ? n - 1 : (int)vp_choose(n, "late");
    static const int64_t smalls[] = {0, 1, 249, 12345, 63750, 64000}; const int64_t small = smalls[vp_choose(6, "small")];
    static const int64_t bigs[] = {64000, 8191750, 8192000, 20000000}; int64_t big = vp_param("sym", 0) ? (int64_t)vp_range(0, 20000000, "big") : bigs[vp_choose(4, "big")];
    int64_t tm = base + (vp_choose(2, "t0") ? 77777 : 0);
    for (int i = 0; i < n; i++) {
        if (i == lost && i) continue;
        if (i == late) tm += big; else tm += small;
        t.save((uint16_t)(65530 + i), tm);
    }
    t.generate(tm);
    vp_assert(t.h.generate(tm).empty(), "nothing is reported twice");
    vp_reach("done");
}
// long histories: reports are split by size, times wrap 24 bits
HARNESS(t01_long)
{
    vp_rand_mode = 2;
    const int64_t base = 0;
    T01 t(base);
    static const int64_t t0s[] = {0, 64000LL * 0xffffff - 500000};
    int64_t tm = vp_choose(2, "t0") ? t0s[1] : t0s[0];
    const int64_t step = vp_choose(2, "step") ? 70000 : 777;
    const int n = (int)vp_param("n", 600), lost = (int)vp_choose(4, "lost");
    for (int i = 0; i < n; i++) {
        tm += step;
        if (lost && i % (lost * 7) == 3) continue;
        if (tm - base >= 64000LL * 0x800000) { } // reference times are compared modulo 24 bits below
        t.h.saveIncomingPacket((uint16_t)(65000 + i), tm);
        t.rec[t.n++] = {(uint16_t)(65000 + i), true, tm, false};
    }
    auto list = t.h.generate(tm);
    int named = 0, k = 0, fbn = 0; uint16_t next = 65000;
    for (auto& b : list) {
        uint8_t fb;
        vp_assert(b.size() <= 1100, "reports are split to fit a datagram");
        decode(b, fb, [&](uint16_t seq, bool got, int64_t ti) {
            vp_assert(seq == next, "reports continue each other"); next++;
            if (!got) { vp_assert(k >= t.n || t.rec[k].seq != seq, "an arrival is reported"); return; }
            vp_assert(k < t.n && t.rec[k].seq == seq, "only arrivals are reported");
            int64_t d = (t.rec[k].time - base - ti) % (64000LL << 24);
            vp_assert(d > -250 && d < 250, "arrival time within the resolution");
            k++; named++;
        });
        vp_assert(fb == (fbn++ & 0xff), "reports are numbered consecutively");
    }
    vp_assert(named == t.n, "every arrival is reported");
    vp_reach("done");
}
// the interval between reports
HARNESS(t01_interval)
{
    twcc::SubscribePacketHistory h(0);
    int64_t a = (int64_t)vp_range(200000, 1000000000, "a"), b = (int64_t)vp_range(0, 1000000, "b");
    h.saveIncomingPacket(1, a);
    vp_assert(h.isTimeToGenerate(a), "the first report is due");
    (void)h.generate(a);
    vp_assert(h.isTimeToGenerate(a + b) == (b >= 100000), "reports are 100 ms apart");
    vp_reach("done");
}

// ---- T02, S07: sender side

namespace {
template <auto M> struct Rob { friend twcc::PublishPacketHistory* histOf(RtpExtensionSourceTWCC& s) { return (s.*M).get(); } };
twcc::PublishPacketHistory* histOf(RtpExtensionSourceTWCC&);
template struct Rob<&RtpExtensionSourceTWCC::mPacketHistory>;
}
struct Sender {
    std::shared_ptr<LoopScheduler> sch = std::make_shared<LoopScheduler>();
    std::shared_ptr<RtpExtensionSourceTWCC> src = std::make_shared<RtpExtensionSourceTWCC>(sch);
    std::shared_ptr<Track> track;
    uint16_t seq = 0; int sent = 0; uint16_t first = 0;
    Sender()
    {
        ExtensionMap map; map.add(3, RtpStandardExtensions::kExtGoogleTWCC);
        auto media = std::make_shared<Media>("video", MediaType::Video, map);
        TrackBuilder b(media, Direction::Publish, 1234, 96, 90000);
        b.codec(Codec::VP8, nullptr);
        track = b.build();
    }
    uint16_t send(size_t payload = 100)
    {
        ByteBuffer pl(payload); pl.resize(payload);
        auto p = std::make_shared<RtpPacket>(track, false, 0, (uint16_t)sent, 0, 0, std::move(pl));
        src->onBeforeGeneratingRtpPacket(p);
        auto s = src->getFeedbackSeq(p);
        vp_assert(s.has_value(), "an outgoing packet carries a transport sequence number");
        if (sent) vp_assert(*s == (uint16_t)(seq + 1), "transport sequence numbers are consecutive"); else first = *s;
        seq = *s; sent++;
        src->onBeforeSendingRtpPacket(p, payload + 12, payload + 22);
        return seq;
    }
    void report(const uint8_t* p, size_t n)
    {
        uint8_t* x = new uint8_t[n ? n : 1]; memcpy(x, p, n);
        ByteReader r(x, n);
        vp_hang_limit(30000000);
        src->onReceivedRtcpPacket(1234, r);
        delete[] x;
    }
    twcc::PublishPacket* get(uint16_t s) { return histOf(*src)->get(s); }
};
static bool receivedNow(twcc::PublishPacket* p) { return p->received_time_present && (p->reported_status == 1 || p->reported_status == 2); }

// any bytes as a report
HARNESS(s07)
{
    vp_rand_mode = 2;
    vp_clock_ns = 1000000000;
    Sender s;
    int sent = (int)vp_param("sent", 5);
    for (int i = 0; i < sent; i++) { s.send(); vp_clock_ns += 1000000; }
    size_t n = (size_t)(vp_param("base", 0) + vp_choose(vp_param("count", 16), "len"));
    uint8_t* b = new uint8_t[n ? n : 1];
    if (n) vp_bytes(b, n, "report");
    if (n >= 4) { unsigned maxc = (unsigned)vp_param("maxcount", 20); vp_assume((b[2] << 8 | b[3]) <= maxc || (b[2] << 8 | b[3]) == 0xffff); if (vp_choose(2, "huge")) { b[2] = b[3] = 0xff; for (size_t i = 8; i + 1 < n && i < 14; i += 2) vp_assume((b[i] & 0x80) || ((b[i] & 0x1f) << 8 | b[i + 1]) <= 3 || ((b[i] & 0x1f) << 8 | b[i + 1]) == 0x1fff); } else vp_assume((b[2] << 8 | b[3]) <= maxc); }
    if (n >= 2) { // reports may begin before, in or after the history, or in its shadow modulo the capacity
        static const int offs[] = {0, 1, -2, 2, -2048, 32768, 3};
        uint16_t base = (uint16_t)(s.first + offs[vp_choose(vp_param("bases", 7), "base")]);
        vp_assume((b[0] << 8 | b[1]) == base); b[0] = base >> 8; b[1] = (uint8_t)base;
    }
    s.report(b, n);
    delete[] b;
    for (int i = 0; i < sent; i++) {
        auto p = s.get((uint16_t)(s.first + i));
        vp_assert(p && p->seq == (uint16_t)(s.first + i), "the history is intact");
    }
    PublishConnectionStats st = {};
    s.src->updatePublishConnectionStats(st);
    vp_reach("done");
}
// reports before anything was sent
HARNESS(s07_empty)
{
    Sender s;
    size_t n = (size_t)vp_choose(13, "len");
    uint8_t b[16];
    if (n) vp_bytes(b, n, "report");
    if (n >= 4) vp_assume((b[2] << 8 | b[3]) <= 12);
    s.report(b, n);
    PublishConnectionStats st = {};
    s.src->updatePublishConnectionStats(st);
    vp_reach("done");
}
// any well-formed report: statuses and deltas arbitrary, in every chunk form, over packets sent and not sent
struct Model { bool got; int64_t time; };
static size_t buildReport(uint8_t* b, uint16_t base, unsigned count, int32_t ref, const uint8_t* st, const int16_t* delta, int form)
{
    size_t p = 0;
    b[p++] = base >> 8; b[p++] = (uint8_t)base; b[p++] = (uint8_t)(count >> 8); b[p++] = (uint8_t)count;
    b[p++] = (uint8_t)(ref >> 16); b[p++] = (uint8_t)(ref >> 8); b[p++] = (uint8_t)ref; b[p++] = 7;
    auto put = [&](unsigned h) { b[p++] = (uint8_t)(h >> 8); b[p++] = (uint8_t)h; };
    unsigned k = 0;
    while (k < count) {
        bool large = false;
        for (unsigned i = k; i < count; i++) if (st[i] == 2) large = true;
        if (form == 0) { unsigned r = 1; while (k + r < count && st[k + r] == st[k]) r++; put((unsigned)st[k] << 13 | r); k += r; }
        else if (form == 1 && !large) { unsigned h = 0x8000; for (int i = 13; i >= 0; i--) if (k < count) h |= (unsigned)st[k++] << i; put(h); }
        else { unsigned h = 0xc000; for (int i = 12; i >= 0; i -= 2) if (k < count) h |= (unsigned)st[k++] << i; put(h); }
    }
    for (unsigned i = 0; i < count; i++) {
        if (st[i] == 1) b[p++] = (uint8_t)delta[i];
        if (st[i] == 2) { b[p++] = (uint8_t)((uint16_t)delta[i] >> 8); b[p++] = (uint8_t)delta[i]; }
    }
    return p;
}
HARNESS(t02)
{
    vp_clock_ns = 1000000000;
    Sender s;
    const int sent = (int)vp_param("sent", 4), reports = (int)vp_param("reports", 2);
    const int maxCount = (int)vp_param("maxcount", 4);
    for (int i = 0; i < sent; i++) { s.send(); vp_clock_ns += 1000000; }
    Model m[64] = {};
    for (int r = 0; r < reports; r++) {
        int off = (int)vp_choose(3, "base") - 1;          // reports may begin before what was sent
        unsigned count = 1 + (unsigned)vp_choose(maxCount, "count");
        uint8_t st[32]; int16_t delta[32];
        for (unsigned i = 0; i < count; i++) {
            st[i] = (uint8_t)vp_choose(3, "status");
            delta[i] = st[i] == 1 ? (int16_t)vp_range(0, 255, "d") : (int16_t)(vp_range(0, 65535, "D") - 32768);
        }
        int32_t ref = (int32_t)vp_range(0, 0xffffff, "ref");
        ref = (int32_t)((uint32_t)ref << 8) >> 8;
        uint8_t b[128]; size_t n = buildReport(b, (uint16_t)(s.first + off), count, ref, st, delta, (int)vp_choose(3, "form"));
        bool cut = reports > 1 && r == 0 && vp_choose(2, "cut");
        bool deltas = false; for (unsigned i = 0; i < count; i++) deltas |= st[i] != 0;
        if (cut && !deltas) vp_end();
        s.report(b, cut ? n - 1 : n);
        if (cut) vp_reach("cut");
        int64_t t = (int64_t)ref * 64000;
        if (!cut) for (unsigned i = 0; i < count; i++) if (st[i]) {
            t += 250 * (int64_t)delta[i];
            int k = off + (int)i;
            if (k >= 0 && k < sent) { m[k].got = true; m[k].time = t; }
        }
        int last = -1; for (int i = 0; i < sent; i++) if (m[i].got) last = i;
        for (int i = 0; i < sent; i++) {
            auto p = s.get((uint16_t)(s.first + i));
            vp_assert(p != nullptr, "a sent packet is in the history");
            vp_assert(receivedNow(p) == m[i].got, "a packet is recorded as received exactly when a report says so");
            if (m[i].got) { vp_assert(p->received_time_micros == m[i].time, "the recorded arrival time is the reported one"); vp_assert(!p->reported_as_not_received, "a received packet is not lost"); vp_reach("received"); }
            else if (i < last) { vp_assert(p->reported_as_not_received, "a packet before a received one which was not reported as received is lost"); vp_reach("lost"); }
            else vp_assert(!p->reported_as_not_received, "a packet after the last received one is in flight");
        }
        vp_assert(!s.get((uint16_t)(s.first - 1)) && !s.get((uint16_t)(s.first + sent)), "reports on unknown packets change nothing");
    }
    vp_reach("done");
}
// histories around the wrap and beyond the capacity
HARNESS(t02_long)
{
    vp_clock_ns = 1000000000;
    Sender s;
    const int total = (int)vp_param("total", 2100), keep = 2048;
    for (int i = 0; i < total; i++) s.send(0);
    if (vp_choose(2, "query")) {
        static const int around[] = {0, 1000, 2040, 40000, 65520}; uint16_t q = (uint16_t)(s.seq - around[vp_choose(5, "around")] - (int)vp_range(0, 15, "age"));
        auto p = s.get(q);
        uint16_t age = (uint16_t)(s.seq - q);
        vp_assert((p != nullptr) == (age < keep), "exactly the latest packets are retained");
        if (p) vp_assert(p->seq == q, "the history entry is that of the packet");
        vp_reach("done");
        return;
    }
    // a report over the last 20, any subset
    uint8_t b[64]; uint16_t base = (uint16_t)(s.seq - 19);
    uint32_t mask = (uint32_t)vp_range(0, 0x3fff, "mask");
    b[0] = base >> 8; b[1] = (uint8_t)base; b[2] = 0; b[3] = 14; b[4] = 0; b[5] = 1; b[6] = 0; b[7] = 0;
    unsigned h = 0x8000 | mask; b[8] = (uint8_t)(h >> 8); b[9] = (uint8_t)h;
    int cnt = 0; for (int i = 0; i < 14; i++) cnt += (mask >> i) & 1;
    cnt = (int)vp_fix(cnt);
    vp_assume(cnt == (int)vp_param("cnt", 3));
    for (int i = 0; i < cnt; i++) b[10 + i] = 4;
    s.report(b, 10 + cnt);
    int seen = 0;
    for (int i = 0; i < 14; i++) {
        auto e = s.get((uint16_t)(base + i));
        bool got = (mask >> (13 - i)) & 1;
        vp_assert(receivedNow(e) == got, "exactly the packets reported as received are recorded");
        if (got) { seen++; vp_assert(e->received_time_micros == 256LL * 64000 + 1000 * seen, "arrival times accumulate"); }
    }
    vp_reach("done");
}
// loss and bandwidth figures from complete feedback
HARNESS(t02_stats)
{
    vp_clock_ns = 1000000000;
    Sender s;
    const int n = (int)vp_param("n", 40); const int64_t step = 40000;
    unsigned lostMask = 0; int lost = 0, at[3];
    for (int k = 0; k < 3; k++) { at[k] = (int)vp_choose(4, "lost"); if (at[k] == 3) at[k] = -1; else at[k] = k * 5 + at[k] + 5; }
    (void)lostMask;
    auto isLost = [&](int i) { for (int k = 0; k < 3; k++) if (at[k] == i) return true; return false; };
    for (int i = 0; i < n; i++) { s.send(1000); vp_clock_ns += step * 1000; }
    int64_t ref = 10; int chunks = (int)vp_choose(3, "split") + 1;
    bool lateReport = vp_choose(2, "late") && at[0] >= 0;   // a lost one is reported as received later
    int from = 0;
    for (int c = 0; c < chunks; c++) {
        int to = c == chunks - 1 ? n : (c + 1) * n / chunks;
        uint8_t st[64]; int16_t d[64]; int k = 0; int64_t prev = 0;
        for (int i = from; i < to; i++) { st[k] = isLost(i) ? 0 : 2; if (st[k]) { d[k] = (int16_t)((i * step - prev) / 250); prev = i * step; } else d[k] = 0; k++; }
        uint8_t b[512]; size_t z = buildReport(b, (uint16_t)(s.first + from), (unsigned)k, (int32_t)ref, st, d, (int)vp_param("form", 2));
        if (c == chunks - 1 && lateReport) {
            uint8_t st1[1] = {2}; int16_t d1[1] = {(int16_t)(at[0] * step / 250)};
            uint8_t b1[64]; size_t z1 = buildReport(b1, (uint16_t)(s.first + at[0]), 1, (int32_t)ref, st1, d1, 0);
            s.report(b1, z1);
        }
        s.report(b, z);
        from = to;
    }
    for (int i = 0; i < n; i++) if (isLost(i) && !(lateReport && i == at[0])) lost++;
    PublishConnectionStats st = {};
    s.src->updatePublishConnectionStats(st);
    float want = 100.0f * (float)lost / (float)n;
    vp_assert(st.packets_lost_percent > want - 0.01f && st.packets_lost_percent < want + 0.01f, "the loss figure counts each lost packet once");
    if (lost) vp_reach("loss");
    vp_reach("done");
}

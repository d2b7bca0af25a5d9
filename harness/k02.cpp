#include "peer.h"
// A retransmission request reaches exactly the packets it names
HARNESS(k02_nack)
{
    vp_rand_mode = 2;
    bool rtx = vp_choose(2, "rtx");
    TrackP t[2] = { mkTrack(Codec::H264, 0xa0, 96, 0xa1, rtx ? 97 : 0), mkTrack(Codec::Opus, 0xb0, 111, 0, 0) };
    Peer w(Direction::Publish, { t[0], t[1] });
    w.connect();
    static const uint16_t seqs[] = { 65534, 65535, 0, 3, 15 };
    std::vector<PacketP> kept;
    for (int i = 0; i < 5; i++) {
        auto p = std::make_shared<RtpPacket>(t[0], i == 4, i >= 2 ? 1 : 0, seqs[i], 1000, 0, ByteBuffer((const uint8_t*)"abcdef", 3 + (i & 1)));
        w.pc->mSendRtpHistory->save(p); kept.push_back(p);
    }
    auto p = std::make_shared<RtpPacket>(t[1], false, 1, 0, 1000, 0, ByteBuffer((const uint8_t*)"zz", 2));
    w.pc->mSendRtpHistory->save(p); kept.push_back(p);
    // the far end has got what came before and after the lost packets
    for (auto x : { std::make_pair(0xa0u, 65533u), std::make_pair(0xa0u, 65536u + 40), std::make_pair(0xb0u, 65533u), std::make_pair(0xb0u, 65536u + 40) }) {
        RtpPacket q(t[x.first == 0xb0], false, x.second >> 16, (uint16_t)x.second, 1, 0, ByteBuffer((const uint8_t*)"q", 1)); ByteBuffer e, o;
        auto g = q.generate();
        vp_assert(w.pc->mSrtpConnection->protectSendMedia(g.buf, g.rollover, e) && w.far->unprotectReceiveMedia(e, o), "the streams run");
    }
    size_t n = 1 + vp_choose(vp_param("entries", 1), "entries");
    uint32_t ssrc = vp_choose(2, "other") ? 0xb0 : 0xa0;
    ByteBuffer pay; ByteWriter pw(pay);
    pw.writeU32(ssrc);
    std::vector<uint16_t> named;
    for (size_t e = 0; e < n; e++) {
        uint16_t pid = vp_param("any", 0) ? (uint16_t)vp_range(0, 65535, "pid") : (uint16_t)(65530 + vp_choose(vp_param("pids", 12), "pid")), blp = (uint16_t)(vp_range(0, 65535, "blp") & vp_param("mask", 0x8033));
        pw.writeU16(pid); pw.writeU16(blp);
        named.push_back(pid); for (int b = 0; b < 16; b++) if (blp >> b & 1) named.push_back((uint16_t)(pid + b + 1));
    }
    w.pc->onReceivedControlPacket(std::make_shared<RtcpPacket>(7, 1, 205, std::move(pay)));
    size_t at = 0; 
    for (uint16_t s : named) {
        PacketP q; for (auto& k : kept) if (k->getSSRC() == ssrc && k->getSequence() == s) q = k;
        if (!q) continue;
        vp_assert(at < gOut.size(), "every packet named and kept is sent again");
        bool again = false;
        if (!(ssrc == 0xa0 && rtx)) for (size_t i = 0; i < at; i++) if (be16(&gOut[i][2]) == s) { vp_assert(gOut[i] == gOut[at], "sent once more as it was"); again = true; }
        if (again) { at++; continue; }
        auto o = w.openMedia(at); const uint8_t* b = o.data();
        bool x = ssrc == 0xa0 && rtx;
        vp_assert(o.size() == 12 + (x ? 2 : 0) + q->getPayloadSize() && b[0] == 0x80, "the packet");
        vp_assert(be32(b + 8) == (x ? 0xa1 : ssrc) && (b[1] & 0x7f) == (x ? 97 : q->getPayloadId()) && (b[1] >> 7) == q->getMarker() && be32(b + 4) == q->getTimestamp(), "the stream it is sent on");
        vp_assert(be16(b + (x ? 12 : 2)) == s, "the number it had");
        vp_assert(memcmp(b + 12 + (x ? 2 : 0), q->getPayload().data(), q->getPayloadSize()) == 0, "its payload");
        vp_reach(x ? "rtx" : "plain");
        at++;
    }
    vp_assert(at == gOut.size(), "nothing else is sent");
    auto st = t[ssrc == 0xb0]->getStats();
    size_t bytes = 0; for (auto& d : gOut) bytes += d.size();
    vp_assert(st->getSentPackets() == at && st->getSentBytes() == bytes && t[ssrc != 0xb0]->getStats()->getSentPackets() == 0, "counted");
    vp_observe(at);
}
namespace {
// what the far end sends: one compound packet, protected
struct FarControl {
    Peer& w; uint32_t seq = 1;
    void send(uint8_t rc, uint8_t pt, uint32_t ssrc, const ByteBuffer& body, bool genuine = true)
    {
        ByteBuffer b; ByteWriter bw(b);
        vp_assert(body.size() % 4 == 0, "words");
        bw.writeU8((uint8_t)(0x80 | rc)); bw.writeU8(pt); bw.writeU16((uint16_t)(1 + body.size() / 4)); bw.writeU32(ssrc); bw.write(body);
        ByteBuffer e; vp_assert(w.far->protectSendControl(b, seq++, e), "protected");
        if (!genuine) e.data()[vp_choose(e.size() - 8, "where") + 8] ^= (uint8_t)(1 << vp_choose(8, "flip"));
        w.arrives(std::vector<uint8_t>(e.data(), e.data() + e.size()));
    }
};
NtpTime ntpNow() { NtpTime t = {}; getNtpTime(t); return t; }
}
// sender reports, requests for key frames and reports about unknown streams
HARNESS(k02_report)
{
    vp_rand_mode = 2;
    TrackP t[2] = { mkTrack(Codec::H264, 0xa0, 96, 0xa1, 97, 90000, Direction::Subscribe), mkTrack(Codec::Opus, 0xb0, 111, 0, 0, 48000, Direction::Subscribe) };
    Peer w(Direction::Subscribe, { t[0], t[1] });
    w.connect();
    FarControl f{ w };
    size_t before = w.rec.ev.size();
    uint8_t rc = (uint8_t)vp_range(0, 31, "rc"), pt = (uint8_t)vp_range(200, 207, "pt");
    if (!vp_param("genuine", 1)) { rc = 1; pt = vp_choose(2, "kind") ? 206 : 200; }
    static const uint32_t who[] = { 0xa0, 0xb0, 0xa1, 0 }; uint32_t ssrc = who[vp_choose(4, "ssrc")];
    size_t words = vp_choose(vp_param("words", 7), "words");
    ByteBuffer body = symBuf(words * 4, "body");
    vp_clock_ns += 250000000;
    bool genuine = vp_param("genuine", 1);
    if (!genuine) memset(body.data(), 1, body.size());
    else if (pt == 205) memset(body.data(), 0, body.size());
    else if (pt == 207) for (size_t i = 0; i < words; i++) vp_assume(be16(body.data() + i * 4 + 2) < vp_param("lens", 4)); // lengths of blocks
    f.send(rc, pt, ssrc, body, genuine);
    if (!genuine) { vp_assert(w.rec.ev.size() == before && gOut.empty() && !t[0]->getStats()->getReceivedSenderReport() && !t[1]->getStats()->getReceivedSenderReport() && w.pc->mOutstandingReceiverReferenceTimeReportQueue.empty(), "no effect"); vp_reach("forged"); return; }
    bool key = pt == 206 && (rc == 1 || rc == 4);
    vp_assert(w.rec.count(evKey) == key, "a key frame is asked for");
    bool sr = pt == 200 && words >= 5 && (ssrc == 0xa0 || ssrc == 0xb0);
    vp_assert(w.rec.count(evSR) == sr && w.rec.sr.size() == sr, "a sender report of a stream which is received");
    for (int i = 0; i < 2; i++) vp_assert(t[i]->getStats()->getReceivedSenderReport().has_value() == (sr && ssrc == t[i]->getSSRC()), "kept for its stream");
    if (sr) {
        int i = ssrc == 0xb0; auto v = *t[i]->getStats()->getReceivedSenderReport(); const uint8_t* b = body.data();
        vp_assert(w.rec.sr[0].first == t[i], "of its track");
        for (const SenderReport& x : { v, w.rec.sr[0].second })
            vp_assert(x.ntp.seconds == (int32_t)be32(b) && (uint32_t)x.ntp.fraction == be32(b + 4) && x.rtp == be32(b + 8) && x.packet_count == be32(b + 12) && x.octet_count == be32(b + 16) && x.when == now(), "the values reported");
        vp_reach("sr");
    }
    vp_assert(w.rec.ev.size() == before + key + sr, "nothing else is told");
    if (key) vp_reach("key");
    vp_reach("done");
}
// reference times: each is answered, in the next report, with the time passed since it came
HARNESS(k02_rrtr)
{
    vp_rand_mode = 2;
    TrackP t[1] = { mkTrack(Codec::H264, 0xa0, 96, 0xa1, 97) };
    Peer w(Direction::Publish, { t[0] });
    w.connect();
    FarControl f{ w };
    struct R { uint32_t ssrc, mid; int64_t at; };
    std::vector<R> want;
    int pre = (int)vp_param("pre", 0);
    for (int i = 0; i < pre; i++) { ByteBuffer b; ByteWriter bw(b); bw.writeU32(i); bw.writeU32(i << 16); ByteReader r(b.data(), b.size()); w.pc->onReceivedControlMessage_RRTR(0x1000 + i, r); want.push_back({ 0x1000u + i, (uint32_t)i << 16 | (uint32_t)i, vp_clock_ns }); }
    for (int st = 0; st < (int)vp_param("steps", 3); st++) {
        int64_t dt = (int64_t)vp_choose(3, "dt"); vp_clock_ns += dt == 0 ? 0 : dt == 1 ? 1500000 : 3000000000ll;
        if (vp_choose(3, "what")) {
            uint32_t ssrc = 0x1000u + (uint32_t)vp_choose(3, "ssrc") * 60;
            ByteBuffer b; ByteWriter bw(b); bool many = vp_choose(2, "other");
            if (many) { bw.writeU8(1); bw.writeU8(0); bw.writeU16(1); bw.writeU32(0); }
            bool trunc = vp_choose(4, "short") == 3;
            uint32_t s = (uint32_t)vp_range(0, 0xffffffffu, "sec"), fr = (uint32_t)vp_range(0, 0xffffffffu, "fraction");
            bw.writeU8(4); bw.writeU8(0); bw.writeU16(trunc ? 3 : 2); bw.writeU32(s); bw.writeU32(fr);
            f.send(0, 207, ssrc, b);
            if (trunc) { vp_reach("truncated"); continue; }
            R r{ ssrc, s << 16 | fr >> 16, vp_clock_ns }; bool had = false;
            for (auto& x : want) if (x.ssrc == ssrc) { x = r; had = true; }
            if (!had) { if (want.size() >= 100) want.erase(want.begin()); want.push_back(r); }
        } else {
            gOut.clear();
            NtpTime n = ntpNow();
            w.pc->sendPublishReports();
            vp_assert(gOut.size() == 1 + !want.empty(), "a sender report for each stream, and the answers");
            auto a = w.openControl(0); const uint8_t* p = a.data();
            vp_assert(a.size() == 28 && p[0] == 0x80 && p[1] == 200 && be16(p + 2) == 6 && be32(p + 4) == 0xa0, "sender report");
            vp_assert(be32(p + 8) == (uint32_t)n.seconds && be32(p + 12) == (uint32_t)n.fraction && be32(p + 20) == t[0]->getStats()->getSentPackets() && be32(p + 24) == t[0]->getStats()->getSentBytes(), "its values");
            if (want.empty()) continue;
            auto x = w.openControl(1); p = x.data();
            size_t k = want.size() < 25 ? want.size() : 25;
            vp_assert(x.size() == 8 + 16 * k && p[0] == 0x80 && p[1] == 207 && be16(p + 2) == 1 + 4 * k && be32(p + 4) == w.offer->getControlPacketSource()->getSSRC(), "extended report");
            for (size_t i = 0; i < k; i++) {
                const uint8_t* q = p + 8 + 16 * i; int64_t d = (vp_clock_ns - want[i].at) / 1000;
                vp_assert(q[0] == 5 && be16(q + 2) == 3 && be32(q + 4) == want[i].ssrc, "an answer for each source");
                vp_assert(be32(q + 8) == want[i].mid, "naming the time it sent");
                int64_t e = (int64_t)be32(q + 12) - d * 65536 / 1000000; vp_assert(e >= -66 && e <= 66, "the time since it came");
            }
            want.erase(want.begin(), want.begin() + k);
            vp_reach("answered");
        }
        vp_assert(w.pc->mOutstandingReceiverReferenceTimeReportQueue.size() == want.size(), "kept until answered");
    }
    vp_reach("done");
}
// round trip: the time since a report left, less the time the peer kept it, whichever way it is reported
HARNESS(k02_rtt)
{
    vp_rand_mode = 2;
    bool pub = vp_choose(2, "publish");
    TrackP t[2] = { mkTrack(Codec::H264, 0xa0, 96, 0xa1, 97, 90000, pub ? Direction::Publish : Direction::Subscribe), mkTrack(Codec::Opus, 0xb0, 111, 0, 0, 48000, pub ? Direction::Publish : Direction::Subscribe) };
    Peer w(pub ? Direction::Publish : Direction::Subscribe, { t[0], t[1] });
    w.connect();
    FarControl f{ w };
    uint32_t mark[3]; int64_t at[3];
    int n = (int)vp_param("reports", 3);
    for (int i = 0; i < n; i++) {
        mark[i] = getNtpTimeMiddleMarker(ntpNow()); at[i] = vp_clock_ns;
        if (pub) w.pc->sendPublishReports(); else w.pc->sendSubscribeReports();
        vp_clock_ns += 100000000; vp_sysclock_us += 100000;
    }
    vp_clock_ns += (int64_t)vp_choose(vp_param("ms", 5), "ms") * 9700000;
    size_t which = vp_choose(n + 1, "which"), stream = vp_choose(3, "stream");
    uint32_t delay = (uint32_t)vp_choose(6, "delay") * 6554; // tenths of a second
    uint32_t ssrc = pub ? (stream == 0 ? 0xa0 : stream == 1 ? 0xb0 : 0xdd) : stream == 2 ? 0xdd : 0x0c0c0c0c;
    uint32_t m = which < (size_t)n ? mark[which] : mark[0] + 12345;
    ByteBuffer b; ByteWriter bw(b);
    if (pub) { bw.writeU32(ssrc); bw.writeU32(0); bw.writeU32(0); bw.writeU32(0); bw.writeU32(m); bw.writeU32(delay); }
    else { bw.writeU8(5); bw.writeU8(0); bw.writeU16(3); bw.writeU32(ssrc); bw.writeU32(m); bw.writeU32(delay); }
    f.send(1, pub ? 201 : 207, 0x77, b);
    float rtt = -1; 
    if (pub) { PublishConnectionStats st; st.rtt_ms = -1; w.pc->updatePublishConnectionStats(st); rtt = st.rtt_ms; } else { SubscribeConnectionStats st; st.rtt_ms = -1; w.pc->updateSubscribeConnectionStats(st); rtt = st.rtt_ms; }
    bool known = which < (size_t)n && stream != 2;
    int64_t us = known ? (vp_clock_ns - at[which]) / 1000 - (int64_t)delay * 1000000 / 65536 : 0;
    if (!known || us < -100) { vp_assert(rtt == -1, "nothing is made up"); vp_reach("none"); }
    else if (us > 100) { int64_t got = (int64_t)(rtt * 1000); vp_assert(got >= us - 1000 && got <= us + 1000, "the round trip"); vp_reach("rtt"); }
}

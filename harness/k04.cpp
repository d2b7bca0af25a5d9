#include "peer.h"
// What is reported about the streams received, and what is asked of their sender
HARNESS(k04_receiver)
{
    vp_rand_mode = 2;
    TrackP t[2] = { mkTrack(Codec::H264, 0xa0, 96, 0xa1, 97, 90000, Direction::Subscribe), mkTrack(Codec::Opus, 0xb0, 111, 0, 0, 48000, Direction::Subscribe) };
    size_t n = vp_choose(3, "tracks"); std::vector<TrackP> list(t, t + n);
    Peer w(Direction::Subscribe, list);
    w.connect();
    int64_t at[2] = {}; uint32_t mid[2] = {}, high[2] = {}; bool has[2] = {};
    for (size_t i = 0; i < n; i++) {
        if (vp_choose(2, "sr")) {
            SenderReport s{}; s.when = now(); s.ntp.seconds = (uint32_t)vp_range(0, 0xffffffffu, "sec"); s.ntp.fraction = (uint32_t)vp_range(0, 0xffffffffu, "fraction");
            t[i]->getStats()->setReceivedSenderReport(s); has[i] = true; at[i] = vp_clock_ns; mid[i] = (uint32_t)s.ntp.seconds << 16 | (uint32_t)s.ntp.fraction >> 16;
        }
        if (i == 0) { // numbers received: the first is reported as it is, later ones by their distance from it
            uint16_t s = (uint16_t)vp_range(0, 65535, "first"); int at = 0, top = 0;
            t[i]->getStats()->setHighestReceivedSeq(s);
            w.pc->sendSubscribeReports(); auto a0 = w.openControl(gOut.size() - 1); high[i] = be32(a0.data() + 16);
            vp_assert((uint16_t)high[i] == s, "the first number");
            static const int moves[] = { 1, 5, -2, 900 };
            for (int k = 0; k < (int)vp_param("moves", 3); k++) { at += moves[vp_choose(4, "move")]; if (at < 0) at = 0; t[i]->getStats()->setHighestReceivedSeq((uint16_t)(s + at)); if (at > top) top = at; vp_clock_ns += 5000000; }
            high[i] += (uint32_t)top;
        }
        int64_t d = (int64_t)vp_choose(4, "dt"); vp_clock_ns += d == 0 ? 0 : d == 1 ? 1500000 : d == 2 ? 999000000 : 90000000000ll;
    }
    gOut.clear();
    NtpTime nt = {}; getNtpTime(nt);
    w.pc->sendSubscribeReports();
    vp_assert(gOut.size() == 1, "one datagram");
    auto a = w.openControl(0); const uint8_t* p = a.data(); const uint32_t self = 0x0c0c0c0c;
    if (n) {
        vp_assert(a.size() == 8 + 24 * n + 20, "size");
        vp_assert(p[0] == 0x80 + n && p[1] == 201 && be16(p + 2) == 1 + 6 * n && be32(p + 4) == self, "receiver report");
        for (size_t i = 0; i < n; i++) {
            const uint8_t* q = p + 8 + 24 * i;
            vp_assert(be32(q) == t[i]->getSSRC() && (uint32_t)(be32(q + 8) - high[i]) == 0, "about each stream, with the highest number received");
            int64_t us = (vp_clock_ns - at[i]) / 1000, e = (int64_t)be32(q + 20) - us * 65536 / 1000000;
            if (has[i]) { vp_assert(be32(q + 16) == mid[i], "naming the last sender report"); vp_assert(e >= -66 && e <= 66, "and the time since it came"); vp_reach("sr"); }
            else vp_assert(be32(q + 16) == 0 && be32(q + 20) == 0, "no sender report yet");
        }
        p += 8 + 24 * n;
    } else vp_assert(a.size() == 20, "size");
    vp_assert(p[0] == 0x80 && p[1] == 207 && be16(p + 2) == 4 && be32(p + 4) == self && p[8] == 4 && be16(p + 10) == 2, "reference time");
    vp_assert(be32(p + 12) == (uint32_t)nt.seconds && be32(p + 16) == (uint32_t)nt.fraction, "is the time now");
    vp_reach("done");
}
// the missing are asked for: each of them, of their stream, and nobody else
HARNESS(k04_nack)
{
    vp_rand_mode = 2;
    TrackP t = mkTrack(Codec::H264, 0xa0, 96, 0xa1, 97, 90000, Direction::Subscribe);
    Peer w(Direction::Subscribe, { t });
    bool up = vp_choose(2, "connected");
    if (up) w.connect(); else { w.pc->mSrtpConnection = mkSrtp(false); w.far = mkSrtp(true); }
    size_t n = vp_choose(vp_param("n", 5), "n"); uint16_t seq = (uint16_t)vp_range(0, 65535, "first"); std::vector<uint16_t> list;
    static const uint16_t steps[] = { 1, 2, 16, 17, 300 };
    for (size_t i = 0; i < n; i++) { list.push_back(seq); seq = (uint16_t)(seq + steps[vp_choose(5, "step")]); }
    w.pc->sendNacks(t, list);
    if (!up) { vp_assert(gOut.empty(), "nothing before the connection is up"); return; }
    std::vector<bool> asked(n, false);
    for (size_t i = 0; i < gOut.size(); i++) {
        auto a = w.openControl(i); const uint8_t* p = a.data();
        vp_assert(a.size() >= 16 && a.size() % 4 == 0 && p[0] == 0x81 && p[1] == 205 && be16(p + 2) == a.size() / 4 - 1 && be32(p + 8) == 0xa0, "generic NACK for the stream");
        for (size_t o = 12; o < a.size(); o += 4) {
            uint16_t pid = be16(p + o), blp = be16(p + o + 2);
            for (int b = -1; b < 16; b++) if (b < 0 || (blp >> b & 1)) {
                bool hit = false;
                for (size_t k = 0; k < n; k++) if (list[k] == (uint16_t)(pid + b + 1)) { vp_assert(!asked[k], "asked for once"); asked[k] = true; hit = true; break; }
                vp_assert(hit, "only what is missing is asked for");
            }
        }
    }
    for (size_t k = 0; k < n; k++) vp_assert(asked[k], "all that is missing is asked for");
    vp_reach("asked");
}
// key frames are asked for where this was agreed
HARNESS(k04_pli)
{
    vp_rand_mode = 2;
    std::vector<TrackP> list; std::vector<uint32_t> want;
    for (uint32_t i = 0; i < 2; i++) {
        int kind = (int)vp_choose(4, "kind"); Direction d = vp_choose(2, "dir") ? Direction::Publish : Direction::Subscribe; uint32_t ssrc = 0xa0 + 16 * i;
        auto media = std::make_shared<Media>("m", kind == 3 ? MediaType::Audio : MediaType::Video);
        TrackBuilder b(media, d, ssrc, 96, 90000); b.codec(kind == 3 ? Codec::Opus : Codec::VP8, nullptr).pli(kind != 1);
        list.push_back(b.build());
        if (kind != 1 && kind != 3 && d == Direction::Subscribe) want.push_back(ssrc);
    }
    Peer w(Direction::Subscribe, list);
    bool up = vp_choose(2, "connected");
    if (up) w.connect(); else { w.pc->mSrtpConnection = mkSrtp(false); w.far = mkSrtp(true); want.clear(); }
    w.pc->sendPeriodicPictureLossIndicators();
    vp_assert(gOut.size() == want.size(), "one for each stream of pictures received");
    for (size_t i = 0; i < want.size(); i++) { auto a = w.openControl(i); const uint8_t* p = a.data(); vp_assert(a.size() == 12 && p[0] == 0x81 && p[1] == 206 && be16(p + 2) == 2 && be32(p + 8) == want[i], "picture loss indication"); vp_reach("asked"); }
    vp_reach("done");
}
// arriving media reach the track they belong to, and no other
HARNESS(k05)
{
    vp_rand_mode = 2;
    TrackP t[3] = { mkTrack(Codec::H264, 0xa0, 96, 0xa1, 97, 90000, Direction::Subscribe), mkTrack(Codec::Opus, 0xb0, 111, 0, 0, 48000, Direction::Subscribe), mkTrack(Codec::VP8, 0xc0, 98, 0xc1, 99, 90000, Direction::Subscribe) };
    Peer w(Direction::Subscribe, { t[0], t[1], t[2] });
    w.connect();
    static const uint32_t who[] = { 0xa0, 0xa1, 0xb0, 0xc0, 0xc1, 0xdd, 0 };
    size_t got[3] = {}, bytes[3] = {};
    size_t before = w.rec.ev.size(), told = 0;
    for (int st = 0; st < (int)vp_param("steps", 2); st++) {
        uint32_t ssrc = who[vp_choose(vp_param("ssrcs", 7), "ssrc")]; static const uint8_t pts[] = { 96, 97, 111, 98, 99, 0, 100 }; uint8_t pt = pts[vp_choose(vp_param("pts", 7), "pt")]; bool marker = vp_choose(2, "marker"), ext = vp_param("ext", 1) && vp_choose(2, "ext"); uint16_t seq = (uint16_t)(1000 + st);
        size_t len = 1 + vp_choose(vp_param("lens", 3), "len"); ByteBuffer body = symBuf(len, "payload");
        bool bad = vp_choose(2, "forged"); if (bad) memset(body.data(), 7, len);
        ByteBuffer b; ByteWriter bw(b);
        bw.writeU8(ext ? 0x90 : 0x80); bw.writeU8((uint8_t)(pt | marker << 7)); bw.writeU16(seq); bw.writeU32(0x11223344); bw.writeU32(ssrc);
        if (ext) { bw.writeU16(0xBEDE); bw.writeU16(1); bw.writeU32(0x10aa0000); }
        bw.write(body);
        ByteBuffer e; vp_assert(w.far->protectSendMedia(b, 0, e), "protected");
        if (bad) e.data()[e.size() - 1] ^= 1;
        w.arrives(std::vector<uint8_t>(e.data(), e.data() + e.size()));
        int i = -1; bool rtx = false;
        for (int k = 0; k < 3; k++) { if (ssrc == t[k]->getSSRC() && pt == t[k]->getPayloadId()) i = k; if (k != 1 && ssrc == t[k]->getRtxSSRC() && pt == t[k]->getRtxPayloadId()) { i = k; rtx = true; } }
        if (bad) i = -1;
        if (i < 0) { vp_assert(w.rec.media.size() == told, "nothing is handed on"); vp_reach("dropped"); }
        else {
            vp_assert(w.rec.media.size() == told + 1, "handed on once"); auto p = w.rec.media.back(); told++;
            vp_assert(p->getTrack() == t[i] && p->getSSRC() == ssrc && p->getPayloadId() == pt && p->getMarker() == marker && p->getTimestamp() == 0x11223344 && p->getSequence() == seq, "of the track, with its header");
            vp_assert(p->getPayloadSize() == len && vp_eq(p->getPayload().data(), body.data(), len), "with its payload");
            got[i]++; bytes[i] += e.size(); vp_reach(rtx ? "rtx" : "media");
        }
        for (int k = 0; k < 3; k++) vp_assert(t[k]->getStats()->getReceivedPackets() == got[k] && t[k]->getStats()->getReceivedBytes() == bytes[k], "counted");
    }
    vp_assert(w.rec.ev.size() == before + told, "nothing else is told");
}

// every control packet has an index of its own for its source, and the far end takes it
HARNESS(k06)
{
    vp_rand_mode = 2;
    bool pub = vp_choose(2, "publish"); size_t n = 1 + vp_choose(2, "tracks");
    Peer::Real r; r.tracks = (int)n; r.layers = pub && vp_choose(2, "simulcast") ? 2 : 0;
    Peer w(pub ? Direction::Publish : Direction::Subscribe, {}, ByteBuffer(), false, false, &r);
    w.connect();
    std::map<std::pair<uint32_t, uint32_t>, bool> used;
    size_t seen = 0;
    for (int st = 0; st < (int)vp_param("steps", 3); st++) {
        vp_clock_ns += 250000000; vp_sysclock_us += 250000;
        auto& t = w.list[vp_choose(w.list.size(), "track")];
        switch (vp_choose(4, "what")) {
        case 0: if (pub) w.pc->sendPublishReports(); else w.pc->sendSubscribeReports(); break;
        case 1: w.pc->sendNacks(t, { 5, 9, 100 }); break;
        case 2: w.pc->sendPeriodicPictureLossIndicators(); break;
        default: { ByteBuffer b(16); b.resize(8); memset(b.data(), 1, 8); ByteReader rd(b.data(), 8); w.pc->onReceivedControlMessage_RRTR(0x77, rd); if (pub) w.pc->sendPublishReports(); else w.pc->sendPictureLossIndicator(t); }
        }
        for (; seen < gOut.size(); seen++) {
            auto& d = gOut[seen]; size_t k = d.size();
            uint32_t ssrc = be32(&d[4]), index = be32(&d[k - 4]) & 0x7fffffff; // AES-GCM: the index comes last
            vp_assert(!used[{ ssrc, index }], "no index is used twice for a source");
            used[{ ssrc, index }] = true;
            w.openControl(seen);
            vp_reach("sent");
        }
    }
    vp_reach("done");
}
// a connection which has data channels only
HARNESS(k06_data)
{
    vp_rand_mode = 2;
    bool pub = vp_choose(2, "publish");
    Peer::Real r; r.tracks = 0;
    Peer w(pub ? Direction::Publish : Direction::Subscribe, {}, ByteBuffer(), false, true, &r);
    w.connect();
    for (int st = 0; st < 3; st++) {
        vp_clock_ns += 250000000;
        ByteBuffer b(16); b.resize(8); memset(b.data(), 1, 8); ByteReader rd(b.data(), 8);
        switch (vp_choose(4, "what")) { case 0: w.pc->sendPublishReports(); break; case 1: w.pc->sendSubscribeReports(); break; case 2: w.pc->sendPeriodicPictureLossIndicators(); break; default: w.pc->onReceivedControlMessage_RRTR(0x77, rd); }
        w.pc->run();
    }
    vp_reach("done");
}

#include "common.h"
#include "vp_crypto.h"
#include <functional>
#include <list>
#include <random>
#define private public // the configuration of an offer is otherwise made by a connection
#include "srtc/sdp_offer.h"
#undef private
#include "srtc/send_pacer.h"
#include "srtc/send_rtp_history.h"
#include "srtc/socket.h"
#include "srtc/srtp_connection.h"
#include "srtc/srtp_crypto.h"
#include "srtc/track_stats.h"
#include <openssl/srtp.h>
// Frames handed to the pacer as a connection does (rest of the stream first, then the new frame), and time passing
namespace {
struct Sent { uint32_t ssrc; uint16_t seq; int64_t at; size_t n; };
std::vector<Sent> gSent;
void onSend(const uint8_t* p, size_t n)
{
    vp_assert(n > 12, "a packet");
    gSent.push_back({ (uint32_t)p[8] << 24 | (uint32_t)p[9] << 16 | (uint32_t)p[10] << 8 | p[11], (uint16_t)(p[2] << 8 | p[3]), vp_clock_ns, n });
}
struct Pkt { TrackP t; PacketP p; int64_t from, ideal, until; bool paced; bool sent; };
struct World {
    std::shared_ptr<SrtpConnection> srtp; std::shared_ptr<Socket> sock; std::shared_ptr<SendRtpHistory> hist;
    std::unique_ptr<SendPacer> pacer; std::vector<Pkt> all; size_t notified = 0;
    TrackP tr[3]; uint16_t seq[3] = { 65535, 10, 20 }; size_t frames[3] = {};
    World()
    {
        gSent.clear(); vp_on_sendto = onSend; vp_crypto_hash = 1; vp_crypto_receiver = 0;
        CryptoBytes k, s; uint8_t b[32]; for (int i = 0; i < 32; i++) b[i] = (uint8_t)i;
        k.assign(b, 16); s.assign(b, 12);
        auto c = SrtpCrypto::create(SRTP_AEAD_AES_128_GCM, k, s, k, s);
        vp_assert(c.second.isOk(), "keys");
        srtp = std::make_shared<SrtpConnection>(c.first, (unsigned long)SRTP_AEAD_AES_128_GCM);
        anyaddr a{}; a.ss.ss_family = AF_INET;
        sock = std::make_shared<Socket>(a); hist = std::make_shared<SendRtpHistory>();
        tr[0] = mkTrack(Codec::H264, 0xa0); tr[1] = mkTrack(Codec::Opus, 0xb0, 111, 0, 0); tr[2] = mkTrack(Codec::VP8, 0xc0);
        pacer.reset(new SendPacer(SdpOffer::Config(), srtp, sock, hist, nullptr, [this] { notified++; }));
    }
    size_t index(const TrackP& t) { return t == tr[0] ? 0 : t == tr[1] ? 1 : 2; }
    // everything which has left is accounted for: once, in order, and not before its time
    void account(size_t from)
    {
        for (size_t i = from; i < gSent.size(); i++) {
            Pkt* hit = nullptr;
            for (auto& q : all) if (q.t->getSSRC() == gSent[i].ssrc && q.p->getSequence() == gSent[i].seq) hit = &q;
            vp_assert(hit != nullptr, "only what was handed over is sent");
            vp_assert(!hit->sent, "sent once");
            for (auto& q : all) { if (&q == hit) break; if (q.t == hit->t) vp_assert(q.sent, "packets of a stream leave in their order"); }
            hit->sent = true;
            vp_assert(hist->find(gSent[i].ssrc, gSent[i].seq) == hit->p, "kept for retransmission");
        }
        vp_assert(notified == gSent.size(), "every packet sent is told of");
    }
};
}
HARNESS(q01)
{
    vp_rand_mode = 2; vp_fork_selects();
    World w;
    static const uint32_t spreads[] = { 15, 0, 20, 1, 7 };
    const int steps = (int)vp_param("steps", 4); const size_t tracks = vp_param("tracks", 2), most = vp_param("most", 3);
    for (int st = 0; st < steps; st++) {
        size_t before = gSent.size();
        if (st == 0 || vp_choose(2, "what")) {
            size_t t = vp_choose(tracks, "track"), n = 1 + vp_choose(most, "packets");
            uint32_t spread = n == 1 ? 0 : spreads[vp_choose(vp_param("spreads", 3), "spread")];
            w.pacer->flush(w.tr[t]);
            w.account(before);
            for (auto& q : w.all) if (q.t == w.tr[t]) vp_assert(q.sent, "flushing a stream sends all that waits");
            for (size_t i = before; i < gSent.size(); i++) vp_assert(gSent[i].ssrc == w.tr[t]->getSSRC(), "flushing a stream sends no other");
            if (gSent.size() > before) vp_reach("flushed");
            before = gSent.size();
            std::vector<PacketP> list;
            for (size_t i = 0; i < n; i++) {
                auto p = std::make_shared<RtpPacket>(w.tr[t], i + 1 == n, 0, w.seq[t]++, 1000u + (uint32_t)st, 0, ByteBuffer((const uint8_t*)"abcdef", 3 + i));
                list.push_back(p);
                int64_t us = (int64_t)(1000u * spread / n) * (int64_t)i;
                w.all.push_back({ w.tr[t], p, vp_clock_ns, vp_clock_ns + us * 1000, vp_clock_ns + (int64_t)spread * 1000000, spread != 0, false });
            }
            w.frames[t]++;
            if (n == 1) w.pacer->sendNow(list[0]); else w.pacer->sendPaced(list, spread);
            w.account(before);
            for (auto& q : w.all) if (!q.sent) vp_assert(q.paced && q.until >= vp_clock_ns, "what is not spread out is sent at once");
        } else {
            vp_clock_ns += (int64_t)vp_range(0, vp_param("ms", 25) * 1000000, "ns");
            w.pacer->run();
            w.account(before);
            for (auto& q : w.all) {
                if (!q.sent) vp_assert(vp_clock_ns < q.ideal + 1000000 && vp_clock_ns < q.until, "sent when its time has come");
                else for (size_t i = before; i < gSent.size(); i++) if (gSent[i].ssrc == q.t->getSSRC() && gSent[i].seq == q.p->getSequence()) { vp_assert(vp_clock_ns >= q.ideal - 1000000, "not sent before its time"); vp_reach("paced"); }
            }
        }
        if (!vp_param("timeout", 1)) continue;
        bool waiting = false; int64_t next = 0;
        for (auto& q : w.all) if (!q.sent && (!waiting || q.ideal < next)) { waiting = true; next = q.ideal; }
        int to = w.pacer->getTimeoutMillis(777);
        if (!waiting) vp_assert(to == 777, "nothing to wait for");
        else { vp_assert((int64_t)to * 1000000 <= (next > vp_clock_ns ? next - vp_clock_ns : 0) + 1000000, "waking up in time"); vp_assert(to >= 0 || next < vp_clock_ns, "time to wait"); vp_reach("waiting"); }
    }
    // at the end everything leaves
    vp_clock_ns += 30000000;
    size_t before = gSent.size();
    w.pacer->run();
    w.account(before);
    for (auto& q : w.all) vp_assert(q.sent, "everything is sent");
    for (size_t t = 0; t < tracks; t++) {
        size_t n = 0, bytes = 0;
        for (auto& s : gSent) if (s.ssrc == w.tr[t]->getSSRC()) { n++; bytes += s.n; }
        auto st = w.tr[t]->getStats();
        vp_assert(st->getSentPackets() == n && st->getSentBytes() == bytes, "packets and bytes are counted");
        vp_assert(st->getSentFrames() == w.frames[t], "frames are counted");
    }
    vp_reach("done");
}

// Frames of every codec through packetizer and jitter buffer, reordered or with one packet lost
#include "common.h"
#include "srtc/depacketizer.h"
#include "srtc/encoded_frame.h"
#include "srtc/jitter_buffer.h"
#include "srtc/packetizer.h"
#include "srtc/rtp_extension_source.h"
static const int64_t MS = 1000000;
static void raw(ByteBuffer& b, std::initializer_list<int> l) { for (int v : l) { uint8_t c = (uint8_t)v; b.append(&c, 1); } }
static void fill(ByteBuffer& b, size_t n, int seed) { uint8_t x[2700]; for (size_t i = 0; i < n; i++) x[i] = (uint8_t)(0x21 + (i * 7 + seed) % 90); if (n > 3) vp_bytes(x + n - 2, 1, "body"), vp_assume(x[n - 2] > 3); b.append(x, n); }
static size_t size() { return vp_choose(2, "size") ? 1300 : 6; }
static ByteBuffer makeFrame(Codec c, int i)
{
    ByteBuffer f; bool key = i == 0;
    auto nal = [&](std::initializer_list<int> h, size_t n) { raw(f, {0, 0, 0, 1}); raw(f, h); fill(f, n, i); };
    auto obu = [&](int type, std::initializer_list<int> h, size_t n) { raw(f, {type << 3 | 2}); size_t t = n + h.size(); if (t > 127) raw(f, {(int)(t & 0x7f) | 0x80, (int)(t >> 7)}); else raw(f, {(int)t}); raw(f, h); fill(f, n, i); };
    uint64_t lead = vp_choose(4, "lead");
    switch (c) {
    case Codec::H264:
        if (lead & 1) nal({9, 0xf0}, 0);
        if (lead & 2) nal({6}, 20);
        if (key) { nal({0x67, 0x42}, 8); nal({0x68, 0xce}, 4); }
        nal({key ? 0x65 : 0x41, 0x9a}, size()); // first_mb_in_slice 0
        if (vp_choose(2, "slices")) nal({key ? 0x65 : 0x41, 0x5a}, 8); // first_mb_in_slice 1
        break;
    case Codec::H265:
        if (lead & 1) nal({35 << 1, 1, 0x50}, 0);
        if (lead & 2) nal({39 << 1, 1}, 20);
        if (key) { nal({32 << 1, 1}, 8); nal({33 << 1, 1}, 8); nal({34 << 1, 1}, 4); }
        nal({(key ? 19 : 1) << 1, 1, 0x9a}, size());
        if (vp_choose(2, "slices")) nal({(key ? 19 : 1) << 1, 1, 0x1a}, 8);
        break;
    case Codec::AV1:
        if (lead & 1) raw(f, {0x12, 0});
        if (key) obu(1, {0, 1}, 8);
        if (lead & 2) obu(5, {1}, 20);
        obu(6, {key ? 0x10 : 0x30}, size());
        if (vp_choose(2, "slices")) obu(6, {0x30}, size());
        break;
    case Codec::VP8: raw(f, {key ? 0x10 : 0x11, 2, 0}); if (key) raw(f, {0x9d, 1, 0x2a, 64, 0, 64, 0}); fill(f, size() + (lead & 1 ? 1300 : 0), i); break;
    case Codec::VP9: if (key) raw(f, {0x82, 0x49, 0x83, 0x42, 0, 0x3f, 0, 0x3f, 0}); else raw(f, {0x86, 0}); fill(f, size() + (lead & 1 ? 1300 : 0), i); break;
    default: fill(f, 20 + i, i); break;
    }
    return f;
}
HARNESS(j02_codec)
{
    static const Codec codecs[] = {Codec::H264, Codec::H265, Codec::VP8, Codec::VP9, Codec::AV1, Codec::Opus};
    Codec c = codecs[vp_param("codec", 0)];
    vp_rand_mode = 2; // concrete first sequence number and timestamp
    TrackP tr = mkTrack(c, 0x11223344, 96, 0x55667788, 97, c == Codec::Opus ? 48000 : 90000);
    auto pk = Packetizer::make(tr).first; auto ref = Depacketizer::make(tr).first;
    std::vector<std::shared_ptr<RtpPacket>> all; std::vector<int> frameOf; std::vector<ByteBuffer> want; std::vector<int> wantFrame;
    int frames = (int)vp_param("frames", 2);
    for (int i = 0; i < frames; i++) {
        ByteBuffer f = makeFrame(c, i);
        auto p = pk->generate({}, 10, 40000 * i, f);
        vp_assert(!p.empty(), "sent");
        std::vector<std::unique_ptr<JitterBufferItem>> it; std::vector<const JitterBufferItem*> run;
        for (auto& x : p) {
            auto j = std::make_unique<JitterBufferItem>(); j->payload = x->getPayload().copy(); j->marker = x->getMarker(); j->received = true; j->rtp_timestamp_ext = 1000 + i; run.push_back(j.get()); it.push_back(std::move(j));
            all.push_back(x); frameOf.push_back(i);
        }
        std::vector<ByteBuffer> o; ref->extract(o, run);
        vp_assert(!o.empty(), "reference");
        for (auto& b : o) { want.push_back(std::move(b)); wantFrame.push_back(i); }
    }
    // a later packet overtakes up to 2 earlier ones, or one packet of the last frame is lost
    size_t n = all.size(); vp_assume(n <= 12);
    std::vector<size_t> order; for (size_t i = 0; i < n; i++) order.push_back(i);
    uint64_t mode = vp_choose(3, "mode"); int lostFrame = -1;
    if (mode == 1 && n > 1) { size_t k = 1 + vp_choose(n - 1, "late"); size_t d = 1 + vp_choose(k < 3 ? k : 3, "by"); size_t v = order[k]; order.erase(order.begin() + k); order.insert(order.begin() + (k - d), v); }
    if (mode == 2) { size_t k = 1 + vp_choose(n - 1, "lost"); lostFrame = frameOf[k]; order.erase(order.begin() + k); if (lostFrame == 0) vp_end(); }
    JitterBuffer jb(tr, Depacketizer::make(tr).first, 4096, std::chrono::milliseconds(100), std::chrono::milliseconds(10));
    std::vector<std::shared_ptr<EncodedFrame>> got;
    auto poll = [&] { for (auto& x : jb.processDeque()) got.push_back(x); };
    for (size_t i : order) { jb.consume(all[i]); vp_clock_ns += MS; poll(); }
    for (int i = 0; i < 30; i++) { vp_clock_ns += 10 * MS; poll(); }
    size_t k = 0;
    for (size_t i = 0; i < want.size(); i++) {
        if (wantFrame[i] == lostFrame) continue;
        vp_assert(k < got.size(), "no frame is dropped");
        vp_assert(eqBuf(got[k]->data, want[i].data(), want[i].size()), "the frame that was sent");
        k++;
    }
    vp_assert(k == got.size() || lostFrame >= 0, "nothing else is delivered");
    vp_reach("done"); if (n > 2) vp_reach("several");
}

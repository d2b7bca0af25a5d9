#include "common.h"
#include "srtc/packetizer.h"
#include "srtc/rtp_extension_source_simulcast.h"
#include "srtc/rtp_std_extensions.h"
#include "srtc/simulcast_layer.h"
#include "srtc/track_stats.h"
// Simulcast: the video layers allocation, read back after its published layout, and when and with what else it is sent
namespace {
std::vector<SimulcastLayer> symLayers(size_t n)
{
    static const char* const N[] = { "lo", "mid", "hi", "x", "y", "z" };
    std::vector<SimulcastLayer> l;
    for (size_t i = 0; i < n; i++) {
        SimulcastLayer s; s.name = N[i];
        s.width = (uint16_t)vp_range(1, 65535, "width"); s.height = (uint16_t)vp_range(1, 65535, "height"); s.frames_per_second = (uint16_t)vp_range(0, 65535, "fps"); s.kilobits_per_second = vp_u32("kbps");
        l.push_back(s);
    }
    return l;
}
void checkVla(const uint8_t* p, size_t n, uint8_t rid, const std::vector<SimulcastLayer>& l)
{
    size_t at = 0, streams = l.size();
    auto u8 = [&]() -> uint8_t { vp_assert(at < n, "the allocation is complete"); return p[at++]; };
    uint8_t h = u8();
    vp_assert((h >> 6) == rid, "index of the stream"); vp_assert((size_t)((h >> 4) & 3) + 1 == streams, "number of streams");
    uint8_t bm[4];
    for (size_t i = 0; i < streams; i++) bm[i] = h & 15;
    if ((h & 15) == 0) for (size_t i = 0; i < streams; i += 2) { uint8_t b = u8(); bm[i] = b >> 4; if (i + 1 < streams) bm[i + 1] = b & 15; }
    size_t layers = 0;
    for (size_t i = 0; i < streams; i++) { vp_assert(bm[i] == 1, "one spatial layer in each stream"); layers++; }
    for (size_t i = 0; i < layers; i += 4) { uint8_t b = u8(); for (size_t k = i; k < layers && k < i + 4; k++) vp_assert(((b >> (6 - 2 * (k - i))) & 3) == 0, "one temporal layer in each"); }
    for (size_t i = 0; i < layers; i++) {
        uint64_t v = 0; unsigned sh = 0; uint8_t b;
        do { b = u8(); vp_assert(sh < 35, "a legal number"); v |= (uint64_t)(b & 0x7f) << sh; sh += 7; } while (b & 0x80);
        vp_assert(v == l[i].kilobits_per_second, "target bitrate");
    }
    for (size_t i = 0; i < layers; i++) {
        uint32_t w = u8() << 8; w |= u8(); uint32_t hh = u8() << 8; hh |= u8(); uint8_t f = u8();
        vp_assert(w + 1 == l[i].width && hh + 1 == l[i].height, "resolution");
        vp_assert(f == (l[i].frames_per_second > 255 ? 255 : l[i].frames_per_second), "frame rate");
    }
    vp_assert(at == n, "nothing else");
}
TrackP simTrack(const std::string& mid, const std::vector<SimulcastLayer>& l, size_t index, uint8_t m, uint8_t r, uint8_t rr, uint8_t v)
{
    ExtensionMap x;
    if (m) x.add(m, RtpStandardExtensions::kExtSdesMid);
    if (r) x.add(r, RtpStandardExtensions::kExtSdesRtpStreamId);
    if (rr) x.add(rr, RtpStandardExtensions::kExtSdesRtpRepairedStreamId);
    if (v) x.add(v, RtpStandardExtensions::kExtGoogleVLA);
    auto media = std::make_shared<Media>(mid, MediaType::Video, x);
    TrackBuilder b(media, Direction::Publish, 7, 96, 90000);
    b.codec(Codec::VP8, nullptr).nack(true);
    if (index < l.size()) { auto y = std::make_shared<Track::SimulcastLayer>(); static_cast<SimulcastLayer&>(*y) = l[index]; y->index = (uint8_t)index; b.simulcastLayer(y); }
    return b.build();
}
bool is(const RtpExtension& e, uint8_t id, const std::string& s) { auto v = e.findAny(id); return v && v->size == s.size() && vp_eq(v->ptr, (const uint8_t*)s.data(), s.size()); }
}
HARNESS(r10_vla)
{
    size_t n = vp_choose(vp_param("most", 4) + 1, "layers");
    if (vp_choose(8, "many") == 7) n = 5;
    auto l = symLayers(n);
    uint8_t rid = (uint8_t)vp_choose(5, "rid");
    ByteBuffer b; const uint8_t junk[] = { 1, 2, 3 }; if (vp_choose(2, "reused")) b = ByteBuffer(junk, 3);
    buildGoogleVLA(b, rid, l);
    if (n == 0 || n > 4 || rid > 3) { vp_assert(b.empty(), "nothing for what cannot be said"); vp_reach("invalid"); return; }
    checkVla(b.data(), b.size(), rid, l);
    vp_reach("valid");
}
HARNESS(r10_source)
{
    size_t n = 1 + vp_choose(3, "layers"), k = vp_choose(n + 1, "index");
    auto l = symLayers(n);
    for (auto& x : l) vp_assume(x.kilobits_per_second < 128 && x.frames_per_second < 256);
    static const uint8_t ids[][4] = { { 1, 2, 3, 4 }, { 14, 1, 7, 9 }, { 20, 2, 3, 4 }, { 1, 2, 3, 0 }, { 0, 2, 3, 4 }, { 1, 0, 3, 4 }, { 1, 2, 0, 4 }, { 200, 201, 202, 255 } };
    auto& id = ids[vp_choose(8, "ids")];
    auto t = simTrack("video0", l, k, id[0], id[1], id[2], id[3]);
    uint8_t f0 = (uint8_t)vp_u8("frame"); // a VP8 frame begins with the kind of frame in its lowest bit
    const uint8_t fb[] = { f0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9 };
    ByteBuffer frame(fb, sizeof fb);
    auto pk = Packetizer::make(t).first;
    vp_assert(pk != nullptr, "packetizer");
    size_t sent = (size_t)vp_range(0, 300, "sent");
    t->getStats()->incrementSentPackets(sent);
    RtpExtensionSourceSimulcast src;
    vp_assert(!src.wantsExtension(t, true, 0), "nothing before it is prepared");
    bool all = id[0] && id[1] && id[3];
    bool add = src.shouldAdd(t, pk, frame);
    vp_assert(add == (k < n && all && (sent < 100 || (f0 & 1) == 0)), "with the first packets and with key frames of layers, if negotiated");
    if (k >= n) { vp_reach("no-layer"); return; }
    if (add) {
        src.prepare(t, l);
        vp_assert(src.wantsExtension(t, vp_choose(2, "key"), (unsigned)vp_choose(3, "number")), "in every packet of the frame");
        RtpExtensionBuilder b;
        src.addExtension(b, t, true, 0);
        auto e = b.build();
        vp_assert(is(e, id[0], "video0") && is(e, id[1], l[k].name), "which stream it is");
        auto v = e.findAny(id[3]);
        vp_assert(v.has_value(), "allocation");
        checkVla(v->ptr, v->size, (uint8_t)k, l);
        src.clear();
        vp_assert(!src.wantsExtension(t, true, 0), "nothing after it is cleared");
        vp_reach("added");
    }
    // retransmissions name the stream they repair
    RtpExtensionBuilder b;
    bool had = vp_choose(2, "had");
    if (had && id[0]) b.addStringValue(id[0], "video0");
    b.addU16Value(11, 0x1234);
    src.updateForRtx(b, t);
    auto e = b.build();
    vp_assert(e.findU16(11) == 0x1234, "other values are kept");
    if (id[0]) vp_assert(is(e, id[0], "video0"), "media of the retransmission");
    if (id[2]) vp_assert(is(e, id[2], l[k].name), "layer of the retransmission");
    vp_reach("rtx");
}

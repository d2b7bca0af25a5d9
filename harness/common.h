#pragma once
#include "vp.h"
#include "srtc/byte_buffer.h"
#include "srtc/media.h"
#include "srtc/rtp_extension.h"
#include "srtc/rtp_extension_builder.h"
#include "srtc/rtp_packet.h"
#include "srtc/srtc.h"
#include "srtc/track.h"
#include <chrono>
#include <cstring>
#include <memory>
#include <vector>
using namespace srtc;
typedef std::shared_ptr<Track> TrackP;
typedef std::shared_ptr<RtpPacket> PacketP;
static inline TrackP mkTrack(Codec codec, uint32_t ssrc = 0x11223344, uint8_t pt = 96, uint32_t rtxSsrc = 0x55667788, uint8_t rtxPt = 97, uint32_t clock = 90000, Direction dir = Direction::Publish)
{
    auto type = codec == Codec::Opus ? MediaType::Audio : MediaType::Video;
    auto media = std::make_shared<Media>("media0", type);
    TrackBuilder b(media, dir, ssrc, pt, clock);
    b.codec(codec, nullptr).nack(true).pli(true);
    if (rtxPt) b.rtx(rtxSsrc, rtxPt);
    return b.build();
}
static inline ByteBuffer symBuf(size_t n, const char* name)
{
    ByteBuffer b(n);
    b.resize(n);
    if (n) vp_bytes(b.data(), n, name);
    return b;
}
// heap block of exactly n bytes so that any access past the end is out of bounds
struct Exact {
    uint8_t* p; size_t n;
    explicit Exact(size_t k, const char* name) : p(new uint8_t[k]), n(k) { if (k) vp_bytes(p, k, name); }
    ~Exact() { delete[] p; }
    Exact(const Exact&) = delete;
};
static inline bool eqBuf(const ByteBuffer& a, const uint8_t* p, size_t n) { return a.size() == n && vp_eq(a.data(), p, n); }
static inline std::chrono::steady_clock::time_point now() { return std::chrono::steady_clock::now(); }

#include "common.h"
#include "srtc/codec_av1.h"
#include "srtc/codec_h264.h"
#include "srtc/codec_h265.h"
#include "srtc/codec_vp9.h"
#include "srtc/packetizer.h"
#include "srtc/packetizer_video.h"
// Annex B: where the next start code (followed by at least one byte) begins at or after i, and its length
static size_t nextCode(const uint8_t* d, size_t n, size_t i, size_t& len)
{
    for (; i < n; i++) {
        if (n - i > 3 && d[i] == 0 && d[i + 1] == 0) {
            if (d[i + 2] == 1) { len = 3; return i; }
            if (n - i > 4 && d[i + 2] == 0 && d[i + 3] == 1) { len = 4; return i; }
        }
    }
    len = 0;
    return n;
}
template <class Parser> static void walkNalu(bool h265)
{
    size_t base = (size_t)vp_param("base", 0);
    size_t n = base + vp_choose(vp_param("count", 8), "len");
    Exact in(n, "frame");
    if (vp_param("prefix", 0)) { vp_assume(in.p[0] == 0 && in.p[1] == 0 && in.p[2] == 0 && in.p[3] == 1); }
    ByteBuffer b(in.p, n);
    const uint8_t* d = b.data();
    size_t len = 0, pos = nextCode(in.p, n, 0, len);
    Parser p(b);
    unsigned count = 0;
    for (;; p.next()) {
        vp_assert((bool)p == (pos < n), "a NAL unit is found exactly where a start code is");
        if (pos >= n) break;
        size_t l2 = 0, nx = nextCode(in.p, n, pos + len, l2);
        vp_assert(p.currNalu() == d + pos && p.currNaluSize() == nx - pos, "extent with start code");
        vp_assert(p.currData() == d + pos + len && p.currDataSize() == nx - pos - len, "extent without start code");
        vp_assert(p.isAtStart() == (pos == 0) && p.isAtEnd() == (nx == n), "first and last");
        uint8_t h = in.p[pos + len];
        vp_assert(p.currType() == (h265 ? (h >> 1) & 63 : h & 31), "type");
        pos = nx; len = l2; count++;
    }
    vp_reach(count ? "units" : "none");
}
HARNESS(r11_h264) { walkNalu<h264::NaluParser>(false); }
HARNESS(r11_h265) { walkNalu<h265::NaluParser>(true); }
// ue(v) at bit offset 0
static bool ueZero(const uint8_t* d, size_t n) { return n > 0 && (d[0] & 0x80); }
HARNESS(r11_class)
{
    uint8_t t = (uint8_t)vp_u8("type");
    vp_assert(h264::isParameterNalu(t) == (t == 7 || t == 8) && h264::isKeyFrameNalu(t) == (t == 5) && h264::isSliceNalu(t) == (t == 1 || t == 5), "H.264 classes");
    vp_assert(h265::isParameterNalu(t) == (t >= 32 && t <= 34) && h265::isKeyFrameNalu(t) == (t >= 19 && t <= 21) && h265::isSliceNalu(t) == (t <= 21), "H.265 classes");
    vp_assert(av1::isFrameObuType(t) == (t == 3 || t == 6 || t == 7), "AV1 classes");
    size_t n = vp_choose(6, "len");
    Exact in(n, "unit");
    const uint8_t* d = in.p;
    // first_mb_in_slice == 0 exactly when the first bit is one
    if (n > 1) vp_assert(h264::isFrameStart(d, n) == (((d[0] & 31) == 1 || (d[0] & 31) == 5) && ueZero(d + 1, n - 1)), "H.264 frame start");
    else vp_assert(!h264::isFrameStart(d, n), "H.264 frame start, short");
    vp_assert(h264::isSliceFrameStart(d, n) == ueZero(d, n), "H.264 slice start");
    vp_assert(h265::isFrameStart(d, n) == (n >= 3 && ((d[0] >> 1) & 63) <= 21 && (d[2] & 0x80)), "H.265 frame start");
    vp_assert(h265::isSliceFrameStart(d, n) == (n > 0 && (d[0] & 0x80)), "H.265 slice start");
    bool k = n > 1 && (t == 3 || t == 6 || t == 7) && !(d[0] & 0x80) && (((d[0] >> 5) & 3) == 0 || ((d[0] >> 5) & 3) == 2);
    vp_assert(av1::isKeyFrameObu(t, d, n) == k, "AV1 key or intra-only frame");
    vp_reach("done");
}
struct Obu { size_t at, len; uint8_t type, tid, sid; bool ok; size_t next; };
static Obu refObu(const uint8_t* d, size_t n, size_t i)
{
    Obu o = {}; 
    if (i >= n || (d[i] & 0x80)) return o;
    uint8_t h = d[i++];
    o.type = (h >> 3) & 15;
    if (h & 4) { if (i >= n) return o; o.tid = d[i] >> 5; o.sid = (d[i] >> 3) & 3; i++; }
    uint64_t sz = n - i;
    if (h & 2) {
        sz = 0; bool end = false;
        for (int k = 0; k < 8; k++) { vp_assume(i < n); uint8_t b = d[i++]; sz |= (uint64_t)(b & 0x7f) << (7 * k); if (!(b & 0x80)) { end = true; break; } }
        vp_assume(end); // a size field without an end is not judged
        if (sz > n - i) return o;
    }
    o.at = i; o.len = (size_t)sz; o.ok = true; o.next = i + o.len;
    return o;
}
HARNESS(r11_obu)
{
    size_t n = (size_t)vp_param("base", 0) + vp_choose(vp_param("count", 6), "len");
    Exact in(n, "tu");
    ByteBuffer b(in.p, n);
    const uint8_t* d = b.data();
    av1::ObuParser p(b);
    size_t i = 0; bool any = false;
    for (;; p.next()) {
        Obu o = refObu(in.p, n, i);
        vp_assert((bool)p == o.ok, "an OBU is found exactly when one is there");
        if (!o.ok) break;
        any = true;
        vp_assert(p.currData() == d + o.at && p.currSize() == o.len, "extent");
        vp_assert(p.currType() == o.type && p.currTemporalId() == o.tid && p.currSpatialId() == o.sid, "type and layer");
        vp_assert(p.isAtEnd() == (o.next == n), "last");
        i = o.next;
    }
    vp_reach(any ? "units" : "none");
}
struct Bits { const uint8_t* d; size_t n, pos; unsigned get(int k) { unsigned v = 0; while (k--) { v = v << 1 | (pos / 8 < n ? (d[pos / 8] >> (7 - pos % 8)) & 1u : 0u); pos++; } return v; } };
// VP9 uncompressed_header(): key frame and its dimensions
HARNESS(r11_vp9)
{
    size_t n = vp_choose(vp_param("count", 14), "len");
    Exact in(n, "frame");
    Bits r{in.p, n, 0};
    bool marker = n > 0 && r.get(2) == 2;
    unsigned lo = r.get(1), hi = r.get(1), prof = hi * 2 + lo;
    if (prof == 3) r.get(1);
    bool existing = r.get(1), inter = r.get(1);
    bool key = marker && !existing && !inter;
    vp_assert(vp9::isKeyFrame(in.p, n) == key, "key frame");
    uint16_t w = 0xdead, h = 0xdead;
    bool got = vp9::extractDimensions(in.p, n, w, h);
    r.get(2);
    bool sync = r.get(8) == 0x49 && r.get(8) == 0x83 && r.get(8) == 0x42;
    if (key && sync && n >= 11) {
        if (prof >= 2) r.get(1); // ten_or_twelve_bit
        unsigned cs = r.get(3);
        if (cs != 7) { r.get(1); if (prof & 1) r.get(3); } else { vp_assume(prof & 1); r.get(1); }
        unsigned rw = r.get(16), rh = r.get(16);
        vp_assert(got, "dimensions found");
        vp_assert(w == (uint16_t)(rw + 1) && h == (uint16_t)(rh + 1), "dimensions");
        vp_reach("dims");
    } else if (!key || !sync) { vp_assert(!got, "no dimensions without a key frame header"); vp_reach("nodims"); }
}
// the packetizers' own key frame test agrees with the bitstream
HARNESS(r11_key)
{
    static const Codec codecs[] = {Codec::VP8, Codec::VP9, Codec::H264, Codec::H265, Codec::AV1};
    Codec c = codecs[vp_choose(5, "codec")];
    auto track = mkTrack(c);
    auto pk = Packetizer::make(track).first;
    size_t n = vp_choose(vp_param("count", 8), "len");
    Exact in(n, "frame");
    const uint8_t* d = in.p;
    ByteBuffer b(in.p, n);
    bool key = false;
    if (c == Codec::VP8) key = n >= 3 && !(d[0] & 1);
    else if (c == Codec::VP9) key = vp9::isKeyFrame(d, n);
    else if (c == Codec::AV1) { for (size_t i = 0;;) { Obu o = refObu(d, n, i); if (!o.ok) break; if (o.type == 1 || av1::isKeyFrameObu(o.type, d + o.at, o.len)) key = true; i = o.next; } }
    else { size_t len = 0; for (size_t i = nextCode(d, n, 0, len); i < n;) { uint8_t h = d[i + len]; if (c == Codec::H264 ? (h & 31) == 5 : ((h >> 1) & 63) >= 19 && ((h >> 1) & 63) <= 21) key = true; i = nextCode(d, n, i + len, len); } }
    vp_assert(pk->isKeyFrame(b) == key, "frame is recognised as a key frame exactly when it contains one");
    vp_reach("done");
}

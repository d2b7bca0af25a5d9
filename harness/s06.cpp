#include "sdp.h"
// Any text as an answer
namespace {
const char* const kHead = "v=0\r\no=- 1 2 IN IP4 1.2.3.4\r\ns=-\r\nt=0 0\r\na=group:BUNDLE 0 1\r\na=ice-ufrag:uf\r\na=ice-pwd:pwd\r\na=fingerprint:sha-256 AA:BB\r\na=setup:passive\r\na=candidate:1 1 udp 99 1.2.3.4 5000 typ host\r\n";
const char* const kVideo = "m=video 9 UDP/TLS/RTP/SAVPF 96 97 98\r\na=mid:0\r\na=rtcp-mux\r\na=rtpmap:96 H264/90000\r\na=rtpmap:97 rtx/90000\r\na=fmtp:97 apt=96\r\n";
const char* const kAudio = "m=audio 9 UDP/TLS/RTP/SAVPF 111\r\na=mid:1\r\na=rtcp-mux\r\na=rtpmap:111 opus/48000/2\r\n";
const char* const kData = "m=application 9 UDP/DTLS/SCTP webrtc-datachannel\r\na=mid:2\r\na=sctp-port:5001\r\n";
OfferP offer()
{
    vp_rand_mode = 2; vp_rand_ctr = 99;
    SdpOffer::Config c; c.cname = "me"; c.data_channels = { "d" };
    bool sub = vp_param("sub", 0);
    std::vector<std::string> layers;
    if (vp_param("layers", 0)) layers = { "lo", "hi" };
    auto o = mkOffer(sub ? Direction::Subscribe : Direction::Publish, c, { videoLine("0", { Codec::H264 }, layers), audioLine("1") });
    auto g = o->generate();
    vp_assert(g.second.isOk(), "offer");
    return o;
}
void parse(const OfferP& o, const std::string& text)
{
    vp_hang_limit(4000000);
    auto r = SdpAnswer::parse(o, text, nullptr);
    vp_assert((r.first != nullptr) == r.second.isOk(), "an answer or an error");
    if (r.first) {
        vp_assert(!r.first->getHostList().empty(), "an answer has somewhere to connect to");
        for (auto& t : r.first->getTrackList()) vp_assert(t != nullptr && t->getMedia() != nullptr, "tracks");
        vp_reach("answer");
    } else vp_reach("error");
}
std::string sym(size_t n) { std::string s(n, 0); if (n) vp_bytes(&s[0], n, "text"); return s; }
}
HARNESS(s06_any)
{
    size_t n = vp_param("lo", 0) + vp_choose(vp_param("hi", 5) - vp_param("lo", 0) + 1, "size");
    std::string t = vp_param("head", 0) ? std::string(kHead) : "";
    if (vp_param("sec", 0)) t += kVideo;
    t += sym(n);
    if (vp_param("tail", 0)) t += std::string("\r\n") + kAudio;
    parse(offer(), t);
}
// one attribute whose value is arbitrary, in each kind of section, between others
HARNESS(s06_attr)
{
    static const char* const T[] = {
        "a=rtcp-mux", "a=ice-ufrag:", "a=setup:", "a=fingerprint:", "a=fingerprint:sha-256 ", "a=extmap:", "a=extmap:1", "a=mid:", "a=rtpmap:96", "a=rtpmap:96 ", "a=rtpmap:96 VP8/", "a=rtpmap:",
        "a=fmtp:97", "a=fmtp:97 ", "a=fmtp:97 apt=", "a=fmtp:96 profile-level-id=", "a=fmtp:111 minptime=", "a=fmtp:111 stereo=", "a=fmtp:96 ;", "a=rtcp-fb:", "a=rtcp-fb:96", "a=rtcp-fb:96 ",
        "a=rid:", "a=rid:lo recv", "a=rid:lo ", "a=simulcast:", "a=simulcast:recv", "a=simulcast:recv ", "a=simulcast:recv lo;", "a=candidate:", "a=candidate:1 1 udp 9 ", "a=candidate:1 1 udp 9 1.2.3.4 ",
        "a=candidate:1 1 udp 9 1.2.3.4 5001 ", "a=ssrc:", "a=ssrc-group:", "a=ssrc-group:FID ", "a=ssrc-group:FID 1 ", "a=sctp-port:", "a=max-message-size:", "m=video 9 UDP/TLS/RTP/SAVPF", "m=audio ", "m=application ",
        "m=", "m=x 9 UDP/TLS/RTP/SAVPF ", "a=candidate:1 1 udp 9 1.2.3.", "a=candidate:1 1 udp 9 ::", "b=" };
    static const size_t N = sizeof T / sizeof T[0];
    size_t k = vp_param("only", 99) < N ? vp_param("only", 0) : vp_choose(N, "attribute");
    size_t lo = vp_param("lo", 0), n = lo + vp_choose(vp_param("hi", 2) - lo + 1, "size");
    const char* const S[] = { "", kVideo, kAudio, kData };
    std::string t = std::string(kHead) + S[vp_choose(4, "section")] + T[k] + sym(n);
    static const char* const E[] = { "", "\r\n", " x", " typ host", ";a=1\r\na=rtcp-fb:96 nack\r\n" };
    t += E[vp_choose(5, "end")];
    parse(offer(), t);
}

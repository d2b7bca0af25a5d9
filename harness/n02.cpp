#include "sdp.h"
#include "srtc/rtcp_packet_source.h"
// What an offer says is well formed, complete and what was asked for
namespace {
std::string dec(uint64_t v) { return std::to_string(v); }
std::vector<std::string> split(const std::string& s, char d)
{
    std::vector<std::string> r; size_t p = 0;
    while (true) { size_t e = s.find(d, p); if (e == std::string::npos) { r.push_back(s.substr(p)); return r; } r.push_back(s.substr(p, e - p)); p = e + 1; }
}
bool starts(const std::string& s, const std::string& p) { return s.size() >= p.size() && s.compare(0, p.size(), p) == 0; }
bool number(const std::string& s, uint64_t& v) { v = 0; if (s.empty() || s.size() > 20) return false; for (char c : s) { if (c < '0' || c > '9') return false; v = v * 10 + (uint64_t)(c - '0'); } return true; }
uint64_t num(const std::string& s) { uint64_t v; vp_assert(number(s, v), "a number"); return v; }
struct Section {
    std::string m; std::vector<std::string> a; // a lines without "a="
    size_t count(const std::string& x) const { size_t n = 0; for (auto& l : a) n += l == x; return n; }
    std::vector<std::string> all(const std::string& key) const { std::vector<std::string> r; for (auto& l : a) if (starts(l, key + ":")) r.push_back(l.substr(key.size() + 1)); return r; }
    std::string one(const std::string& key) const { auto r = all(key); vp_assert(r.size() == 1, "said once"); return r[0]; }
};
struct Sdp { std::vector<std::string> head; Section session; std::vector<Section> s; };
Sdp read(const std::string& text)
{
    Sdp d;
    vp_assert(!text.empty() && text.back() == '\n', "whole lines");
    auto lines = split(text.substr(0, text.size() - 1), '\n');
    for (auto l : lines) {
        if (!l.empty() && l.back() == '\r') l.resize(l.size() - 1);
        vp_assert(l.size() >= 2 && l[1] == '=' && l[0] >= 'a' && l[0] <= 'z', "a line of a session description");
        if (l[0] == 'm') { d.s.emplace_back(); d.s.back().m = l.substr(2); }
        else if (l[0] == 'a') (d.s.empty() ? d.session : d.s.back()).a.push_back(l.substr(2));
        else if (d.s.empty()) d.head.push_back(l);
    }
    return d;
}
const char* codecName(Codec c)
{
    switch (c) { case Codec::VP8: return "VP8/90000"; case Codec::VP9: return "VP9/90000"; case Codec::H264: return "H264/90000"; case Codec::H265: return "H265/90000"; case Codec::AV1: return "AV1/90000"; default: return "opus/48000/2"; }
}
const char* hex6(uint32_t v, char* b) { for (int i = 0; i < 6; i++) b[i] = "0123456789abcdef"[(v >> (20 - 4 * i)) & 15]; b[6] = 0; return b; }
typedef std::pair<std::string, std::string> KV;
std::vector<std::string> params(const std::string& s) { return split(s, ';'); }
bool has(const std::vector<std::string>& v, const std::string& x) { for (auto& y : v) if (y == x) return true; return false; }
const char* const kTwcc = "http://www.ietf.org/id/draft-holmer-rmcat-transport-wide-cc-extensions-01";
const char* const kCapture = "http://www.webrtc.org/experiments/rtp-hdrext/abs-capture-time";
const char* const kMid = "urn:ietf:params:rtp-hdrext:sdes:mid";
const char* const kRid = "urn:ietf:params:rtp-hdrext:sdes:rtp-stream-id";
const char* const kRrid = "urn:ietf:params:rtp-hdrext:sdes:repaired-rtp-stream-id";
const char* const kVla = "http://www.webrtc.org/experiments/rtp-hdrext/video-layers-allocation00";
bool ice(const std::string& s, size_t lo) { if (s.size() < lo || s.size() > 256) return false; for (char c : s) if (!((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '+' || c == '/')) return false; return true; }
std::vector<std::string> names(size_t n) { static const char* const L[] = { "lo", "mid", "hi", "x4" }; std::vector<std::string> r; for (size_t i = 0; i < n; i++) r.push_back(L[i]); return r; }
void check(const OfferP& o, Direction dir, const SdpOffer::Config& c, const std::vector<SdpOffer::MediaLine>& media, const std::string& text)
{
    bool data = !c.data_channels.empty(), pub = dir == Direction::Publish;
    Sdp d = read(text);
    vp_assert(d.head.size() >= 4 && d.head[0] == "v=0" && starts(d.head[1], "o=") && split(d.head[1].substr(2), ' ').size() == 6 && starts(d.head[2], "s=") && d.head.back() == "t=0 0", "session lines");
    vp_assert(d.s.size() == media.size() + (data ? 1 : 0), "a section for every media and for the data channels");
    std::vector<std::string> mids;
    for (auto& s : d.s) {
        auto m = s.one("mid");
        for (auto& x : mids) vp_assert(x != m, "sections have names of their own");
        mids.push_back(m);
        vp_assert(s.one("ice-ufrag") == o->getIceUFrag() && s.one("ice-pwd") == o->getIcePassword(), "credentials");
        vp_assert(s.one("fingerprint") == "sha-256 " + o->getCertificate()->getSha256FingerprintHex(), "fingerprint");
        vp_assert(s.one("setup") == "actpass", "either role");
    }
    vp_assert(ice(o->getIceUFrag(), 4) && ice(o->getIcePassword(), 22), "credentials are long enough and of legal characters");
    auto groups = d.session.all("group");
    if (mids.size() > 1) {
        std::string w = "BUNDLE"; for (auto& m : mids) w += " " + m;
        vp_assert(groups.size() == 1 && groups[0] == w, "all sections are bundled");
    } else vp_assert(groups.size() <= 1, "groups");
    std::vector<uint64_t> pts, ssrcs;
    std::vector<KV> exts;
    for (size_t i = 0; i < media.size(); i++) {
        auto& s = d.s[i]; auto& w = media[i];
        bool video = w.mediaType == MediaType::Video;
        vp_assert(mids[i] == w.id, "media id");
        vp_assert(s.count("rtcp-mux") == 1 && s.count("sendonly") == (pub ? 1 : 0) && s.count("recvonly") == (pub ? 0 : 1) && s.count("sendrecv") == 0 && s.count("inactive") == 0, "direction");
        auto m = split(s.m, ' ');
        size_t per = c.enable_rtx ? 2 : 1;
        vp_assert(m.size() == 3 + per * w.codec_list.size() && m[0] == (video ? "video" : "audio") && m[2] == "UDP/TLS/RTP/SAVPF", "media line");
        auto maps = s.all("rtpmap"), fmtps = s.all("fmtp"), fbs = s.all("rtcp-fb");
        vp_assert(maps.size() == m.size() - 3, "a codec for every payload type");
        for (size_t k = 3; k < m.size(); k++) {
            uint64_t pt = num(m[k]);
            vp_assert(pt >= 96 && pt <= 127, "a dynamic payload type");
            for (auto x : pts) vp_assert(x != pt, "payload types mean one thing in a bundle");
            pts.push_back(pt);
            std::string map, fmtp; size_t nf = 0; std::vector<std::string> fb;
            for (auto& l : maps) if (starts(l, m[k] + " ")) { vp_assert(map.empty(), "one codec for a payload type"); map = l.substr(m[k].size() + 1); }
            for (auto& l : fmtps) if (starts(l, m[k] + " ")) { nf++; fmtp = l.substr(m[k].size() + 1); }
            for (auto& l : fbs) if (starts(l, m[k] + " ")) fb.push_back(l.substr(m[k].size() + 1));
            vp_assert(nf <= 1, "options once");
            size_t q = (k - 3) / per;
            if (c.enable_rtx && (k - 3) % 2 == 1) { vp_assert(starts(map, "rtx/") && has(params(fmtp), "apt=" + m[k - 1]), "retransmissions of the payload type before"); continue; }
            auto& cd = w.codec_list[q];
            vp_assert(map == codecName(cd.codec), "the codecs asked for, in that order");
            if (cd.codec == Codec::H264) { char b[8]; vp_assert(has(params(fmtp), std::string("profile-level-id=") + hex6(cd.profile_level_id, b)) && has(params(fmtp), "packetization-mode=1"), "profile and level"); }
            if (cd.codec == Codec::Opus) vp_assert(has(params(fmtp), "minptime=" + dec(cd.minptime)) && has(params(fmtp), std::string("stereo=") + (cd.stereo ? "1" : "0")), "audio options");
            vp_assert(has(fb, "nack") && has(fb, "nack pli") == video, "feedback");
        }
        // extensions
        std::vector<KV> here;
        for (auto& e : s.all("extmap")) { auto x = split(e, ' '); vp_assert(x.size() == 2, "extension"); uint64_t id = num(x[0]); vp_assert(id >= 1 && id <= 14, "extension id"); here.push_back({ x[0], x[1] }); }
        for (size_t a = 0; a < here.size(); a++) {
            for (size_t b = 0; b < a; b++) vp_assert(here[a].first != here[b].first && here[a].second != here[b].second, "extensions have ids of their own");
            for (auto& e : exts) vp_assert((e.first == here[a].first) == (e.second == here[a].second), "an id means one extension in a bundle");
        }
        exts.insert(exts.end(), here.begin(), here.end());
        auto ext = [&](const char* u) { for (auto& e : here) if (e.second == u) return true; return false; };
        bool sim = pub && !w.layer_list.empty();
        vp_assert(ext(kTwcc) == (!pub || c.enable_bwe), "transport wide feedback when asked for");
        vp_assert(ext(kCapture) == c.enable_abs_capture_time, "capture time when asked for");
        vp_assert(ext(kMid) == sim && ext(kRid) == sim && ext(kVla) == sim && ext(kRrid) == (sim && c.enable_rtx), "simulcast extensions");
        // layers
        auto rids = s.all("rid"), sims = s.all("simulcast");
        std::vector<std::pair<uint32_t, uint32_t>> want;
        if (sim) {
            vp_assert(rids.size() == w.layer_list.size() && sims.size() == 1, "layers");
            std::string l = "send ";
            for (size_t k = 0; k < rids.size(); k++) {
                auto& y = w.layer_list[k]; auto r = split(rids[k], ' ');
                vp_assert(r.size() == (c.enable_rfc8851 ? 3 : 2) && r[0] == y.name && r[1] == "send", "layer");
                if (c.enable_rfc8851) { auto p = params(r[2]); vp_assert(has(p, "max-width=" + dec(y.width)) && has(p, "max-height=" + dec(y.height)) && has(p, "max-fps=" + dec(y.frames_per_second)), "restrictions of the layer"); }
                l += (k ? ";" : "") + y.name;
                want.push_back(o->getVideoSimulastSSRC(w.id, y.name));
            }
            vp_assert(sims[0] == l, "list of layers");
        } else { vp_assert(rids.empty() && sims.empty(), "no layers"); want.push_back(o->getMediaSSRC(w.id)); }
        // SSRCs
        auto ss = s.all("ssrc"), gs = s.all("ssrc-group");
        vp_assert(gs.size() == (c.enable_rtx ? want.size() : 0), "pairs");
        size_t used = 0;
        for (size_t k = 0; k < want.size(); k++) {
            if (c.enable_rtx) vp_assert(gs[k] == "FID " + dec(want[k].first) + " " + dec(want[k].second), "pair of media and retransmissions");
            for (int h = 0; h < (c.enable_rtx ? 2 : 1); h++) {
                uint32_t v = h ? want[k].second : want[k].first;
                vp_assert(v != 0, "not the zero SSRC");
                for (auto x : ssrcs) vp_assert(x != v, "SSRCs are distinct");
                ssrcs.push_back(v);
                size_t cn = 0;
                for (auto& l : ss) if (starts(l, dec(v) + " ")) { used++; if (l == dec(v) + " cname:" + c.cname) cn++; }
                vp_assert(cn == 1, "SSRC with its name");
            }
        }
        vp_assert(used == ss.size(), "no other SSRCs");
        if (sim) vp_reach("simulcast");
    }
    if (!ssrcs.empty()) { auto cs = o->getControlPacketSource(); vp_assert(cs != nullptr && cs->getSSRC() == ssrcs[0], "reports are sent from an SSRC of the offer"); }
    if (data) {
        auto& s = d.s.back();
        vp_assert(s.m == "application 9 UDP/DTLS/SCTP webrtc-datachannel" && num(s.one("sctp-port")) == o->getSctpPort() && num(s.one("max-message-size")) == o->getSctpMaxMessageSize() && o->hasDataChannel(), "data channels");
        vp_reach("data");
    }
}
}
HARNESS(n02_offer)
{
    vp_rand_mode = 2; vp_rand_ctr = 5;
    SdpOffer::Config c; c.cname = "me";
    auto dir = vp_choose(2, "direction") ? Direction::Subscribe : Direction::Publish;
    c.enable_rtx = vp_choose(2, "rtx"); c.enable_bwe = vp_choose(2, "bwe"); c.enable_rfc8851 = vp_choose(2, "rfc8851"); c.enable_abs_capture_time = vp_choose(2, "capture");
    if (vp_choose(2, "data")) c.data_channels = { "d" };
    size_t n = vp_choose(vp_param("lines", 2) + 1, "lines");
    std::vector<SdpOffer::MediaLine> media;
    bool bad = false; size_t total = 0;
    static const uint32_t levels[] = { 0x42e01f, 0x00000a, 0x640c34 };
    for (size_t i = 0; i < n; i++) {
        SdpOffer::MediaLine m; m.id = std::string(1, (char)('p' + i)) + (i ? "v" : "");
        size_t k = vp_choose(vp_param("kinds", 8), "line");
        m.mediaType = k == 0 || k == 6 ? MediaType::Audio : MediaType::Video;
        static const Codec lists[8][5] = { { Codec::Opus }, { Codec::H264 }, { Codec::VP8, Codec::H264, Codec::H264 }, { Codec::AV1, Codec::VP9, Codec::H265 }, { Codec::H264, Codec::VP8 }, {}, { Codec::Opus, Codec::H264 }, { Codec::VP8, Codec::Rtx } };
        static const size_t sizes[] = { 1, 1, 3, 3, 2, 0, 2, 2 };
        for (size_t q = 0; q < sizes[k]; q++) {
            auto cd = lists[k][q];
            uint32_t pl = levels[(q + i + k) % 3];
            m.codec_list.emplace_back(cd, pl, cd == Codec::Opus ? 10 + 10 * i : 0, cd == Codec::Opus && i == 0);
        }
        if (k >= 5) bad = true;
        total += sizes[k] * (c.enable_rtx ? 2 : 1);
        if (k == 1 || k == 4) { uint16_t w = 320; for (auto& l : names(k == 1 ? 3 : 2)) { m.layer_list.push_back({ l, w, (uint16_t)(w / 2 + 1), (uint16_t)(15 + w % 7), (uint32_t)(w + 1) }); w *= 2; } }
        media.push_back(m);
    }
    if (n == 0 && c.data_channels.empty()) bad = true;
    auto o = mkOffer(dir, c, media);
    auto r = o->generate();
    vp_assert(r.second.isError() == bad, "an offer if and only if it makes sense");
    if (bad) { vp_assert(r.first.empty(), "no text with an error"); vp_reach("refused"); return; }
    check(o, dir, c, media, r.first);
    vp_reach("offer");
}
// as many codecs as there are payload types, and more
HARNESS(n02_many)
{
    vp_rand_mode = 2; vp_rand_ctr = 5;
    SdpOffer::Config c; c.cname = "me"; c.enable_rtx = vp_choose(2, "rtx");
    size_t a = 1 + vp_choose(2, "lines"), n = 13 + vp_choose(6, "codecs");
    if (!c.enable_rtx) n += 15;
    std::vector<SdpOffer::MediaLine> media;
    for (size_t i = 0; i < a; i++) { SdpOffer::MediaLine m; m.id = i ? "b" : "a"; m.mediaType = MediaType::Video; for (size_t k = 0; k < (a == 1 || i == 1 ? n - (a - 1) * 2 : 2); k++) m.codec_list.emplace_back(Codec::H264, 0x420000 + (uint32_t)k, 0, false); media.push_back(m); }
    auto o = mkOffer(Direction::Publish, c, media);
    auto r = o->generate();
    bool fits = n * (c.enable_rtx ? 2 : 1) <= 32;
    vp_assert(r.second.isOk() == fits, "as many codecs as there are payload types");
    if (!fits) { vp_reach("too-many"); return; }
    check(o, Direction::Publish, c, media, r.first);
    vp_reach("offer");
}
// whatever is drawn
HARNESS(n02_draws)
{
    vp_rand_mode = 2; vp_rand_ctr = 5;
    SdpOffer::Config c; c.cname = "me"; c.enable_rtx = vp_param("rtx", 1);
    std::vector<SdpOffer::MediaLine> media = { videoLine("0", { Codec::H264 }, names(vp_param("layers", 0))) };
    if (vp_param("second", 0)) media.push_back(audioLine("1"));
    if (vp_param("sizes", 0)) { c.enable_rfc8851 = true; for (auto& l : media[0].layer_list) { l.width = (uint16_t)vp_range(1000, 9999, "width"); l.height = (uint16_t)vp_range(100, 999, "height"); l.frames_per_second = (uint16_t)vp_range(10, 99, "fps"); } }
    auto o = mkOffer(Direction::Publish, c, media);
    vp_rand_mode = 3; vp_rand_sym = vp_param("draws", 36); vp_rand_ctr = 5;
    auto r = o->generate();
    vp_assert(r.second.isOk(), "offer");
    vp_rand_mode = 2;
    check(o, Direction::Publish, c, media, r.first);
    vp_reach("offer");
}

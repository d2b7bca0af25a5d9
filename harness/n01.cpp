#include "sdp.h"
#include <arpa/inet.h>
// What a well-formed answer says is what is reported
namespace {
std::string dec(uint64_t v) { return std::to_string(v); }
// any number of up to n digits, or such a number with something else around it; its value (n/a for what is no number)
struct Num { std::string s; bool valid; uint64_t v; };
Num anyNum(size_t maxDigits)
{
    Num r; r.valid = true; r.v = 0;
    size_t n = vp_choose(maxDigits + 1, "digits");
    static const char* const pre[] = { "", "42949", "655", "96", "4294" };
    std::string d = pre[vp_param("pre", 0)];
    for (char c : d) r.v = r.v * 10 + (uint64_t)(c - '0');
    size_t p = d.size(), e = p + n;
    d.resize(e, '0'); n = e;
    for (size_t i = p; i < e; i++) { d[i] = (char)vp_range('0', '9', "digit"); r.v = r.v * 10 + (uint64_t)(d[i] - '0'); }
    switch (vp_choose(4, "form")) {
    case 0: break;
    case 1: d = "-" + d; r.valid = false; break;
    case 2: d = d + "x"; r.valid = false; break;
    case 3: d = "\t" + d; r.valid = false; break;
    }
    if (n == 0) r.valid = false;
    r.s = d;
    return r;
}
const char* const kCand = "a=candidate:1 1 udp 99 1.2.3.4 5000 typ host\r\n";
struct Parsed { std::shared_ptr<SdpAnswer> a; Error e{ Error::Code::OK, "" }; };
OfferP offerFor(Direction d, std::vector<std::string> layers = {}, bool second = false)
{
    vp_rand_mode = 2; vp_rand_ctr = 99;
    SdpOffer::Config c; c.cname = "me"; c.data_channels = { "d" };
    std::vector<SdpOffer::MediaLine> m = { videoLine("0", { Codec::H264, Codec::VP8 }, layers), audioLine("1") };
    if (second) m.push_back(videoLine("2", { Codec::H264 }));
    auto o = mkOffer(d, c, m);
    vp_assert(o->generate().second.isOk(), "offer");
    return o;
}
std::shared_ptr<SdpAnswer> parse(const OfferP& o, const std::string& text)
{
    auto r = SdpAnswer::parse(o, text, nullptr);
    vp_assert((r.first != nullptr) == r.second.isOk(), "an answer or an error");
    return r.first;
}
const char* const kVideo = "m=video 9 UDP/TLS/RTP/SAVPF 96 97\r\na=mid:0\r\na=rtcp-mux\r\na=rtpmap:96 H264/90000\r\na=rtpmap:97 rtx/90000\r\na=fmtp:97 apt=96\r\n";
const char* const kData = "m=application 9 UDP/DTLS/SCTP webrtc-datachannel\r\na=mid:d\r\n";
}
// numbers: ports, payload types, extension ids, SSRCs, sizes
HARNESS(n01_num)
{
    int what = (int)vp_param("what", 0);
    static const size_t digits[] = { 6, 4, 4, 11, 6, 11, 4, 11 };
    Num n = anyNum(vp_param("digits", digits[what]));
    bool sub = what == 3 || what == 7;
    auto o = offerFor(sub ? Direction::Subscribe : Direction::Publish);
    std::string head = "v=0\r\na=ice-ufrag:u\r\na=ice-pwd:p\r\n";
    auto u32 = [&] { return n.valid && n.v <= 0xffffffffull; };
    switch (what) {
    case 0: { // candidate port
        auto a = parse(o, head + kVideo + "a=candidate:1 1 udp 99 1.2.3.4 " + n.s + " typ host\r\n");
        bool ok = n.valid && n.v >= 1 && n.v <= 65535;
        vp_assert((a != nullptr) == ok, "a candidate with a legal port, and no other, is accepted");
        if (ok) { auto h = a->getHostList(); vp_assert(h.size() == 1 && h[0].addr.ss.ss_family == AF_INET && ntohs(h[0].addr.sin_ipv4.sin_port) == n.v, "port"); vp_reach("legal"); } else vp_reach("illegal");
        break; }
    case 1: { // payload type
        auto a = parse(o, head + kCand + "m=video 9 UDP/TLS/RTP/SAVPF " + n.s + "\r\na=mid:0\r\na=rtcp-mux\r\na=rtpmap:" + n.s + " VP8/90000\r\na=rtcp-fb:" + n.s + " nack\r\n");
        bool ok = n.valid && n.v >= 96 && n.v <= 127;
        vp_assert((a != nullptr) == ok, "a dynamic payload type, and no other, is accepted");
        if (ok) { auto t = a->getTrackList(); vp_assert(t.size() == 1 && t[0]->getPayloadId() == n.v && t[0]->getCodec() == Codec::VP8 && t[0]->hasNack() && !t[0]->hasPli() && t[0]->getRtxPayloadId() == 0, "payload type"); vp_reach("legal"); } else vp_reach("illegal");
        break; }
    case 2: { // extension id
        auto a = parse(o, head + kCand + kVideo + "a=extmap:" + n.s + " urn:x\r\n");
        bool ok = n.valid && n.v >= 1 && n.v <= 255;
        vp_assert(a != nullptr && a->getMediaList().size() == 1, "answer");
        auto& m = a->getMediaList()[0]->getExtensionMap();
        vp_assert(m.findByName("urn:x") == (ok ? n.v : 0), "the id of an extension, none if illegal");
        vp_reach(ok ? "legal" : "illegal");
        break; }
    case 3: { // SSRC of what we receive
        auto a = parse(o, head + kCand + kVideo + "a=ssrc:" + n.s + " cname:x\r\n");
        bool ok = u32() && n.v != 0;
        vp_assert((a != nullptr) == ok, "a legal SSRC, and no other, makes a track");
        if (ok) { vp_assert(a->getTrackList().size() == 1 && a->getTrackList()[0]->getSSRC() == n.v, "SSRC"); vp_reach("legal"); } else vp_reach("illegal");
        break; }
    case 4: { // SCTP port
        auto a = parse(o, head + kCand + kData + "a=sctp-port:" + n.s + "\r\n");
        bool ok = n.valid && n.v >= 1 && n.v <= 65535;
        vp_assert(a != nullptr && a->hasDataChannel() && a->getSctpPort() == (ok ? n.v : 5000), "SCTP port, the default if illegal");
        vp_reach(ok ? "legal" : "illegal");
        break; }
    case 5: { // message size
        auto a = parse(o, head + kCand + kData + "a=max-message-size:" + n.s + "\r\n");
        bool ok = u32();
        vp_assert(a != nullptr && a->hasDataChannel(), "answer");
        vp_assert(a->getMaxMessageSize() == (ok ? n.v : 262144), "message size, the default if illegal");
        vp_reach(ok ? "legal" : "illegal");
        break; }
    case 6: { // referenced payload type
        auto a = parse(o, head + kCand + "m=video 9 UDP/TLS/RTP/SAVPF 96 97 98\r\na=mid:0\r\na=rtcp-mux\r\na=rtpmap:96 H264/90000\r\na=rtpmap:97 rtx/90000\r\na=rtpmap:98 VP8/90000\r\na=fmtp:97 apt=" + n.s + "\r\n");
        vp_assert(a != nullptr && a->getTrackList().size() == 1 && a->getTrackList()[0]->getPayloadId() == 96, "answer");
        bool ok = n.valid && n.v == 96;
        vp_assert(a->getTrackList()[0]->getRtxPayloadId() == (ok ? 97 : 0), "retransmission pairing of the payload type named");
        vp_reach(ok ? "legal" : "illegal");
        break; }
    case 7: { // pair of SSRCs
        auto a = parse(o, head + kCand + kVideo + "a=ssrc:77 cname:x\r\na=ssrc-group:FID 77 " + n.s + "\r\n");
        vp_assert(a != nullptr && a->getTrackList().size() == 1 && a->getTrackList()[0]->getSSRC() == 77, "SSRC");
        bool ok = u32();
        vp_assert(a->getTrackList()[0]->getRtxSSRC() == (ok ? n.v : 0), "SSRC of the retransmissions");
        vp_reach(ok ? "legal" : "illegal");
        break; }
    }
}
namespace {
const char hexDigits[] = "0123456789abcdef";
// a character of a name: not a separator, not the end of a line
char nameChar(const char* what) { uint64_t c = vp_range(33, 255, what); return (char)c; }
std::string name(size_t n, const char* what) { std::string s(n, 0); for (auto& c : s) c = nameChar(what); return s; }
std::string eol() { return vp_choose(2, "eol") ? "\r\n" : "\n"; }
}
// who the remote side is
HARNESS(n01_identity)
{
    auto o = offerFor(Direction::Publish);
    std::string uf = name(1 + vp_choose(vp_param("len", 2), "uflen"), "ufrag"), pw = name(1 + vp_choose(vp_param("len", 2), "pwlen"), "pwd");
    size_t n = vp_param("hash", 3);
    std::vector<uint8_t> h(n); std::string hx;
    bool upper = vp_choose(2, "case");
    for (size_t i = 0; i < n; i++) {
        h[i] = (uint8_t)vp_range(0, 255, "hash");
        if (i) hx += ':';
        for (int k = 4; k >= 0; k -= 4) { uint8_t d = (h[i] >> k) & 15; hx += (char)(d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10); }
    }
    size_t setup = vp_choose(3, "setup");
    std::string e = eol();
    std::string set = setup == 0 ? "a=setup:active" + e : setup == 1 ? "a=setup:passive" + e : "";
    std::string id = "a=ice-ufrag:" + uf + e + "a=ice-pwd:" + pw + e + set, fp = "a=fingerprint:sha-256 " + hx + e;
    if (vp_choose(2, "order")) id = fp + id; else id += fp;
    bool inSection = vp_choose(2, "inside");
    auto a = parse(o, "v=0" + e + (inSection ? "" : id) + kVideo + (inSection ? id : "") + kCand);
    vp_assert(a != nullptr, "accepted");
    vp_assert(a->getIceUFrag() == uf, "user name"); vp_assert(a->getIcePassword() == pw, "password");
    vp_assert(a->isSetupActive() == (setup == 0), "role");
    auto& b = a->getCertificateHash().getBin();
    vp_assert(b.size() == n && vp_eq(b.data(), h.data(), n), "fingerprint");
    vp_assert(a->getCertificateHash().getAlg() == "sha-256" && a->getCertificateHash().getHex() == hx, "fingerprint as text");
    vp_assert(a->getDirection() == Direction::Publish && !a->hasDataChannel() && !a->isVideoSimulcast(), "kind");
    vp_reach("identity");
}
// where to connect to
HARNESS(n01_candidates)
{
    auto o = offerFor(Direction::Publish);
    size_t n = 1 + vp_choose(vp_param("count", 3), "candidates");
    struct Want { bool v6; uint8_t a[16]; uint16_t port; };
    std::vector<Want> want;
    std::string text;
    for (size_t i = 0; i < n; i++) {
        Want w{}; std::string addr;
        w.v6 = vp_choose(2, "family");
        if (w.v6) {
            uint8_t x = (uint8_t)vp_range(0, 15, "nibble"), y = (uint8_t)vp_range(0, 15, "nibble");
            addr = "2001:db8::"; addr += hexDigits[(int)vp_range(1, 1, "one")]; addr += x < 10 ? (char)('0' + x) : (char)('a' + x - 10); addr += ':'; addr += y < 10 ? (char)('0' + y) : (char)('A' + y - 10);
            w.a[0] = 0x20; w.a[1] = 0x01; w.a[2] = 0x0d; w.a[3] = 0xb8; w.a[13] = (uint8_t)(16 + x); w.a[15] = y;
        } else {
            uint8_t x = (uint8_t)vp_range(0, 9, "digit"), y = (uint8_t)vp_range(0, 5, "digit"), z = (uint8_t)vp_range(1, 9, "digit");
            addr = "25"; addr += (char)('0' + y); addr += ".0."; addr += (char)('0' + z); addr += (char)('0' + x); addr += '.'; addr += (char)('0' + x);
            w.a[0] = (uint8_t)(250 + y); w.a[2] = (uint8_t)(10 * z + x); w.a[3] = x;
        }
        uint8_t p = (uint8_t)vp_range(0, 9, "port");
        w.port = (uint16_t)(50000 + p);
        const char* const comp[] = { "1", "1", "2", "1", "1" }; const char* const proto[] = { "udp", "udp", "udp", "tcp", "udp" }; const char* const typ[] = { "host", "host generation 0", "host", "host tcptype active", "srflx raddr 1.2.3.4 rport 9" };
        size_t k = vp_choose(vp_param("kinds", 5), "kind");
        text += std::string("a=candidate:7 ") + comp[k] + " " + proto[k] + " 2130706431 " + addr + " 5000" + (char)('0' + p) + " typ " + typ[k] + "\r\n";
        if (k > 1) continue;
        bool dup = false;
        for (auto& q : want) if (q.v6 == w.v6 && q.port == w.port && vp_eq(q.a, w.a, 16)) dup = true;
        if (!dup) want.push_back(w); else vp_reach("duplicate");
    }
    auto a = parse(o, std::string("v=0\r\na=ice-ufrag:u\r\na=ice-pwd:p\r\n") + kVideo + text);
    vp_assert((a != nullptr) == !want.empty(), "somewhere to connect to");
    if (!a) { vp_reach("nowhere"); return; }
    auto hosts = a->getHostList();
    vp_assert(hosts.size() == want.size(), "every address once");
    for (size_t i = 0; i < want.size(); i++) {
        auto& w = want[i]; auto& h = hosts[i].addr;
        vp_assert(h.ss.ss_family == (w.v6 ? AF_INET6 : AF_INET), "family");
        vp_assert(w.v6 ? vp_eq((const uint8_t*)&h.sin_ipv6.sin6_addr, w.a, 16) : vp_eq((const uint8_t*)&h.sin_ipv4.sin_addr, w.a, 4), "address");
        vp_assert(ntohs(w.v6 ? h.sin_ipv6.sin6_port : h.sin_ipv4.sin_port) == w.port, "port");
    }
    vp_reach("hosts");
}
namespace {
struct Spy : TrackSelector {
    mutable std::vector<std::vector<TrackP>> seen;
    TrackP selectTrack(const std::vector<TrackP>& l) const override { seen.push_back(l); return l[pick < l.size() ? pick : l.size() - 1]; }
    size_t pick = 0;
};
}
// codecs, retransmission pairing, options and feedback of each payload type
HARNESS(n01_codecs)
{
    bool video = !vp_param("audio", 0);
    auto o = offerFor(Direction::Publish);
    static const char* const names[] = { "VP8", "VP9", "H264", "H265", "AV1", "opus", "rtx", "red" };
    static const Codec codecs[] = { Codec::VP8, Codec::VP9, Codec::H264, Codec::H265, Codec::AV1, Codec::Opus, Codec::Rtx };
    size_t n = 1 + vp_choose(vp_param("count", 3), "payloads");
    static const unsigned pts[] = { 127, 96, 105, 111 };
    std::string m = video ? "m=video 9 UDP/TLS/RTP/SAVPF" : "m=audio 9 UDP/TLS/RTP/SAVPF", maps, rest;
    struct W { unsigned pt; size_t codec; size_t apt; bool nack, pli; uint32_t clock, level, ptime; bool stereo; };
    std::vector<W> w;
    for (size_t i = 0; i < n; i++) {
        W x{}; x.pt = pts[i]; m += " " + dec(x.pt);
        x.codec = vp_param("few", 0) ? 2 + 4 * vp_choose(2, "codec") : vp_choose(8, "codec");
        x.clock = 90000 + (uint32_t)vp_range(0, 9, "clock");
        x.apt = 99;
        std::string l = "a=rtpmap:" + dec(x.pt) + " " + names[x.codec] + "/9000" + (char)('0' + (x.clock - 90000)) + (x.codec == 5 ? "/2" : "") + "\r\n";
        maps = vp_param("reverse", 0) ? l + maps : maps + l;
        if (x.codec == 6) { x.apt = vp_choose(n + 1, "apt"); rest += "a=fmtp:" + dec(x.pt) + " rtx-time=3000;apt=" + dec(x.apt < n ? pts[x.apt] : 120) + "\r\n"; }
        else if (x.codec == 2 && vp_choose(2, "level")) {
            static const char up[] = "0123456789ABCDEF";
            uint8_t hi = (uint8_t)vp_range(0, 15, "level"), lo = (uint8_t)vp_range(0, 9, "level");
            bool u = vp_choose(2, "case");
            x.level = 0x42e000 + hi * 16u + lo;
            rest += "a=fmtp:" + dec(x.pt) + " packetization-mode=1;profile-level-id=42" + (u ? "E0" : "e0"); rest += hi < 10 ? (char)('0' + hi) : (char)((u ? 'A' : 'a') + hi - 10); rest += (char)('0' + lo); rest += ";x=1\r\n"; (void)up;
        } else if (x.codec == 5) {
            uint8_t d = (uint8_t)vp_range(0, 9, "ptime"); x.ptime = 10u + d; x.stereo = vp_choose(2, "stereo");
            rest += "a=fmtp:" + dec(x.pt) + " minptime=1" + (char)('0' + d) + ";useinbandfec=1;stereo=" + (x.stereo ? "1" : "0") + "\r\n";
        }
        size_t f = vp_param("fb", 1) ? vp_choose(4, "feedback") : 1;
        if (f & 1) { x.nack = true; rest += "a=rtcp-fb:" + dec(x.pt) + " nack\r\n"; }
        if (f & 2) { x.pli = x.nack = true; rest += "a=rtcp-fb:" + dec(x.pt) + " transport-cc\r\na=rtcp-fb:" + dec(x.pt) + " nack pli\r\n"; }
        w.push_back(x);
    }
    m += "\r\na=mid:"; m += video ? "0" : "1"; m += "\r\na=rtcp-mux\r\n";
    auto spy = std::make_shared<Spy>();
    spy->pick = vp_choose(n, "pick");
    auto r = SdpAnswer::parse(o, std::string("v=0\r\na=ice-ufrag:u\r\na=ice-pwd:p\r\n") + kCand + m + maps + rest, spy);
    std::vector<W*> tracks;
    for (auto& x : w) if (x.codec < 6) tracks.push_back(&x);
    vp_assert((r.first != nullptr) == !tracks.empty(), "a section with a codec, and no other, is accepted");
    if (!r.first) { vp_reach("none"); return; }
    vp_assert(spy->seen.size() == 1 && spy->seen[0].size() == tracks.size(), "every codec is offered to the selector");
    auto ssrc = o->getMediaSSRC(video ? "0" : "1");
    for (size_t i = 0; i < tracks.size(); i++) {
        auto& x = *tracks[i]; auto& t = spy->seen[0][i];
        unsigned rtx = 0;
        for (auto& y : w) if (y.codec == 6 && y.apt < n && w[y.apt].pt == x.pt) rtx = y.pt;
        vp_assert(t->getPayloadId() == x.pt && t->getCodec() == codecs[x.codec] && t->getClockRate() == x.clock, "codec");
        vp_assert(t->getRtxPayloadId() == rtx, "payload type of the retransmissions");
        vp_assert(t->hasPli() == x.pli && (t->hasNack() || !x.nack) && (!t->hasNack() || x.nack), "feedback");
        auto opt = t->getCodecOptions();
        if (video) vp_assert((opt ? opt->profileLevelId : 0) == x.level, "profile and level");
        else vp_assert((opt ? opt->minptime : 0) == x.ptime && (opt ? opt->stereo : false) == x.stereo, "audio options");
        vp_assert(t->getSSRC() == ssrc.first && t->getRtxSSRC() == (rtx ? ssrc.second : 0), "SSRCs of the offer");
        vp_assert(t->getDirection() == Direction::Publish && t->getMediaType() == (video ? MediaType::Video : MediaType::Audio), "kind");
        if (rtx) vp_reach("paired");
    }
    auto list = r.first->getTrackList();
    vp_assert(list.size() == 1 && list[0] == spy->seen[0][spy->pick < tracks.size() ? spy->pick : tracks.size() - 1], "the selected one is used");
    HighestTrackSelector best;
    auto b = best.selectTrack(spy->seen[0]);
    for (auto& t : spy->seen[0]) {
        auto lv = [](const TrackP& q) { auto c = q->getCodecOptions(); return c ? c->profileLevelId : 0u; };
        if (video) vp_assert(b->getCodec() > t->getCodec() || (b->getCodec() == t->getCodec() && lv(b) >= lv(t)), "best codec, then best profile");
        else vp_assert(b == spy->seen[0][0], "first audio codec");
    }
    vp_reach("codecs");
}
// layers of a simulcast answer: the offer's, in the order of the answer
HARNESS(n01_simulcast)
{
    std::vector<std::string> layers = { "lo", "mid", "hi" };
    auto o = offerFor(Direction::Publish, layers);
    size_t n = 1 + vp_choose(3, "layers");
    std::string rids, list; std::vector<size_t> want;
    bool used[4] = {};
    for (size_t i = 0; i < n; i++) {
        size_t k = vp_choose(4, "rid");
        if (used[k]) vp_assume(0);
        used[k] = true;
        std::string nm = k < 3 ? layers[k] : "xx";
        rids += "a=rid:" + nm + " recv\r\n"; if (i) list += ";"; list += nm;
        if (k < 3) want.push_back(k);
    }
    std::string sim = "a=simulcast:recv " + list + "\r\n";
    bool first = vp_choose(2, "order");
    auto a = parse(o, std::string("v=0\r\na=ice-ufrag:u\r\na=ice-pwd:p\r\n") + kVideo + (first ? sim + rids : rids + sim) + kCand + "m=audio 9 UDP/TLS/RTP/SAVPF 111\r\na=mid:1\r\na=rtcp-mux\r\na=rtpmap:111 opus/48000/2\r\n");
    vp_assert(a != nullptr, "accepted");
    auto t = a->getTrackList();
    if (want.empty()) { vp_assert(!a->isVideoSimulcast() && t.size() == 2 && !t[0]->isSimulcast(), "no layer of ours"); vp_reach("no-layers"); return; }
    vp_assert(a->isVideoSimulcast() && t.size() == want.size() + 1, "one track for each layer");
    for (size_t i = 0; i < want.size(); i++) {
        auto& x = t[i]; auto l = x->getSimulcastLayer(); size_t k = want[i];
        vp_assert(x->isSimulcast() && l && l->name == layers[k] && l->index == k, "layer");
        uint32_t wd = 320u << k;
        vp_assert(l->width == wd && l->height == wd / 2 && l->frames_per_second == 15 && l->kilobits_per_second == wd + 1, "size and rate of the layer");
        auto s = o->getVideoSimulastSSRC("0", layers[k]);
        vp_assert(x->getSSRC() == s.first && x->getRtxSSRC() == s.second && s.first != 0 && s.second != 0 && s.first != s.second, "SSRCs of the layer");
        vp_assert(x->getPayloadId() == 96 && x->getRtxPayloadId() == 97 && x->getCodec() == Codec::H264, "codec");
        for (size_t j = 0; j < i; j++) vp_assert(t[j]->getSSRC() != x->getSSRC(), "layers have SSRCs of their own");
    }
    vp_assert(!t.back()->isSimulcast() && t.back()->getCodec() == Codec::Opus, "audio");
    vp_reach("layers");
}
// several sections: what is said of one is not said of another
HARNESS(n01_sections)
{
    bool sub = vp_param("sub", 0);
    auto o = offerFor(sub ? Direction::Subscribe : Direction::Publish, {}, true);
    size_t n = 1 + vp_choose(vp_param("count", 3), "sections");
    std::string text = "v=0\r\na=ice-ufrag:u\r\na=ice-pwd:p\r\n";
    bool cand = vp_choose(4, "candidate") != 3, mux = false, data = false, bad = false, unknown = false;
    if (cand) text += kCand;
    struct W { std::string mid; bool audio, rtx, nack; uint8_t ext; uint32_t ssrc, rs; };
    std::vector<W> w;
    for (size_t i = 0; i < n; i++) {
        size_t kind = vp_choose(5, "kind"); // video, audio, data, other data, other transport
        if (kind >= 2) {
            if (kind == 2) { text += std::string(kData) + "a=sctp-port:500" + (char)('0' + i) + "\r\n"; data = true; }
            else if (kind == 3) text += "m=application 9 TCP/DTLS/SCTP webrtc-datachannel\r\na=mid:d\r\na=sctp-port:6000\r\n";
            else { text += "m=video 9 RTP/AVP 96\r\na=mid:0\r\n"; bad = true; break; }
            text += "a=extmap:9 urn:a\r\na=rtpmap:96 VP9/90000\r\na=ssrc:5 cname:x\r\na=rtcp-fb:96 nack pli\r\n";
            continue;
        }
        W x{}; x.audio = kind == 1;
        x.mid = x.audio ? "1" : (i == 0 ? "0" : "2");
        if (vp_choose(4, "mid") == 3) { x.mid = "9"; unknown = true; }
        text += x.audio ? "m=audio 9 UDP/TLS/RTP/SAVPF 96 97\r\na=rtpmap:96 opus/48000/2\r\n" : "m=video 9 UDP/TLS/RTP/SAVPF 96 97\r\na=rtpmap:96 H264/90000\r\n";
        text += "a=mid:" + x.mid + "\r\n";
        bool full = vp_choose(2, "full");
        if (full) { x.rtx = x.nack = true; x.ext = 3; mux = true; text += "a=rtcp-mux\r\na=rtpmap:97 rtx/90000\r\na=fmtp:97 apt=96\r\na=rtcp-fb:96 nack\r\na=extmap:3 urn:a\r\na=extmap:4 urn:b\r\n"; }
        if (full || !sub || vp_choose(2, "ssrc")) { x.ssrc = 100 + (uint32_t)i; x.rs = full ? 200 + (uint32_t)i : 0; text += "a=ssrc:" + dec(x.ssrc) + " cname:x\r\n"; if (full) text += "a=ssrc-group:FID " + dec(x.ssrc) + " " + dec(x.rs) + "\r\n"; }
        w.push_back(x);
        if (sub && !x.ssrc) bad = true;
    }
    auto a = parse(o, text);
    bool ok = !bad && cand && (w.empty() ? data : mux) && !(unknown && !sub);
    vp_assert((a != nullptr) == ok, "accepted if and only if it says all that is needed");
    if (!a) { vp_reach("refused"); return; }
    vp_assert(a->hasDataChannel() == data, "data channel");
    auto m = a->getMediaList(); auto t = a->getTrackList();
    vp_assert(m.size() == w.size() && t.size() == w.size(), "every section");
    for (size_t i = 0; i < w.size(); i++) {
        vp_assert(m[i]->getId() == w[i].mid && m[i]->getType() == (w[i].audio ? MediaType::Audio : MediaType::Video) && t[i]->getMedia() == m[i], "section");
        vp_assert(m[i]->getExtensionMap().findByName("urn:a") == w[i].ext && m[i]->getExtensionMap().findByName("urn:b") == (w[i].ext ? 4 : 0), "extensions of the section");
        vp_assert(m[i]->getExtensionMap().findById(3) == (w[i].ext ? "urn:a" : ""), "extensions of the section by id");
        vp_assert(t[i]->getCodec() == (w[i].audio ? Codec::Opus : Codec::H264) && t[i]->getPayloadId() == 96, "codec");
        vp_assert(t[i]->getRtxPayloadId() == (w[i].rtx ? 97 : 0) && t[i]->hasNack() == w[i].nack && !t[i]->hasPli(), "feedback");
        auto s = sub ? std::make_pair(w[i].ssrc, w[i].rs) : o->getMediaSSRC(w[i].mid);
        vp_assert(t[i]->getSSRC() == s.first && t[i]->getRtxSSRC() == (w[i].rtx ? s.second : 0), "SSRCs");
        vp_assert(t[i]->getDirection() == (sub ? Direction::Subscribe : Direction::Publish), "direction");
    }
    vp_reach("accepted");
}

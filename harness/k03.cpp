#include "peer.h"
#include "stun5389.h"
#include <set>
// Who is on the other side: a connection is up only with the holder of the certificate named in the answer, after ICE, and while it can be heard
namespace {
const std::string kOurPw = "anspassword";
struct World {
    Peer w; std::vector<std::vector<uint8_t>> requests; // what has been asked
    explicit World(const ByteBuffer& hash, bool active) : w(Direction::Publish, { mkTrack(Codec::H264, 0xa0) }, hash, active) {}
    std::map<std::vector<uint8_t>, int64_t> open; // ids of requests not yet answered, and when they were sent
    // everything sent since the last time; checks our requests
    void collect(bool nominated)
    {
        w.pc->run();
        for (auto& d : gOut) {
            if (d.size() < 20 || d[0] > 3) continue;
            stun::StunMessage m = {}; m.buffer = d.data(); m.buffer_len = d.size();
            if (stun::stun_message_get_class(&m) != stun::STUN_REQUEST) { responses.push_back(d); continue; }
            IceAgent a;
            vp_assert(a.verifyRequestMessage(&m, "ansu:" + w.offer->getIceUFrag(), kOurPw), "requests carry the credentials of the other side");
            bool use = stun::stun_message_has_attribute(&m, stun::STUN_ATTRIBUTE_USE_CANDIDATE);
            if (use) { vp_assert(nominated, "nominated after an answer"); nominations++; }
            requests.push_back(d); 
            uint8_t id[16]; stun::stun_message_id(&m, id); std::vector<uint8_t> v(id, id + 16);
            vp_assert(open.insert({ v, vp_clock_ns }).second, "ids differ");
        }
        gOut.clear();
    }
    size_t nominations = 0; std::vector<std::vector<uint8_t>> responses;
    // kind: 0 right, 1 wrong password, 2 an error, 3 unknown id
    void answer(const std::vector<uint8_t>& req, int kind)
    {
        uint8_t buf[256]; stun::StunMessage q = {}, m = {}; auto r = req; if (kind == 3) r[12] ^= 0x55;
        q.buffer = r.data(); q.buffer_len = r.size();
        IceAgent a; a.initResponse(&m, buf, sizeof buf, &q);
        if (kind == 2) { buf[0] = 1; buf[1] = 0x11; stun::stun_message_append_error(&m, stun::STUN_ERROR_BAD_REQUEST); }
        a.finishMessage(&m, std::nullopt, kind == 1 ? "other" : kOurPw);
        w.arrives(std::vector<uint8_t>(buf, buf + stun::stun_message_length(&m)));
    }
    void dtls() { w.arrives({ 22, 254, 253, 0, 0, 0, 0, 0, 0, 0 }); }
};
ByteBuffer digest() { ByteBuffer b(32); b.resize(32); for (int i = 0; i < 32; i++) b.data()[i] = (uint8_t)(0xa0 + i * 7); return b; }
}
// the certificate: arbitrary fingerprint in the answer, any outcome of the handshake
HARNESS(k03_cert)
{
    vp_rand_mode = 2; gHandshake = -1; gSslErr = SSL_ERROR_WANT_READ;
    size_t n = vp_param("whole", 0) ? 32 : vp_choose(3, "length") * 16; // as parsed from the answer
    ByteBuffer hash = symBuf(n, "fingerprint");
    bool active = vp_choose(2, "active");
    World x(hash, active); auto& w = x.w;
    w.pass(0); x.collect(false);
    vp_assert(w.rec.count(evConnecting) == 1 && x.requests.size() == 1, "connecting begins with a request");
    x.dtls(); vp_assert(gServer == -1, "no handshake before the answer to a request");
    x.answer(x.requests[0], 0); x.collect(true);
    vp_assert(w.rec.count(evIce) == 1 && x.nominations == 1, "the candidate is nominated");
    vp_assert(gServer == (active ? 1 : 0) && gVerifyPeer, "the handshake begins in the role agreed, asking for the certificate");
    bool keysAlike = n == 32 && vp_eq(hash.data(), digest().data(), 32);
    int outcome = (int)vp_choose(6, "outcome");
    gHandshake = outcome == 1 ? -1 : outcome == 2 ? 0 : 1; gSslErr = outcome == 1 ? SSL_ERROR_WANT_READ : outcome == 2 ? SSL_ERROR_SSL : 0; gCert = outcome != 3;
    vp_ssl_profile = outcome == 4 ? 0 : outcome == 5 ? SRTP_AES128_CM_SHA1_80 : SRTP_AEAD_AES_128_GCM; memset(vp_ssl_material, 7, sizeof vp_ssl_material);
    x.dtls();
    bool up = (outcome == 0 || outcome == 5) && keysAlike;
    vp_assert(w.rec.count(evDtls) == up, "connected only to the holder of the certificate");
    vp_assert((w.pc->mSrtpConnection != nullptr) == up, "keys are used only then");
    vp_assert(w.rec.count(evFailed) == (!up && outcome != 1), "otherwise it fails");
    vp_reach(up ? "up" : outcome == 1 ? "waiting" : "refused");
    if (up) { // stays up only while it is heard
        w.pass(4999); vp_assert(w.rec.count(evFailed) == 0 && w.rec.count(evConnecting) == 1, "up");
        w.pass(2); vp_assert(w.rec.count(evConnecting) == 2, "not heard for five seconds");
    } else if (outcome == 1) { w.pass(5000); vp_assert(w.rec.count(evFailed) == 1 && w.rec.count(evDtls) == 0, "a handshake which does not end fails in time"); }
    else { w.pc->mDtlsReceiveQueue.clear(); gHandshake = 1; gSslErr = 0; gCert = true; x.dtls(); vp_assert(w.rec.count(evDtls) == 0, "and stays so"); }
}
// histories: answers right and wrong, handshake data, media from the peer and from others, time
HARNESS(k03)
{
    vp_rand_mode = 2; gHandshake = 1; gSslErr = 0; gCert = true; vp_ssl_profile = SRTP_AEAD_AES_128_GCM; memset(vp_ssl_material, 7, sizeof vp_ssl_material);
    World x(digest(), false); auto& w = x.w;
    w.pass(0); x.collect(false);
    bool ice = false, keys = false, up = false, down = false; int64_t began = vp_clock_ns, heard = 0; uint16_t seq = 100;
    size_t connected = 0, lost = 1, failed = 0; ByteBuffer last;
    if (vp_param("up", 0)) { x.answer(x.requests[0], 0); x.open.clear(); x.collect(true); x.dtls(); ice = keys = up = true; connected = 1; heard = vp_clock_ns; }
    for (int st = 0; st < (int)vp_param("steps", 4); st++) {
        switch (vp_choose(5, "what")) {
        case 0: { // an answer
            size_t i = vp_choose(x.requests.size() < 3 ? x.requests.size() : 3, "request"); i = x.requests.size() - 1 - i; int kind = (int)vp_choose(4, "kind");
            uint8_t id[16]; stun::StunMessage m = {}; m.buffer = x.requests[i].data(); m.buffer_len = x.requests[i].size(); stun::stun_message_id(&m, id);
            std::vector<uint8_t> v(id, id + 16); bool known = x.open.count(v) && kind < 2;
            if (known && vp_clock_ns - x.open[v] > 4500000000ll) vp_end(); // forgotten after 5 seconds, give or take; I02 has this
            if (known) x.open.erase(v);
            x.answer(x.requests[i], kind);
            if (known && kind == 0) { if (!ice) { ice = true; vp_reach("ice"); } else if (keys) { heard = vp_clock_ns; if (!up) { up = true; connected++; last.resize(0); vp_reach("restored"); } } }
            break; }
        case 1: x.dtls(); if (ice && !keys) { keys = up = true; connected++; heard = vp_clock_ns; vp_reach("up"); } break;
        case 2: { // a control packet: 0 right, 1 altered, 2 once more
            if (!w.pc->mSrtpConnection) { w.arrives({ 0x81, 206, 0, 2, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0 }); vp_assert(!keys, "keys"); break; }
            int kind = (int)vp_choose(3, "kind"); ByteBuffer e;
            if (kind == 2 && last.empty()) vp_end(); // after a connection is restored see k03_replay
            if (kind != 2) { ByteBuffer b; ByteWriter bw(b); bw.writeU8(0x81); bw.writeU8(206); bw.writeU16(2); bw.writeU32(0x77); bw.writeU32(0); if (!w.far) { CryptoBytes k[2], s[2]; uint8_t z[32]; memset(z, 7, 32); for (int d = 0; d < 2; d++) { k[d].assign(z, 16); s[d].assign(z, 12); } w.far = std::make_shared<SrtpConnection>(SrtpCrypto::create(SRTP_AEAD_AES_128_GCM, k[0], s[0], k[1], s[1]).first, (unsigned long)SRTP_AEAD_AES_128_GCM); } vp_assert(w.far->protectSendControl(b, seq++, e), "protected"); } else e = last.copy();
            if (kind == 0) last = e.copy();
            if (kind == 1) e.data()[9] ^= 1;
            size_t asked = w.rec.count(evKey);
            w.arrives(std::vector<uint8_t>(e.data(), e.data() + e.size()));
            vp_assert(w.rec.count(evKey) == asked + (kind == 0), "only what the peer has sent counts");
            if (kind == 0) { heard = vp_clock_ns; if (!up) { up = true; connected++; last.resize(0); vp_reach("restored"); } }
            else vp_reach("forged");
            break; }
        default: { // time
            static const int ms[] = { 150, 1200, 4990, 5001 }; int d = ms[vp_choose(vp_param("times", 4), "time")];
            w.pass(d);
            if (!failed) {
                if (!up && vp_clock_ns - began >= 5000000000ll) { failed++; vp_reach("failed"); }
                else if (up && vp_clock_ns - heard >= 5000000000ll) { up = false; lost++; began = vp_clock_ns; vp_reach("lost"); }
            } }
        }
        x.collect(ice);
        vp_assert(w.rec.count(evIce) == ice, "ICE is done with the first right answer");
        vp_assert(w.rec.count(evDtls) == connected, "connected when, and only when, the peer is known and heard");
        vp_assert(w.rec.count(evConnecting) == lost, "connecting");
        vp_assert(w.rec.count(evFailed) == failed, "failed when the time is over");
        if (failed) break; // the candidate is dropped
        if (!ice && vp_clock_ns - began >= 1000000000ll) vp_assert(x.requests.size() >= 2, "requests are repeated");
    }
    vp_reach("done");
}
// what was recorded before the connection was lost
HARNESS(k03_replay)
{
    vp_rand_mode = 2; gHandshake = 1; gSslErr = 0; gCert = true; vp_ssl_profile = SRTP_AEAD_AES_128_GCM; memset(vp_ssl_material, 7, sizeof vp_ssl_material);
    World x(digest(), false); auto& w = x.w;
    w.pass(0); x.collect(false); x.answer(x.requests[0], 0); x.collect(true); x.dtls(); vp_assert(w.rec.count(evDtls) == 1, "up");
    CryptoBytes k[2], s[2]; uint8_t z[32]; memset(z, 7, 32); for (int d = 0; d < 2; d++) { k[d].assign(z, 16); s[d].assign(z, 12); }
    w.far = std::make_shared<SrtpConnection>(SrtpCrypto::create(SRTP_AEAD_AES_128_GCM, k[0], s[0], k[1], s[1]).first, (unsigned long)SRTP_AEAD_AES_128_GCM);
    std::vector<std::vector<uint8_t>> sent; bool lost = false;
    auto send = [&] { ByteBuffer b, e; ByteWriter bw(b); bw.writeU8(0x81); bw.writeU8(206); bw.writeU16(2); bw.writeU32(0x77); bw.writeU32(0); vp_assert(w.far->protectSendControl(b, (uint32_t)(100 + sent.size()), e), "protected"); sent.emplace_back(e.data(), e.data() + e.size()); w.arrives(sent.back()); vp_assert(w.rec.count(evKey) == sent.size(), "taken"); };
    for (int i = (int)vp_choose(3, "before"); i >= 0; i--) send();
    if (vp_choose(2, "lost")) { lost = true; w.pass(5001); x.collect(true); vp_assert(w.rec.count(evConnecting) == 2, "lost"); }
    if (vp_choose(2, "after")) { send(); vp_assert(w.rec.count(evDtls) == 1u + lost, "and restored"); }
    w.arrives(sent[vp_choose(sent.size(), "again")]);
    if (w.rec.count(evDtls) == 2) vp_assert(w.rec.count(evKey) == sent.size(), "a control packet which was recorded is refused after the connection was restored");
    else vp_assert(w.rec.count(evKey) == sent.size() && w.rec.count(evDtls) == 1, "a control packet which was recorded is refused");
    vp_reach("again");
}
// the other side's requests are answered when they carry our credentials
HARNESS(k03_request)
{
    vp_rand_mode = 2;
    World x(digest(), false); auto& w = x.w;
    w.pass(0); x.collect(false);
    int kind = (int)vp_choose(5, "kind");
    std::string user = w.offer->getIceUFrag() + ":ansu", pw = w.offer->getIcePassword();
    if (kind == 1) user = "ansu:" + w.offer->getIceUFrag();
    if (kind == 2) pw = kOurPw;
    if (kind == 3) user = user.substr(0, user.size() - 1);
    uint8_t buf[256]; stun::StunMessage m = {}; IceAgent a; a.initRequest(&m, buf, sizeof buf, stun::STUN_BINDING);
    static const uint8_t ids[2][12] = { { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12 }, { 0xff, 0, 0xff, 0, 0x21, 0x12, 0xa4, 0x42, 0, 0, 0, 0 } };
    memcpy(buf + 8, ids[vp_choose(2, "id")], 12);
    a.finishMessage(&m, user, pw); size_t n = stun::stun_message_length(&m);
    if (kind == 4) buf[n - 1] ^= 1;
    anyaddr from{}; from.sin_ipv4.sin_family = AF_INET; uint16_t port = (uint16_t)vp_range(0, 65535, "port"); uint32_t ip = (uint32_t)vp_range(0, 0xffffffffu, "ip");
    from.sin_ipv4.sin_port = htons(port); from.sin_ipv4.sin_addr.s_addr = htonl(ip);
    w.arrives(std::vector<uint8_t>(buf, buf + n), &from);
    x.collect(false);
    vp_assert(x.responses.size() == (kind == 0), "answered when it is for us");
    vp_assert(w.rec.count(evIce) == 0 && w.rec.count(evDtls) == 0, "which connects nothing");
    if (kind) { vp_reach("refused"); return; }
    auto& d = x.responses[0]; stun::StunMessage r = {}; r.buffer = d.data(); r.buffer_len = d.size();
    vp_assert(be16(&d[0]) == 0x0101 && vp_eq(&d[4], buf + 4, 16), "success, to this request");
    vp_assert(a.verifyResponseMessage(&r, w.offer->getIcePassword()), "with our password");
    bool found = false;
    for (size_t o = 20; o + 4 <= d.size(); o += 4 + (be16(&d[o + 2]) + 3) / 4 * 4) if (be16(&d[o]) == 0x0020) { found = true; vp_assert(be16(&d[o + 2]) == 8 && d[o + 5] == 1 && be16(&d[o + 6]) == (port ^ 0x2112) && be32(&d[o + 8]) == (ip ^ 0x2112A442u), "telling where it came from"); }
    vp_assert(found, "mapped address");
    vp_reach("answered");
}

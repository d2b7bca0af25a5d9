#pragma once
#include "common.h"
#include "crcref.h"
#include "sctp/sctp_session.h"
#include "srtc/scheduler.h"
#include "srtc/sctp_session_listener.h"
#include <deque>
#include <string>
using namespace srtc::sctp;
// One SCTP session whose packets and callbacks are recorded; nothing is called back from inside the listener.
namespace {
constexpr int64_t kMs = 1000000;
struct Ev { char kind; std::string label; std::vector<uint8_t> data; }; // O open, C close, T text, B binary
struct Peer : SctpSessionListener {
    std::deque<std::vector<uint8_t>> out;
    std::vector<Ev> ev;
    std::shared_ptr<LoopScheduler> loop;
    std::unique_ptr<SctpSession> s;
    Peer(std::shared_ptr<LoopScheduler> l, bool remoteActive, const std::vector<std::string>& labels, uint32_t maxSize = 0)
        : loop(l) { s = std::make_unique<SctpSession>(l, this, 5000, 5000, maxSize, remoteActive, labels); }
    void onSctpSendPacket(const ByteBuffer& p) override { out.emplace_back(p.data(), p.data() + p.size()); }
    void onSctpDataChannelOpen(const std::string& l) override { ev.push_back({ 'O', l, {} }); }
    void onSctpDataChannelText(const std::string& l, const std::string& t) override { ev.push_back({ 'T', l, { (const uint8_t*)t.data(), (const uint8_t*)t.data() + t.size() } }); }
    void onSctpDataChannelBinary(const std::string& l, const ByteBuffer& d) override { ev.push_back({ 'B', l, { d.data(), d.data() + d.size() } }); }
    void onSctpDataChannelClose(const std::string& l) override { ev.push_back({ 'C', l, {} }); }
    void text(const std::string& l, const uint8_t* p, size_t n) { s->send(DataChannelMessage::makeText(l, std::string((const char*)p, n))); }
    void binary(const std::string& l, const uint8_t* p, size_t n) { s->send(DataChannelMessage::makeBinary(l, ByteBuffer(p, n))); }
    void recv(const std::vector<uint8_t>& p) { s->onReceiveData(ByteBuffer(p.data(), p.size())); }
};
inline uint32_t be32(const uint8_t* p) { return (uint32_t)p[0] << 24 | (uint32_t)p[1] << 16 | (uint32_t)p[2] << 8 | p[3]; }
inline uint16_t be16(const uint8_t* p) { return (uint16_t)(p[0] << 8 | p[1]); }
struct Raw { // packets written byte by byte
    std::vector<uint8_t> b;
    Raw(uint32_t tag = 0) { u16(5000); u16(5000); u32(tag); u32(0); }
    Raw& u8(uint8_t v) { b.push_back(v); return *this; }
    Raw& u16(uint16_t v) { return u8(v >> 8).u8((uint8_t)v); }
    Raw& u32(uint32_t v) { return u16(v >> 16).u16((uint16_t)v); }
    Raw& bytes(const uint8_t* p, size_t n) { b.insert(b.end(), p, p + n); return *this; }
    Raw& chunk(uint8_t type, uint8_t flags, const std::vector<uint8_t>& body)
    {
        u8(type).u8(flags).u16((uint16_t)(4 + body.size())).bytes(body.data(), body.size());
        while (b.size() % 4) u8(0);
        return *this;
    }
    Raw& data(uint32_t tsn, uint16_t stream, uint16_t ssn, uint8_t flags, uint32_t ppid, const uint8_t* p, size_t n)
    {
        u8(0).u8(flags).u16((uint16_t)(16 + n)).u32(tsn).u16(stream).u16(ssn).u32(ppid).bytes(p, n);
        while (b.size() % 4) u8(0);
        return *this;
    }
    Raw& sack(uint32_t tsn, uint32_t rwnd, const std::vector<std::pair<uint16_t, uint16_t>>& gaps = {})
    {
        u8(3).u8(0).u16((uint16_t)(16 + 4 * gaps.size())).u32(tsn).u32(rwnd).u16((uint16_t)gaps.size()).u16(0);
        for (auto& g : gaps) u16(g.first).u16(g.second);
        return *this;
    }
    const std::vector<uint8_t>& done(const Ref& ref, uint32_t delta = 0) { putCrc(b.data(), ref.packet(b.data(), b.size()) ^ delta); return b; }
};
struct Chunk { uint8_t type, flags; const uint8_t* p; size_t n; };
inline std::vector<Chunk> split(const std::vector<uint8_t>& b)
{
    std::vector<Chunk> r;
    for (size_t o = 12; o + 4 <= b.size();) {
        size_t l = be16(&b[o + 2]);
        vp_assert(l >= 4 && o + l <= b.size(), "chunk of a packet sent lies inside the packet");
        r.push_back({ b[o], b[o + 1], &b[o] + 4, l - 4 });
        o += (l + 3) / 4 * 4;
    }
    return r;
}
// the other end of an association, by hand
struct Remote {
    Ref ref;
    Peer& p;
    uint32_t tag = 0x0a0b0c0d, tsn = 7000, rwnd = 100000; // ours
    uint32_t peerTag = 0, peerTsn = 0;                    // the session's
    explicit Remote(Peer& peer) : p(peer) {}
    std::vector<uint8_t> take()
    {
        vp_assert(!p.out.empty(), "a packet was sent");
        auto v = std::move(p.out.front()); p.out.pop_front();
        vp_assert(v.size() >= 16 && v.size() % 4 == 0 && be16(&v[0]) == 5000 && be16(&v[2]) == 5000, "packet header");
        uint32_t crc = ref.packet(v.data(), v.size());
        vp_assert(((uint32_t)v[8] | (uint32_t)v[9] << 8 | (uint32_t)v[10] << 16 | (uint32_t)v[11] << 24) == crc, "checksum of a packet sent");
        return v;
    }
    void give(Raw& r) { p.recv(r.done(ref)); }
    void init()
    {
        p.s->start();
        auto v = take(); auto c = split(v);
        vp_assert(be32(&v[4]) == 0 && c.size() == 1 && c[0].type == 1 && c[0].n >= 16, "INIT");
        peerTag = be32(c[0].p); peerTsn = be32(c[0].p + 12);
        vp_assert(peerTag != 0, "tag is not zero");
    }
    Raw initAck()
    {
        Raw r(peerTag); std::vector<uint8_t> b; Raw body; body.b.clear();
        body.u32(tag).u32(rwnd).u16(100).u16(100).u32(tsn).u16(7).u16(8).u32(0xc00c1e00);
        return r.chunk(2, 0, body.b);
    }
    void cookieEcho()
    {
        auto v = take(); auto c = split(v);
        vp_assert(be32(&v[4]) == tag && c.size() == 1 && c[0].type == 10 && c[0].n == 4 && be32(c[0].p) == 0xc00c1e00, "COOKIE ECHO carries the cookie");
    }
    void establish()
    {
        init();
        Raw a = initAck(); give(a);
        cookieEcho();
        Raw k(peerTag); k.chunk(11, 0, {}); give(k);
    }
};
}

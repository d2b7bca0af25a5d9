#include "sctp.h"
// Any datagram, in any state of the association.
namespace {
const int64_t kStart = 1000000000;
struct Sess {
    std::shared_ptr<LoopScheduler> loop = std::make_shared<LoopScheduler>();
    std::unique_ptr<Peer> p;
    std::unique_ptr<Remote> r;
    std::vector<std::vector<uint8_t>> seen;
    int state;
    explicit Sess(int st) : state(st)
    {
        vp_clock_ns = kStart;
        vp_rand_mode = 2; vp_rand_ctr = 0x7ffff000;
        uint32_t tag;
        { Peer x(loop, true, { "a" }); Remote y(x); y.init(); tag = y.peerTag; }
        vp_rand_ctr = 0x7ffff000;
        loop = std::make_shared<LoopScheduler>();
        p = std::make_unique<Peer>(loop, true, std::vector<std::string>{ "a" });
        r = std::make_unique<Remote>(*p);
        r->peerTag = tag;
        if (st >= 1) { r->init(); vp_assert(r->peerTag == tag, "same tag"); }
        if (st >= 2) { Raw a = r->initAck(); r->give(a); r->cookieEcho(); }
        if (st >= 3) { Raw k(tag); k.chunk(11, 0, {}); r->give(k); }
        if (st == 4) { // own channel open, one of the peer's, a message in flight, one waiting, data beyond a gap, half a message
            uint8_t ack[] = { 2 };
            Raw d(tag); d.data(r->tsn++, 1, 0, 3, 50, ack, 1).sack(r->peerTsn, 8); r->give(d);
            uint8_t open[] = { 3, 0, 1, 0, 0, 0, 0, 0, 0, 1, 0, 0, 'b' };
            Raw o(tag); o.data(r->tsn++, 2, 0, 3, 50, open, sizeof open); r->give(o);
            Raw h(tag); h.data(r->tsn++, 1, 1, 2, 51, open, 3); r->give(h);
            Raw g(tag); g.data(r->tsn + 1, 2, 2, 3, 53, open, 2); r->give(g);
            p->text("a", open, 5);
            p->binary("b", open, 13);
            vp_assert(p->s->isChannelOpen("a") && p->s->isChannelOpen("b") && p->ev.size() == 2, "set up");
        }
        drain(); seen.clear(); p->ev.clear();
    }
    // what was sent is well formed
    void drain(bool crc = true)
    {
        while (!p->out.empty()) {
            if (crc) { seen.push_back(r->take()); split(seen.back()); continue; }
            seen.push_back(std::move(p->out.front())); p->out.pop_front();
        }
    }
    void timers(int n, bool crc = true)
    {
        for (int i = 0; i < n; i++) {
            int t = loop->getTimeoutMillis(-1);
            if (t < 0) return;
            vp_clock_ns += t * kMs; loop->run(); drain(crc);
        }
    }
    // ordinary traffic, whatever the state
    void probe()
    {
        auto g = [&](Raw& k) { r->give(k); drain(); };
        if (state == 0) { p->s->start(); drain(); }
        Raw a = r->initAck(); g(a);
        Raw k(r->peerTag); k.chunk(11, 0, {}); g(k);
        uint8_t x[] = { 2, 7, 9 };
        if (state != 4) { Raw d(r->peerTag); d.data(r->tsn, 1, 0, 3, 50, x, 1); g(d); }
        else { Raw d(r->peerTag); d.data(r->tsn, 1, 1, 1, 51, x, 2); g(d); }
        Raw e(r->peerTag); e.data(r->tsn + 1, 1, 1, 3, 51, x, 3); g(e);
        p->text("a", x, 3); drain();
        timers(2);
        Raw s(r->peerTag); s.sack(r->peerTsn + 1, 1000); g(s);
        timers(2);
        vp_reach("probe");
    }
};
bool sameEv(const std::vector<Ev>& a, const std::vector<Ev>& b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) if (a[i].kind != b[i].kind || a[i].label != b[i].label || a[i].data != b[i].data) return false;
    return true;
}
void ended(Sess& s, uint64_t instr) { vp_hang_limit(instr); s.drain(); s.timers(3); }
}
// everything arbitrary behind a right checksum: tag, chunk type, flags, length and content
HARNESS(s04_any)
{
    Sess s((int)vp_param("state", 4));
    size_t lo = vp_param("lo", 0), hi = vp_param("hi", 16);
    for (int i = 0; i < (int)vp_param("count", 1); i++) {
        size_t n = lo + vp_choose(hi - lo + 1, "size");
        Exact d(12 + n, "datagram");
        uint32_t crc = s.r->ref.packet(d.p, d.n);
        putCrc(d.p, crc);
        vp_hang_limit(3000000);
        s.p->s->onReceiveData(ByteBuffer(d.p, d.n));
    }
    ended(s, 3000000);
    vp_reach("done");
}
// one chunk of a known type with arbitrary flags and body
HARNESS(s04_chunk)
{
    Sess s((int)vp_param("state", 4));
    size_t lo = vp_param("lo", 0), hi = vp_param("hi", 20);
    uint8_t type = (uint8_t)vp_param("type", 0);
    for (int i = 0; i < (int)vp_param("count", 1); i++) {
        size_t n = lo + vp_choose(hi - lo + 1, "size");
        Raw k(type == 1 ? 0 : s.r->peerTag);
        size_t h = k.b.size();
        Exact d(h + 4 + n, "datagram");
        memcpy(d.p, k.b.data(), h);
        d.p[h] = type; d.p[h + 2] = (uint8_t)((4 + n) >> 8); d.p[h + 3] = (uint8_t)(4 + n);
        putCrc(d.p, s.r->ref.packet(d.p, d.n));
        vp_hang_limit(3000000);
        s.p->s->onReceiveData(ByteBuffer(d.p, d.n));
    }
    ended(s, 3000000);
    vp_reach("done");
}
// what is not an SCTP packet for us leaves everything as it was
HARNESS(s04_reject)
{
    int state = (int)vp_param("state", 4), how = (int)vp_param("how", 0);
    Sess a(state), b(state);
    vp_clock_ns = kStart;
    size_t n = vp_param("lo", 0) + vp_choose(vp_param("hi", 12) - vp_param("lo", 0) + 1, "size");
    auto& ref = a.r->ref;
    if (how == 0) { // too short
        Exact d(vp_choose(12, "short"), "datagram");
        a.p->s->onReceiveData(ByteBuffer(d.p, d.n));
    } else if (how == 1) { // wrong checksum
        uint8_t type = (uint8_t)vp_param("type", 0);
        Raw k(type == 1 ? 0 : a.r->peerTag);
        if (type == 3) k.sack(a.r->peerTsn + 1, 5);
        else if (type == 0) { uint8_t x[3]; vp_bytes(x, 3, "data"); k.data(a.r->tsn, 1, 0, 3, 50, x, 3); }
        else { std::vector<uint8_t> body(16 + n); vp_bytes(body.data(), body.size(), "body"); k.chunk(type, 0, body); }
        uint32_t delta = (uint32_t)vp_u32("delta");
        vp_assume(delta != 0);
        a.p->recv(k.done(ref, delta));
    } else { // a first or second chunk whose length is wrong
        Raw k(a.r->peerTag);
        uint8_t x[3] = { 2, 1, 1 };
        if (how == 3) k.data(a.r->tsn, 1, 0, 3, 50, x, 3);
        if (how == 4) k.sack(a.r->peerTsn + 1, 5);
        size_t h = k.b.size();
        uint8_t c[64]; vp_bytes(c, 4 + n, "chunk");
        uint16_t len = be16(c + 2);
        vp_assume(len < 4 || len > 4 + n);
        k.bytes(c, 4 + n);
        (void)h;
        a.p->recv(k.done(ref));
    }
    vp_assert(a.p->out.empty() && a.p->ev.empty(), "nothing is sent or reported");
    vp_assert(a.loop->getTimeoutMillis(-1) == b.loop->getTimeoutMillis(-1), "no timer is changed");
    a.probe();
    vp_clock_ns = kStart;
    b.probe();
    vp_assert(a.seen == b.seen && sameEv(a.p->ev, b.p->ev), "what follows is as if the datagram had not come");
    vp_reach("rejected");
}

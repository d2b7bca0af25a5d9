#include "sctp.h"
// Channel control messages (RFC 8832)
namespace {
std::string label(size_t n) { std::string s(n, 'x'); if (n > 60) { vp_bytes(&s[0], 2, "label"); vp_bytes(&s[n / 2], 1, "label"); vp_bytes(&s[n - 2], 2, "label"); } else if (n) vp_bytes(&s[0], n, "label"); return s; }
bool same(const std::string& a, const uint8_t* p, size_t n) { return a.size() == n && vp_eq(a.data(), p, n); }
size_t pickLen(int long_) { static const size_t L[] = { 255, 256, 257, 1000 }; return long_ ? L[vp_choose(4, "length")] : vp_choose(vp_param("len", 3) + 1, "length"); }
}
// what is sent for our own channels
HARNESS(d05_open)
{
    bool remoteActive = vp_choose(2, "active");
    int n = 1 + (int)vp_choose(vp_param("channels", 2), "channels");
    std::vector<std::string> labels;
    for (int i = 0; i < n; i++) labels.push_back(label(pickLen((int)vp_param("long", 0))));
    vp_rand_mode = 2; vp_rand_ctr = 77;
    auto loop = std::make_shared<LoopScheduler>();
    Peer p(loop, remoteActive, labels);
    Remote r(p);
    r.establish();
    for (int i = 0; i < n; i++) {
        auto v = r.take(); auto c = split(v);
        auto& l = labels[i];
        vp_assert(be32(&v[4]) == r.tag && c.size() == 1 && c[0].type == 0 && c[0].flags == 3 && c[0].n == 12 + 12 + l.size(), "one unfragmented ordered message");
        const uint8_t* d = c[0].p;
        vp_assert(be32(d) == r.peerTsn + (uint32_t)i && be16(d + 4) == (remoteActive ? 1 : 0) + 2 * i && be16(d + 6) == 0 && be32(d + 8) == 50, "TSN, stream of the right parity, sequence number, PPID");
        static const uint8_t want[] = { 3, 0, 1, 0, 0, 0, 0, 0 };
        vp_assert(vp_eq(d + 12, want, 8), "DATA_CHANNEL_OPEN, reliable, normal priority");
        vp_assert(be16(d + 20) == l.size() && be16(d + 22) == 0 && same(l, d + 24, l.size()), "label, no protocol");
    }
    vp_assert(p.out.empty() && p.ev.empty(), "nothing else");
    for (int i = 0; i < n; i++) vp_assert(!p.s->isChannelOpen(labels[i]), "not open before the peer acknowledges");
    // the acknowledgement opens the channel of its stream and no other
    int k = (int)vp_choose(n, "acked");
    uint8_t ack = 2;
    Raw d(r.peerTag); d.data(r.tsn, (uint16_t)((remoteActive ? 1 : 0) + 2 * k), 0, 3, 50, &ack, 1); r.give(d);
    vp_assert(p.ev.size() == 1 && p.ev[0].kind == 'O' && p.ev[0].label == labels[k], "the acknowledged channel is open");
    vp_reach("sent");
}
// any control message of the peer's
HARNESS(d05_any)
{
    size_t lo = vp_param("lo", 0), n = lo + vp_choose(vp_param("hi", 18) - lo + 1, "size");
    Exact m(n, "message");
    uint16_t stream = (uint16_t)vp_u16("stream"), ssn = 0;
    vp_rand_mode = 2; vp_rand_ctr = 78;
    bool own = vp_choose(2, "own");
    auto loop = std::make_shared<LoopScheduler>();
    Peer p(loop, true, own ? std::vector<std::string>{ "own" } : std::vector<std::string>{});
    Remote r(p);
    r.establish();
    uint32_t tsn = r.peerTsn;
    if (own) { vp_assert(p.out.size() == 1, "one open request"); r.take(); tsn++; }
    Raw d(r.peerTag); d.data(r.tsn, stream, ssn, 3, 50, m.p, n); r.give(d);
    { auto v = r.take(); auto c = split(v); vp_assert(c.size() == 1 && c[0].type == 3 && be32(c[0].p) == r.tsn, "the message is acknowledged"); }
    bool open = n >= 12 && m.p[0] == 3 && (size_t)be16(m.p + 8) + be16(m.p + 10) <= n - 12;
    if (open) {
        size_t l = be16(m.p + 8);
        std::string want((const char*)m.p + 12, l);
        auto v = r.take(); auto c = split(v);
        vp_assert(be32(&v[4]) == r.tag && c.size() == 1 && c[0].type == 0 && c[0].flags == 3 && c[0].n == 13, "one message in answer");
        vp_assert(be32(c[0].p) == tsn && be16(c[0].p + 4) == stream && be32(c[0].p + 8) == 50 && c[0].p[12] == 2, "DATA_CHANNEL_ACK on the same stream");
        if (!(own && stream == 1)) vp_assert(be16(c[0].p + 6) == 0, "first message of the stream");
        vp_assert(p.ev.size() == 1 && p.ev[0].kind == 'O' && same(p.ev[0].label, m.p + 12, l), "the channel is open under its label");
        vp_assert(p.s->isChannelOpen(want), "channel open");
        if (!(own && stream == 1)) { // ordered or not in both directions as asked for
            bool unordered = m.p[1] & 0x80;
            uint8_t x = 9;
            p.binary(want, &x, 1);
            auto v2 = r.take(); auto c2 = split(v2);
            vp_assert(c2.size() == 1 && c2[0].type == 0 && c2[0].flags == (unordered ? 7 : 3) && be16(c2[0].p + 4) == stream && be32(c2[0].p + 8) == 53, "message on the new channel");
            if (!unordered) vp_assert(be16(c2[0].p + 6) == 1, "next sequence number");
            Raw e(r.peerTag); e.data(r.tsn + 1, stream, 5, unordered ? 7 : 3, 53, &x, 1); r.give(e);
            if (unordered) vp_assert(p.ev.size() == 2 && p.ev[1].kind == 'B', "unordered messages are not held back");
            else vp_assert(p.ev.size() == 1, "ordered messages wait for their turn");
            vp_reach(unordered ? "unordered" : "ordered");
        }
        vp_reach("opened");
        return;
    }
    bool acks = own && n >= 1 && m.p[0] == 2 && stream == 1;
    vp_assert(p.out.empty(), "no answer");
    if (acks) { vp_assert(p.ev.size() == 1 && p.ev[0].kind == 'O' && p.ev[0].label == "own" && p.s->isChannelOpen("own"), "our channel is open"); vp_reach("acked"); }
    else { vp_assert(p.ev.empty(), "nothing is opened"); vp_assert(!p.s->isChannelOpen("own"), "not open"); vp_reach("refused"); }
}
// what one end writes, the other reads
HARNESS(d05_pair)
{
    vp_rand_mode = 2; vp_rand_ctr = 79;
    auto l = label(pickLen((int)vp_param("long", 0)));
    auto loop = std::make_shared<LoopScheduler>();
    Peer a(loop, true, { l }), b(loop, false, {});
    a.s->start();
    for (int i = 0; i < 20 && !(a.out.empty() && b.out.empty()); i++) {
        while (!a.out.empty()) { auto v = a.out.front(); a.out.pop_front(); b.recv(v); }
        if (i == 3) { b.s->start(); }
        while (!b.out.empty()) { auto v = b.out.front(); b.out.pop_front(); a.recv(v); }
    }
    vp_assert(b.ev.size() == 1 && b.ev[0].kind == 'O' && b.ev[0].label == l, "the same label at the other end");
    vp_assert(a.ev.size() == 1 && a.ev[0].kind == 'O' && a.ev[0].label == l, "and it is open here");
    vp_reach("pair");
}

#include "sctp.h"
// Two sessions joined by a network which loses, duplicates, delays and reorders datagrams; after the stated number of faults it is reliable
// and everything sent must have arrived exactly once, with the same bytes, type and channel, and in order.
namespace {
struct Msg { int from; std::string label; bool text; std::vector<uint8_t> data; };
struct World {
    std::shared_ptr<LoopScheduler> loop = std::make_shared<LoopScheduler>();
    std::unique_ptr<Peer> p[2];
    struct Pkt { int to; std::vector<uint8_t> b; };
    std::deque<Pkt> q, late;
    std::vector<Msg> sent;
    int faults = 0, from = 0, count = 0, to = 1 << 30; // the first fault hits one of the datagrams from..to-1, the others any later one
    bool hit = false;
    World(const std::vector<std::string>& la, const std::vector<std::string>& lb, uint32_t tsn)
    {
        vp_rand_mode = 2;
        vp_rand_ctr = (uint32_t)(tsn - 1 - 7919);
        p[0] = std::make_unique<Peer>(loop, true, la);
        p[1] = std::make_unique<Peer>(loop, false, lb);
    }
    void collect() { for (int i = 0; i < 2; i++) for (; !p[i]->out.empty(); p[i]->out.pop_front()) q.push_back({ 1 - i, std::move(p[i]->out.front()) }); }
    void deliver(const Pkt& k) { p[k.to]->recv(k.b); }
    // one datagram or one timer; false when nothing is left to happen
    bool step()
    {
        collect();
        if (q.empty()) {
            int t = loop->getTimeoutMillis(-1);
            if (t < 0 && late.empty()) return false;
            if (t >= 0) { vp_clock_ns += t * kMs; loop->run(); collect(); }
            for (; !late.empty(); late.pop_front()) q.push_back(std::move(late.front()));
            return true;
        }
        Pkt k = std::move(q.front()); q.pop_front();
        uint64_t a = 0;
        if (faults > 0 && (hit || (count >= from && count < to))) a = vp_choose(5, "network");
        count++;
        if (a) { faults--; hit = true; }
        switch (a) {
        case 0: deliver(k); break;
        case 1: vp_reach("lost"); break;
        case 2: deliver(k); q.push_back(std::move(k)); vp_reach("duplicated"); break;
        case 3: collect(); if (q.empty()) late.push_back(std::move(k)); else q.insert(q.begin() + 1, std::move(k)); vp_reach("reordered"); break;
        case 4: late.push_back(std::move(k)); vp_reach("late"); break;
        }
        return true;
    }
    void quiet() { for (int i = 0; step(); i++) vp_assert(i < 400, "the sessions come to rest"); }
    void send(int i, const std::string& l, bool text, const uint8_t* d, size_t n)
    {
        sent.push_back({ i, l, text, { d, d + n } });
        if (text) p[i]->text(l, d, n); else p[i]->binary(l, d, n);
    }
    void check(const std::vector<std::string>& labels)
    {
        for (int i = 0; i < 2; i++) {
            for (auto& l : labels) {
                vp_assert(p[i]->s->isChannelOpen(l), "channel is open");
                size_t opens = 0, n = 0;
                std::vector<const Msg*> want;
                for (auto& m : sent) if (m.from != i && m.label == l) want.push_back(&m);
                for (auto& e : p[i]->ev) {
                    if (e.label != l) continue;
                    if (e.kind == 'O') { opens++; continue; }
                    vp_assert(opens == 1, "messages come after the channel is open");
                    vp_assert(e.kind != 'C', "not closed");
                    vp_assert(n < want.size(), "no message arrives twice");
                    auto& m = *want[n++];
                    vp_assert(e.kind == (m.text ? 'T' : 'B'), "type of the message");
                    vp_assert(e.data.size() == m.data.size() && vp_eq(e.data.data(), m.data.data(), m.data.size()), "bytes of the message, in order");
                }
                vp_assert(opens == 1, "the channel is announced once");
                vp_assert(n == want.size(), "every message arrives");
            }
            for (auto& e : p[i]->ev) { bool known = false; for (auto& l : labels) known |= e.label == l; vp_assert(known, "only known channels"); }
        }
        vp_reach("done");
    }
};
std::vector<uint8_t> content(size_t n)
{
    std::vector<uint8_t> v(n);
    for (size_t i = 0; i < n; i++) v[i] = (uint8_t)(i * 7 + 1);
    if (n) v[0] = (uint8_t)vp_u8("first");
    if (n > 1) v[n - 1] = (uint8_t)vp_u8("last");
    return v;
}
const size_t kSizes[] = { 3, 0, 1100, 1101, 2500, 1 };
}
HARNESS(d04)
{
    World w({ "a" }, { "b" }, (uint32_t)vp_param("tsn", 1000));
    w.faults = (int)vp_param("faults", 1); w.from = (int)vp_param("from", 0); w.to = (int)vp_param("to", 1000);
    int burst = (int)vp_param("burst", 1), size0 = (int)vp_param("size", 0), msgs = (int)vp_param("msgs", 2);
    w.p[0]->s->start();
    if (vp_param("both", 1)) w.p[1]->s->start();
    // each side sends on both channels: at once when they open, or a burst of them when everything is quiet
    int did[2][2] = {};
    const char* L[2] = { "a", "b" };
    auto app = [&](bool all) {
        for (int i = 0; i < 2; i++) for (int l = 0; l < 2; l++) {
            while (did[i][l] < msgs && w.p[i]->s->isChannelOpen(L[l])) {
                int k = did[i][l]++;
                bool text = (k + l) % 2 == 0;
                auto v = content(kSizes[(size0 + k + 2 * i) % 6]);
                w.send(i, L[l], text, v.data(), v.size());
                if (!all) break;
            }
        }
    };
    for (int i = 0; ; i++) { if (!burst) app(false); if (!w.step()) break; vp_assert(i < 400, "the sessions come to rest"); }
    app(true);
    w.quiet();
    if (!vp_param("both", 1)) { w.p[1]->s->start(); w.quiet(); app(true); w.quiet(); }
    w.check({ "a", "b" });
}
// One session against a peer of any small window, with acknowledgements of any part and timeouts at any time
HARNESS(d04_window)
{
    vp_rand_mode = 2;
    vp_rand_ctr = (uint32_t)(vp_param("tsn", 0xfffffffc) - 1 - 7919);
    auto loop = std::make_shared<LoopScheduler>();
    Peer peer(loop, true, { "a" });
    Remote r(peer);
    static const uint32_t W[] = { 0, 5, 1400, 100000 };
    uint32_t w = W[vp_choose(4, "window")];
    r.rwnd = w;
    r.establish();
    struct Out { uint32_t tsn; std::vector<uint8_t> b; size_t n; bool acked; };
    std::vector<Out> out;
    std::vector<uint8_t> got; // payload in the order sent
    struct G { uint16_t ssn; uint32_t ppid; std::vector<uint8_t> d; bool whole; };
    std::vector<G> msgs;
    uint32_t next = r.peerTsn; size_t inFlight = 0;
    auto drain = [&] {
        while (!peer.out.empty()) {
            auto v = r.take(); auto c = split(v);
            vp_assert(be32(&v[4]) == r.tag && c.size() == 1, "packet to the peer");
            if (c[0].type == 3) continue;
            vp_assert(c[0].type == 0 && c[0].n >= 13, "data chunk with data");
            uint32_t tsn = be32(c[0].p); size_t n = c[0].n - 12;
            bool again = false;
            for (auto& o : out) if (o.tsn == tsn) { again = true; vp_assert(!o.acked && o.b == v, "what is sent again is what was sent"); vp_reach("again"); }
            if (again) continue;
            vp_assert(tsn == next, "sequence numbers follow each other"); next++;
            vp_assert(be16(c[0].p + 4) == 1, "stream"); vp_assert((c[0].flags & 4) == 0, "ordered");
            uint16_t ssn = be16(c[0].p + 6); uint32_t ppid = be32(c[0].p + 8);
            if (c[0].flags & 2) {
                vp_assert(msgs.empty() || msgs.back().whole, "fragments of one message follow each other");
                vp_assert(ssn == msgs.size(), "stream sequence numbers follow each other");
                msgs.push_back({ ssn, ppid, {}, false });
            }
            vp_assert(!msgs.empty() && !msgs.back().whole && msgs.back().ssn == ssn && msgs.back().ppid == ppid, "fragment of the message");
            msgs.back().d.insert(msgs.back().d.end(), c[0].p + 12, c[0].p + 12 + n);
            if (c[0].flags & 1) {
                msgs.back().whole = true;
                size_t m = msgs.back().d.size();
                vp_assert(inFlight == 0 || inFlight + m <= w || msgs.size() == 1 || ppid == 56 || ppid == 57, "no more than the window of the peer in flight");
                inFlight += m;
            }
            out.push_back({ tsn, v, n, false });
        }
    };
    auto sack = [&](bool all, bool gap) {
        // cumulative: the oldest outstanding one, or all; gap: the newest one only
        uint32_t cum = r.peerTsn - 1; std::vector<std::pair<uint16_t, uint16_t>> g;
        if (gap) { for (auto i = out.rbegin(); i != out.rend(); ++i) if (!i->acked) { i->acked = true; inFlight -= i->n; break; } }
        else for (auto& o : out) if (!o.acked) { o.acked = true; inFlight -= o.n; if (!all) break; }
        size_t i = 0;
        for (; i < out.size() && out[i].acked; i++) cum = out[i].tsn;
        for (; i < out.size(); ) { size_t e = i; if (!out[i].acked) { i++; continue; } while (e + 1 < out.size() && out[e + 1].acked) e++; g.push_back({ (uint16_t)(out[i].tsn - cum), (uint16_t)(out[e].tsn - cum) }); i = e + 1; }
        Raw k(r.peerTag); k.sack(cum, w, g); r.give(k);
        drain();
    };
    drain();
    vp_assert(msgs.size() == 1 && msgs[0].ppid == 50, "the channel is opened first");
    { Raw k(r.peerTag); uint8_t a = 2; k.data(r.tsn, 1, 0, 3, 50, &a, 1); r.give(k); drain(); }
    vp_assert(peer.s->isChannelOpen("a"), "open");
    std::vector<Msg> sent;
    static const size_t S[] = { 3, 1300, 0, 2 };
    int steps = (int)vp_param("steps", 4), max = (int)vp_param("msgs", 3), off = (int)vp_choose(vp_param("offsets", 2), "size");
    for (int i = 0; i < steps; i++) {
        switch (vp_choose(5, "step")) {
        case 0: {
            if ((int)sent.size() >= max) vp_assume(false);
            auto v = content(S[(sent.size() + off) % 4]); bool text = sent.size() % 2;
            sent.push_back({ 0, "a", text, v });
            if (text) peer.text("a", v.data(), v.size()); else peer.binary("a", v.data(), v.size());
            drain(); break;
        }
        case 1: sack(false, false); break;
        case 2: sack(false, true); break;
        case 3: sack(true, false); break;
        case 4: {
            int t = loop->getTimeoutMillis(-1);
            vp_assert((t >= 0) == (inFlight > 0), "a timer runs while something is not acknowledged");
            if (t < 0) break;
            vp_clock_ns += t * kMs; size_t n = peer.out.size(); loop->run();
            vp_assert(peer.out.size() == n + 1, "something is sent again"); drain(); break;
        }
        }
    }
    for (int i = 0; inFlight > 0; i++) { vp_assert(i < 20, "finishes"); sack(true, false); }
    vp_assert(msgs.size() == sent.size() + 1, "every message has been sent");
    for (size_t i = 0; i < sent.size(); i++) {
        auto& m = msgs[i + 1]; auto& x = sent[i];
        vp_assert(m.whole && m.ppid == (x.data.empty() ? (x.text ? 56u : 57u) : (x.text ? 51u : 53u)), "kind of the message");
        if (x.data.empty()) vp_assert(m.d.size() == 1 && m.d[0] == 0, "an empty message is one zero byte");
        else vp_assert(m.d.size() == x.data.size() && vp_eq(m.d.data(), x.data.data(), x.data.size()), "bytes of the message");
    }
    vp_assert(loop->getTimeoutMillis(-1) == -1, "no timer is left");
    vp_reach("done");
}

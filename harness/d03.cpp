#include "sctp.h"
// Message fragments in any order, with duplicates.
namespace {
struct Frag { int msg; uint32_t tsn; uint8_t flags; std::vector<uint8_t> data; bool arrived = false; };
struct M { uint16_t ssn; uint32_t ppid; std::vector<uint8_t> data; int first, count; int ch = 0; bool delivered = false; };
struct Plan {
    std::vector<Frag> f; std::vector<M> m;
    void add(uint32_t base, uint16_t ssn, uint32_t ppid, bool unordered, size_t nf, size_t maxLen, int ch = 0)
    {
        M x; x.ch = ch; x.ssn = ssn; x.ppid = ppid; x.first = (int)f.size(); x.count = (int)nf;
        for (size_t i = 0; i < nf; i++) {
            Frag g; g.msg = (int)m.size(); g.tsn = base + (uint32_t)f.size();
            g.flags = (uint8_t)((unordered ? 4 : 0) | (i == 0 ? 2 : 0) | (i + 1 == nf ? 1 : 0));
            g.data.resize(maxLen ? 1 + (i + m.size()) % maxLen : 0);
            if (!g.data.empty()) vp_bytes(g.data.data(), g.data.size(), "payload");
            x.data.insert(x.data.end(), g.data.begin(), g.data.end());
            f.push_back(std::move(g));
        }
        m.push_back(std::move(x));
    }
    bool complete(int k) const { for (int i = 0; i < m[k].count; i++) if (!f[m[k].first + i].arrived) return false; return true; }
    // what must be delivered now, after fragment i arrived
    std::vector<int> due(int i, bool ordered)
    {
        std::vector<int> r;
        f[i].arrived = true;
        if (!ordered) { int k = f[i].msg; if (!m[k].delivered && complete(k)) { m[k].delivered = true; r.push_back(k); } return r; }
        for (int k = 0; k < (int)m.size(); k++) {
            if (m[k].delivered || m[k].ch != m[f[i].msg].ch) continue;
            if (!complete(k)) break;
            m[k].delivered = true; r.push_back(k);
        }
        return r;
    }
};
}
HARNESS(d03_buf)
{
    bool unordered = vp_param("unordered", 0);
    int msgs = (int)vp_param("msgs", 2), maxFrags = (int)vp_param("frags", 2), dups = unordered ? 0 : (int)vp_param("dups", 1), skip = (int)vp_param("skip", 0);
    DataChannelReceiveBuffer buf;
    for (int i = 0; i < skip; i++) buf.consumeSsn((uint16_t)i);
    uint32_t base = vp_param("symtsn", 0) ? (uint32_t)vp_u32("tsn") : (uint32_t)vp_param("tsn", 0xfffffffe);
    Plan p;
    for (int i = 0; i < msgs; i++) p.add(base, unordered ? (uint16_t)vp_u16("ssn") : (uint16_t)(skip + i), (uint32_t)vp_u32("ppid"), unordered, 1 + vp_choose(maxFrags, "fragments"), 2);
    int left = (int)p.f.size();
    while (left > 0) {
        int k = (int)vp_choose(p.f.size(), "arrival");
        auto& g = p.f[k];
        if (g.arrived) { if (dups == 0) vp_assume(false); dups--; vp_reach("duplicate"); } else left--;
        auto want = p.due(k, !unordered);
        auto got = buf.receive(g.tsn, p.m[g.msg].ssn, g.flags, unordered, p.m[g.msg].ppid, g.data.data(), g.data.size());
        vp_assert(got.size() == want.size(), "messages delivered now are the ones which are complete and in turn");
        size_t i = 0;
        for (auto& x : got) { auto& m = p.m[want[i++]]; vp_assert(x.ppid == m.ppid && eqBuf(x.data, m.data.data(), m.data.size()), "message delivered"); }
    }
    for (auto& m : p.m) vp_assert(m.delivered, "every message was due");
    vp_reach("done");
}
// the same through a session: acknowledgements describe exactly what arrived, callbacks come in turn
HARNESS(d03_session)
{
    vp_rand_mode = 2;
    bool unordered = vp_param("unordered", 0);
    int msgs = (int)vp_param("msgs", 2), maxFrags = (int)vp_param("frags", 2), dups = (int)vp_param("dups", 1);
    auto loop = std::make_shared<LoopScheduler>();
    Peer peer(loop, true, {});
    Remote r(peer);
    r.tsn = vp_param("symtsn", 0) ? (uint32_t)vp_u32("tsn") : (uint32_t)vp_param("tsn", 0xfffffffd);
    r.establish();
    vp_assert(peer.out.empty(), "nothing to say");
    int channels = (int)vp_param("channels", 1);
    const std::string labels[2] = { "ch", "dh" };
    for (int i = 0; i < channels; i++) {
        uint8_t open[14] = { 3, (uint8_t)(unordered ? 0x80 : 0), 1, 0, 0, 0, 0, 0, 0, 2, 0, 0, (uint8_t)labels[i][0], 'h' };
        Raw k(r.peerTag); k.data(r.tsn + (uint32_t)i, (uint16_t)(4 + 2 * i), 0, 3, 50, open, 14); r.give(k);
        vp_assert(peer.ev.size() == 1 && peer.ev[0].kind == 'O' && peer.ev[0].label == labels[i] && peer.s->isChannelOpen(labels[i]), "the channel of the peer is open");
        peer.out.clear(); peer.ev.clear();
    }
    uint32_t base = r.tsn + (uint32_t)channels;
    Plan p;
    for (int i = 0; i < msgs; i++) p.add(base, (uint16_t)(unordered ? 0 : 1 + i / channels), vp_choose(2, "kind") ? 51 : 53, unordered, 1 + vp_choose(maxFrags, "fragments"), 2, i % channels);
    int left = (int)p.f.size();
    while (left > 0) {
        int k = (int)vp_choose(p.f.size(), "arrival");
        auto& g = p.f[k];
        bool dup = g.arrived;
        if (dup) { if (dups == 0) vp_assume(false); dups--; vp_reach("duplicate"); } else left--;
        auto want = p.due(k, !unordered);
        Raw pkt(r.peerTag); pkt.data(g.tsn, (uint16_t)(4 + 2 * p.m[g.msg].ch), p.m[g.msg].ssn, g.flags, p.m[g.msg].ppid, g.data.data(), g.data.size()); r.give(pkt);
        vp_assert(peer.ev.size() == want.size(), "callbacks are for the messages which are complete and in turn");
        for (size_t i = 0; i < want.size(); i++) {
            auto& m = p.m[want[i]]; auto& e = peer.ev[i];
            vp_assert(e.label == labels[m.ch] && e.kind == (m.ppid == 51 ? 'T' : 'B') && e.data.size() == m.data.size() && vp_eq(e.data.data(), m.data.data(), m.data.size()), "message");
        }
        peer.ev.clear();
        // the acknowledgement
        auto v = r.take(); auto c = split(v);
        vp_assert(peer.out.empty() && be32(&v[4]) == r.tag && c.size() == 1 && c[0].type == 3 && c[0].n >= 12, "one acknowledgement");
        size_t cum = 0; while (cum < p.f.size() && p.f[cum].arrived) cum++;
        vp_assert(be32(c[0].p) == (uint32_t)(base + cum - 1), "everything up to the first gap is acknowledged");
        size_t nb = 0;
        for (size_t i = cum; i < p.f.size(); ) {
            if (!p.f[i].arrived) { i++; continue; }
            size_t e = i; while (e + 1 < p.f.size() && p.f[e + 1].arrived) e++;
            vp_assert(c[0].n >= 12 + 4 * (nb + 1), "block is there");
            vp_assert(be16(c[0].p + 12 + 4 * nb) == i - cum + 1 && be16(c[0].p + 14 + 4 * nb) == e - cum + 1, "block of chunks received beyond the gap");
            nb++; i = e + 1;
        }
        vp_assert(be16(c[0].p + 8) == nb && be16(c[0].p + 10) == 0 && c[0].n == 12 + 4 * nb, "number of blocks");
    }
    vp_reach("done");
}

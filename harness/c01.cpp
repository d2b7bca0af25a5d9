#include "common.h"
#include "vp_crypto.h"
#include "srtc/srtp_connection.h"
#include "srtc/srtp_crypto.h"
#include <openssl/evp.h>
#include <openssl/srtp.h>
namespace {
uint64_t profileOf(int k) { return k == 0 ? SRTP_AEAD_AES_256_GCM : k == 1 ? SRTP_AEAD_AES_128_GCM : k == 2 ? SRTP_AES128_CM_SHA1_80 : SRTP_AES128_CM_SHA1_32; }
size_t keyLen(int k) { return k == 0 ? 32 : 16; }
size_t saltLen(int k) { return k <= 1 ? 12 : 14; }
size_t tagLen(int k) { return k <= 1 ? 16 : k == 2 ? 10 : 4; }
size_t ctlTag(int k) { return k <= 1 ? 16 : 10; }
struct Keys { CryptoBytes k1, s1, k2, s2; };
Keys mkKeys(int k, bool sym)
{
    uint8_t b[4][32];
    for (int i = 0; i < 4; i++) for (int j = 0; j < 32; j++) b[i][j] = (uint8_t)(i * 64 + j * 3 + 1);
    if (sym) for (int i = 0; i < 4; i++) vp_bytes(b[i], i & 1 ? saltLen(k) : keyLen(k), "key");
    Keys r; r.k1.assign(b[0], keyLen(k)); r.s1.assign(b[1], saltLen(k)); r.k2.assign(b[2], keyLen(k)); r.s2.assign(b[3], saltLen(k));
    return r;
}
struct Pair {
    int k; std::shared_ptr<SrtpCrypto> ca, cb; std::shared_ptr<SrtpConnection> a, b;
    explicit Pair(int prof, bool sym = false) : k(prof)
    {
        vp_crypto_receiver = 0;
        Keys q = mkKeys(k, sym);
        auto x = SrtpCrypto::create(profileOf(k), q.k1, q.s1, q.k2, q.s2);
        auto y = SrtpCrypto::create(profileOf(k), q.k2, q.s2, q.k1, q.s1);
        vp_assert(x.second.isOk() && y.second.isOk(), "keys are accepted");
        ca = x.first; cb = y.first;
        a = std::make_shared<SrtpConnection>(ca, (unsigned long)profileOf(k));
        b = std::make_shared<SrtpConnection>(cb, (unsigned long)profileOf(k));
    }
    bool send(const ByteBuffer& p, uint32_t roc, ByteBuffer& out) { vp_crypto_receiver = 0; return a->protectSendMedia(p, roc, out); }
    bool recv(const ByteBuffer& p, ByteBuffer& out) { vp_crypto_receiver = 1; bool r = b->unprotectReceiveMedia(p, out); vp_crypto_receiver = 0; return r; }
    bool sendC(const ByteBuffer& p, uint32_t seq, ByteBuffer& out) { vp_crypto_receiver = 0; return a->protectSendControl(p, seq, out); }
    bool recvC(const ByteBuffer& p, ByteBuffer& out) { vp_crypto_receiver = 1; bool r = b->unprotectReceiveControl(p, out); vp_crypto_receiver = 0; return r; }
};
// shape: 0 plain, 1 header extension of one word, 2 contributing sources, 3 both, 4 empty extension
ByteBuffer rtp(uint32_t ssrc, uint8_t pt, uint16_t seq, int shape, size_t payload, bool sym, size_t* hdr = nullptr)
{
    ByteBuffer b; ByteWriter w(b);
    int cc = shape == 2 || shape == 3 ? 2 : 0; bool ext = shape == 1 || shape >= 3;
    w.writeU8((uint8_t)(0x80 | (ext ? 0x10 : 0) | cc)); w.writeU8(pt); w.writeU16(seq); w.writeU32(0x01020304); w.writeU32(ssrc);
    for (int i = 0; i < cc; i++) w.writeU32(0xc0c0c000u + (uint32_t)i);
    if (ext) { w.writeU16(0xBEDE); w.writeU16(shape == 4 ? 0 : 1); if (shape != 4) w.writeU32(0x10aa0000); }
    if (hdr) *hdr = b.size();
    ByteBuffer p = symBuf(payload, "payload");
    if (!sym && payload) memset(p.data(), 0x5a, payload);
    w.write(p);
    return b;
}
ByteBuffer rtcp(uint32_t ssrc, size_t body)
{
    ByteBuffer b; ByteWriter w(b);
    w.writeU8(0x80); w.writeU8(201); w.writeU16((uint16_t)(1 + body / 4)); w.writeU32(ssrc);
    w.write(symBuf(body, "body"));
    return b;
}
bool same(const ByteBuffer& x, const ByteBuffer& y) { return x.size() == y.size() && vp_eq(x.data(), y.data(), x.size()); }
}
// arrival histories of consecutive packets
HARNESS(c01)
{
    Pair s((int)vp_param("profile", 0));
    const int n = (int)vp_param("n", 3), steps = (int)vp_param("steps", 3);
    static const uint16_t starts[] = {1, 65534, 0x7fff};
    uint32_t s0 = starts[vp_choose(3, "start")];
    int shape = (int)vp_choose(5, "shape");
    size_t pl = 1 + 16 * (size_t)vp_choose(2, "len");
    ByteBuffer p[8], e[8], o; bool got[8] = {};
    for (int i = 0; i < n; i++) {
        uint32_t x = s0 + (uint32_t)i; size_t hdr;
        p[i] = rtp(1234, 96, (uint16_t)x, shape, pl, true, &hdr);
        vp_assert(s.send(p[i], x >> 16, e[i]), "a packet is protected");
        vp_assert(e[i].size() == p[i].size() + s.a->getMediaProtectionOverhead() && s.a->getMediaProtectionOverhead() == tagLen(s.k), "the overhead is the announced one");
        vp_assert(vp_eq(e[i].data(), p[i].data(), hdr), "the header stays readable");
    }
    for (int t = 0; t < steps; t++) {
        int i = t == 0 ? 0 : (int)vp_choose(n, "arrive");
        bool ok = s.recv(e[i], o);
        vp_assert(ok == !got[i], "a packet is accepted when it arrives, once");
        if (ok) vp_assert(same(o, p[i]), "the packet is recovered exactly");
        got[i] = true;
        if (ok) vp_reach("accepted"); else vp_reach("refused");
    }
}
// one stream across several rollovers, with losses, late packets within the window, duplicates and a reconnect
HARNESS(c01_long)
{
    vp_crypto_hash = 1;
    Pair s((int)vp_param("profile", 1));
    static uint8_t got[1 << 18];
    const uint32_t step = 1 + 130 * (uint32_t)vp_choose(4, "step"), back = 1 + (uint32_t)vp_choose(3, "back") * 900;
    const int reconnect = (int)vp_choose(3, "reconnect");
    ByteBuffer e, o;
    auto arrive = [&](uint32_t x, size_t len) {
        auto p = rtp(7, 100, (uint16_t)x, (int)(x % 5), len, false);
        vp_assert(s.send(p, x >> 16, e), "a packet is protected");
        bool ok = s.recv(e, o);
        vp_assert(ok == !got[x], "a packet inside the window is accepted once");
        if (ok) vp_assert(same(o, p), "and recovered exactly");
        got[x] = 1;
        vp_assert(!s.recv(e, o), "and only once");
    };
    uint32_t x = 65536 - 5 * step;
    for (int i = 0; i < (int)vp_param("count", 30); i++) {
        if (i == 15) for (uint32_t to = 0x1ffff - 4 * step; x + 500 < to; x += 500) arrive(x, 5); // towards another rollover
        arrive(x, 20);
        if (i > 3) { arrive(x - back, 9); vp_reach("late"); }
        if (i == 12 && reconnect) { s.b->onPeerConnected(); memset(got, 0, sizeof(got)); x += reconnect == 1 ? 3 : 9000; }
        x += step;
    }
    vp_reach("done");
}
// streams don't affect each other
HARNESS(c01_streams)
{
    Pair s((int)vp_param("profile", 0));
    ByteBuffer e, o;
    static const uint32_t other[] = {5, 4, 6, 0x10005, 0x05000000, 0xffffffff}; static const uint8_t opt[] = {100, 101, 96, 36};
    uint32_t ssrc[2] = {other[vp_choose(6, "ssrc")], 5}; uint8_t pt[2] = {opt[vp_choose(4, "pt")], 100};
    vp_assume(ssrc[0] != ssrc[1] || pt[0] != pt[1]);
    int nx[2] = {0, 0}; static const uint16_t st[2] = {65535, 3};
    for (int i = 0; i < (int)vp_param("steps", 4); i++) {
        int k = (int)vp_choose(2, "stream"); uint32_t x = st[k] + (uint32_t)nx[k]++;
        auto p = rtp(ssrc[k], pt[k], (uint16_t)x, 0, 3, true);
        vp_assert(s.send(p, x >> 16, e) && s.recv(e, o) && same(o, p), "a packet is recovered whatever other streams do");
    }
    vp_reach("done");
}
// control packets with any index
HARNESS(c01_control)
{
    Pair s((int)vp_param("profile", 0));
    ByteBuffer e, e2, o;
    static const uint32_t from[] = {0, 1, 2040, 0x10000 - 4, 0x7fffffff - 524, 0x40000000 - 300};
    uint32_t seq = from[vp_choose(6, "index")] + (uint32_t)vp_choose(vp_param("spread", 3), "spread"), d;
    static const uint32_t ds[] = {1, 2, 8, 9, 511, 512}; d = ds[vp_choose(6, "step")];
    size_t body = 4 * (size_t)vp_choose(7, "body");
    uint32_t ssrc = (uint32_t)vp_u32("ssrc");
    auto p = rtcp(ssrc, body), q = rtcp(ssrc, 4);
    vp_assume(seq + d < 0x80000000u);
    vp_assert(s.sendC(p, seq, e) && s.sendC(q, seq + d, e2), "a control packet is protected");
    vp_assert(e.size() == p.size() + 4 + ctlTag(s.k), "size of a protected control packet");
    if (vp_choose(2, "order")) { vp_assert(s.recvC(e, o) && same(o, p), "recovered"); vp_assert(s.recvC(e2, o) && same(o, q), "recovered"); }
    else { vp_assert(s.recvC(e2, o) && same(o, q), "recovered"); bool ok = s.recvC(e, o); vp_assert(ok, "a late control packet is accepted"); vp_assert(same(o, p), "recovered"); }
    vp_assert(!s.recvC(e, o) && !s.recvC(e2, o), "a control packet is accepted once");
    vp_reach("accepted"); vp_reach("refused");
}

// ---- C02
static bool coincidence(const ByteBuffer& f, size_t tag) { return !vp_mac_genuine && f.size() >= tag && vp_eq(vp_mac_last, f.data() + f.size() - tag, tag); }
HARNESS(c02)
{
    const int prof = (int)vp_param("profile", 0);
    vp_mac_tag = (int)tagLen(prof);
    Pair s(prof);
    ByteBuffer e[4], p[4], o;
    static const uint16_t starts[] = {100, 65534};
    uint32_t s0 = starts[vp_choose(2, "start")];
    const int n = (int)vp_param("n", 3);
    for (int i = 0; i < n; i++) { p[i] = rtp(1234, 96, (uint16_t)(s0 + i), 0, 3, true); vp_assert(s.send(p[i], (s0 + i) >> 16, e[i]), "protected"); }
    int when = (int)vp_choose(n, "when");
    const int forgeries = (int)vp_param("forgeries", 1);
    for (int i = 0; i < n; i++) {
        if (i == when) for (int k = 0; k < forgeries; k++) {
            // any other bytes, of the same or another length
            static const size_t lens[] = {15, 12, 11, 0, 20};
            size_t li = (size_t)vp_choose(vp_param("lens", 5), "len");
            size_t len = lens[li] + (lens[li] >= 12 ? tagLen(prof) : 0);
            ByteBuffer f = symBuf(len, "forged");
            if (vp_param("stream", 1) && len >= 12) { f.data()[1] = 96; f.data()[8] = 0; f.data()[9] = 0; f.data()[10] = 4; f.data()[11] = 210; vp_assume((f.data()[0] & 0x1f) == 0 || (f.data()[0] & 0x1f) == 0x10); }
            bool genuine = false;
            for (int j = 0; j < n; j++) if (same(f, e[j])) genuine = true;
            if (genuine) vp_end();
            bool ok = s.recv(f, o);
            if (ok && prof >= 2 && coincidence(f, tagLen(prof))) vp_end(); // a guessed tag
            vp_assert(!ok, "a forged packet is rejected");
            vp_reach("forged");
        }
        bool ok = s.recv(e[i], o);
        vp_assert(ok, "a genuine packet is accepted after forgeries");
        vp_assert(same(o, p[i]), "and recovered exactly");
    }
    for (int i = 0; i < n; i++) vp_assert(!s.recv(e[i], o), "a replayed packet is rejected");
    vp_reach("done");
}
HARNESS(c02_control)
{
    const int prof = (int)vp_param("profile", 0);
    Pair s(prof);
    vp_mac_tag = (int)ctlTag(prof);
    ByteBuffer e[3], p[3], o;
    for (int i = 0; i < 2; i++) { p[i] = rtcp(1234, 4); vp_assert(s.sendC(p[i], 10 + i, e[i]), "protected"); }
    int when = (int)vp_choose(2, "when");
    for (int i = 0; i < 2; i++) {
        if (i == when) {
            static const size_t lens[] = {12, 8, 3, 20};
            size_t li = (size_t)vp_choose(4, "len");
            ByteBuffer f = symBuf(lens[li] + (li < 2 ? 4 + ctlTag(prof) : 0), "forged");
            if (vp_param("stream", 1) && f.size() >= 8) { f.data()[4] = 0; f.data()[5] = 0; f.data()[6] = 4; f.data()[7] = 210; }
            if (same(f, e[0]) || same(f, e[1])) vp_end();
            bool ok = s.recvC(f, o);
            if (ok && prof >= 2 && coincidence(f, 10)) vp_end();
            vp_assert(!ok, "a forged control packet is rejected");
            vp_reach("forged");
        }
        vp_assert(s.recvC(e[i], o) && same(o, p[i]), "a genuine control packet is accepted after forgeries");
    }
    vp_assert(!s.recvC(e[0], o) && !s.recvC(e[1], o), "a replayed control packet is rejected");
    vp_reach("done");
}
// the rollover counter is authenticated; so are both directions' keys
HARNESS(c02_roc)
{
    const int prof = (int)vp_param("profile", 0);
    Pair s(prof);
    uint32_t r1 = (uint32_t)vp_u32("r1"), r2 = (uint32_t)vp_u32("r2");
    ByteBuffer e, o;
    auto p = rtp(1234, 96, (uint16_t)vp_u16("seq"), (int)vp_choose(5, "shape"), 4, true);
    vp_assert(s.send(p, r1, e), "protected");
    vp_crypto_receiver = 1;
    bool ok = s.cb->unprotectReceiveMedia(e, r2, o);
    if (ok) { if (prof >= 2 && coincidence(e, tagLen(prof))) vp_end(); vp_assert(r1 == r2, "a packet of another rollover is rejected"); vp_assert(same(o, p), "recovered"); vp_reach("accepted"); }
    else { vp_assert(r1 != r2, "a genuine packet is accepted"); vp_reach("refused"); }
    ok = s.ca->unprotectReceiveMedia(e, r1, o); // reflected to its sender
    if (ok && prof >= 2 && coincidence(e, tagLen(prof))) vp_end();
    vp_assert(!ok, "a reflected packet is rejected");
}

// ---- C03
static void derived(const uint8_t* key, size_t kl, const uint8_t* salt, size_t sl, int label, uint8_t* out, size_t n)
{
    for (size_t b = 0; b * 16 < n; b++) {
        uint8_t in[16] = {}, o[16]; int l;
        memcpy(in, salt, sl); in[7] ^= (uint8_t)label; in[15] ^= (uint8_t)b;
        EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new();
        EVP_EncryptInit_ex(c, kl == 32 ? EVP_aes_256_ecb() : EVP_aes_128_ecb(), nullptr, key, nullptr);
        EVP_EncryptUpdate(c, o, &l, in, 16);
        EVP_CIPHER_CTX_free(c);
        for (size_t i = 0; i < 16 && b * 16 + i < n; i++) out[b * 16 + i] = o[i];
    }
}
HARNESS(c03_kdf)
{
    vp_crypto_kdf = 1;
    const int prof = (int)vp_param("profile", 0);
    uint8_t key[32], salt[14];
    vp_bytes(key, keyLen(prof), "key"); vp_bytes(salt, saltLen(prof), "salt");
    CryptoBytes k, s, out; k.assign(key, keyLen(prof)); s.assign(salt, saltLen(prof));
    int label = (int)vp_choose(6, "label");
    size_t n = label == 1 || label == 4 ? 20 : label == 2 || label == 5 ? saltLen(prof) : keyLen(prof);
    vp_assert(KeyDerivation::generate(k, s, (uint8_t)label, out, n), "derived");
    uint8_t want[32]; derived(key, keyLen(prof), salt, saltLen(prof), label, want, n);
    vp_assert(out.size() == n && vp_eq(out.data(), want, n), "session keys are derived as RFC 3711 prescribes");
    vp_reach("done");
}
// the vector and key of every packet, and distinct packets have distinct ones
HARNESS(c03)
{
    const int prof = (int)vp_param("profile", 0), what = (int)vp_choose(4, "what"); // media or control, send or receive
    Pair s(prof);
    bool control = what & 1, receive = what & 2;
    Keys q = mkKeys(prof, false);
    uint8_t rk[32], rs[16] = {};
    derived(q.k1.data(), keyLen(prof), q.s1.data(), saltLen(prof), control ? 3 : 0, rk, keyLen(prof));
    derived(q.k1.data(), keyLen(prof), q.s1.data(), saltLen(prof), control ? 5 : 2, rs, saltLen(prof));
    uint8_t iv[2][16]; uint32_t ssrc[2], roc[2], seq[2];
    const int cnt = receive ? 1 : 2;
    for (int i = 0; i < cnt; i++) {
        ssrc[i] = (uint32_t)vp_u32("ssrc"); roc[i] = (uint32_t)vp_u32("roc"); seq[i] = (uint32_t)vp_range(0, control ? 0x7fffffff : 0xffff, "seq");
        ByteBuffer p = control ? rtcp(ssrc[i], 4) : rtp(ssrc[i], 96, (uint16_t)seq[i], (int)vp_choose(2, "shape"), 2, false), e, o;
        vp_iv_count = 0;
        vp_assert(control ? s.sendC(p, seq[i], e) : s.send(p, roc[i], e), "protected");
        if (receive) {
            vp_iv_count = 0;
            vp_crypto_receiver = 1;
            vp_assert(control ? s.cb->unprotectReceiveControl(e, o) : s.cb->unprotectReceiveMedia(e, roc[i], o), "recovered");
        }
        vp_assert(vp_iv_count == 1, "one vector for each packet");
        const VpIvUse& u = vp_iv_log[0];
        vp_assert(u.enc == !receive && u.kind == (prof == 0 ? 5 : prof == 1 ? 4 : 3), "cipher of the profile");
        vp_assert(vp_eq(u.key, rk, keyLen(prof)), "session key of the direction and kind of packet");
        uint8_t w[16] = {};
        int at = prof <= 1 ? 2 : 4;
        for (int j = 0; j < 4; j++) w[at + j] = (uint8_t)(ssrc[i] >> (24 - 8 * j));
        if (control) for (int j = 0; j < 4; j++) w[at + 6 + j] = (uint8_t)(seq[i] >> (24 - 8 * j));
        else { for (int j = 0; j < 4; j++) w[at + 4 + j] = (uint8_t)(roc[i] >> (24 - 8 * j)); w[at + 8] = (uint8_t)(seq[i] >> 8); w[at + 9] = (uint8_t)seq[i]; }
        for (int j = 0; j < 16; j++) w[j] ^= rs[j];
        vp_assert(vp_eq(u.iv, w, prof <= 1 ? 12 : 16), "the initialisation vector is the prescribed one");
        memcpy(iv[i], u.iv, 16);
    }
    if (cnt == 2) {
        bool eq = vp_eq(iv[0], iv[1], prof <= 1 ? 12 : 16);
        bool samePkt = ssrc[0] == ssrc[1] && seq[0] == seq[1] && (control || roc[0] == roc[1]);
        vp_assert(eq == samePkt, "different packets have different initialisation vectors");
    }
    vp_reach("done");
}
// which part of the exported material each side uses for each direction (RFC 5764, section 4.2)
HARNESS(c03_create)
{
    vp_crypto_kdf = 1;
    const int prof = (int)vp_param("profile", 0);
    size_t kl = keyLen(prof), sl = saltLen(prof);
    vp_ssl_profile = (unsigned long)profileOf(prof);
    vp_bytes(vp_ssl_material, 2 * (kl + sl), "material");
    vp_assume(!vp_eq(vp_ssl_material, vp_ssl_material + kl, kl));
    std::shared_ptr<SrtpConnection> c[2];
    for (int i = 0; i < 2; i++) { auto r = SrtpConnection::create(nullptr, i == 1); vp_assert(r.second.isOk() && r.first, "a connection is made"); c[i] = r.first; }
    for (int i = 0; i < 2; i++) for (int control = 0; control < 2; control++) { // 0: we are the DTLS client, 1: the server
        uint8_t rk[32], rs[16] = {};
        derived(vp_ssl_material + i * kl, kl, vp_ssl_material + 2 * kl + i * sl, sl, control ? 3 : 0, rk, kl);
        derived(vp_ssl_material + i * kl, kl, vp_ssl_material + 2 * kl + i * sl, sl, control ? 5 : 2, rs, sl);
        ByteBuffer p = control ? rtcp(9, 4) : rtp(9, 96, 5, 0, 2, true), e, o;
        for (int receive = 0; receive < 2; receive++) {
            vp_iv_count = 0; vp_crypto_receiver = receive;
            if (receive) { vp_assert(control ? c[1 - i]->unprotectReceiveControl(e, o) : c[1 - i]->unprotectReceiveMedia(e, o), "the peer recovers it"); vp_assert(same(o, p), "exactly"); }
            else vp_assert(control ? c[i]->protectSendControl(p, 1, e) : c[i]->protectSendMedia(p, 0, e), "protected");
            vp_crypto_receiver = 0;
            vp_assert(vp_iv_count == 1 && vp_eq(vp_iv_log[0].key, rk, kl), "the client's keys protect what the client sends");
            uint8_t w[16] = {}; int at = prof <= 1 ? 2 : 4; w[at + 3] = 9; w[at + (control ? 9 : 9)] = control ? 1 : 5;
            for (int j = 0; j < 16; j++) w[j] ^= rs[j];
            vp_assert(vp_eq(vp_iv_log[0].iv, w, prof <= 1 ? 12 : 16), "and the client's salts");
        }
    }
    vp_reach("done");
}

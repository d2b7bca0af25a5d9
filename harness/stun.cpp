#include "common.h"
#include "crcref.h"
#include "stun5389.h"
#include "stunhmac.h"
#include "stunmessage.h"
#include "srtc/ice_agent.h"
#include "vp_crypto.h"
#include <netinet/in.h>
#include <openssl/evp.h>
#include <string>
using namespace stun;
namespace {
uint16_t w16(const uint8_t* p) { return (uint16_t)(p[0] << 8 | p[1]); }
uint32_t w32(const uint8_t* p) { return (uint32_t)p[0] << 24 | (uint32_t)p[1] << 16 | (uint32_t)p[2] << 8 | p[3]; }
// a message written byte by byte from the RFCs
struct B {
    std::vector<uint8_t> b;
    B(uint16_t type, const uint8_t* tail12) { u16(type); u16(0); u32(0x2112A442); b.insert(b.end(), tail12, tail12 + 12); }
    void u16(uint16_t v) { b.push_back(v >> 8); b.push_back((uint8_t)v); }
    void u32(uint32_t v) { u16(v >> 16); u16((uint16_t)v); }
    void attr(uint16_t t, const uint8_t* p, size_t n) { u16(t); u16((uint16_t)n); b.insert(b.end(), p, p + n); while (b.size() % 4) b.push_back(0); len(); }
    void len() { b[2] = (uint8_t)((b.size() - 20) >> 8); b[3] = (uint8_t)(b.size() - 20); }
    void integrity(const std::string& key);
    void fingerprint()
    {
        uint8_t z[4] = {}; size_t at = b.size(); attr(0x8028, z, 4);
        uint32_t c = crcIeee(b.data(), at) ^ 0x5354554e;
        for (int i = 0; i < 4; i++) b[at + 4 + i] = (uint8_t)(c >> (24 - 8 * i));
    }
};
void mac(const std::string& key, const uint8_t* p, size_t n, uint8_t* out)
{
    EVP_MAC* m = EVP_MAC_fetch(nullptr, "HMAC", nullptr); EVP_MAC_CTX* c = EVP_MAC_CTX_new(m);
    char sha1[] = "SHA1"; OSSL_PARAM ps[2] = { OSSL_PARAM_construct_utf8_string("digest", sha1, 0), OSSL_PARAM_construct_end() };
    EVP_MAC_init(c, (const uint8_t*)key.data(), key.size(), ps); EVP_MAC_update(c, p, n); size_t l = 0; EVP_MAC_final(c, out, &l, 20);
    EVP_MAC_CTX_free(c); EVP_MAC_free(m);
}
void B::integrity(const std::string& key)
{
    uint8_t h[20] = {}; size_t at = b.size(); attr(0x0008, h, 20);
    mac(key, b.data(), at, h); memcpy(&b[at + 4], h, 20);
}
std::string cred(size_t n, const char* name)
{
    std::string s(n, 'x');
    for (auto& c : s) c = (char)vp_range(1, 255, name);
    return s;
}
struct At { uint16_t type; const uint8_t* p; size_t n; };
std::vector<At> parse(const uint8_t* b, size_t n)
{
    std::vector<At> r;
    vp_assert(n >= 20 && n % 4 == 0 && w16(b + 2) == n - 20 && b[0] < 4 && w32(b + 4) == 0x2112A442, "message header");
    for (size_t o = 20; o < n;) {
        vp_assert(n - o >= 4, "attribute header"); size_t l = w16(b + o + 2);
        vp_assert(l <= n - o - 4, "attribute value");
        r.push_back({ w16(b + o), b + o + 4, l });
        for (size_t i = o + 4 + l; i % 4; i++) vp_assert(b[i] == 0, "padding");
        o += 4 + (l + 3) / 4 * 4;
    }
    return r;
}
}
// any datagram classified as STUN, any query
HARNESS(s05)
{
    vp_rand_mode = 2; vp_crypto_hash = 1;
    size_t n = vp_param("base", 21) + vp_choose(vp_param("count", 16), "n");
    Exact e(n, "datagram");
    vp_assume(e.p[0] < 2 && w32(e.p + 4) == 0x2112A442);
    for (int i = 4; i < 8; i++) e.p[i] = (uint8_t)(0x2112A442u >> (56 - 8 * i));
    StunMessage m = {}; m.buffer = e.p; m.buffer_len = n;
    IceAgent agent;
    vp_hang_limit(3000000);
    static const StunAttribute T[] = { STUN_ATTRIBUTE_FINGERPRINT, STUN_ATTRIBUTE_USERNAME, STUN_ATTRIBUTE_MESSAGE_INTEGRITY, STUN_ATTRIBUTE_ERROR_CODE, STUN_ATTRIBUTE_XOR_MAPPED_ADDRESS };
    uint16_t len = 0; sockaddr_storage ss; socklen_t sl = sizeof ss; uint32_t v32; uint64_t v64; int code = -1; char str[16]; std::string s("user:name"), pw("password");
    vp_assert((stun_message_get_method(&m) & ~0xfff) == 0 && stun_message_get_class(&m) < 4, "method and class");
    StunTransactionId id; stun_message_id(&m, id); float rtt;
    vp_assert(!agent.forgetTransaction(id, rtt), "no request has been sent");
    auto inside = [&](const void* p, size_t k) { return (const uint8_t*)p >= e.p + 20 && (const uint8_t*)p + k <= e.p + n; };
    switch (vp_param("query", 0)) {
    case 0: { auto p = stun_message_find(&m, T[vp_choose(5, "type")], &len); if (p) { vp_assert(inside(p, len), "the attribute lies inside the datagram"); vp_reach("found"); } else vp_reach("absent"); break; }
    case 1: if (stun_message_find_error(&m, &code) == STUN_MESSAGE_RETURN_SUCCESS) { vp_assert(code >= 300 && code <= 699, "error code"); vp_reach("found"); } else vp_reach("absent"); break;
    case 2: {
        switch (vp_choose(5, "kind")) {
        case 0: if (stun_message_find32(&m, T[3], &v32) == STUN_MESSAGE_RETURN_SUCCESS) vp_reach("found"); else vp_reach("absent"); break;
        case 1: stun_message_find64(&m, T[3], &v64); break;
        case 2: if (stun_message_find_string(&m, T[1], str, sizeof str) == STUN_MESSAGE_RETURN_SUCCESS) vp_assert(strlen(str) < sizeof str, "string"); break;
        case 3: stun_message_find_xor_addr(&m, T[4], &ss, &sl); break;
        case 4: stun_message_find_flag(&m, T[1]); stun_message_has_attribute(&m, T[2]); break;
        }
        break;
    }
    case 3: { int r = stun_message_validate_buffer_length(e.p, n, true); vp_assert(r <= (int)n, "length"); if (r > 0) vp_reach("found"); else vp_reach("absent"); break; }
    case 4: { uint8_t buf[200]; StunMessage out; if (agent.initResponse(&out, buf, sizeof buf, &m)) { vp_assert(vp_eq(buf + 4, e.p + 4, 16), "transaction"); vp_reach("found"); } else vp_reach("absent"); break; }
    }
}

namespace {
// what RFC 5389/8489 says about a received message: the first attribute of a type counts, nothing but FINGERPRINT after MESSAGE-INTEGRITY, FINGERPRINT last
bool right(const uint8_t* b, size_t n, const std::string* user, const std::string& key)
{
    size_t m = (size_t)w16(b + 2) + 20; const uint8_t *fp = nullptr, *mi = nullptr, *us = nullptr; size_t un = 0, fl = 0, ml = 0;
    if (m > n) return false;
    for (size_t o = 20; o + 4 <= m;) {
        uint16_t t = w16(b + o); size_t l = w16(b + o + 2);
        if (l > m - o - 4) break;
        const uint8_t* v = b + o + 4;
        if (t == 0x8028) { fp = v; fl = l; break; }
        if (t == 0x0008 && !mi) { mi = v; ml = l; }
        else if (t == 0x0006 && !mi && !us) { us = v; un = l; }
        o += 4 + (l + 3) / 4 * 4;
    }
    if (!fp || fl != 4 || fp + 4 != b + m || !mi || ml != 20) return false;
    if (user && (!us || un == 0 || un != user->size() || !vp_eq(us, user->data(), un))) return false;
    if (w32(fp) != (crcIeee(b, m - 8) ^ 0x5354554e)) return false;
    std::vector<uint8_t> z(b, mi - 4); size_t ln = (size_t)(mi - b) + 20 - 20; // the length as if the message ended with MESSAGE-INTEGRITY
    z[2] = (uint8_t)(ln >> 8); z[3] = (uint8_t)ln;
    uint8_t h[20]; mac(key, z.data(), z.size(), h);
    return vp_eq(h, mi, 20);
}
void fpAt(uint8_t* b, size_t m, uint32_t delta)
{
    uint32_t c = crcIeee(b, m - 8) ^ 0x5354554e ^ delta;
    b[m - 8] = 0x80; b[m - 7] = 0x28; b[m - 6] = 0; b[m - 5] = 4;
    for (int i = 0; i < 4; i++) b[m - 4 + i] = (uint8_t)(c >> (24 - 8 * i));
}
}
// any message: bytes of any value, MESSAGE-INTEGRITY (right, or any) or not, FINGERPRINT (right, or wrong) or not: accepted exactly when it is right
HARNESS(i01v)
{
    vp_rand_mode = 2; vp_crypto_hash = (int)vp_param("hash", 0);
    size_t a = vp_param("base", 0) + vp_choose(vp_param("count", 9), "bytes");
    int mi = (int)vp_param("mi", 1), fp = (int)vp_param("fp", 1); // none, right, any / none, right, wrong
    size_t m = 20 + a + (mi ? 24 : 0) + (fp ? 8 : 0), extra = vp_choose(2, "after") * 4, n = m + extra;
    if (n < 21 || (fp && a % 4)) return;
    bool request = vp_choose(2, "request");
    std::string user = cred(vp_param("user", 3), "u"), key = cred(2, "p");
    Exact e(n, "datagram");
    vp_assume(e.p[0] < 2 && w32(e.p + 4) == 0x2112A442);
    bool whole = vp_choose(2, "length") == 0;
    if (whole) { e.p[2] = (uint8_t)((m - 20) >> 8); e.p[3] = (uint8_t)(m - 20); } else { if (fp || mi) return; vp_assume(w16(e.p + 2) > n - 20); }
    if (mi) {
        size_t at = 20 + a; e.p[at] = 0; e.p[at + 1] = 8; e.p[at + 2] = 0; e.p[at + 3] = 20;
        if (mi == 1) {
            std::vector<uint8_t> z(e.p, e.p + at); size_t ln = at + 24 - 20; z[2] = (uint8_t)(ln >> 8); z[3] = (uint8_t)ln;
            mac(key, z.data(), at, e.p + at + 4);
        }
    }
    if (mi) { size_t o = 20; while (o < 20 + a && o + 4 <= m) o += 4 + (w16(e.p + o + 2) + 3u) / 4 * 4; if (o != 20 + a && o <= m) return; } // up to MESSAGE-INTEGRITY, or past the end
    bool hit = false; // the attributes before lead to the middle of FINGERPRINT
    if (fp) { for (size_t o = 20; o + 8 <= m && !hit;) { if (o == m - 8) break; size_t l = w16(e.p + o + 2); o += 4 + (l + 3) / 4 * 4; if (o == m - 4) hit = true; } }
    if (hit) { if (fp == 2) return; e.p[m - 8] = 0x80; e.p[m - 7] = 0x28; e.p[m - 6] = 0; e.p[m - 5] = 4; }
    else if (fp) { uint32_t d = 0; if (fp == 2) { vp_bytes(&d, 4, "delta"); vp_assume(d != 0); } fpAt(e.p, m, d); }
    else if (whole && m >= 28) vp_assume(w32(e.p + m - 8) != 0x80280004);
    vp_hang_limit(3000000);
    StunMessage sm = {}; sm.buffer = e.p; sm.buffer_len = n;
    IceAgent agent; std::vector<uint8_t> before(e.p, e.p + n);
    bool ok = request ? agent.verifyRequestMessage(&sm, user, key) : agent.verifyResponseMessage(&sm, key);
    vp_assert(ok == right(e.p, n, request ? &user : nullptr, key), "accepted exactly when username, integrity and fingerprint are right");
    vp_assert(vp_eq(before.data(), e.p, n), "the datagram is left alone");
    if (ok) vp_reach("accepted"); else vp_reach("refused");
    if (ok && mi == 2) vp_reach("accepted-guessed"); 
}
namespace {
sockaddr_storage anyAddr(bool v6, socklen_t& n)
{
    sockaddr_storage s; memset(&s, 0, sizeof s);
    if (v6) { auto a = (sockaddr_in6*)&s; a->sin6_family = AF_INET6; vp_bytes(&a->sin6_port, 2, "port"); vp_bytes(&a->sin6_addr, 16, "addr"); n = sizeof *a; }
    else { auto a = (sockaddr_in*)&s; a->sin_family = AF_INET; vp_bytes(&a->sin_port, 2, "port"); vp_bytes(&a->sin_addr, 4, "addr"); n = sizeof *a; }
    return s;
}
}
// what the library sends, in buffers of every length: attributes in order and complete when it says so, never a byte past the buffer
HARNESS(i01b)
{
    vp_rand_mode = (int)vp_param("rand", 0); vp_crypto_hash = 0;
    bool response = vp_param("response", 0) != 0, flag = !response && vp_choose(2, "useCandidate"), v6 = response && vp_choose(2, "v6");
    size_t un = response ? 0 : vp_choose(vp_param("user", 6), "username"), n = vp_param("base", 80) + vp_choose(vp_param("count", 24), "buffer");
    std::string user = cred(un, "u"), key = cred(1 + vp_choose(2, "password"), "p");
    Exact e(n, "buffer"); auto buf = e.p;
    IceAgent agent; StunMessage m; socklen_t al = 0; sockaddr_storage ad; uint32_t prio = 0; uint8_t req[24]; StunMessage rq = {};
    bool ok;
    if (response) {
        vp_bytes(req, 24, "request"); vp_assume(req[0] < 2); for (int i = 4; i < 8; i++) req[i] = (uint8_t)(0x2112A442u >> (56 - 8 * i)); rq.buffer = req; rq.buffer_len = 24;
        bool isReq = (w16(req) & 0x110) == 0 || (w16(req) == 0x0115 && false);
        ok = agent.initResponse(&m, buf, n, &rq);
        vp_assert(ok == (isReq && n >= 20), "only requests are answered");
        if (!ok) return;
        ad = anyAddr(v6, al); stun_message_append_xor_addr(&m, STUN_ATTRIBUTE_XOR_MAPPED_ADDRESS, &ad, al);
        ok = agent.finishMessage(&m, std::nullopt, key);
    } else {
        ok = agent.initRequest(&m, buf, n, STUN_BINDING);
        vp_assert(ok == (n >= 20), "a request needs room for its header");
        if (!ok) return;
        if (flag) stun_message_append_flag(&m, STUN_ATTRIBUTE_USE_CANDIDATE);
        vp_bytes(&prio, 4, "priority"); stun_message_append32(&m, STUN_ATTRIBUTE_PRIORITY, prio);
        ok = agent.finishMessage(&m, user, key);
    }
    size_t need = response ? 20 + 8 + (v6 ? 24 : 12) + 32 : 20 + 8 + 12 + (flag ? 4 : 0) + 8 + 4 + (un + 3) / 4 * 4 + 32;
    vp_assert(ok || n < need, "a message that fits is built");
    if (!ok) { vp_reach("too-small"); return; }
    size_t len = stun_message_length(&m);
    vp_assert(len <= n && (n < need || len == need), "message length");
    auto at = parse(buf, len);
    std::vector<uint16_t> want; want.push_back(0x8022);
    if (response) { want.push_back(0x0020); } else { want.push_back(0x802a); if (flag) want.push_back(0x0025); want.push_back(0x0024); want.push_back(0x0006); }
    want.push_back(0x0008); want.push_back(0x8028);
    size_t w = 0, must = 0;
    for (auto& a : at) {
        while (w < want.size() && want[w] != a.type) w++;
        vp_assert(w < want.size(), "attributes of the message, in order"); w++;
        switch (a.type) {
        case 0x8022: vp_assert(a.n == 4 && memcmp(a.p, "srtc", 4) == 0, "software"); break;
        case 0x802a: vp_assert(a.n == 8, "tie breaker"); break;
        case 0x0025: vp_assert(a.n == 0, "useCandidate"); break;
        case 0x0024: vp_assert(a.n == 4 && w32(a.p) == prio, "priority"); break;
        case 0x0006: vp_assert(a.n == un && vp_eq(a.p, user.data(), un), "username"); must |= 1; break;
        case 0x0020: {
            vp_assert(a.n == (v6 ? 20u : 8u) && a.p[0] == 0 && a.p[1] == (v6 ? 2 : 1), "address");
            auto a6 = (sockaddr_in6*)&ad; auto a4 = (sockaddr_in*)&ad;
            vp_assert((w16(a.p + 2) ^ 0x2112) == ntohs(v6 ? a6->sin6_port : a4->sin_port), "port");
            const uint8_t* x = v6 ? a6->sin6_addr.s6_addr : (const uint8_t*)&a4->sin_addr;
            bool same = true; for (size_t i = 0; i < (v6 ? 16u : 4u); i++) same &= (uint8_t)(a.p[4 + i] ^ x[i]) == buf[4 + i];
            vp_assert(same, "address bytes");
            break;
        }
        case 0x0008: must |= 2; break;
        case 0x8028: must |= 4; break;
        }
    }
    vp_assert(must == (response ? 6u : 7u), "credentials, integrity and fingerprint are there");
    if (n >= need) vp_assert(at.size() == want.size(), "every attribute is there");
    if (response) vp_assert(vp_eq(buf + 4, req + 4, 16) && w16(buf) == (w16(req) | 0x0100), "the response answers its request");
    else vp_assert(w16(buf) == 0x0001, "binding request");
    vp_assert(right(buf, len, response || un == 0 ? nullptr : &user, key), "integrity and fingerprint");
    if (response && n >= need) {
        sockaddr_storage back; socklen_t bl = sizeof back;
        vp_assert(stun_message_find_xor_addr(&m, STUN_ATTRIBUTE_XOR_MAPPED_ADDRESS, &back, &bl) == STUN_MESSAGE_RETURN_SUCCESS && bl == al && vp_eq(&back, &ad, al), "the address comes back");
    }
    vp_reach(n >= need ? "built" : "partly");
}
// any one byte of a message altered: refused
HARNESS(i01a)
{
    vp_rand_mode = 2; vp_crypto_hash = 0;
    bool response = vp_param("response", 0) != 0;
    std::string user = cred(3, "u"), key = cred(2, "p");
    uint8_t buf[160], req[24]; IceAgent agent, other; StunMessage m;
    if (response) {
        vp_bytes(req, 24, "request"); req[0] = 0; req[1] = 1; for (int i = 4; i < 8; i++) req[i] = (uint8_t)(0x2112A442u >> (56 - 8 * i));
        StunMessage rq = {}; rq.buffer = req; rq.buffer_len = 24; agent.initResponse(&m, buf, sizeof buf, &rq);
        socklen_t al; auto ad = anyAddr(false, al); stun_message_append_xor_addr(&m, STUN_ATTRIBUTE_XOR_MAPPED_ADDRESS, &ad, al);
        agent.finishMessage(&m, std::nullopt, key);
    } else {
        agent.initRequest(&m, buf, sizeof buf, STUN_BINDING); uint32_t prio; vp_bytes(&prio, 4, "priority");
        stun_message_append32(&m, STUN_ATTRIBUTE_PRIORITY, prio); agent.finishMessage(&m, user, key);
    }
    size_t len = stun_message_length(&m), at = vp_choose(len, "which");
    auto accepted = [&] { Exact e(len, "copy"); memcpy(e.p, buf, len); StunMessage g = {}; g.buffer = e.p; g.buffer_len = len; return response ? other.verifyResponseMessage(&g, key) : other.verifyRequestMessage(&g, user, key); };
    vp_assert(accepted(), "accepted as it is");
    bool isLen = at == 2 || at == 3; auto attrs = parse(buf, len);
    for (auto& a : attrs) if (buf + at == a.p - 2 || buf + at == a.p - 1) isLen = true;
    if (isLen) { // values are then read as attributes: one message
        auto one = [&](const uint8_t* p, size_t n) { for (size_t i = p - buf; i < (size_t)(p - buf) + n; i++) { uint8_t c = (uint8_t)(17 * i + 3) | 1; /* never 0 */ vp_assume(buf[i] == c); buf[i] = c; } };
        if (response) one(buf + 8, 12);
        for (auto& a : attrs) if (a.type == 0x0020) one(a.p + 2, a.n - 2); else if (a.type == 0x0024 || a.type == 0x0006 || a.type == 0x0008) one(a.p, a.n);
        fpAt(buf, len, 0);
    }
    buf[at] ^= isLen ? (uint8_t)(1 + vp_choose(255, "changeLength")) : (uint8_t)vp_range(1, 255, "change");
    vp_assert(!accepted(), "refused with a byte altered");
    vp_reach("altered");
}
// values appended come back
HARNESS(i01c)
{
    vp_rand_mode = 2; uint8_t buf[200]; IceAgent agent; StunMessage m; agent.initRequest(&m, buf, sizeof buf, STUN_BINDING);
    uint32_t a, a2 = 0; uint64_t b, b2 = 0; vp_bytes(&a, 4, "a"); vp_bytes(&b, 8, "b"); int code = (int)vp_range(300, 699, "code"), c2 = 0;
    size_t n = vp_choose(6, "string"); std::string s = cred(n, "s"); char out[8]; bool v6 = vp_choose(2, "v6"); socklen_t al, bl; auto ad = anyAddr(v6, al); sockaddr_storage back;
    auto ok = STUN_MESSAGE_RETURN_SUCCESS;
    vp_assert(stun_message_append32(&m, STUN_ATTRIBUTE_PRIORITY, a) == ok && stun_message_append64(&m, STUN_ATTRIBUTE_ICE_CONTROLLED, b) == ok && stun_message_append_flag(&m, STUN_ATTRIBUTE_USE_CANDIDATE) == ok
        && stun_message_append_string(&m, STUN_ATTRIBUTE_USERNAME, s.c_str()) == ok && stun_message_append_error(&m, (StunError)code) == ok && stun_message_append_addr(&m, STUN_ATTRIBUTE_MAPPED_ADDRESS, (sockaddr*)&ad, al) == ok, "appended");
    parse(buf, stun_message_length(&m));
    vp_assert(stun_message_find32(&m, STUN_ATTRIBUTE_PRIORITY, &a2) == ok && a2 == a, "32 bits");
    vp_assert(stun_message_find64(&m, STUN_ATTRIBUTE_ICE_CONTROLLED, &b2) == ok && b2 == b, "64 bits");
    vp_assert(stun_message_find_flag(&m, STUN_ATTRIBUTE_USE_CANDIDATE) == ok && stun_message_find_flag(&m, STUN_ATTRIBUTE_PRIORITY) == STUN_MESSAGE_RETURN_INVALID && stun_message_find_flag(&m, STUN_ATTRIBUTE_REALM) == STUN_MESSAGE_RETURN_NOT_FOUND, "flag");
    vp_assert(stun_message_find_string(&m, STUN_ATTRIBUTE_USERNAME, out, sizeof out) == ok && strlen(out) == n && vp_eq(out, s.data(), n), "string");
    vp_assert(stun_message_find_string(&m, STUN_ATTRIBUTE_USERNAME, out, n) == STUN_MESSAGE_RETURN_NOT_ENOUGH_SPACE, "string too long");
    vp_assert(stun_message_find_error(&m, &c2) == ok && c2 == code, "error code");
    bl = sizeof back; vp_assert(stun_message_find_addr(&m, STUN_ATTRIBUTE_MAPPED_ADDRESS, &back, &bl) == ok && bl == al && vp_eq(&back, &ad, al), "address");
    vp_reach("checked");
}
// histories of requests sent, responses and expiry
HARNESS(i02)
{
    vp_rand_mode = 2; vp_crypto_hash = 1;
    IceAgent agent; struct Q { StunTransactionId id; uint64_t at; bool out; }; std::vector<Q> sent;
    int steps = (int)vp_param("steps", 4); std::string key = "pw";
    for (int s = 0; s < steps; s++) {
        uint64_t gap = (uint64_t)vp_range(0, 20000000, "gap") * 1000; vp_clock_ns += (int64_t)gap; // up to 20 s, by the microsecond
        switch (vp_choose(3, "step")) {
        case 0: {
            uint8_t buf[120]; StunMessage m; agent.initRequest(&m, buf, sizeof buf, STUN_BINDING);
            vp_assert(agent.finishMessage(&m, std::string("u:p"), key), "built");
            Q q; memcpy(q.id, buf + 4, 16); q.at = (uint64_t)vp_clock_ns; q.out = true;
            for (auto& o : sent) vp_assert(memcmp(o.id, q.id, 16) != 0, "transaction ids differ");
            sent.push_back(q);
            break;
        }
        case 1: {
            StunTransactionId id; size_t k = vp_choose(sent.size() + 1, "which"); bool any = k == sent.size();
            if (any) { vp_bytes(id, 16, "id"); for (auto& q : sent) if (q.out) vp_assume(!vp_eq(q.id, id, 16)); } else memcpy(id, sent[k].id, 16);
            float rtt = -1; bool ok = agent.forgetTransaction(id, rtt);
            vp_assert(ok == (!any && sent[k].out), "a response matches an outstanding request, once");
            if (ok) { vp_assert(rtt == (float)((vp_clock_ns - (int64_t)sent[k].at) / 1000) / 1000.0f, "round trip of its request"); sent[k].out = false; vp_reach("matched"); }
            else vp_reach("unmatched");
            break;
        }
        case 2: {
            int64_t ms = vp_range(0, 20000, "expiry"); agent.forgetExpiredTransactions(std::chrono::milliseconds(ms));
            for (auto& q : sent) if (q.out && (int64_t)q.at < vp_clock_ns - ms * 1000000) { q.out = false; vp_reach("expired"); }
            break;
        }
        }
    }
    // what is left is still matched, each once
    for (auto& q : sent) { float r; vp_assert(agent.forgetTransaction(q.id, r) == q.out, "outstanding at the end"); vp_assert(!agent.forgetTransaction(q.id, r), "at most once"); }
}

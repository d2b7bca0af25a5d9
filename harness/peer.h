#pragma once
// A PeerCandidate with a recording listener; the TLS library is a stand-in steered by the harness
#include "common.h"
#include "vp_crypto.h"
#include <condition_variable>
#include <functional>
#include <list>
#include <map>
#include <mutex>
#include <random>
#include <thread>
#include <unordered_map>
#include "srtc/rtp_extension_source.h"
#define private public
#include "srtc/replay_protection.h"
#include "srtc/peer_candidate.h"
#include "srtc/sdp_answer.h"
#include "srtc/sdp_offer.h"
#undef private
#include "srtc/event_loop.h"
#include "srtc/ice_agent.h"
#include "srtc/packetizer.h"
#include "srtc/rtcp_packet.h"
#include "srtc/rtcp_packet_source.h"
#include "srtc/send_pacer.h"
#include "srtc/send_rtp_history.h"
#include "srtc/sender_report.h"
#include "srtc/srtp_connection.h"
#include "srtc/srtp_crypto.h"
#include "srtc/track_stats.h"
#include "srtc/x509_certificate.h"
#include "srtc/x509_hash.h"
#include "stunmessage.h"
#include <arpa/inet.h>
#include <netinet/in.h>
#include <openssl/err.h>
#include <openssl/srtp.h>
#include <openssl/ssl.h>
extern "C" { extern unsigned long vp_ssl_profile; extern uint8_t vp_ssl_material[128]; }
namespace {
int gHandshake = -1, gSslErr = SSL_ERROR_WANT_READ, gRead = -1, gShutdown = 0, gServer = -1; bool gCert = true, gKeyOk = true, gVerifyPeer = false; std::vector<uint8_t> gWritten;
char gObj[16];
}
extern "C" {
const char* inet_ntop(int, const void*, char* p, socklen_t n) { vp_assert(n >= 2, "room"); p[0] = 'a'; p[1] = 0; return p; }
const SSL_METHOD* DTLS_server_method(void) { return (const SSL_METHOD*)(gObj + 1); }
const SSL_METHOD* DTLS_client_method(void) { return (const SSL_METHOD*)(gObj + 2); }
SSL_CTX* SSL_CTX_new(const SSL_METHOD* m) { gServer = m == DTLS_server_method(); return (SSL_CTX*)(gObj + 3); }
void SSL_CTX_free(SSL_CTX*) {}
int SSL_CTX_use_certificate(SSL_CTX*, X509*) { return 1; }
int SSL_CTX_use_PrivateKey(SSL_CTX*, EVP_PKEY*) { return 1; }
int SSL_CTX_check_private_key(const SSL_CTX*) { return gKeyOk; }
void SSL_CTX_set_verify(SSL_CTX*, int mode, SSL_verify_cb) { gVerifyPeer = mode & SSL_VERIFY_PEER; }
long SSL_CTX_ctrl(SSL_CTX*, int, long, void*) { return 1; }
void SSL_CTX_set_default_read_buffer_len(SSL_CTX*, size_t) {}
SSL* SSL_new(SSL_CTX*) { return (SSL*)(gObj + 4); }
void SSL_free(SSL*) {}
int SSL_shutdown(SSL*) { return 1; }
int SSL_get_shutdown(const SSL*) { return gShutdown; }
void SSL_set_bio(SSL*, BIO*, BIO*) {}
int SSL_set_tlsext_use_srtp(SSL*, const char*) { return 0; }
void SSL_set_connect_state(SSL*) {}
void SSL_set_accept_state(SSL*) {}
int SSL_accept(SSL*) { return -1; }
int SSL_do_handshake(SSL*) { return gHandshake; }
int SSL_get_error(const SSL*, int) { return gSslErr; }
X509* SSL_get1_peer_certificate(const SSL*) { return gCert ? (X509*)(gObj + 5) : nullptr; }
int SSL_read(SSL*, void* p, int n) { if (gRead > 0) { vp_assert(gRead <= n, "room"); memset(p, 0x5a, (size_t)gRead); } return gRead; }
int SSL_write(SSL*, const void* p, int n) { gWritten.assign((const uint8_t*)p, (const uint8_t*)p + n); return n; }
const SSL_CIPHER* SSL_get_current_cipher(const SSL*) { return (const SSL_CIPHER*)(gObj + 6); }
const char* SSL_CIPHER_get_name(const SSL_CIPHER*) { return "cipher"; }
const BIO_METHOD* BIO_s_mem(void) { return (const BIO_METHOD*)(gObj + 7); }
BIO* BIO_new(const BIO_METHOD*) { return (BIO*)(gObj + 8); }
int BIO_free(BIO*) { return 1; }
long BIO_ctrl(BIO*, int, long, void* p) { static char none[] = ""; if (p) *(char**)p = none; return 0; }
void ERR_print_errors(BIO*) {}
BIO_METHOD* BIO_meth_new(int, const char*) { return (BIO_METHOD*)(gObj + 9); }
int BIO_meth_set_read(BIO_METHOD*, int (*)(BIO*, char*, int)) { return 1; }
int BIO_meth_set_write(BIO_METHOD*, int (*)(BIO*, const char*, int)) { return 1; }
int BIO_meth_set_ctrl(BIO_METHOD*, long (*)(BIO*, int, long, void*)) { return 1; }
int BIO_meth_set_destroy(BIO_METHOD*, int (*)(BIO*)) { return 1; }
void BIO_set_init(BIO*, int) {}
void BIO_set_shutdown(BIO*, int) {}
void BIO_set_data(BIO*, void*) {}
void* BIO_get_data(BIO*) { return nullptr; }
void BIO_set_flags(BIO*, int) {}
void BIO_clear_flags(BIO*, int) {}
}
namespace {
enum Ev { evConnecting, evIce, evDtls, evLost, evFailed, evMedia, evSR, evKey, evOpen, evText, evBinary, evClosed };
struct Loop : EventLoop {
    void registerSocket(const std::shared_ptr<Socket>&, void*) override {}
    void unregisterSocket(const std::shared_ptr<Socket>&) override {}
    void wait(std::vector<void*>&, int) override {}
    void interrupt() override {}
};
struct Rec : PeerCandidateListener {
    std::vector<Ev> ev; std::vector<PacketP> media; std::vector<std::pair<TrackP, SenderReport>> sr; size_t toSend = 0; std::vector<std::string> texts;
    size_t count(Ev e) const { size_t n = 0; for (auto x : ev) n += x == e; return n; }
    void onCandidateHasDataToSend(PeerCandidate*) override { toSend++; }
    void onCandidateConnecting(PeerCandidate*) override { ev.push_back(evConnecting); }
    void onCandidateIceConnected(PeerCandidate*) override { ev.push_back(evIce); }
    void onCandidateDtlsConnected(PeerCandidate*) override { ev.push_back(evDtls); }
    void onCandidateDtlsDisconnected(PeerCandidate*, const Error&) override { ev.push_back(evLost); }
    void onCandidateFailedToConnect(PeerCandidate*, const Error& e) override { vp_assert(e.isError(), "a reason is given"); ev.push_back(evFailed); }
    void onCandidateReceivedMediaPacket(PeerCandidate*, const PacketP& p) override { ev.push_back(evMedia); media.push_back(p); }
    void onCandidateReceivedSenderReport(PeerCandidate*, const TrackP& t, const SenderReport& s) override { ev.push_back(evSR); sr.push_back({ t, s }); }
    void onCandidateReceivedKeyFrameRequest(PeerCandidate*) override { ev.push_back(evKey); }
    void getSimulcastLayerList(const std::shared_ptr<Media>&, std::vector<SimulcastLayer>&) const override {}
    void onSctpDataChannelOpen(const std::string&) override { ev.push_back(evOpen); }
    void onSctpDataChannelText(const std::string&, const std::string& t) override { ev.push_back(evText); texts.push_back(t); }
    void onSctpDataChannelBinary(const std::string&, const ByteBuffer&) override { ev.push_back(evBinary); }
    void onSctpDataChannelClosed(const std::string&) override { ev.push_back(evClosed); }
};
std::vector<std::vector<uint8_t>> gOut; // datagrams given to the network
inline void recordOut(const uint8_t* p, size_t n) { gOut.emplace_back(p, p + n); }
inline std::shared_ptr<SrtpConnection> mkSrtp(bool other)
{
    CryptoBytes k[2], s[2]; uint8_t b[32];
    for (int d = 0; d < 2; d++) { for (int i = 0; i < 32; i++) b[i] = (uint8_t)(i + 64 * d); k[d].assign(b, 16); s[d].assign(b + 16, 12); }
    int m = other ? 1 : 0;
    auto c = SrtpCrypto::create(SRTP_AEAD_AES_128_GCM, k[m], s[m], k[1 - m], s[1 - m]);
    vp_assert(c.second.isOk(), "keys");
    return std::make_shared<SrtpConnection>(c.first, (unsigned long)SRTP_AEAD_AES_128_GCM);
}
struct Peer {
    std::shared_ptr<LoopScheduler> sched; std::shared_ptr<Loop> loop; Rec rec;
    std::shared_ptr<SdpOffer> offer; std::shared_ptr<SdpAnswer> answer; std::unique_ptr<PeerCandidate> pc; std::shared_ptr<SrtpConnection> far;
    struct Real { int tracks, layers = 0; }; // streams of an offer which has been made in full
    std::vector<TrackP> list;
    explicit Peer(Direction dir, std::vector<TrackP> tracks, const ByteBuffer& hash = ByteBuffer(), bool active = false, bool data = false, const Real* real = nullptr)
    {
        vp_on_sendto = recordOut; gOut.clear(); vp_crypto_hash = 1; vp_crypto_receiver = 0;
        sched = std::make_shared<LoopScheduler>(); loop = std::make_shared<Loop>();
        SdpOffer::Config cfg; cfg.cname = "c";
        std::vector<SdpOffer::MediaLine> lines;
        for (int i = 0; i < (real ? real->tracks : 1); i++) {
            SdpOffer::MediaLine ml; ml.id = std::string("media") + (char)('0' + i); ml.mediaType = MediaType::Video; ml.codec_list.emplace_back(Codec::VP8, 0u, 0u, false);
            if (real) for (int k = 0; k < real->layers; k++) { SimulcastLayer l; l.name = k ? "b" : "a"; l.width = l.height = 1; l.frames_per_second = 1; l.kilobits_per_second = 1; ml.layer_list.push_back(l); }
            lines.push_back(ml);
        }
        if (data) cfg.data_channels.push_back("ch");
        offer = std::shared_ptr<SdpOffer>(new SdpOffer(dir, cfg, lines));
        if (real) {
            vp_assert(offer->generate().second.isOk(), "an offer");
            for (int i = 0; i < real->tracks; i++) {
                auto m = std::make_shared<Media>(lines[i].id, MediaType::Video);
                for (int k = 0; k < (real->layers ? real->layers : 1); k++) {
                    auto ss = dir == Direction::Subscribe ? std::make_pair(0x500u + i, 0x600u + i) : real->layers ? offer->getVideoSimulastSSRC(lines[i].id, k ? "b" : "a") : offer->getMediaSSRC(lines[i].id);
                    TrackBuilder b(m, dir, ss.first, 96, 90000); b.codec(Codec::VP8, nullptr).nack(true).pli(true).rtx(ss.second, 97);
                    tracks.push_back(b.build());
                }
            }
        } else
        offer->mControlPacketSource = std::make_shared<RtcpPacketSource>(0x0c0c0c0cu); // made with the text of the offer
        std::vector<std::shared_ptr<Media>> media; for (auto& t : tracks) media.push_back(t->getMedia());
        anyaddr a{}; a.sin_ipv4.sin_family = AF_INET; a.sin_ipv4.sin_port = htons(5000); a.sin_ipv4.sin_addr.s_addr = htonl(0x0a000001);
        Host h; h.addr = a;
        answer = std::shared_ptr<SdpAnswer>(new SdpAnswer(dir, "ansu", "anspassword", { h }, media, tracks, active, X509Hash("sha-256", hash, ""), data, 5000, 65536));
        list = tracks;
        pc.reset(new PeerCandidate(&rec, dir, offer, answer, 65536, sched, h, loop, std::chrono::milliseconds(0)));
    }
    // as after a completed handshake
    void connect()
    {
        pc->mSrtpConnection = mkSrtp(false); far = mkSrtp(true);
        pc->mSendPacer = std::make_shared<SendPacer>(offer->getConfig(), pc->mSrtpConnection, pc->mSocket, pc->mSendRtpHistory, pc->mExtensionSourceTWCC, [] {});
        pc->mDtlsState = PeerCandidate::DtlsState::Completed; pc->mSentUseCandidate = true; pc->onReceivedFromRemote();
        gOut.clear();
    }
    void arrives(const std::vector<uint8_t>& d, const anyaddr* from = nullptr)
    {
        anyaddr a{}; if (from) a = *from; else { a = pc->mHost.addr; }
        pc->mRawReceiveQueue.emplace_back(ByteBuffer(d.data(), d.size()), a, (socklen_t)sizeof(sockaddr_in));
        pc->run();
    }
    ByteBuffer openMedia(size_t i) { ByteBuffer o; vp_assert(far->unprotectReceiveMedia(ByteBuffer(gOut[i].data(), gOut[i].size()), o), "the far end accepts it"); return o; }
    ByteBuffer openControl(size_t i) { ByteBuffer o; vp_assert(far->unprotectReceiveControl(ByteBuffer(gOut[i].data(), gOut[i].size()), o), "the far end accepts it"); return o; }
    void pass(int64_t ms) { vp_clock_ns += ms * 1000000; sched->run(); pc->run(); }
};
inline uint32_t be32(const uint8_t* p) { return (uint32_t)p[0] << 24 | (uint32_t)p[1] << 16 | (uint32_t)p[2] << 8 | p[3]; }
inline uint16_t be16(const uint8_t* p) { return (uint16_t)(p[0] << 8 | p[1]); }
}

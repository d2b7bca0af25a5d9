// Stand-ins for the OpenSSL primitives: block ciphers, AEAD tags, MACs and digests are uninterpreted functions of exactly
// the bytes the specification says they cover (tags and digests are collision free), so what is checked is how the
// library uses them: which key, which initialisation vector, which bytes, which comparison.
#include "vp.h"
#include "vp_crypto.h"
#include <cstdlib>
#include <cstring>
#include <openssl/evp.h>
#include <openssl/params.h>
#include <openssl/rand.h>
#include <openssl/srtp.h>
#include <openssl/ssl.h>
#include <openssl/x509.h>

enum { kEcb128 = 1, kEcb256, kCtr128, kGcm128, kGcm256 };
static char g_cipher[8], g_md[4];
struct evp_cipher_ctx_st {
    int kind, enc; size_t keyLen, ivLen; uint8_t key[32], iv[16];
    size_t pos; bool inBody;
    uint8_t aad[256]; size_t aadLen; uint8_t ct[2048]; size_t ctLen; uint8_t tag[16]; bool tagSet;
    uint8_t ks[16];
};
struct evp_mac_ctx_st { uint8_t buf[64 + 4096]; size_t keyLen, len; };
struct evp_md_ctx_st { uint8_t buf[4096]; size_t len; int kind; };

// with vp_crypto_hash set, functions are a fixed mixing function instead (long histories); key derivation is one unless vp_crypto_kdf is set
extern "C" { int vp_crypto_hash = 0, vp_crypto_kdf = 0; }
static void fn(uint64_t id, const uint8_t* in, size_t n, uint8_t* out, size_t m, int flags)
{
    if (!(vp_crypto_hash || ((id == 100 + kEcb128 || id == 100 + kEcb256) && !vp_crypto_kdf))) { vp_uf(id, in, n, out, m, flags); return; }
    uint64_t a = 0x9e3779b97f4a7c15ull ^ id, b = 0xc2b2ae3d27d4eb4full + n;
    for (size_t i = 0; i < n; i++) { a = (a ^ in[i]) * 0x100000001b3ull; b = (b + (a >> 29)) * 0x9fb21c651e98df25ull ^ (a << 7); }
    for (size_t i = 0; i < m; i++) { a = (a ^ (b >> 31) ^ i) * 0x100000001b3ull; b = (b ^ (a >> 27)) * 0x94d049bb133111ebull; out[i] = (uint8_t)(b >> 56 ^ a >> 40); }
}

extern "C" {
VpIvUse vp_iv_log[VP_IV_MAX]; int vp_iv_count = 0;
VpMac vp_mac_log[VP_MAC_MAX]; int vp_mac_count = 0;
int vp_crypto_receiver = 0, vp_mac_genuine = 0;
uint8_t vp_mac_last[20];
static struct { int kind; uint8_t in[2560]; size_t n; } g_gcm[VP_MAC_MAX]; static int g_gcmCount = 0;

EVP_CIPHER_CTX* EVP_CIPHER_CTX_new(void) { return (EVP_CIPHER_CTX*)calloc(1, sizeof(evp_cipher_ctx_st)); }
void EVP_CIPHER_CTX_free(EVP_CIPHER_CTX* c) { free(c); }
const EVP_CIPHER* EVP_aes_128_ecb(void) { return (const EVP_CIPHER*)(g_cipher + kEcb128); }
const EVP_CIPHER* EVP_aes_256_ecb(void) { return (const EVP_CIPHER*)(g_cipher + kEcb256); }
const EVP_CIPHER* EVP_aes_128_ctr(void) { return (const EVP_CIPHER*)(g_cipher + kCtr128); }
const EVP_CIPHER* EVP_aes_128_gcm(void) { return (const EVP_CIPHER*)(g_cipher + kGcm128); }
const EVP_CIPHER* EVP_aes_256_gcm(void) { return (const EVP_CIPHER*)(g_cipher + kGcm256); }

static int init(EVP_CIPHER_CTX* c, const EVP_CIPHER* cipher, const unsigned char* key, const unsigned char* iv, int enc)
{
    if (cipher) {
        c->kind = (int)((const char*)cipher - g_cipher);
        c->keyLen = c->kind == kEcb256 || c->kind == kGcm256 ? 32 : 16;
        c->ivLen = c->kind == kGcm128 || c->kind == kGcm256 ? 12 : c->kind == kCtr128 ? 16 : 0;
    }
    c->enc = enc;
    if (key) memcpy(c->key, key, c->keyLen);
    if (iv && c->ivLen) {
        memcpy(c->iv, iv, c->ivLen);
        if (vp_iv_count < VP_IV_MAX) {
            VpIvUse& u = vp_iv_log[vp_iv_count++];
            u.enc = enc; u.kind = c->kind; u.keyLen = (int)c->keyLen; u.ivLen = (int)c->ivLen;
            memcpy(u.key, c->key, 32); memcpy(u.iv, c->iv, 16);
        }
    }
    c->pos = 0; c->aadLen = c->ctLen = 0; c->tagSet = false;
    return 1;
}
int EVP_EncryptInit_ex(EVP_CIPHER_CTX* c, const EVP_CIPHER* cipher, ENGINE*, const unsigned char* key, const unsigned char* iv) { return init(c, cipher, key, iv, 1); }
int EVP_DecryptInit_ex(EVP_CIPHER_CTX* c, const EVP_CIPHER* cipher, ENGINE*, const unsigned char* key, const unsigned char* iv) { return init(c, cipher, key, iv, 0); }

static void keystream(EVP_CIPHER_CTX* c, size_t block)
{
    uint8_t in[52];
    memcpy(in, c->key, 32);
    memcpy(in + 32, c->iv, 16);
    in[48] = (uint8_t)(block >> 24); in[49] = (uint8_t)(block >> 16); in[50] = (uint8_t)(block >> 8); in[51] = (uint8_t)block;
    if (c->kind == kCtr128) { // the counter is the last two bytes of the vector, which are zero at the start of a packet
        vp_assert(c->iv[14] == 0 && c->iv[15] == 0, "the block counter starts at zero");
    }
    fn(100 + (uint64_t)c->kind, in, 52, c->ks, 16, 0);
}
static int update(EVP_CIPHER_CTX* c, unsigned char* out, int* outl, const unsigned char* in, int inl)
{
    vp_assert(inl >= 0, "length of the data to encrypt");
    size_t n = (size_t)inl;
    *outl = inl;
    if (c->kind == kEcb128 || c->kind == kEcb256) {
        vp_assert(n % 16 == 0, "whole blocks");
        for (size_t i = 0; i < n; i += 16) {
            uint8_t b[48]; memcpy(b, c->key, 32); memcpy(b + 32, in + i, 16);
            fn(100 + (uint64_t)c->kind, b, 48, out + i, 16, 1);
        }
        return 1;
    }
    if (!out) { // additional data
        vp_assert(c->aadLen + n <= sizeof(c->aad), "additional data");
        memcpy(c->aad + c->aadLen, in, n); c->aadLen += n;
        return 1;
    }
    bool gcm = c->kind == kGcm128 || c->kind == kGcm256;
    if (gcm) vp_assert(c->ctLen + n <= sizeof(c->ct), "body");
    if (gcm && !c->enc) { memcpy(c->ct + c->ctLen, in, n); c->ctLen += n; }
    for (size_t i = 0; i < n; i++) {
        if (c->pos % 16 == 0) keystream(c, c->pos / 16);
        out[i] = in[i] ^ c->ks[c->pos % 16];
        c->pos++;
    }
    if (gcm && c->enc) { memcpy(c->ct + c->ctLen, out, n); c->ctLen += n; }
    return 1;
}
int EVP_EncryptUpdate(EVP_CIPHER_CTX* c, unsigned char* out, int* outl, const unsigned char* in, int inl) { return update(c, out, outl, in, inl); }
int EVP_DecryptUpdate(EVP_CIPHER_CTX* c, unsigned char* out, int* outl, const unsigned char* in, int inl) { return update(c, out, outl, in, inl); }

// key, vector, lengths and all bytes under the tag
static size_t tagInput(EVP_CIPHER_CTX* c, uint8_t* b)
{
    size_t n = 0;
    memcpy(b, c->key, 32); memcpy(b + 32, c->iv, 12); n = 44;
    b[n++] = (uint8_t)(c->aadLen >> 8); b[n++] = (uint8_t)c->aadLen;
    memcpy(b + n, c->aad, c->aadLen); n += c->aadLen;
    memcpy(b + n, c->ct, c->ctLen); n += c->ctLen;
    return n;
}
int EVP_EncryptFinal_ex(EVP_CIPHER_CTX* c, unsigned char*, int* outl)
{
    *outl = 0;
    if (c->kind == kGcm128 || c->kind == kGcm256) {
        auto& g = g_gcm[g_gcmCount < VP_MAC_MAX ? g_gcmCount++ : VP_MAC_MAX - 1];
        g.kind = c->kind; g.n = tagInput(c, g.in);
        fn(200 + (uint64_t)c->kind, g.in, g.n, c->tag, 16, 1);
        c->tagSet = true;
    }
    return 1;
}
int EVP_DecryptFinal_ex(EVP_CIPHER_CTX* c, unsigned char*, int* outl)
{
    *outl = 0;
    if (c->kind != kGcm128 && c->kind != kGcm256) return 1;
    vp_assert(c->tagSet, "a tag was given to verify");
    static uint8_t b[2560]; size_t n = tagInput(c, b);
    // nobody without the key can produce a tag: it is right only for something encrypted before
    uint8_t want[16];
    bool genuine = false;
    for (int i = 0; i < g_gcmCount; i++) if (g_gcm[i].kind == c->kind && g_gcm[i].n == n && memcmp(g_gcm[i].in, b, n) == 0) { genuine = true; break; }
    if (!genuine) return 0;
    fn(200 + (uint64_t)c->kind, b, n, want, 16, 1);
    return memcmp(want, c->tag, 16) == 0;
}
int EVP_CIPHER_CTX_ctrl(EVP_CIPHER_CTX* c, int type, int arg, void* ptr)
{
    vp_assert(arg == 16, "full tag");
    if (type == EVP_CTRL_GCM_GET_TAG) { vp_assert(c->tagSet, "the tag is read after the last block"); memcpy(ptr, c->tag, 16); return 1; }
    if (type == EVP_CTRL_GCM_SET_TAG) { memcpy(c->tag, ptr, 16); c->tagSet = true; return 1; }
    return 0;
}

EVP_MAC* EVP_MAC_fetch(OSSL_LIB_CTX*, const char*, const char*) { return (EVP_MAC*)g_md; }
void EVP_MAC_free(EVP_MAC*) {}
EVP_MAC_CTX* EVP_MAC_CTX_new(EVP_MAC*) { return (EVP_MAC_CTX*)calloc(1, sizeof(evp_mac_ctx_st)); }
void EVP_MAC_CTX_free(EVP_MAC_CTX* c) { free(c); }
int EVP_MAC_init(EVP_MAC_CTX* c, const unsigned char* key, size_t n, const OSSL_PARAM[])
{
    vp_assert(n <= 64, "MAC key"); memset(c->buf, 0, 64); memcpy(c->buf, key, n); c->keyLen = n; c->len = 64;
    return 1;
}
int EVP_MAC_update(EVP_MAC_CTX* c, const unsigned char* d, size_t n)
{
    vp_assert(c->len + n <= sizeof(c->buf), "MAC input"); if (n) memcpy(c->buf + c->len, d, n); c->len += n;
    return 1;
}
int EVP_MAC_final(EVP_MAC_CTX* c, unsigned char* out, size_t* outl, size_t)
{
    fn(300, c->buf, c->len, out, 20, 1);
    *outl = 20;
    // does the sender's log hold this input?
    vp_mac_genuine = 0;
    for (int i = 0; i < vp_mac_count; i++) if (vp_mac_log[i].n == c->len && memcmp(vp_mac_log[i].in, c->buf, c->len) == 0) { vp_mac_genuine = 1; break; }
    if (!vp_crypto_receiver && vp_mac_count < VP_MAC_MAX && c->len <= sizeof(vp_mac_log[0].in)) {
        VpMac& m = vp_mac_log[vp_mac_count++]; m.n = c->len; memcpy(m.in, c->buf, c->len);
    }
    memcpy(vp_mac_last, out, 20);
    return 1;
}

EVP_MD_CTX* EVP_MD_CTX_new(void) { return (EVP_MD_CTX*)calloc(1, sizeof(evp_md_ctx_st)); }
void EVP_MD_CTX_free(EVP_MD_CTX* c) { free(c); }
const EVP_MD* EVP_md5(void) { return (const EVP_MD*)(g_md + 1); }
const EVP_MD* EVP_sha256(void) { return (const EVP_MD*)(g_md + 2); }
int EVP_DigestInit_ex(EVP_MD_CTX* c, const EVP_MD* md, ENGINE*) { c->kind = (int)((const char*)md - g_md); c->len = 0; return 1; }
int EVP_DigestUpdate(EVP_MD_CTX* c, const void* d, size_t n) { vp_assert(c->len + n <= sizeof(c->buf), "digest input"); if (n) memcpy(c->buf + c->len, d, n); c->len += n; return 1; }
int EVP_DigestFinal_ex(EVP_MD_CTX* c, unsigned char* out, unsigned* outl) { unsigned k = c->kind == 1 ? 16 : 32; fn(400 + (uint64_t)c->kind, c->buf, c->len, out, k, 1); if (outl) *outl = k; return 1; }

// a finished DTLS handshake
unsigned long vp_ssl_profile = 0; uint8_t vp_ssl_material[128];
static SRTP_PROTECTION_PROFILE g_profile;
SRTP_PROTECTION_PROFILE* SSL_get_selected_srtp_profile(SSL*) { if (!vp_ssl_profile) return nullptr; g_profile.name = "profile"; g_profile.id = vp_ssl_profile; return &g_profile; }
int SSL_export_keying_material(SSL*, unsigned char* out, size_t n, const char* label, size_t llen, const unsigned char*, size_t, int context)
{
    vp_assert(llen == 19 && memcmp(label, "EXTRACTOR-dtls_srtp", 19) == 0 && !context && n <= sizeof(vp_ssl_material), "key material is exported as RFC 5764 prescribes");
    memcpy(out, vp_ssl_material, n);
    return 1;
}
int vp_mac_tag = 0;
int CRYPTO_memcmp(const void* a, const void* b, size_t n)
{
    int r = memcmp(a, b, n);
    // nobody without the key produces a whole tag
    if (vp_crypto_receiver && !vp_mac_genuine && vp_mac_tag && n >= (size_t)vp_mac_tag && r == 0) vp_end();
    return r;
}
OSSL_PARAM OSSL_PARAM_construct_utf8_string(const char* key, char* buf, size_t n) { OSSL_PARAM p = {}; p.key = key; p.data = buf; p.data_size = n; return p; }
OSSL_PARAM OSSL_PARAM_construct_end(void) { OSSL_PARAM p = {}; return p; }
int OPENSSL_init_crypto(uint64_t, const OPENSSL_INIT_SETTINGS*) { return 1; }
int RAND_bytes(unsigned char* p, int n)
{
    static uint32_t ctr = 0;
    if (vp_rand_mode == 0) { if (n > 0) vp_bytes(p, (size_t)n, "rand"); return 1; }
    for (int i = 0; i < n; i++) { ctr = ctr * 1103515245u + 12345u; p[i] = vp_rand_mode == 1 ? 0 : (unsigned char)(ctr >> 16); }
    return 1;
}
// certificates: the fingerprint is a fixed 32-byte value
static char g_x509[16];
EVP_PKEY_CTX* EVP_PKEY_CTX_new_id(int, ENGINE*) { return (EVP_PKEY_CTX*)(g_x509 + 1); }
int EVP_PKEY_keygen_init(EVP_PKEY_CTX*) { return 1; }
int EVP_PKEY_CTX_set_ec_paramgen_curve_nid(EVP_PKEY_CTX*, int) { return 1; }
int EVP_PKEY_keygen(EVP_PKEY_CTX*, EVP_PKEY** k) { *k = (EVP_PKEY*)(g_x509 + 2); return 1; }
void EVP_PKEY_CTX_free(EVP_PKEY_CTX*) {}
void EVP_PKEY_free(EVP_PKEY*) {}
X509* X509_new(void) { return (X509*)(g_x509 + 3); }
void X509_free(X509*) {}
ASN1_INTEGER* X509_get_serialNumber(X509*) { return (ASN1_INTEGER*)(g_x509 + 4); }
int ASN1_INTEGER_set(ASN1_INTEGER*, long) { return 1; }
ASN1_TIME* X509_getm_notBefore(const X509*) { return (ASN1_TIME*)(g_x509 + 5); }
ASN1_TIME* X509_getm_notAfter(const X509*) { return (ASN1_TIME*)(g_x509 + 6); }
ASN1_TIME* X509_gmtime_adj(ASN1_TIME* t, long) { return t; }
int X509_set_pubkey(X509*, EVP_PKEY*) { return 1; }
X509_NAME* X509_get_subject_name(const X509*) { return (X509_NAME*)(g_x509 + 7); }
int X509_NAME_add_entry_by_txt(X509_NAME*, const char*, int, const unsigned char*, int, int, int) { return 1; }
int X509_set_issuer_name(X509*, const X509_NAME*) { return 1; }
int X509_sign(X509*, EVP_PKEY*, const EVP_MD*) { return 1; }
const EVP_MD* EVP_get_digestbyname(const char*) { return EVP_sha256(); }
int X509_digest(const X509*, const EVP_MD*, unsigned char* md, unsigned int* n) { for (int i = 0; i < 32; i++) md[i] = (unsigned char)(0xa0 + i * 7); *n = 32; return 1; }
}

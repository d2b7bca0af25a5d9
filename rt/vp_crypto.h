// what the cryptographic stand-ins record (rt/crypto_env.cpp)
#pragma once
#include <cstddef>
#include <cstdint>
#define VP_IV_MAX 64
#define VP_MAC_MAX 24
struct VpIvUse { int enc, kind, keyLen, ivLen; uint8_t key[32], iv[16]; };
struct VpMac { size_t n; uint8_t in[64 + 512]; };
extern "C" {
extern VpIvUse vp_iv_log[VP_IV_MAX]; extern int vp_iv_count;   // every initialisation vector given to a cipher
extern VpMac vp_mac_log[VP_MAC_MAX]; extern int vp_mac_count;  // every MAC input of the sender
extern int vp_crypto_hash, vp_crypto_kdf;
extern int vp_crypto_receiver;                                 // set while the receiver runs
extern int vp_mac_genuine;                                     // the last MAC was over an input of the sender
extern int vp_mac_tag;                                         // set: length of a tag, guessed tags are excluded
extern unsigned long vp_ssl_profile;                           // what the DTLS handshake agreed on
extern uint8_t vp_ssl_material[128];
extern uint8_t vp_mac_last[20];                                // the last MAC
}

#pragma once
#include <cstddef>
#include <cstdint>
// CRC32c from its polynomial: reflected 0x1EDC6F41, bytes in order, initial value and final complement all ones
namespace {
struct CrcTab { uint32_t t[256]; };
constexpr CrcTab crcMake(uint32_t poly)
{
    CrcTab r{};
    for (uint32_t i = 0; i < 256; i++) { uint32_t c = i; for (int k = 0; k < 8; k++) c = (c & 1) ? (c >> 1) ^ poly : c >> 1; r.t[i] = c; }
    return r;
}
constexpr CrcTab kCrcTab = crcMake(0x82F63B78u), kCrcIeee = crcMake(0xEDB88320u);
struct Ref {
    uint32_t upd(uint32_t c, const uint8_t* p, size_t n) const { for (size_t i = 0; i < n; i++) c = kCrcTab.t[(c ^ p[i]) & 0xff] ^ (c >> 8); return c; }
    uint32_t packet(const uint8_t* p, size_t n) const { static const uint8_t z[4] = {}; uint32_t c = upd(upd(0xffffffffu, p, 8), z, 4); return ~upd(c, p + 12, n - 12); }
};
void putCrc(uint8_t* p, uint32_t c) { p[8] = (uint8_t)c; p[9] = (uint8_t)(c >> 8); p[10] = (uint8_t)(c >> 16); p[11] = (uint8_t)(c >> 24); }
inline uint32_t crcIeee(const uint8_t* p, size_t n) { uint32_t c = 0xffffffffu; for (size_t i = 0; i < n; i++) c = kCrcIeee.t[(c ^ p[i]) & 0xff] ^ (c >> 8); return ~c; }
}

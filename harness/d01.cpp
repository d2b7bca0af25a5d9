#include "common.h"
#include "sctp/sctp_crc32.h"
#include "sctp/sctp_packet.h"
using namespace srtc::sctp;
#include "crcref.h"
// one update from any state, any alignment, any bytes
HARNESS(d01_step)
{
    Ref ref;
    size_t lo = vp_param("lo", 0), hi = vp_param("hi", 16);
    size_t n = lo + vp_choose(hi - lo + 1, "n"), al = vp_choose(8, "align");
    uint8_t* blk = new uint8_t[al + n];
    if (n) vp_bytes(blk + al, n, "data");
    uint32_t st = (uint32_t)vp_u32("state");
    uint32_t got = crc32c_update(st, blk + al, n);
    vp_assert(got == ref.upd(st, blk + al, n), "one update of the checksum is CRC32c from any state");
    vp_assert(crc32c_finalize(st) == ~st, "finalization");
    vp_reach("step");
    delete[] blk;
}
// whole strings, in one piece or two
HARNESS(d01_whole)
{
    Ref ref;
    size_t lo = vp_param("lo", 0), hi = vp_param("hi", 40);
    size_t n = lo + vp_choose(hi - lo + 1, "n"), al = vp_choose(4, "align");
    uint8_t* blk = new uint8_t[al + n];
    uint8_t* d = blk + al;
    if (n) vp_bytes(d, n, "data");
    uint32_t want = ~ref.upd(0xffffffffu, d, n);
    vp_assert(crc32c(d, n) == want, "the checksum is CRC32c");
    vp_reach("whole");
    delete[] blk;
}
static size_t mkPacket(uint8_t* p, size_t body)
{
    size_t n = 16 + body;
    vp_bytes(p, n, "packet");
    p[14] = (uint8_t)((4 + body) >> 8); p[15] = (uint8_t)(4 + body);
    return n;
}
// a packet is accepted exactly when its checksum is right
HARNESS(d01_accept)
{
    Ref ref;
    size_t body = vp_param("lo", 0) + vp_choose(vp_param("hi", 12) - vp_param("lo", 0) + 1, "body"), al = vp_choose(4, "align");
    size_t n = 16 + body;
    uint8_t* blk = new uint8_t[al + n];
    uint8_t* p = blk + al;
    mkPacket(p, body);
    uint32_t delta = (uint32_t)vp_u32("delta");
    putCrc(p, ref.packet(p, n) ^ delta);
    bool ok = SctpPacket::parse(p, n).has_value();
    vp_assert(ok == (delta == 0), "accepted exactly when the checksum is right");
    if (ok) vp_reach("accepted"); else vp_reach("rejected");
    delete[] blk;
}
// any burst of up to 32 bits on one side of the checksum field, or inside it
HARNESS(d01_burst)
{
    Ref ref;
    size_t body = vp_param("body", 12), n = 16 + body;
    uint8_t* p = new uint8_t[n];
    mkPacket(p, body);
    putCrc(p, ref.packet(p, n));
    vp_assert(SctpPacket::parse(p, n).has_value(), "the intact packet is accepted");
    size_t bit = vp_choose(n * 8 - 31, "position");
    vp_assume(bit + 32 <= 64 || bit == 64 || bit >= 96);
    uint32_t e = (uint32_t)vp_u32("burst");
    vp_assume(e != 0);
    uint64_t sh = (uint64_t)e << (bit & 7);
    for (size_t k = 0; k < 5; k++) if (bit / 8 + k < n) p[bit / 8 + k] ^= (uint8_t)(sh >> (8 * k));
    vp_assert(!SctpPacket::parse(p, n).has_value(), "a burst of up to 32 wrong bits is detected");
    vp_reach("burst");
    delete[] p;
}

#include "common.h"
#include "srtc/bit_reader.h"
// Any sequence of ByteBuffer operations against a flat reference copy.
HARNESS(b01_buffer)
{
    const int steps = (int)vp_param("steps", 3);
    static uint8_t ref[2048]; size_t rn = 0;
    static const size_t sizes[] = {0, 1, 3, 130, 200};
    auto b = std::make_unique<ByteBuffer>();
    bool withRef = false;
    for (int i = 0; i < steps; i++) {
        switch (vp_choose(12, "op")) {
        case 0: { size_t n = sizes[vp_choose(5, "n")]; Exact d(n, "d"); b->append(d.p, n); if (n) memcpy(ref + rn, d.p, n); rn += n; break; }
        case 1: { size_t n = sizes[vp_choose(4, "n")]; uint8_t c = (uint8_t)vp_u8("c"); b->padding(c, n); memset(ref + rn, c, n); rn += n; break; }
        case 2: { size_t n = sizes[vp_choose(4, "n")]; Exact d(n, "d"); b->assign(d.p, n); if (n) memcpy(ref, d.p, n); rn = n; break; }
        case 3: b->clear(); rn = 0; break;
        case 4: b->free(); rn = 0; break;
        case 5: { size_t n = sizes[vp_choose(5, "n")]; b->reserve(n); vp_assert(b->capacity() >= n, "reserve provides capacity"); break; }
        case 6: if (rn > 0) { b->resize(rn - 1); rn -= 1; } break;
        case 7: { ByteBuffer m(std::move(*b)); vp_assert(b->empty() && b->size() == 0, "moved-from is empty"); *b = std::move(m); vp_assert(m.size() == 0, "moved-from is empty"); break; }
        case 8: { ByteBuffer c = b->copy(); vp_assert(eqBuf(c, ref, rn), "copy equals"); vp_assert(c == *b, "operator== on copy"); if (rn) { c.data()[0] ^= 1; vp_assert(!(c == *b), "operator== detects change"); } break; }
        case 9: { size_t n = sizes[vp_choose(4, "n")]; Exact d(n, "d"); ByteBuffer o(d.p, n); b->append(o); if (n) memcpy(ref + rn, d.p, n); rn += n; vp_assert(eqBuf(o, d.p, n), "append keeps source"); break; }
        case 10: { auto& self = *b; *b = std::move(self); break; }
        case 11: { ByteBuffer o(5); vp_assert(o.size() == 0 && o.capacity() >= 5, "sized ctor"); ByteWriter w(o); w.write(*b); vp_assert(eqBuf(o, ref, rn), "writer copies buffer"); break; }
        }
        vp_assert(b->size() == rn && b->empty() == (rn == 0) && b->capacity() >= rn, "size");
        vp_assert(eqBuf(*b, ref, rn), "content");
        if (rn) vp_assert(b->front() == ref[0], "front");
    }
    vp_reach("done");
    vp_observe(rn);
    (void)withRef;
}
static size_t ref_leb(uint32_t v) { size_t n = 1; while (v >>= 7) n++; return n; }
// Any sequence of writes is laid out big endian and read back unchanged, with position / remaining exact.
HARNESS(b01_rw)
{
    const int steps = (int)vp_param("steps", 3);
    ByteBuffer buf; ByteWriter w(buf);
    int kind[8]; uint64_t val[8]; uint8_t raw[8][5]; size_t at[9];
    for (int i = 0; i < steps; i++) {
        kind[i] = (int)vp_choose(9, "kind"); at[i] = buf.size();
        switch (kind[i]) {
        case 0: val[i] = vp_u8("v"); w.writeU8((uint8_t)val[i]); break;
        case 1: val[i] = vp_u16("v"); w.writeU16((uint16_t)val[i]); break;
        case 2: val[i] = vp_range(0, 0xffffff, "v"); w.writeU24((uint32_t)val[i]); break;
        case 3: val[i] = vp_u32("v"); w.writeU32((uint32_t)val[i]); break;
        case 4: val[i] = vp_range(0, 0xffffffffffffull, "v"); w.writeU48(val[i]); break;
        case 5: val[i] = vp_range(0, ~0ull, "v"); w.writeU64(val[i]); break;
        case 6: val[i] = vp_u32("v"); w.writeLEB128((uint32_t)val[i]); vp_assert(buf.size() - at[i] == ref_leb((uint32_t)val[i]), "leb128 is minimal"); break;
        case 7: vp_bytes(raw[i], 5, "raw"); w.write(raw[i], 5); break;
        case 8: val[i] = vp_u8("v"); w.padding((uint8_t)val[i], 3); break;
        }
    }
    at[steps] = buf.size();
    static const int width[] = {1, 2, 3, 4, 6, 8};
    ByteReader r(buf);
    for (int i = 0; i < steps; i++) {
        vp_assert(r.position() == at[i] && r.remaining() == buf.size() - at[i], "position");
        if (kind[i] <= 5) {
            size_t n = width[kind[i]];
            vp_assert(at[i + 1] - at[i] == n, "width");
            uint64_t v = 0; for (size_t k = 0; k < n; k++) v = v << 8 | buf.data()[at[i] + k];
            vp_assert(v == val[i], "big endian layout");
        }
        switch (kind[i]) {
        case 0: vp_assert(r.readU8() == val[i], "u8"); break;
        case 1: vp_assert(r.readU16() == val[i], "u16"); break;
        case 3: vp_assert(r.readU32() == val[i], "u32"); break;
        case 5: vp_assert(r.readU64() == val[i], "u64"); break;
        case 6: vp_assert(r.readLEB128() == val[i], "leb"); break;
        case 7: if (vp_choose(2, "rd")) { auto b = r.readByteBuffer(5); vp_assert(eqBuf(b, raw[i], 5), "bytes"); } else { auto s = r.readString(5); vp_assert(s.size() == 5 && vp_eq(s.data(), raw[i], 5), "string"); } break;
        default: { uint8_t t[8]; size_t n = at[i + 1] - at[i]; r.read(t, n); if (kind[i] == 8) for (size_t k = 0; k < n; k++) vp_assert(t[k] == val[i], "padding byte"); break; }
        }
    }
    vp_assert(r.remaining() == 0 && r.position() == buf.size(), "all consumed");
    vp_reach("done");
}
// LEB128 of arbitrary bytes never reads past the end; value as defined
HARNESS(b01_leb)
{
    size_t n = vp_choose(8, "n");
    Exact d(n, "d");
    ByteReader r(d.p, n);
    uint32_t v = r.readLEB128();
    size_t k = 0; while (k < n && k < 5 && (d.p[k] & 0x80)) k++;
    size_t used = k < n && k < 5 ? k + 1 : k;
    vp_assert(r.position() == used, "leb length");
    if (used > 0 && used < 5 && !(d.p[used - 1] & 0x80)) { uint64_t e = 0; for (size_t i = 0; i < used; i++) e |= (uint64_t)(d.p[i] & 0x7f) << (7 * i); vp_assert(v == e, "leb value"); vp_reach("value"); }
}
HARNESS(b01_bits)
{
    size_t n = vp_param("bytes", 3);
    Exact d(n, "d");
    BitReader r(d.p, n);
    size_t pos = 0, total = n * 8;
    int steps = (int)vp_param("steps", 3);
    auto bit = [&](size_t p) -> uint64_t { return p < total ? (d.p[p >> 3] >> (7 - (p & 7))) & 1 : 0; };
    for (int i = 0; i < steps; i++) {
        if (vp_choose(2, "op") == 0) {
            static const size_t ks[] = {0, 1, 5, 8, 13, 32};
            size_t k = ks[vp_choose(6, "k")];
            uint64_t e = 0; for (size_t j = 0; j < k; j++) e = (e << 1) | bit(pos + j);
            vp_assert(r.readBits(k) == (uint32_t)e, "bits");
            pos = pos + k > total ? total : pos + k;
        } else {
            size_t z = 0; while (z < 32 && pos + z < total && bit(pos + z) == 0) z++;
            uint32_t got = r.readUnsignedExpGolomb();
            if (pos + z < total && pos + 2 * z + 1 <= total && z < 32) {
                uint64_t e = 0; for (size_t j = 0; j < z; j++) e = (e << 1) | bit(pos + z + 1 + j);
                vp_assert(got == (uint32_t)((1ull << z) - 1 + e), "exp-golomb value"); vp_reach("eg");
            } else return;
            pos += 2 * z + 1;
        }
    }
    vp_reach("done");
}
// exp-golomb over long zero runs: no undefined shift
HARNESS(b01_golomb_any)
{
    size_t n = vp_choose(10, "n");
    Exact d(n, "d");
    BitReader r(d.p, n);
    vp_observe(r.readUnsignedExpGolomb());
    vp_observe(r.readUnsignedExpGolomb());
}

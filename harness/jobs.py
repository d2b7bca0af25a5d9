"""Registry: which harness entries decide which property, with which bounds."""
COMMON_ASSUMPTIONS = [
    "bounds as stated; inputs, lengths and histories outside them are not covered",
    "bitcode is compiled by clang 18 -O1 from the working tree; memory model: byte-addressed objects, no data races (single thread)",
    "clock, random numbers and logging are stand-ins: time is set by the harness, random draws are symbolic values in the requested range unless the harness fixes them",
    "the solver (Z3 5.3.2, or 4.8.12 where that is absent) and the executor are trusted; sampled paths of every job are re-run natively (ASan/UBSan) and their observations compared",
]


def J(file, entry, time=40, **kw):
    return dict(file=file + ".cpp", entry=entry, time=time, **kw)


def P(bounds, jobs, must=(), assume=(), **kw):
    return dict(bounds=bounds, jobs=jobs, must_reach=list(must), assumptions=list(assume), **kw)


PROPS = {}
PROPS["B01"] = P("3 (thorough 4) buffer operations with sizes 0,1,3,130,200 and symbolic content; 3 (4) writes of every kind with symbolic values; LEB128 over 0..7 arbitrary bytes; 3 (4) bit reads over 3 (5) arbitrary bytes; exp-Golomb over up to 9 arbitrary bytes", [
    J("b01", "b01_buffer", 60, params=dict(steps=2), tiers=dict(thorough=dict(time=600, params=dict(steps=3)))),
    J("b01", "b01_rw", 60, params=dict(steps=2), tiers=dict(thorough=dict(time=600, params=dict(steps=3)))),
    J("b01", "b01_leb"), J("b01", "b01_bits", tiers=dict(thorough=dict(time=600, params=dict(bytes=5, steps=4)))), J("b01", "b01_golomb_any")], must=["done", "value", "eg"])
PROPS["E01"] = P("histories of 5 (thorough 7) arbitrary signed steps smaller than a quarter of the range from any start, reordering span below the margin, 0, 0.4 or 3 s between steps, values from before a rollover within 1 s of it", [
    J("e01", "e01_u16", 60, params=dict(steps=5), tiers=dict(thorough=dict(time=800, params=dict(steps=7)))), J("e01", "e01_u32", 60, params=dict(steps=5), tiers=dict(thorough=dict(time=800, params=dict(steps=7))))], must=["done"])
PROPS["C04"] = P("window 16 (8): every history of 2 (3) (thorough 6) indices from behind the window to beyond the forward limit with any start in the index space, of 3 (4) from 3 (2) starts around the wrap, 16 and 32 bit; window 2048 (production): boundary starts and distances, symbolic third index", [
    J("c04", "c04", 100, params=dict(steps=2), expand=[dict(bits=16), dict(bits=32), dict(bits=16,size=8,steps=3), dict(bits=32,size=8,steps=3)], tiers=dict(thorough=dict(time=700, params=dict(steps=6)))),
    J("c04", "c04", 100, params=dict(steps=3, anystart=0, starts=3), expand=[dict(bits=16), dict(bits=32), dict(bits=16,size=8,steps=4,starts=2)], tiers=dict(thorough=dict(time=700))),
    J("c04", "c04_real", 60, expand=[dict(bits=16), dict(bits=32)], tiers=dict(thorough=dict(time=600)))], must=["accepted", "refused"])
PROPS["H01"] = P("2 (thorough 5) sends on two streams with arbitrary sequence numbers and an arbitrary query; 530 (1100) consecutive packets around the wrap, every query; duplicate numbers across eviction", [
    J("h01", "h01", 60, params=dict(steps=2), tiers=dict(thorough=dict(time=800, params=dict(steps=5)))), J("h01", "h01_long", 100, tiers=dict(thorough=dict(time=800, params=dict(count=1100)))), J("h01", "h01_dup", 60)], must=["found", "absent", "kept", "dropped"])
PROPS["A01"] = P("item sizes 1..48, every sequence of 5 (thorough 7) allocate/release/re-allocate choices from 0, 62 and 64 live blocks (page boundary at 64)", [
    J("a01", "a01", 60, params=dict(steps=5), expand=[dict(item=1, pre=0), dict(item=24, pre=62), dict(item=13, pre=64), dict(item=48, pre=0)], tiers=dict(thorough=dict(time=500, params=dict(steps=7)))),
    J("a01", "a01_typed", 60)], must=["done"])
PROPS["V01"] = P("clock rates 8000..90000; 3 (thorough 4) arbitrary media time steps below 2^20 us; 40 (200) frames of common cadences; sequence numbers from any start for 6 steps and 75000..140000 consecutive packets from four starting points", [
    J("v01", "v01_time", 100, params=dict(steps=3), expand=[dict(clock=90000), dict(clock=48000), dict(clock=8000)], tiers=dict(thorough=dict(time=700, params=dict(steps=4)))),
    J("v01", "v01_drift", 60, expand=[dict(clock=90000), dict(clock=48000), dict(clock=44100)], tiers=dict(thorough=dict(params=dict(n=200)))),
    J("v01", "v01_current"), J("v01", "v01_seq"), J("v01", "v01_seq_long", 100, max_path_insts=200000000, expand=[dict(redraw=0), dict(redraw=1, n=75000), dict(redraw=2, n=75000), dict(redraw=3, n=75000)])], must=["done"])
PROPS["N03"] = P("lists of 2..3 (thorough 4) video tracks of every codec with arbitrary profile; 3 (4) registered extensions with arbitrary ids and every sequence of 3 (4) look-ups", [
    J("n03", "n03_select", 60, params=dict(n=2), tiers=dict(thorough=dict(time=700, params=dict(n=3)))),
    J("n03", "n03_map", 60, params=dict(n=3, q=3), tiers=dict(thorough=dict(time=600, params=dict(n=4, q=4))))], must=["done"])
PROPS["M01"] = P("2 reports with arbitrary NTP stamps, elapsed time up to 4 s, delay up to 5 s, arbitrary unmatched markers; retention of 20 reports; every NTP value; system times to 2033", [
    J("m01", "m01_sr", 100, tiers=dict(thorough=dict(time=700))), J("m01", "m01_rrtr", 100, tiers=dict(thorough=dict(time=700))), J("m01", "m01_retain"), J("m01", "m01_ntp"), J("m01", "m01_ntp_now", 100)], must=["match", "nomatch", "done"])
PROPS["J01"] = P("streams of 4 (thorough 5) packets in every frame structure, 4 (thorough 5) arrivals of any packet in any order with loss and duplication and every waiting time up to 150 ms between, numbers starting before, at or after the wrap; streams of 4 (5) packets of any kind, one swapped and one lost; a ring of 8 filled with every subset of 11 (thorough 14) packets", [
    J("j01", "j01", 60, expand=[dict(cuts=i) for i in range(8)], tiers=dict(thorough=dict(time=800, expand=[dict(cuts=i) for i in range(16)], params=dict(n=5, steps=5)))),
    J("j01", "j01_any", 60, tiers=dict(thorough=dict(time=800, params=dict(n=5)))),
    J("j01", "j01_full", 60, tiers=dict(thorough=dict(time=800, params=dict(n=14))))], must=["frame", "done"], assume=["the depacketizer is a stand-in which lists the packets it is given; real ones are used in the frame checks of J02"])
PROPS["J02"] = P("streams of 5 (thorough 6) packets in every frame structure, every arrival order, all packets or all but one, every waiting time up to 60 ms such that each packet arrives within the buffer length; 2 (thorough 3) frames of every codec with every leading unit, small or in several packets, a packet advanced by up to 3 places or lost; bursts of 0..40 losses with a ring of 64", [
    J("j01", "j02", 60, params=dict(n=5), expand=[dict(cuts=i) for i in range(16)], tiers=dict(thorough=dict(time=850, params=dict(n=6), expand=[dict(cuts=i) for i in range(32)]))),
    J("j01", "j02_burst", 60), J("j02c", "j02_codec", 60, expand=[dict(codec=i) for i in range(6)], tiers=dict(thorough=dict(time=600, params=dict(frames=3))))], must=["frame", "done", "several"], assume=["a packet arrives within the buffer length when it arrives before the stream position of its frame, relative to the first packet received, plus the buffer length"])
PROPS["J03"] = P("streams of 5 (thorough 6) packets, 4 (thorough 5) arrivals of any packet in any order with every waiting time up to 40 ms; lists of 4 (thorough 6) numbers from any start with any gaps below 8192", [
    J("j01", "j03", 60, params=dict(cuts=15, length=30)), J("j01", "j03", 60, params=dict(cuts=15), tiers=dict(thorough=dict(time=850, params=dict(cuts=31, n=6, steps=5)))),
    J("j03n", "j03_compress", 60, tiers=dict(thorough=dict(time=500, params=dict(n=6))))], must=["request", "done"])
PROPS["S01"] = P("datagrams of 0..20 and 22 (thorough 0..36) arbitrary bytes, and of 71..77 bytes with 15 CSRCs; retransmissions of 12..19 bytes through the jitter buffer; look-up of every id", [
    J("r_rtp", "s01", 60, params=dict(count=19), tiers=dict(thorough=dict(time=800, params=dict(count=37)))),
    J("r_rtp", "s01", 60, expand=[dict(base=19, count=1), dict(base=20, count=1), dict(base=22, count=1)]),
    J("r_rtp", "s01", 60, params=dict(base=71, count=5, cc=15)), J("r_rtp", "s01_rtx", 60, tiers=dict(thorough=dict(time=300, params=dict(count=12))))], must=["parsed", "rejected", "found", "absent", "unwrapped"])
PROPS["R07"] = P("payloads of 0,1,2,7,64 arbitrary bytes, padding 0,1,2,5,255, any sequence number, timestamp, SSRC, payload type, marker, up to two extension values; retransmission twice in a row", [
    J("r_rtp", "r07_roundtrip", 100), J("r_rtp", "r07_rtx", 60)], must=["done"])
PROPS["R08"] = P("2 (thorough 3) values of every kind and sizes 0,1,2,4,8,16,255 under arbitrary distinct ids; replacement at every position; arbitrary extension bytes up to 8 (12) in every form", [
    J("r_rtp", "r08_build", 100, tiers=dict(thorough=dict(time=700, params=dict(n=3)))), J("r_rtp", "r08_replace", 60), J("r_rtp", "r08_long"), J("r_rtp", "r08_wire", 100, tiers=dict(thorough=dict(time=700, params=dict(n=13))))], must=["done", "found", "absent"])
PROPS["S02"] = P("decrypted datagrams of 0..20 (thorough 0..40) arbitrary bytes, plus 24, 28 and 32", [
    J("r_rtcp", "s02", 60, tiers=dict(thorough=dict(time=800, params=dict(count=41)))), J("r_rtcp", "s02", 60, expand=[dict(base=24, count=1), dict(base=28, count=1), dict(base=32, count=1)])], must=["packet", "short", "done"])
PROPS["R09"] = P("compounds of 3 (thorough 4) packets with arbitrary type, count, SSRC and payloads of 0,4,6,13,20,24 arbitrary bytes; single packets up to 1400 bytes", [
    J("r_rtcp", "r09", 60, tiers=dict(thorough=dict(params=dict(n=4), time=400))), J("r_rtcp", "r09_large", 60)], must=["done"])
PROPS["R11"] = P("frames of 0..7 arbitrary bytes, 5 for AV1 (thorough 12, 7) for every walker, 6..12 after a leading start code; every NAL and OBU type; VP9 headers of 0..13 arbitrary bytes; key frame test on 0..7 bytes", [
    J("r_codec", "r11_h264", 60, tiers=dict(thorough=dict(time=600, params=dict(count=13)))), J("r_codec", "r11_h265", 60, tiers=dict(thorough=dict(time=600, params=dict(count=13)))),
    J("r_codec", "r11_h264", 60, params=dict(prefix=1, base=6, count=7)), J("r_codec", "r11_h265", 60, params=dict(prefix=1, base=6, count=7)),
    J("r_codec", "r11_class"), J("r_codec", "r11_obu", tiers=dict(thorough=dict(time=600, params=dict(count=8)))), J("r_codec", "r11_vp9"), J("r_codec", "r11_key", tiers=dict(thorough=dict(time=600, params=dict(count=10))))], must=["units", "none", "done", "dims", "nodims"])
PROPS["S03"] = P("every codec: runs of 1..2 (thorough 3) payloads of 0..4 (H.264, H.265 and AV1 quick: 0..3) arbitrary bytes, extracted as one run or one by one, twice; single payloads of 0..12 (thorough 0..20) arbitrary bytes", [
    J("depack", "s03", 60, expand=[dict(codec=i) for i in (0, 1, 5)], tiers=dict(thorough=dict(time=600, params=dict(packets=3)))),
    J("depack", "s03", 60, params=dict(count=4, once=1), expand=[dict(codec=i) for i in (2, 3, 4)], tiers=dict(thorough=dict(time=800, params=dict(packets=3, count=5)))),
    J("depack", "s03", 60, params=dict(packets=1, count=13, once=1), expand=[dict(codec=i) for i in (0, 2, 3, 5)], tiers=dict(thorough=dict(time=600, params=dict(packets=1, count=21, once=1)))), J("depack", "s03", 60, params=dict(packets=1, count=7, once=1), expand=[dict(codec=i) for i in (1, 4)], tiers=dict(thorough=dict(time=800, params=dict(packets=1, count=12, once=1))))], must=["frames", "nothing"])
_nal = "access units of 1..2 (thorough 3) units of every type after a key frame; one unit of any size within 3 (thorough 8) of 0, 1 and 2 packet budgets, three or four byte start codes, symbolic header, leading and trailing bytes; no, 2-byte or 40-byte header extension or padding; overheads 10 (thorough 0, 10, 28); packets of another conforming sender: up to 3 units of 2..4 arbitrary bytes, single, aggregated or in two fragments in any mix"
_pt = lambda **k: dict(thorough=dict(time=800, params=dict(spread=8, overheads=3, sources=4, **k)))
PROPS["R01"] = P(_nal, [J("pack", "r01", 60, expand=[dict(source=0), dict(source=1), dict(source=2), dict(source=3)], params=dict(spread=2), tiers=_pt(units=3)), J("pack", "r01", 60, params=dict(csd=1, units=1), tiers=_pt()), J("pack", "r01_peer", 60, tiers=dict(thorough=dict(params=dict(first=1), time=800)))],
    must=["fragmented", "single", "params", "done"], assume=["each parameter set fits one packet with the others; the library keeps the latest parameter set of each kind"])
PROPS["R02"] = P(_nal, [J("pack", "r02", 60, expand=[dict(source=0), dict(source=1), dict(source=2), dict(source=3)], params=dict(spread=1), tiers=_pt(units=3)), J("pack", "r02", 60, params=dict(csd=1, units=1), tiers=_pt()), J("pack", "r02_peer", 60, params=dict(units=2), tiers=dict(thorough=dict(params=dict(first=1, units=3), time=800)))],
    must=["fragmented", "single", "params", "done"], assume=["each parameter set fits one packet with the others; the library keeps the latest parameter set of each kind"])
PROPS["R03"] = P("2 (thorough 3) frames, the last of any size within 8 of 0, 1, 2, 3 (thorough 4) packet budgets with symbolic first and last bytes; every header extension and padding case; overheads 0, 10, 28; every payload descriptor of a peer with frames of 3..5 arbitrary bytes in 1..2 packets", [
    J("pack", "r03", 60, params=dict(spread=8, overheads=3, sources=4, k=4), tiers=dict(thorough=dict(params=dict(frames=3, k=5, spread=30), time=800))), J("pack", "r03_peer", 60)], must=["early", "fragmented", "single", "done"])
PROPS["R04"] = P("2 (thorough 3) frames, the last of any size within 5 of 0, 1, 2 packet budgets with symbolic first and last bytes; every header extension and padding case; every descriptor flag combination with up to 3 references, 2 (thorough 8) spatial layers, 1 (3) picture groups, truncated at every byte", [
    J("pack", "r04", 60, params=dict(spread=5, sources=4), tiers=dict(thorough=dict(params=dict(frames=3, k=4, overheads=3), time=800))), J("pack", "r04_desc", 60, params=dict(layers=1, ng=2), tiers=dict(thorough=dict(params=dict(layers=7, ng=4), time=800)))], must=["early", "fragmented", "single", "done"])
PROPS["R05"] = P("temporal units of 1..2 (thorough 3) OBUs of every type, with and without layer ids and temporal delimiter, one of any size within 3 (8) of 0, 1, 2 packet budgets; every header extension and padding case; packets of another conforming sender: up to 3 OBUs of 0..2 arbitrary bytes cut into two packets at any place, with and without element count", [
    J("pack", "r05", 60, expand=[dict(source=i) for i in range(4)], tiers=_pt(units=3)), J("pack", "r05_peer", 60)], must=["early", "fragmented", "single", "done"], assume=["OBU type 0 (reserved) is excluded; a peer does not split an OBU header from its extension byte"])
PROPS["R06"] = P("3 frames of 5, any of 1, 28, 55 .. 1081 or close to the budget and 5 bytes with symbolic first and last bytes, header extensions of 0, 2, 40 bytes, overheads 0, 10, 28", [
    J("pack", "r06", 60, params=dict(overheads=3, k=1)), J("pack", "r06", 60, params=dict(overheads=3, k=3))], must=["done"])

_prof = [dict(profile=i) for i in range(4)]
PROPS["C01"] = P("every profile; 3 (thorough 4) packets of every header shape with arbitrary payload and one of 8 numbers around the wrap, 3 (4) arrivals of any of them with loss, reordering and duplication; 30 (200) packets with losses across two rollovers; several streams; control packets of any index near 0, 2^16, 2^31; reconnection", [
    J("c01", "c01", 60, expand=_prof, tiers=dict(thorough=dict(time=800, params=dict(n=4, steps=4)))), J("c01", "c01_long", 60, expand=_prof, tiers=dict(thorough=dict(time=400, params=dict(count=200)))),
    J("c01", "c01_streams", 60, expand=_prof, tiers=dict(thorough=dict(time=400, params=dict(steps=6)))), J("c01", "c01_control", 60, expand=_prof, tiers=dict(thorough=dict(time=400, params=dict(spread=10))))], must=["done"],
    assume=["AES, GCM, HMAC and the libsrtp key derivation are stand-ins: an injective keystream per (key, initialisation vector, position) and an unforgeable tag over (key, initialisation vector, authenticated bytes, ciphertext)"])
PROPS["C02"] = P("every profile; genuine packets with an arbitrary datagram (thorough two) of 0, 11, or 12, 15 or 20 bytes and a tag in between, on the stream (thorough also on any other); control packets likewise; every rollover counter; packets reflected to their sender", [
    J("c01", "c02", 60, expand=_prof, tiers=dict(thorough=dict(time=800, params=dict(forgeries=2)))), J("c01", "c02", 60, params=dict(stream=0, n=2), expand=_prof), J("c01", "c02_control", 60, expand=_prof, tiers=dict(thorough=dict(time=400))), J("c01", "c02_roc", 60, expand=_prof)], must=["done"], assume=["as for C01"])
PROPS["C03"] = P("every profile; arbitrary master salt, SSRC, rollover counter, sequence number and index, of which pairs of packets may differ in any part; key derivation labels and sizes for arbitrary master keys; every profile id", [
    J("c01", "c03_kdf", 60, expand=_prof), J("c01", "c03", 60, expand=_prof), J("c01", "c03_create", 60, expand=_prof)], must=["done"], assume=["as for C01"])
PROPS["T01"] = P("3 (thorough 4) packets with gaps, reordering, duplicates and a report at any place, where one arrival time is arbitrary up to 200 s and the others from a list; runs of 16 (24) packets across the wrap with one lost and one delayed by any time up to 20 s; 600 packets; every interval up to 1 s", [
    J("t01", "t01", 60, params=dict(steps=3, sym=0, jumps=5)), J("t01", "t01", 60, params=dict(steps=3, sym=1, t0s=2, dts=3, jumps=5, maxdt=70000), tiers=dict(thorough=dict(time=800, params=dict(steps=4, sym=1, t0s=2, dts=3)))),
    J("t01", "t01", 60, params=dict(steps=3, sym=2), tiers=dict(thorough=dict(time=800, params=dict(steps=4, sym=3)))),
    J("t01", "t01_run", 60, tiers=dict(thorough=dict(params=dict(n=24), time=400))), J("t01", "t01_run", 60, params=dict(sym=1)), J("t01", "t01_long", 60), J("t01", "t01_interval", 60)], must=["done", "received", "missing"])
PROPS["T02"] = P("2 reports of 1..2 (thorough 3 of 1..4) packets over 3 (4) sent ones, any status, delta, reference time and chunk form, one truncated; any subset of 14 with 2 (thorough 3) received after 2100 or 65600 packets; any query; 40 packets with every combination of 3 losses over 1..3 reports", [
    J("t01", "t02", 60, params=dict(reports=2, sent=3, maxcount=2), tiers=dict(thorough=dict(time=800, params=dict(reports=2, sent=4, maxcount=4)))), J("t01", "t02", 60, params=dict(reports=1, maxcount=3)),
    J("t01", "t02_long", 100, max_path_insts=200000000, params=dict(cnt=2), expand=[dict(total=2100), dict(total=65600)], tiers=dict(thorough=dict(time=600, params=dict(cnt=3)))), J("t01", "t02_stats", 60)], must=["done", "received", "lost", "cut", "loss"])
PROPS["S07"] = P("reports of 0..13 (thorough 0..18) arbitrary bytes beginning at 7 places in and around a history of 3, packet count up to 3 or 65535; reports before anything was sent", [
    J("t01", "s07", 60, params=dict(sent=3, count=14, maxcount=3), tiers=dict(thorough=dict(time=800, params=dict(sent=5, count=19, maxcount=6)))), J("t01", "s07_empty", 60)], must=["done"])
PROPS["L01"] = P("1 task and 3 (thorough 4) operations (submit, cancel, reschedule, wait and run, end of a scope) with every delay and waiting time up to 100 s; tasks which submit, cancel or reschedule others while they run; 3 tasks for the timeout", [
    J("l01", "l01", 60, params=dict(steps=3), expand=[dict(scoped=0), dict(scoped=1)], tiers=dict(thorough=dict(time=800, params=dict(steps=4)))), J("l01", "l01_nested", 60, params=dict(n=2), expand=[dict(scoped=0), dict(scoped=1)], tiers=dict(thorough=dict(time=800, params=dict(n=3)))), J("l01", "l01_timeout", 60)], must=["done", "ran"])
PROPS["D01"] = P("one update of 0..16 (thorough 0..64) arbitrary bytes from every state at every alignment; whole strings of 0..40 (thorough 0..120) arbitrary bytes; acceptance of packets with 16..28 (thorough 16..60) arbitrary bytes and every difference of the checksum; bursts of up to 32 bits at every place of packets of 28 and 40 (thorough up to 56) arbitrary bytes", [
    J("d01", "d01_step", 60, tiers=dict(thorough=dict(params=dict(hi=64), time=600))), J("d01", "d01_whole", 60, tiers=dict(thorough=dict(params=dict(hi=120), time=600))), J("d01", "d01_accept", 60, tiers=dict(thorough=dict(params=dict(hi=44), time=600))),
    J("d01", "d01_burst", 60, expand=[dict(body=12), dict(body=24)], tiers=dict(thorough=dict(time=600, expand=[dict(body=b) for b in (12, 24, 25, 40)])))], must=["step", "whole", "accepted", "rejected", "burst"])
PROPS["D02"] = P("packets of 0..2 chunks of arbitrary type, flags and 0..5 (thorough 0..12) arbitrary bytes, ports and tag; chunks of 60..67 and 1180..1191 bytes; arbitrary bodies of 0..12 (thorough 0..20) bytes behind a right checksum; parameters in 0..14 (thorough 0..22) arbitrary bytes from any offset", [
    J("d02", "d02_build", 60, tiers=dict(thorough=dict(params=dict(chunks=2, len=12), time=600))), J("d02", "d02_long", 60), J("d02", "d02_long", 60, params=dict(lo=1180, span=12)),
    J("d02", "d02_any", 60, tiers=dict(thorough=dict(params=dict(hi=32), time=600))), J("d02", "d02_params", 60, tiers=dict(thorough=dict(params=dict(hi=22), time=600)))], must=["built", "long", "split", "rejected", "param"])
PROPS["D03"] = P("2 (thorough 3) messages of 1..2 (buffer thorough 3) fragments with arbitrary content, ordered and unordered, fragments in every order of arrival with up to one duplicate, sequence numbers around the wrap of 2^32 or arbitrary, stream sequence numbers around the wrap of 2^16; the same through a session with one and two channels, with its acknowledgements", [
    J("d03", "d03_buf", 60), J("d03", "d03_buf", 60, params=dict(unordered=1, frags=3)), J("d03", "d03_buf", 60, params=dict(symtsn=1)), J("d03", "d03_buf", 60, params=dict(skip=65535)), J("d03", "d03_buf", 60, params=dict(msgs=3, tsn=0)),
    J("d03", "d03_session", 60), J("d03", "d03_session", 60, params=dict(unordered=1)), J("d03", "d03_session", 60, params=dict(symtsn=1, frags=1)), J("d03", "d03_session", 60, params=dict(channels=2, msgs=3, dups=0)),
    J("d03", "d03_buf", 60, tiers=dict(quick=dict(params=dict(msgs=1, frags=4)), thorough=dict(params=dict(msgs=2, frags=3), time=800))), J("d03", "d03_session", 60, tiers=dict(quick=dict(params=dict(msgs=1, frags=4)), thorough=dict(params=dict(msgs=3, dups=1), time=800)))], must=["done", "duplicate"],
    assume=["a channel is opened before its messages arrive", "the fragments of a message have consecutive transmission sequence numbers"])
PROPS["D04"] = P("two sessions, 2 messages of 0, 1, 3, 1100, 1101 or 2500 bytes with symbolic first and last bytes on each of two channels in both directions; every single (thorough every pair of) loss, duplicate, swap or long delay of any datagram from the handshake on; one session against a peer with windows of 0, 5, 1400 and 100000 bytes, 3 messages and 4 (thorough 5) sends, acknowledgements of any kind and timeouts in any order", [
    J("d04", "d04", 60), J("d04", "d04", 60, params=dict(burst=0)), J("d04", "d04", 60, params=dict(both=0, size=1)), J("d04", "d04", 60, params=dict(size=3, tsn=4294967290)), J("d04", "d04", 60, params=dict(size=4, burst=0, tsn=4294967293)),
    J("d04", "d04_window", 60, tiers=dict(thorough=dict(params=dict(steps=5, offsets=4), time=850))),
    J("d04", "d04", 60, params=dict(msgs=1), tiers=dict(thorough=dict(time=850, params=dict(faults=2), expand=[dict(**{"from": 5 * i, "to": 5 * i + 5 if i < 7 else 1000}, burst=b) for i in range(8) for b in (0, 1)])))], must=["done", "lost", "duplicated", "reordered", "late", "again"],
    assume=["the cookie is used within its lifetime", "both sides give their channels different labels"])
PROPS["S04"] = P("in each of the states before, during and after set-up (with channels, data in flight, data beyond a gap and half a message): datagrams of 12 to 24 (thorough 32) bytes, every byte arbitrary but the checksum right; one or two chunks of every known type with 0 to 20 (thorough 32) arbitrary bytes; what is too short, has any wrong checksum or any wrong length of its first or second chunk changes nothing that is seen afterwards", [
    *[J("s04", "s04_any", 60, params=dict(state=s, hi=12), tiers=dict(thorough=dict(params=dict(state=s, hi=20), time=500))) for s in range(5)],
    *[J("s04", "s04_chunk", 60, params=dict(state=4, type=t, hi=20), tiers=dict(thorough=dict(params=dict(state=4, type=t, hi=32 if t != 130 else 26), time=600))) for t in (0, 1, 2, 3, 4, 10, 11, 130, 192)],
    *[J("s04", "s04_chunk", 60, params=dict(state=s, type=t, hi=20)) for s, t in ((0, 0), (1, 0), (3, 0), (1, 2), (0, 3), (3, 130), (2, 1), (2, 11))],
    J("s04", "s04_chunk", 60, params=dict(type=10, lo=54, hi=58)), J("s04", "s04_chunk", 60, params=dict(type=2, state=1, lo=16, hi=26), tiers=dict(thorough=dict(params=dict(type=2, state=1, hi=30)))),
    J("s04", "s04_chunk", 60, params=dict(type=3, count=2, lo=11, hi=16)), J("s04", "s04_chunk", 60, params=dict(type=0, count=2, lo=12, hi=13), tiers=dict(thorough=dict(params=dict(type=0, count=2, lo=11, hi=16), time=800))),
    J("s04", "s04_reject", 60, params=dict(how=0)),
    *[J("s04", "s04_reject", 60, params=dict(how=1, state=s, type=t, hi=4)) for s, t in ((4, 0), (4, 3), (4, 1), (4, 130), (1, 2), (2, 11), (0, 1))],
    *[J("s04", "s04_reject", 60, params=dict(how=h, state=s)) for h in (2, 3, 4) for s in (0, 1, 4)]], must=["done", "probe", "rejected"])
PROPS["D05"] = P("1 or 2 (thorough 3) own channels with labels of 0 to 3 (thorough 8) and 255 to 1000 bytes, either parity of streams; every control message of 0 to 20 (thorough 40) bytes on any stream, with and without an own channel; every label of 0 to 3 and 255 to 1000 bytes from one session to another", [
    J("d05", "d05_open", 60, tiers=dict(thorough=dict(params=dict(channels=3, len=8), time=600))), J("d05", "d05_open", 60, params=dict(long=1, channels=1)),
    J("d05", "d05_any", 60, params=dict(hi=20), tiers=dict(thorough=dict(params=dict(hi=40), time=800))), J("d05", "d05_pair", 60), J("d05", "d05_pair", 60, params=dict(long=1))], must=["sent", "opened", "ordered", "unordered", "acked", "refused", "pair"],
    assume=["control messages are not fragmented", "labels are shorter than 64 KB"])
PROPS["S05"] = P("datagrams of 21 to 36 (thorough 21 to 52) bytes with every value that the connection takes for STUN: every query before authentication; verification as I01", [
    *[J("stun", "s05", 60, params=dict(query=q), tiers=dict(thorough=dict(params=dict(query=q, count=32 if q in (1, 3, 4) else 24), time=400))) for q in range(5)],
    *[J("stun", "i01v", 60, params=dict(mi=m, fp=f, count=9 if m else 13), tiers=dict(thorough=dict(params=dict(mi=m, fp=f, count=17 if m else 21), time=400))) for m in (0, 2) for f in (0, 1, 2)]], must=["found", "absent", "accepted", "refused"],
    assume=["HMAC-SHA1 is an arbitrary function of key and message (rt/crypto_env.cpp)"])
PROPS["I01"] = P("requests and responses built in buffers of 80 to 103 (responses 60 to 83) bytes with usernames of 0 to 5 and passwords of 1 or 2 characters, any priority, transaction, tie-breaker and address; received messages with 0 to 12 (thorough 16) bytes of any attributes before MESSAGE-INTEGRITY (right, any or none) and FINGERPRINT (right, wrong or none) and 4 bytes after the end; every change of every single byte", [
    J("stun", "i01b", 60), J("stun", "i01b", 60, params=dict(response=1, base=60)), J("stun", "i01b", 60, params=dict(response=1, base=20, count=40)), J("stun", "i01b", 60, params=dict(base=1, count=79, user=2)),
    J("stun", "i01a", 60), J("stun", "i01a", 60, params=dict(response=1)), J("stun", "i01c", 60),
    *[J("stun", "i01v", 60, params=dict(mi=m, fp=f, count=13), tiers=dict(thorough=dict(params=dict(mi=m, fp=f, count=21 if not m else 17, user=u), time=400), quick=dict(params=dict(mi=m, fp=f, count=13, user=u)))) for m, f, u in ((0, 0, 3), (0, 1, 3), (0, 2, 3), (2, 0, 3), (2, 1, 3), (2, 2, 3), (2, 1, 0), (2, 1, 5))]], must=["built", "too-small", "altered", "checked", "accepted", "refused"],
    assume=["HMAC-SHA1 is an arbitrary function of key and message (rt/crypto_env.cpp)", "attributes whose length leads into the middle of a MESSAGE-INTEGRITY value are covered by the messages without one", "changes of an attribute length are checked on one message", "credentials have no zero byte"])
PROPS["I02"] = P("4 (thorough 6) steps: requests sent, responses with the id of any of them or with any other id, expiry with any limit to 20 s; up to 20 s between steps", [
    J("stun", "i02", 60, tiers=dict(thorough=dict(params=dict(steps=6), time=800)))], must=["matched", "unmatched", "expired"], assume=["transaction ids are drawn from a fixed sequence without repetitions"])
PROPS["S06"] = P("texts of 0 to 7 (thorough 9) arbitrary bytes alone, and of 0 to 4 (5) inside an answer; each of 47 attributes with 0 to 2 (3) arbitrary bytes as its value, ended in 5 ways, in each kind of section, publishing, subscribing and with simulcast", [
    J("s06", "s06_any", 60, params=dict(hi=7), tiers=dict(thorough=dict(params=dict(hi=9), time=600))),
    *[J("s06", "s06_any", 60, params=dict(hi=4, head=1, sec=sec, tail=tail, sub=sub), tiers=dict(thorough=dict(params=dict(hi=5, head=1, sec=sec, tail=tail, sub=sub), time=600))) for sec, tail, sub in ((0, 0, 0), (1, 0, 0), (1, 1, 0), (1, 1, 1), (0, 1, 1))],
    *[J("s06", "s06_attr", 60, params=dict(hi=2, sub=sub, layers=l)) for sub, l in ((0, 0), (1, 0), (0, 1))],
    *[J("s06", "s06_attr", 60, tiers=dict(quick=None, thorough=dict(params=dict(lo=3, hi=3, sub=sub, layers=l), time=600))) for sub, l in ((0, 0), (1, 0), (0, 1))]], must=["answer", "error"],
    assume=["inet_pton as in rt/rt.cpp", "longer texts are covered in their form, not in all their bytes"])
PROPS["N01"] = P("numbers of 0 to 6 digits, or of 10 to 11 digits around 2^32 (from 4294900000), plain, signed, with a blank before or a letter after, in ports, payload types, extension ids, SSRCs, apt, SCTP port and size; credentials of 1 to 2 (thorough 3) bytes of any value above space, fingerprints of 3 (4) bytes in either case; 1 to 3 candidates of 5 kinds with symbolic addresses; 1 to 2 (3) payload types of 8 codecs with any pairing and feedback; any order of up to 3 simulcast layers; 1 to 2 (3) sections of 5 kinds", [
    *[J("n01", "n01_num", 120, params=dict(what=w)) for w in (0, 1, 2, 4, 6)],
    *[J("n01", "n01_num", 60, params=dict(what=w, digits=4)) for w in (3, 5, 7)],
    *[J("n01", "n01_num", 120, params=dict(what=w, digits=6, pre=1)) for w in (3, 5, 7)],
    J("n01", "n01_identity", 60, tiers=dict(thorough=dict(params=dict(len=3, hash=4), time=600))),
    J("n01", "n01_candidates", 60), J("n01", "n01_codecs", 60, params=dict(count=2)), J("n01", "n01_codecs", 60, params=dict(count=2, audio=1)),
    J("n01", "n01_codecs", 60, params=dict(count=3, few=1, fb=0, reverse=1)), J("n01", "n01_codecs", tiers=dict(quick=None, thorough=dict(params=dict(count=3, few=1), time=600))),
    J("n01", "n01_simulcast", 60),
    *[J("n01", "n01_sections", 60, params=dict(count=2, sub=s), tiers=dict(thorough=dict(params=dict(count=3, sub=s), time=600))) for s in (0, 1)]],
    must=["legal", "illegal", "identity", "duplicate", "hosts", "nowhere", "paired", "codecs", "none", "layers", "no-layers", "accepted", "refused"],
    assume=["inet_pton as in rt/rt.cpp", "fmtp follows the rtpmap it refers to", "not judged: sections with port 0, extmap with a direction, rids given twice, hash functions other than sha-256, rtcp-fb wildcards"])
PROPS["N02"] = P("all combinations of direction and switches with 0 to 2 (thorough 3) media lines of 8 kinds, 0 to 3 layers, with and without data channels; up to 33 payload types; 36 to 70 arbitrary draws of 4 values (so that all collide), then distinct ones", [
    J("n02", "n02_offer", 60, tiers=dict(thorough=dict(params=dict(lines=3), time=800))), J("n02", "n02_many", 60), J("n02", "n02_draws", 60),
    J("n02", "n02_draws", 60, params=dict(layers=2)), J("n02", "n02_draws", 60, params=dict(second=1, draws=70)), J("n02", "n02_draws", 60, params=dict(rtx=0, second=0, draws=36, layers=3)),
    J("n02", "n02_draws", 60, params=dict(layers=1, sizes=1, draws=0)), J("n02", "n02_draws", tiers=dict(quick=None, thorough=dict(params=dict(layers=3, second=1, draws=74), time=600)))],
    must=["offer", "refused", "simulcast", "data", "too-many"], assume=["media ids are distinct, not empty and not 'datachannel'", "the certificate is made by OpenSSL: fixed here"])
PROPS["R10"] = P("0 to 5 layers with any sizes, rates and bitrates of 32 bits, any index 0 to 4; tracks with 1 to 3 layers or none, 8 sets of extension ids, 0 to 300 packets sent, key frames and others", [
    J("r10", "r10_vla", 60), J("r10", "r10_source", 60)], must=["valid", "invalid", "added", "rtx", "no-layer"], assume=["widths and heights are not 0", "the index is one of the layers"])
PROPS["Q01"] = P("3 or 4 (thorough 4 and 6) steps: frames of 1 to 3 packets on 1 to 3 streams with spreads of 0, 15, 20 (1, 7) ms; time passing by any number of nanoseconds up to 25 ms", [
    J("q01", "q01", 60, params=dict(steps=3, tracks=3), tiers=dict(thorough=dict(params=dict(steps=3, tracks=3, most=4, spreads=5), time=600))),
    J("q01", "q01", 60, params=dict(steps=4, most=2, spreads=2), tiers=dict(thorough=dict(params=dict(steps=4), time=800))),
    J("q01", "q01", 60, params=dict(steps=5, timeout=0, tracks=1, most=2, spreads=2), tiers=dict(thorough=dict(params=dict(steps=6, tracks=1, most=3, spreads=2), time=800)))],
    must=["done", "flushed", "paced", "waiting"], assume=["a frame of one packet is sent with sendNow and every frame is preceded by a flush of its stream, as the connection does", "the network takes every datagram"])
PROPS["K02"] = P("feedback from the far end over an authenticated SRTCP session: 1 (also 2 with fewer values) NACK entries of any mask with ids around the wrap, or any id, for streams with and without retransmission; every control packet of 0 to 24 bytes of content of every type this connection handles (XR with blocks of 0 to 2 words), genuine or forged; 2 (thorough 3) reference time reports of any of 24 other senders, or more; up to 3 of our reports answered with any time", [
    J("k02", "k02_nack", 60), J("k02", "k02_nack", 60, params=dict(entries=2, mask=3), tiers=dict(thorough=dict(params=dict(entries=2, mask=7), time=600))), J("k02", "k02_nack", 60, params=dict(any=1, mask=0)),
    J("k02", "k02_report", 120, params=dict(lens=3), tiers=dict(thorough=dict(params=dict(lens=4), time=600))), J("k02", "k02_report", 60, params=dict(genuine=0)),
    *[J("k02", "k02_rrtr", 90, params=dict(steps=2, pre=p), tiers=dict(thorough=dict(params=dict(steps=3, pre=p), time=400))) for p in (0, 24, 100)],
    J("k02", "k02_rtt", 60)],
    must=["plain", "rtx", "forged", "done", "key", "sr", "answered", "truncated", "none", "rtt"], assume=["TLS is a stand-in (harness/peer.h): the connection starts with the keys of a finished handshake", "SRTP tags are a fixed mixing of key, nonce and content (rt/crypto_env.cpp)"])
PROPS["K03"] = P("fingerprints of 0, 16 and (thorough) 32 arbitrary bytes, or equal; both roles; 6 outcomes of the handshake; histories of up to 4 (thorough 5) steps before and 3 (4) after connecting: answers right, altered, of error or to nothing, handshake data, control packets right, altered or repeated, time of 0.15, 1.2, 4.99 and 5.001 s; requests of 5 kinds from any address and port", [
    J("k03", "k03_cert", 60), J("k03", "k03_cert", 60, params=dict(whole=1)),
    J("k03", "k03", 60, params=dict(steps=3), tiers=dict(thorough=dict(params=dict(steps=4), time=400))),
    J("k03", "k03", 60, params=dict(steps=3, up=1), tiers=dict(thorough=dict(params=dict(steps=4, up=1), time=600))),
    J("k03", "k03_request", 60), J("k03", "k03_replay", 60)],
    must=["again", "up", "waiting", "refused", "ice", "failed", "lost", "restored", "forged", "answered", "done"], assume=["TLS is a stand-in (harness/peer.h) which ends the handshake as told and names any certificate: what OpenSSL guarantees is assumed", "transaction ids are drawn from a fixed sequence without repetitions", "HMAC and SRTP tags are a fixed mixing of key and content here; I01 and C01 have them arbitrary"])
PROPS["K04"] = P("reports made for 2 streams: any history of 4 (thorough 5) sequence numbers (steps of 1, 5, -2 and 900 from any start), with and without a sender report of any contents received up to 180 s before; requests for 0 to 4 (thorough 6) missing packets starting anywhere with gaps of 1, 2, 16, 17 and 300; key frame requests for any of the streams", [
    J("k04", "k04_receiver", 90, tiers=dict(thorough=dict(params=dict(moves=4), time=600))), J("k04", "k04_nack", 60, tiers=dict(thorough=dict(params=dict(n=7), time=600))), J("k04", "k04_pli", 60)],
    must=["done", "sr", "asked"], assume=["TLS is a stand-in (harness/peer.h): the connection starts with the keys of a finished handshake", "SRTP tags are a fixed mixing of key, nonce and content (rt/crypto_env.cpp)"])
PROPS["K05"] = P("1 (any of 7 SSRCs and 7 payload types, 1 to 3 bytes) and 2 (3 each; thorough 4 and 5) packets from the far end of an authenticated SRTP session, for tracks with and without retransmission, with or without an extension", [
    J("k04", "k05", 60, params=dict(steps=1)), J("k04", "k05", 60, params=dict(ssrcs=3, pts=3, lens=1, ext=0), tiers=dict(thorough=dict(params=dict(ssrcs=4, pts=5, lens=2, ext=0), time=600)))],
    must=["dropped", "media", "rtx"], assume=["TLS is a stand-in (harness/peer.h): the connection starts with the keys of a finished handshake", "SRTP tags are a fixed mixing of key, nonce and content (rt/crypto_env.cpp)"])
PROPS["K06"] = P("3 (thorough 4) control packets of any kind which a connection publishing or subscribing 2 tracks, plain or simulcast, sends; a connection with just data channels for all kinds of incoming and periodic control messages", [
    J("k04", "k06", 90, tiers=dict(thorough=dict(params=dict(steps=4), time=600))), J("k04", "k06_data", 60)],
    must=["done", "sent"], assume=["TLS is a stand-in (harness/peer.h): the connection starts with the keys of a finished handshake", "SSRCs are those drawn for the offer (N02: distinct)"])

#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one property per line).  Edited here, generated there.
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe)))

# ---------- untrusted input
p("S01","Any RTP datagram is handled safely",
 "For every byte string presented as an RTP packet, parsing it, reading every header extension value from it and unwrapping it as a retransmission terminates without reading or writing outside the packet, aborting, throwing or hanging. A packet that is truncated in its header, CSRC list, extension or padding is rejected rather than partly interpreted.",
 ["inputs"],"all datagrams up to the stated length, all extension ids looked up",
 "Tests parse a handful of well-formed packets; hostile length fields are a 2^n input space.",
 ["src/rtp_packet.cpp","src/rtp_extension.cpp","src/byte_buffer.cpp"],
 [("length checks before each field","RtpPacket::fromUdpPacket"),("element walk","RtpExtension::nextElement")],
 ["RtpPacket::fromUdpPacket","RtpExtension::findAny/findU16/findU32/findU64/trimPadding"])
p("S02","Any RTCP compound datagram is handled safely",
 "For every byte string that reaches the RTCP parser after decryption, splitting it into sub-packets terminates without touching memory outside the datagram, aborting or throwing. Every reported sub-packet lies completely inside the datagram.",
 ["inputs"],"all datagrams up to the stated length",
 "No RTCP parsing test exists; a hostile length word needs exhaustive input coverage.",
 ["src/rtcp_packet.cpp","src/rtcp_packet_multi.cpp","src/byte_buffer.cpp"],
 [("length word validation","RtcpPacketMulti / RtcpPacket::fromUdpPacket")],
 ["RtcpPacket::fromUdpPacket"])
p("S03","Any media payload is depacketized safely",
 "For every codec and every sequence of RTP payloads an authenticated peer can send, classifying a payload and extracting frames from a run of them terminates without touching memory outside the payloads, dereferencing null, aborting or throwing.",
 ["inputs","histories"],"all payload contents and sequences of payloads within the stated sizes, for H.264, H.265, VP8, VP9, AV1, Opus",
 "Only H.264 packetization of two frames is tested; depacketizers have no tests at all.",
 ["src/depacketizer_h264.cpp","src/depacketizer_h265.cpp","src/depacketizer_av1.cpp","src/depacketizer_vp8.cpp","src/depacketizer_vp9.cpp","src/depacketizer_opus.cpp","src/codec_vp9.cpp","src/codec_av1.cpp"],
 [("per codec payload parser","Depacketizer*::extract / isFrameStart")],
 ["Depacketizer::getPacketKind","Depacketizer::extract"])
p("S04","Any SCTP datagram is handled safely",
 "For every byte string delivered by the secure transport to the data channel layer, in any connection state, processing terminates without touching memory outside the datagram, aborting or throwing, and a datagram whose checksum is wrong or whose chunk lengths run past its end changes nothing.",
 ["inputs","histories"],"all datagrams up to the stated length, before and after association set-up",
 "No session level SCTP test exists.",
 ["src/sctp/sctp_packet.cpp","src/sctp/sctp_session.cpp","src/data_channel_message.cpp","src/sctp/data_channel_receive_buffer.cpp"],
 [("chunk length validation","SctpPacket parse"),("per chunk size checks","SctpSession::on*")],
 ["SctpSession::onReceive"])
p("S05","Any STUN datagram is handled safely",
 "For every byte string that the connection classifies as a STUN message, every query made on it before and after authentication (transaction lookup, error code, fingerprint, username, integrity, address attributes) terminates without touching memory outside the received bytes.",
 ["inputs"],"all datagrams classified as STUN up to the stated length",
 "STUN code has no tests; this surface is reachable by any unauthenticated host.",
 ["src/ice_agent.cpp","src/stun/stunmessage.cpp","src/stun/stun5389.cpp","src/peer_candidate.cpp"],
 [("message length validation","stun_message_validate_buffer_length, is_stun_message"),("attribute walk","stun_message_find")],
 ["IceAgent::verifyRequestMessage","IceAgent::verifyResponseMessage","stun_message_find*"])
p("S06","Any SDP answer text is handled safely",
 "For every text returned by the signalling server, parsing it as an SDP answer terminates with either an answer or an error, without touching memory out of bounds, aborting or throwing.",
 ["inputs"],"all line contents within the stated shapes and lengths",
 "No SDP answer test exists; the text comes from a remote server.",
 ["src/sdp_answer.cpp"],[("line and attribute parsing","SdpAnswer::parse, parse_line, parse_u32, ParseMediaState")],
 ["SdpAnswer::parse"])
p("S07","Any congestion feedback report is handled safely",
 "For every decrypted transport-wide feedback payload a peer can send, decoding it and updating the send history terminates without touching memory outside the payload or the history, aborting or throwing.",
 ["inputs","histories"],"all feedback payloads within the stated length, against an arbitrary short send history",
 "Tests feed only reports generated by the library itself.",
 ["src/rtp_extension_source_twcc.cpp","src/twcc_publish.cpp","src/twcc_common.cpp"],
 [("chunk and delta decoding","RtpExtensionSourceTWCC::onReceivedRtcpPacket")],
 ["RtpExtensionSourceTWCC::onReceivedRtcpPacket"])

# ---------- codec round trips
rt="Tests compare two hand-made frames; fragmentation boundaries and bytes near start codes need all sizes and contents."
def codec(id,name,stmt,files,obs):
    p(id,"%s frames survive packetization and depacketization"%name,stmt,["inputs","configurations"],
      "all frame contents, unit sizes and packet size budgets within the stated bounds",rt,files,
      [("fragmentation","%s generate"%files[0]),("reassembly","%s extract"%files[1])],obs)
common=" The packets carry consecutive sequence numbers and one timestamp, only the last one is marked as the end of the frame, and none exceeds the payload budget left after protection overhead."
codec("R01","H.264","Packetizing any Annex B H.264 access unit and depacketizing the resulting packets in order yields the same NAL units in the same order (the latest parameter set of each kind is cached and sent with the following key frame); packets built by any other conforming sender are reassembled likewise."+common,
 ["src/packetizer_h264.cpp","src/depacketizer_h264.cpp","src/codec_h264.cpp"],["PacketizerH264::generate","DepacketizerH264::extract"])
codec("R02","H.265","Packetizing any Annex B H.265 access unit and depacketizing the resulting packets in order yields the same NAL units in the same order (the latest parameter set of each kind is cached and sent with the following key frame); packets built by any other conforming sender are reassembled likewise."+common,
 ["src/packetizer_h265.cpp","src/depacketizer_h265.cpp","src/codec_h265.cpp"],["PacketizerH265::generate","DepacketizerH265::extract"])
codec("R03","VP8","Packetizing any VP8 frame and depacketizing the resulting packets in order yields exactly the same frame bytes once a key frame has been seen, and nothing before a key frame, for every payload descriptor a peer may use."+common,
 ["src/packetizer_vp8.cpp","src/depacketizer_vp8.cpp"],["PacketizerVP8::generate","DepacketizerVP8::extract"])
codec("R04","VP9","Packetizing any VP9 frame and depacketizing the resulting packets in order yields exactly the same frame bytes once a key frame has been seen, and every standard payload descriptor sent by a peer is skipped in full."+common,
 ["src/packetizer_vp9.cpp","src/depacketizer_vp9.cpp","src/codec_vp9.cpp"],["PacketizerVP9::generate","DepacketizerVP9::extract"])
codec("R05","AV1","Packetizing any AV1 temporal unit and depacketizing the resulting packets in order yields the same OBUs (type, extension and payload) in the same order, temporal delimiters aside, once a sequence header has been seen."+common,
 ["src/packetizer_av1.cpp","src/depacketizer_av1.cpp","src/codec_av1.cpp"],["PacketizerAV1::generate","DepacketizerAV1::extract"])
codec("R06","Opus","Every Opus frame that fits the packet budget is sent as exactly one packet that carries it unchanged, and depacketizing returns the identical bytes; consecutive frames get consecutive sequence numbers.",
 ["src/packetizer_opus.cpp","src/depacketizer_opus.cpp"],["PacketizerOpus::generate","DepacketizerOpus::extract"])

p("R07","RTP packets survive serialisation and parsing",
 "Serialising any RTP packet and parsing the bytes yields the same payload type, marker, sequence number, timestamp, SSRC, header extension and payload (padding removed), for plain packets. A packet re-sent on the retransmission stream carries the retransmission SSRC, payload type and sequence, and unwraps to the original sequence number and payload.",
 ["inputs"],"all header field values, extension contents, payloads and paddings within the stated sizes",
 "Tests cover a few fixed packets; field packing must be right for all bit patterns.",
 ["src/rtp_packet.cpp","src/rtp_packet_source.cpp"],[("serialisation","RtpPacket::generate, generateRtx"),("parsing","RtpPacket::fromUdpPacket")],
 ["RtpPacket::generate","RtpPacket::generateRtx","RtpPacket::fromUdpPacket"])
p("R08","Header extension values are stored and found exactly",
 "Any set of header extension values added under distinct ids can be looked up by id after building, copying and appending, each with its exact value, in the standard wire format, padded to a multiple of four bytes; ids not added are not found. Replacing one value changes only that value.",
 ["inputs","programs"],"all sequences of up to the stated number of additions and replacements with arbitrary ids and values",
 "No extension builder test covers id/size switching between one- and two-byte formats.",
 ["src/rtp_extension_builder.cpp","src/rtp_extension.cpp"],[("element encoding","RtpExtensionBuilder"),("element walk","RtpExtension::nextElement")],
 ["RtpExtensionBuilder::build","RtpExtension::findAny"])
p("R09","RTCP packets survive serialisation and compound parsing",
 "Any RTCP packet the library serialises, alone or concatenated with others, is parsed back into the same packet types, report counts, SSRCs and payload bytes in the same order, and its length word counts exactly its 32-bit words.",
 ["inputs"],"all payload contents and sizes within the bounds, compounds of up to the stated number of packets",
 "No RTCP test exists.",
 ["src/rtcp_packet.cpp","src/rtcp_packet_multi.cpp","src/rtcp_packet_source.cpp"],[("serialisation","RtcpPacket::generate"),("parsing","RtcpPacket::fromUdpPacket")],
 ["RtcpPacket::generate","RtcpPacket::fromUdpPacket"])
p("R10","Simulcast packets say which stream they are and what the layers are",
 "For any set of one to four simulcast layers the encoded video layers allocation, read after its published bit layout, is exactly the stream's index, the number of streams, one spatial and temporal layer each, target bitrates, resolutions and frame rates (at most 255), and nothing is encoded for sets which cannot be said. The extensions are added, in every packet of a frame, if and only if the track is a simulcast layer, all of media id, stream id and allocation were negotiated, and the frame is a key frame or fewer than 100 packets were sent; their values are the media id, the layer name and the allocation. Retransmissions carry the media id and the repaired layer name, and keep the other values.",
 ["inputs","configurations"],"all layer parameters, extension ids of the stated kinds, packet counts",
 "One fixed vector is tested; layouts depend on the number of layers and the sizes of numbers.",
 ["src/rtp_extension_source_simulcast.cpp","src/simulcast_layer.cpp"],[("encoder","buildGoogleVLA"),("policy","RtpExtensionSourceSimulcast::shouldAdd"),("retransmissions","RtpExtensionSourceSimulcast::updateForRtx")],["buildGoogleVLA","RtpExtensionSourceSimulcast"])
p("R11","Encoded frames are classified and split correctly",
 "The bitstream walkers visit exactly the NAL units or OBUs that the standards' framing rules define for any frame, never a byte outside it, and key frame (for AV1: key or intra-only frame) and parameter set classification follows the standards for every header value. Reserved OBU type 0 and sizes that never terminate are not judged.",
 ["inputs"],"all frames up to the stated length",
 "Two fixed frames are tested; start code emulation, short frames and truncated sizes are not.",
 ["src/codec_h264.cpp","src/codec_h265.cpp","src/codec_av1.cpp","src/codec_vp9.cpp","src/bit_reader.cpp"],
 [("start code search","h264/h265 NaluParser"),("OBU walker","av1::ObuParser"),("bit reader","BitReader")],
 ["NaluParser::next","ObuParser::next","isKeyFrame"])

# ---------- crypto
uf="Tests use one key and a few packets in order; loss, reordering, tampering and rollover histories are unbounded."
p("C01","Protected media and control packets decrypt to what was sent",
 "Every RTP and RTCP packet protected by one side is recovered bit-exactly by the other, for every cipher profile, across sequence number rollover, and regardless of losses and reordering within the replay window, also after a reconnection. Media packets carry a non-empty payload; consecutive losses stay below the forward limit of the replay window.",
 ["inputs","histories"],"all packet contents within bounds, all sequence numbers and rollover counters, short loss/reorder histories",uf,
 ["src/srtp_crypto.cpp","src/srtp_connection.cpp","src/srtp_hmac_sha1.cpp","src/srtp_util.cpp"],
 [("rollover estimation","SrtpConnection::unprotectReceiveMedia"),("cipher framing","SrtpCrypto")],
 ["SrtpCrypto::protectSendMedia/unprotectReceiveMedia/protectSendControl/unprotectReceiveControl","SrtpConnection"])
p("C02","Forged or corrupted packets are rejected and leave no trace",
 "A datagram that was not produced by the peer's protection, or was altered in any bit, is rejected, and after any number of such datagrams genuine packets are still accepted exactly as if the forgeries had never arrived. A genuine packet is accepted at most once within one connected period.",
 ["inputs","histories","fault_sequences"],"all forged datagrams within bounds interleaved with genuine ones",uf,
 ["src/srtp_crypto.cpp","src/srtp_connection.cpp"],[("tag verification","SrtpCrypto::unprotect*"),("state commit","SrtpConnection::unprotectReceiveMedia")],
 ["SrtpConnection::unprotectReceiveMedia/unprotectReceiveControl"])
p("C03","Encryption nonces are unique and cover the whole packet index",
 "Two different packets of a stream (different SSRC, rollover counter, sequence number or control index) are never encrypted with the same key and initialisation vector, and every initialisation vector equals the one the standards prescribe for that packet. Each side uses its own negotiated write key for sending and the other's for receiving.",
 ["inputs"],"all pairs of packet identities",
 "Tests compute a few fixed vectors; uniqueness is a statement about all pairs.",
 ["src/srtp_crypto.cpp","src/srtp_connection.cpp"],[("IV computation","SrtpCrypto::computeMediaIV / computeControlIV")],["SrtpCrypto::protectSendMedia/protectSendControl"])
p("C04","No sequence number is accepted twice and in-window ones are not refused",
 "For every history of received indices, the replay filter accepts an index at most once, accepts every index that was not seen and lies inside the window or ahead of the newest by at most the forward limit (a quarter of the window), and memory stays within the window.",
 ["histories","inputs"],"all histories of the stated length from arbitrary reachable positions, window parameters symbolic",
 "Tests replay a few linear histories.",
 ["src/replay_protection.cpp"],[("bitmap window","ReplayProtection::canProceed/set")],["ReplayProtection"])

# ---------- receive path
p("E01","Sequence numbers and timestamps are extended monotonically and losslessly",
 "For every sequence of 16-bit or 32-bit counters in which neighbours differ by less than the documented margin, the extended value keeps the original low bits and equals the true unwrapped position, across any number of rollovers in either direction (values from before a rollover arrive within a second of it).",
 ["histories","inputs"],"all counter histories of the stated length within the margin",
 "Tests walk a few fixed patterns.",
 ["src/extended_value.cpp","include/srtc/extended_value.h"],[("rollover tracking","ExtendedValue::extend")],["ExtendedValue::extend"])
p("J01","Received frames come out once, whole and in order",
 "For any arrival order, loss and duplication of packets, the frames handed to the application are in increasing stream order, none is handed out twice, and each multi-packet frame is assembled only from its own consecutive packets from start to end.",
 ["schedules","histories","fault_sequences"],"all arrival schedules (order, loss, duplication, timing) of a stream within the stated number of packets, every starting sequence number",
 "No jitter buffer test exists.",
 ["src/jitter_buffer.cpp","src/extended_value.cpp"],[("slot ring","JitterBuffer::consume"),("dequeue","JitterBuffer::processDeque, findMultiPacketSequence")],["JitterBuffer::consume/processDeque"])
p("J02","A complete frame is delivered no later than the buffer length allows",
 "When every packet of a stream arrives within the buffer length, in any order, every frame is delivered exactly once and none is dropped; when a packet never arrives, only the frames that need it are lost and later frames are still delivered. After a burst of losses of a quarter of the capacity or more, delivery resumes once the reset delay (2 s) has passed.",
 ["schedules","fault_sequences"],"all arrival permutations and single losses within the stated number of packets",
 "No jitter buffer test exists.",
 ["src/jitter_buffer.cpp"],[("dequeue timing","JitterBuffer::findNextToDequeue"),("loss handling","JitterBuffer::newLostItem")],["JitterBuffer::processDeque"])
p("J03","Retransmission is requested for exactly the missing packets",
 "Every retransmission request names only packets between received ones that have not arrived, each missing packet is requested once the reordering delay has passed and before it is abandoned, and the compact request encoding names exactly the given set for every set of sequence numbers.",
 ["inputs","schedules"],"all arrival schedules within bounds; all sequence number lists of the stated length",
 "A few lists are tested.",
 ["src/jitter_buffer.cpp","src/util.cpp","src/peer_connection.cpp"],[("nack scheduling","JitterBuffer::processNack"),("compression","compressNackList")],["JitterBuffer::processNack","compressNackList"])
p("T01","Arrival feedback reports exactly what was received",
 "For every arrival history, the congestion feedback generated decodes, by the published format, to exactly the received and missing sequence numbers in range: every packet that arrived since the previous report is reported as received, none that did not arrive is, with arrival times within the format's resolution, and report generation always terminates.",
 ["histories","inputs"],"all arrival histories within the stated number of packets and time spans, every starting sequence number",
 "A few fixed histories are tested.",
 ["src/rtp_responder_twcc.cpp","src/twcc_subscribe.cpp","src/twcc_common.cpp"],[("chunk encoding","RtpResponderTWCC::run / generate")],["RtpResponderTWCC"])
p("T02","Send-side feedback accounting matches the report",
 "For every valid feedback report, exactly the packets reported as received are recorded as received with their reported arrival times and the others as lost; reports on unknown packets change nothing, and the loss figure counts each lost packet once. The reserved status value is not judged.",
 ["histories","inputs"],"all reports within bounds over an arbitrary send history",
 "Send-side feedback has no tests.",
 ["src/rtp_extension_source_twcc.cpp","src/twcc_publish.cpp"],[("report decoding","RtpExtensionSourceTWCC::onReceivedRtcpPacket"),("history","TWCCPublishPacketHistory")],["RtpExtensionSourceTWCC::onReceivedRtcpPacket","TWCCPublishPacketHistory"])
p("A01","The pool allocator never hands out overlapping or misaligned memory",
 "For every sequence of allocations and releases, live blocks are pairwise disjoint, properly aligned and inside the pool's own memory, and a released block can be reused.",
 ["programs","histories"],"all allocate/release programs of the stated length",
 "Tests run a few fixed sequences.",
 ["src/pool_allocator.cpp","include/srtc/pool_allocator.h"],[("free list","PoolAllocatorImpl")],["PoolAllocator::create/destroy"])

# ---------- send path
p("H01","A retransmission request finds exactly the packet that was sent",
 "Looking up a sequence number in the send history returns the packet last sent with that SSRC and sequence number while it is retained, never another one, and retention is bounded.",
 ["histories","inputs"],"all save/lookup histories within the stated length, across sequence rollover",
 "No send history test exists.",
 ["src/send_rtp_history.cpp"],[("per SSRC list","SendRtpHistory")],["SendRtpHistory::save/find"])
p("Q01","Paced packets are all sent, once, in order, within the budgeted time",
 "Every packet handed to the pacer is transmitted exactly once; packets of a stream leave in the order they were handed over when each new frame is preceded by a flush of its stream; the packets of a frame are spread evenly over the requested time, none leaving before its share of it nor waiting once it has passed and the pacer is run; what is not spread out leaves at once. Flushing a stream sends all that waits of it and nothing of another. Each packet sent is counted, kept for retransmission and reported to the caller, frames are counted once, and the time to wait never exceeds what is left until the next packet.",
 ["schedules","histories"],"all schedules of submissions and clock advances within the stated length",
 "No pacer test exists.",
 ["src/send_pacer.cpp"],[("queue","SendPacer::sendPaced/run/flush"),("sending","SendPacer::sendImpl")],["SendPacer::sendNow/sendPaced/flush/run/getTimeoutMillis","datagrams sent","TrackStats","SendRtpHistory"])
p("L01","Scheduled tasks run once, in time order, unless cancelled",
 "Every task submitted to the scheduler runs exactly once, never before its due time, tasks run in order of due time, and a task cancelled or rescheduled before running does not run at its old time.",
 ["schedules","programs"],"all programs of submit/update/cancel/advance operations of the stated length",
 "No scheduler test exists.",
 ["src/scheduler.cpp"],[("sorted queue","LoopScheduler")],["LoopScheduler::submit/update/cancel/run"])
p("V01","RTP timestamps follow media time",
 "For every clock rate and every non-decreasing media time, RTP timestamps advance by the media time difference multiplied by the clock rate to within one tick, never drift, and sequence numbers increase by exactly one per packet with the rollover counter tracking wraps.",
 ["inputs","histories"],"all media times and start values within bounds",
 "No test covers time conversion.",
 ["src/rtp_time_source.cpp","src/rtp_packet_source.cpp"],[("conversion","RtpTimeSource::getFrameTimestamp"),("sequence","RtpPacketSource::getNextSequence")],["RtpTimeSource","RtpPacketSource"])
p("M01","Round trip times and NTP times are computed correctly from reports",
 "For every report block that refers to a retained report, the computed round trip time equals receive time minus report time minus the peer's delay within the format's resolution and is never negative; reports that match nothing yield no value, and NTP conversion keeps time to its resolution.",
 ["inputs","histories"],"all report timestamps and delays within bounds",
 "No test exists.",
 ["src/sender_reports_history.cpp","src/receiver_reference_time_reports_history.cpp","src/util.cpp"],[("matching","SenderReportsHistory"),("conversion","getNtpTime")],["SenderReportsHistory","ReceiverReferenceTimeReportsHistory"])

# ---------- SCTP / data channels
p("D01","SCTP checksums are standard CRC32c",
 "The checksum computed for every byte string equals the standard CRC32c and a datagram is accepted only when its checksum is right, so any burst of up to 32 corrupted bits on one side of the checksum field is detected.",
 ["inputs"],"all byte strings up to the stated length",
 "Three vectors are tested.",
 ["src/sctp/sctp_crc32.cpp","src/sctp/sctp_packet.cpp"],[("table CRC","sctp crc32")],["sctp crc32c"])
p("D02","SCTP packets survive building and parsing",
 "Any chunk sequence written by the packet builder is parsed back into the same header and the same chunks with the same bytes, correctly padded, within the size limit, with a valid checksum.",
 ["inputs"],"all chunk contents and sizes within bounds",
 "No SCTP packet test exists.",
 ["src/sctp/sctp_packet.cpp","src/sctp/sctp_packet_builder.cpp"],[("builder","SctpPacketBuilder"),("parser","SctpPacket")],["SctpPacketBuilder","SctpPacket"])
p("D03","Data channel fragments are reassembled in order and exactly",
 "For every stream of message fragments, ordered messages are delivered in stream sequence order with exactly the bytes sent and exactly once, unordered messages are delivered as soon as complete, and duplicates are not delivered again.",
 ["histories","schedules"],"all arrival orders of up to the stated number of messages and fragments",
 "A few arrival orders are tested.",
 ["src/sctp/data_channel_receive_buffer.cpp"],[("reassembly","DataChannelReceiveBuffer")],["DataChannelReceiveBuffer::receive"])
p("D04","Data channel messages arrive intact over a lossy transport",
 "Between two connected peers, every message sent on an open reliable channel is delivered to the other side exactly once, with identical bytes, type and channel, and in order when the channel is ordered, whatever datagrams are lost, duplicated or reordered within the retransmission limits.",
 ["schedules","fault_sequences","histories"],"all loss/duplication/reordering schedules within the stated number of datagrams and messages",
 "No session level SCTP test exists.",
 ["src/sctp/sctp_session.cpp","src/sctp/data_channel_receive_buffer.cpp","src/data_channel_message.cpp"],
 [("handshake, ack and retransmit","SctpSession")],["SctpSession"])
p("D05","Data channel control messages are encoded and decoded exactly",
 "Any channel-open request encoded by the library is decoded to the same label, protocol, ordering and reliability parameters per the published format, and every truncated or inconsistent message is rejected.",
 ["inputs"],"all labels, protocols and parameters within bounds; all byte strings up to the stated length",
 "No test exists.",
 ["src/data_channel_message.cpp"],[("DCEP codec","data_channel_message.cpp")],["DCEP encode/parse"])

# ---------- ICE / STUN
p("I01","STUN messages are encoded to the standard and verified strictly",
 "Connectivity checks built by the library carry attributes that parse back to the values set, and a request or response is accepted only if its username, integrity and fingerprint are exactly right for the negotiated credentials; altering any byte makes it rejected.",
 ["inputs"],"all attribute values, credentials and received messages within bounds",
 "No STUN test exists.",
 ["src/ice_agent.cpp","src/stun/stunmessage.cpp","src/stun/stun5389.cpp","src/stun/stunhmac.cpp","src/stun/stuncrc32.cpp"],
 [("build","stun_message_append*"),("verify","IceAgent::verify*")],["IceAgent","stun_message_*"])
p("I02","STUN responses are matched to the request that caused them",
 "A response is attributed to an outstanding transaction exactly when its transaction id is that of a request sent and not yet forgotten, at most once, and the measured round trip is that of the matched request.",
 ["histories","inputs"],"all histories of requests, responses and expiry of the stated length",
 "No test exists.",
 ["src/ice_agent.cpp"],[("transaction table","IceAgent")],["IceAgent"])

# ---------- SDP / configuration
p("N01","SDP answers yield exactly the negotiated parameters",
 "For every well-formed answer, the credentials, fingerprint, role, candidates (each IPv4 or IPv6 UDP host candidate of component 1 once), codecs with clock rate, options and feedback, retransmission pairings, extension ids, simulcast layers, data channel port and sizes reported are those in the text, section by section, and streams we publish keep the SSRCs of the offer. Numbers which are empty, signed or outside their legal range are rejected or ignored rather than turned into other legal values. An answer without candidate, without codec in a section, without rtcp-mux for media, with another transport, or (publishing) with a media id the offer does not have, is an error. The default selector picks the best codec offered, then the best profile.",
 ["inputs","configurations"],"all attribute values within the stated shapes, all combinations of sections within bounds",
 "No SDP test exists; numbers alone have more values than tests can try.",
 ["src/sdp_answer.cpp","src/sdp_offer.cpp","src/extension_map.cpp","src/track_selector.cpp","src/x509_hash.cpp"],
 [("attribute parsing","SdpAnswer::parse, parse_u32"),("state of a section","ParseMediaState"),("choice","HighestTrackSelector")],["SdpAnswer getters","Track getters","TrackSelector"])
p("N02","SDP offers are well formed and consistent",
 "For every publish or subscribe configuration an offer is generated if and only if it has something to offer, every media line has codecs, all of its media type, and the dynamic payload types 96 to 127 suffice. An offer has one section for each media and one for data channels, each with our credentials, fingerprint and its own media id, all bundled; the codecs asked for, in order, with distinct payload types and right options and feedback; extensions as configured with one meaning per id; simulcast layers with their restrictions; SSRCs which are non-zero and distinct whatever is drawn and equal those later used for sending; each retransmission payload type and SSRC paired with its primary if and only if retransmissions are enabled.",
 ["configurations","inputs"],"all configurations and random draws within bounds",
 "No SDP test exists; colliding random draws do not occur in tests.",
 ["src/sdp_offer.cpp"],[("offer generation","SdpOffer::generate"),("distinct SSRCs","SdpOffer::generateSSRC")],["SdpOffer::generate, getMediaSSRC, getVideoSimulastSSRC, getControlPacketSource"])
p("N03","The best common codec and layer options are selected",
 "Of the tracks negotiated for a media section, selection returns one of them, preferring the best supported profile, independently of the order in which they are listed, and extension id lookups answer exactly what was registered.",
 ["configurations","histories"],"all track lists and extension registrations of the stated size",
 "No test exists.",
 ["src/track_selector.cpp","src/extension_map.cpp"],[("scoring","HighestTrackSelector"),("map","ExtensionMap")],["TrackSelector","ExtensionMap"])
p("B01","Byte readers and writers are exact inverses and never overrun",
 "Anything written with the byte and bit level writers is read back unchanged, and buffers keep their content across growth, copying and moving for every sequence of operations.",
 ["programs","inputs"],"all operation sequences of the stated length and all values",
 "No direct tests.",
 ["src/byte_buffer.cpp","src/bit_reader.cpp"],[("writer","ByteWriter"),("reader","ByteReader"),("growth","ByteBuffer::ensureCapacity")],["ByteBuffer","ByteReader","ByteWriter","BitReader"])

# ---------- connection
p("K02","Feedback of the far end is acted upon exactly as it asks",
 "On an established connection, a NACK makes each packet named by its ids and bit masks which is still in the history be sent once more, as a retransmission (own SSRC, payload type and numbers, original number first) where that was negotiated and unchanged otherwise, and nothing else; PLI and FIR each ask the application for a key frame once; a sender report updates and reports exactly the track which has its SSRC; reference time reports are answered, once each and to the latest one of every sender, with the delay since; answers to our own reports yield the round trip time. Control packets of any content never crash, and ones which are not authentic have no effect.",
 ["inputs","histories"],"all feedback packets and histories of the stated sizes",
 "No test executes the connection's control packet handling.",
 ["src/peer_candidate.cpp","src/rtcp_packet.cpp","src/send_rtp_history.cpp","src/receiver_reference_time_reports_history.cpp"],
 [("dispatch","PeerCandidate::onReceivedControlPacket"),("NACK","PeerCandidate::onReceivedControlMessage_NACK"),("reference time","PeerCandidate::onReceivedControlMessage_RRTR, _DLRR")],["PublishConnectionStats","KeyFrameRequestedListener","SenderReportsListener"])
p("K03","A connection is up only with the certificate's holder, after ICE, while heard",
 "For every history of answers, handshake data, media and time: requests carry the credentials of the other side, a candidate is nominated only after an authentic answer to one of our own requests, no handshake begins before that, and it is in the role agreed and asks for the certificate. The connection is reported as up, and its keys are used, only when the handshake has ended, the certificate's SHA-256 equals the whole fingerprint in the answer and an SRTP profile was agreed; any other outcome is reported as a failure, once. It is reported as lost when, and only when, nothing authentic has been received for five seconds, as restored by the next authentic packet or answer and by nothing else, and as failed when connecting takes five seconds. Requests of the other side are answered only when they carry our credentials, with the address they came from. Recorded packets are not accepted again.",
 ["inputs","histories","faults"],"all fingerprints and outcomes, all histories of the stated length",
 "No test executes the connection; forged certificates, timing and order are countless.",
 ["src/peer_candidate.cpp","src/ice_agent.cpp","src/srtp_connection.cpp"],
 [("certificate","PeerCandidate::onReceivedDtlsMessage"),("ICE","PeerCandidate::onReceivedStunMessage"),("liveness","PeerCandidate::onReceivedFromRemote, onConnectionLostTimeout")],["ConnectionStateListener"])
p("K04","Reports and requests sent to the far end describe the streams",
 "Receiver reports have one block for each received track with its SSRC, the highest sequence number received and its cycles, and the middle of the last sender report with the time since it came, followed by our own reference time (losses and jitter are not computed by this implementation and reported as 0); a request for missing packets names exactly the packets asked for, for the track they belong to; a key frame request names the track.",
 ["inputs","histories"],"all stream histories and lists of missing packets within bounds",
 "No test executes report generation.",
 ["src/peer_candidate.cpp","src/track_stats.cpp","src/rtcp_packet.cpp"],
 [("reports","PeerCandidate::sendSubscribeReports"),("requests","PeerCandidate::sendNacks, sendPictureLossIndicator")],["RTCP on the wire"])
p("K05","Arriving media reach the track they belong to, and no other",
 "Every authentic media packet whose SSRC and payload type are those of a track, or of its retransmissions, is handed on once as a packet of that track with its header fields and payload unchanged, and counted there; every other packet, and every packet which is not authentic, changes nothing. Sequence numbers of retransmissions never count as those of the stream.",
 ["inputs","histories"],"all SSRC and payload type combinations and packets within bounds",
 "No test executes the dispatch of received media.",
 ["src/peer_candidate.cpp","src/rtp_packet.cpp","src/peer_connection.cpp"],[("dispatch","PeerCandidate::onReceivedRtcMessage, findReceiveTrack")],["PeerConnection::setSubscribeEncodedFrameListener"])
p("K06","Control packets have distinct SRTCP indices and the far end accepts them",
 "For every sequence of reports, requests and feedback a connection sends, over plain and simulcast tracks, no two control packets of one SSRC have the same SRTCP index, so that no nonce is used twice, and the far end accepts every one. A connection which has only data channels works.",
 ["histories","configurations"],"all sequences of control messages of the stated length",
 "A reused index shows only when particular messages meet.",
 ["src/peer_candidate.cpp","src/rtcp_packet_source.cpp","src/srtp_connection.cpp"],[("index","RtcpPacketSource::getNextSequence"),("sending","PeerCandidate::sendRtcpPacket")],["RTCP on the wire"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))

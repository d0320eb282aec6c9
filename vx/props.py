"""Which contracts and lemmas each property rests on, and which engine programs exercise it."""
import re
D_W = r"datatype::RaknetWriter::.*"
D_R = r"datatype::RaknetReader::.*"
FLAGS = r"arq::(Reliability::.*|FrameSetPacket::is_.*|FrameSetPacket::reliability)"
RECV = r"arq::RecvQ::(new|insert|flush)"
SEND = r"arq::SendQ::(new|insert|nack|ack|tick|flush|is_empty|next_sequence_number)"
RS = r"socket::RaknetSocket::"
SV = r"server::RaknetListener::"
RXW, TXW, TICK = RS + r"start_receiver(__step)?", RS + r"start_sender(__step)?", RS + r"start_tick(__step|__end)?"
L_RX = r"(frames_in_step|frame_of|chain_ends|handled_all_step|any_refused_step|refused_iff|list_records|names_one|names_range|le24_small|recs_24|covers_take)"
L_ROOM = r"(room_for|room_any|room_after|outs_fit|jobs_step|cat_long)"
L_SHORT = r"(rep_len|addr_short|accept_short|incoming_short|request_short)"
PROPS = {
    "C01": ([D_W, D_R, r"packet::.*", r"wire::.*"], r"packet::(roundtrip_.*|recs_of_enc|rep_addr_at|list_step)|shim::(addr_roundtrip|utf8_injective|inv4_inj)|wire::.*_inj.*", ["codec"]),
    "C02": ([D_W, r"packet::write_.*", r"packet::PacketID::to_u8", r"arq::FrameSetPacket::(serialize|new)", FLAGS], r"arq::enc_body_len", ["codec"]),
    "C03": ([D_R, r"packet::_?read_.*", r"packet::PacketID::from", r"arq::FrameVec::new", r"arq::Reliability::from"], r"shim::(take_.*|cursor_len)", ["codec"]),
    "C04": ([D_R, r"arq::FrameVec::new", r"arq::FrameSetPacket::serialize", FLAGS], r"arq::(body_roundtrip|bodies_roundtrip|frame_roundtrip|enc_body_len|fseq_cat|le24_all|be16_val_of|kind_flags)", ["codec"]),
    "C05": ([r"arq::SendQ::(new|insert|flush)", r"arq::FrameSetPacket::(new|serialize)", FLAGS], r"arq::(frame_out_fits|cut_points|cat_data.*|add_ok|enc_body_len)", ["sendq", "live"]),
    "C06": ([r"fragment::.*", RECV], r"fragment::.*" + r"|history::(complete_is_whole|original_history|genuine_.*|cat_flat|at_most|all_there)", ["recvq", "live"]),
    "C07": ([RECV, r"fragment::.*", RXW, RS + r"recv"], r"arq::(next_up|flush_one|kind_flags|perm_ok)" + "|" + r"socket::" + L_RX + r"|history::(ordered_.*|original_history|genuine_.*|in_order_is|up_.*|run_.*|in_keeps|filter_split|rx_.*)", ["recvq", "live"]),
    "C08": ([RECV, RXW, RS + r"recv"], r"arq::(flush_one|kind_flags)" + "|" + r"socket::" + L_RX + r"|history::(sequenced_history|unordered_history|seq_.*|waiting_is|run_is_ord|up_is_run|filter_split|rx_.*)", ["recvq", "live"]),
    "C09": ([r"arq::ACKSet::(new|insert|get_ack)", r"arq::RecvQ::(new|insert|get_ack)", RXW], r"arq::(covers_.*|holds_iff)" + "|" + r"socket::" + L_RX + r"|history::(ranges_.*|handed_out|all_count|covers_more|rx_.*)", ["recvq", "live"]),
    "C10": ([r"arq::ACKSet::(new|insert|get_nack)", r"arq::RecvQ::(new|insert|get_nack)", TICK], r"arq::(covers_.*|gap_is_new)" + "|" + r"socket::" + L_ROOM + r"|history::(ranges_.*|handed_out|max_seen|gaps_history|covers_more|rx_.*)", ["recvq", "live"]),
    "C11": ([SEND, RXW, TICK, RS + r"send"], r"arq::(count_.*|current_apart|numbers_below|renumber_ok|mark_ok|holds_iff|lemma_chain_step)" + "|" + r"socket::" + L_RX + r"|socket::" + L_ROOM + r"|history::(tx_.*|kept_.*|gone_.*|once_history|same_.*|put_.*|ack_from|push_keeps)", ["sendq", "live"]),
    "C12": ([SEND], r"arq::(numbers_below|renumber_ok|current_apart|perm_ok|lemma_chain_step)" + r"|history::(tx_.*|fresh_history|newer_.*|once_history|same_.*|put_.*|ack_from)", ["sendq", "live"]),
    "C13": ([SEND, r"arq::SendQ::(update_rto|get_rto)", TICK], r"arq::(mark_ok|lemma_chain_step|renumber_ok)" + "|" + r"socket::" + L_ROOM, ["sendq"]),
    "C14": ([r"arq::SendQ::(new|insert)", RS + r"send"], r"arq::(add_ok|cut_points)" + "|" + r"socket::" + L_ROOM, ["sendq", "live"]),
    "C15": ([SV + r"(listen|start_session_collect)(__step)?", RS + r"(handle|sendto|ping|connect_with_version(__step)?|connect)", RXW, TXW, TICK, D_R, r"packet::_?read_.*", r"arq::FrameVec::new"], r"socket::" + L_RX + r"|socket::" + L_ROOM + r"|socket::" + L_SHORT + r"|server::(one_byte|insert_dom|versions)", ["live"]),
    "C16": ([RS + r"(handle|from|sendto|recv)", RXW, TXW, r"arq::SendQ::(ack|nack|insert)", r"arq::RecvQ::(insert|flush|get_ack)"], r"socket::" + L_RX + r"|socket::" + L_SHORT + r"|socket::" + L_ROOM, ["live"]),
    "C17": ([SV + r"(listen(__step)?|bind|from_std|accept|get_motd|set_motd|set_full_motd|get_peer_raknet_version|local_addr|start_session_collect(__step)?)", RS + r"(from|connect|connect_with_version(__step)?|ping|peer_addr|raknet_version)"], r"server::(one_byte|insert_dom|versions)|socket::" + L_SHORT, ["live"]),
    "C18": ([RS + r"(close|flush|recv|send|drop|drop_watcher(__task)?|from)", TICK, RXW, SV + r"(start_session_collect(__step|__end)?|close|accept|drop|drop_watcher(__task)?)"], r"socket::" + L_RX + r"|socket::" + L_ROOM + r"|server::(one_byte|insert_dom)", ["live"]),
    "C19": ([SV + r"(bind|from_std|listen|close|accept|local_addr|drop|drop_watcher(__task)?|start_session_collect(__step|__end)?)", RS + r"(start_tick(__step|__end)?|send|flush|recv)"], r"socket::" + L_ROOM + r"|server::(one_byte|insert_dom)", ["live"]),
}


def match(pats, name):
    return any(re.fullmatch(p, name) for p in pats)

_COMMON = " Every function the property rests on is under contract; a caller is checked against its callees' contracts. Trusted: Verus/Z3, vstd, the assumed contracts of std and bytes listed in the evidence, and the extraction rules."
_NET = (" The session and listener layers (socket.rs, server.rs) are verified on the real async text: one contract per function and per worker round, each round verified alone against what locks and channels "
        "guarantee whatever other tasks do. Trusted: the contracts of the tokio stand-ins (channels, locks, UDP socket, semaphore, notify, timers), spawning, and that each worker runs its rounds; how workers are wired to "
        "the channels is compared textually. A bounded live engine on loopback (never counted as proved) replays failures and stands in for functions not accepted on a changed tree.")
_NET2 = " The worker round that carries this to the wire or the application is under contract as well (tokio stand-ins trusted)."
_B = "Bounded: the real listener and sessions over loopback against a peer written from the wire format alone; "
NOTES = {
    "C15": _B + "arbitrary, truncated and mutated datagrams, then everything is tried. An application that accepts late is covered as well. One way to break it is recorded as a known finding (a session that is never read), so no proof is claimed; every worker round, and every parser a datagram reaches, is under contract and verified panic-free, and the rounds' contracts say when they end.",
    "C16": "Proof of the receive worker's round and of handle: which answers, acknowledgements and messages each datagram produces, from any state." + _COMMON + _NET,
    "C17": "Proof of the listener's round: for each datagram in each state, which reply is sent, which session is opened and where the datagram is forwarded." + _COMMON + _NET,
    "C18": "Proof of close, send, flush, recv, drop and of the rounds of ticker, receiver and collector: what each does once the connection is closed or its peer has disconnected, from any state." + _COMMON + _NET,
    "C19": "Proof of the listener's close, accept, listen, local_addr and drop, of its collector's round and of what the collector does at its end, from any state; that the workers then end is the stand-ins' contract and exercised by the live engine." + _COMMON + _NET,
    "C01": "Proof for all field values: each decoder's postcondition is the inverse of each encoder's, and one round-trip lemma per message composes them." + _COMMON,
    "C02": "Proof: each encoder's postcondition is its byte layout, written out independently of the code." + _COMMON,
    "C03": "Proof: absence of panics (bounds, overflow, callee preconditions) in every decoder for every byte string up to 65507 bytes, and truncated input is specified to be an error." + _COMMON,
    "C04": "Proof: the parser's postcondition and the serializer's postcondition compose to identity (lemmas frame_roundtrip, bodies_roundtrip), for every frame list." + _COMMON,
    "C05": "Proof of splitting, numbering and frame size for every payload, reliability and queue state." + _COMMON,
    "C06": "Proof of the reassembly queue's step relation: complete exactly when all indexes arrived, concatenated in index order, compounds kept apart, order of arrival irrelevant. Lemma original_history: over any sequence of arrivals and read-outs, what is handed up is message 0, 1, 2, ... exactly as sent." + _COMMON,
    "C07": "Proof of the receive queue's step relation for insertion and read-out from any state. Lemmas ordered_history and original_history extend it to every history of arrivals and read-outs." + _COMMON + _NET2,
    "C08": "Proof of the receive queue's step relation for unordered and sequenced frames from any state. Lemmas sequenced_history and unordered_history extend it to every history." + _COMMON + _NET2,
    "C09": "Proof that the pending acknowledgement ranges cover exactly the inserted numbers, from any state. Lemmas ranges_history, handed_out and all_count extend it to every history: exactly the received numbers are ever handed out." + _COMMON + _NET2,
    "C10": "Proof that exactly the new gap is added to the pending missing ranges, from any state. Lemmas handed_out and gaps_history extend it to every history: a number is reported only if it was skipped by the arrival that passed it." + _COMMON + _NET2,
    "C11": "Proof of the send queue's step relations (what acks, nacks, time and flushes may remove) from any well-formed state, with well-formedness preserved. Lemmas kept_history and gone_history extend it to every history: a message sent is still there unless one of its numbers was acknowledged, and an acknowledged number never comes back; once_history: each message is first sent once, in order." + _COMMON + _NET2,
    "C12": "Proof that handed-out numbers are strictly increasing and retransmissions differ only in the number, from any well-formed state. Lemmas fresh_history, once_history and same_history extend it to every history of sends, acknowledgements, reports, timeouts and flushes." + _COMMON,
    "C13": "Proof that the timeout stays in 50..12000 ms and that exactly the due or reported messages are handed out by a flush; the factor 1.5 on f64 is an assumed contract." + _COMMON + _NET2,
    "C14": "Proof of send and of the send queue's insertion: which error, and that a refusal leaves the queue unchanged and sends nothing." + _COMMON + _NET,
}
LEVEL = {"C15": "exploration"}
THEOREMS = {
    "C01": ["vx::packet::roundtrip_PacketUnconnectedPing", "vx::packet::roundtrip_PacketUnconnectedPong", "vx::packet::roundtrip_OpenConnectionRequest1", "vx::packet::roundtrip_OpenConnectionRequest2",
            "vx::packet::roundtrip_OpenConnectionReply1", "vx::packet::roundtrip_OpenConnectionReply2", "vx::packet::roundtrip_ConnectionRequest", "vx::packet::roundtrip_ConnectionRequestAccepted",
            "vx::packet::roundtrip_NewIncomingConnection", "vx::packet::roundtrip_ConnectedPing", "vx::packet::roundtrip_ConnectedPong", "vx::packet::roundtrip_IncompatibleProtocolVersion",
            "vx::packet::roundtrip_AlreadyConnected", "vx::packet::roundtrip_list"],
    "C02": ["vx::arq::FrameSetPacket::serialize", "vx::packet::write_packet_ping", "vx::packet::write_packet_ack", "vx::packet::write_packet_connection_open_request_1", "vx::datatype::RaknetWriter::write_address"],
    "C03": ["vx::arq::FrameVec::new", "vx::datatype::RaknetReader::read_address", "vx::packet::read_packet_ack", "vx::packet::read_packet_new_incomming_connection"],
    "C04": ["vx::arq::bodies_roundtrip", "vx::arq::frame_roundtrip", "vx::arq::FrameVec::new", "vx::arq::FrameSetPacket::serialize"],
    "C05": ["vx::arq::SendQ::insert", "vx::arq::frame_out_fits", "vx::arq::SendQ::new"],
    "C06": ["vx::fragment::FragmentQ::insert", "vx::fragment::FragmentQ::flush", "vx::fragment::Fragment::merge", "vx::arq::RecvQ::insert", "vx::history::complete_is_whole", "vx::history::original_history"],
    "C07": ["vx::arq::RecvQ::insert", "vx::arq::RecvQ::flush", "vx::history::ordered_history", "vx::history::original_history"],
    "C08": ["vx::arq::RecvQ::insert", "vx::arq::RecvQ::flush", "vx::history::sequenced_history", "vx::history::unordered_history"],
    "C09": ["vx::arq::ACKSet::insert", "vx::arq::ACKSet::get_ack", "vx::arq::RecvQ::insert", "vx::arq::RecvQ::get_ack", "vx::history::ranges_history", "vx::history::handed_out", "vx::history::all_count"],
    "C10": ["vx::arq::ACKSet::insert", "vx::arq::ACKSet::get_nack", "vx::arq::gap_is_new", "vx::arq::RecvQ::get_nack", "vx::history::ranges_history", "vx::history::handed_out", "vx::history::gaps_history"],
    "C11": ["vx::arq::SendQ::ack", "vx::arq::SendQ::nack", "vx::arq::SendQ::tick", "vx::arq::SendQ::flush", "vx::arq::SendQ::is_empty", "vx::history::kept_history", "vx::history::gone_history", "vx::history::once_history"],
    "C12": ["vx::arq::SendQ::flush", "vx::arq::SendQ::tick", "vx::arq::SendQ::nack", "vx::history::fresh_history", "vx::history::once_history", "vx::history::same_history"],
    "C13": ["vx::arq::SendQ::update_rto", "vx::arq::SendQ::tick", "vx::arq::SendQ::flush"],
    "C14": ["vx::arq::SendQ::insert", "vx::socket::RaknetSocket::send"],
    "C16": ["vx::socket::RaknetSocket::handle", "vx::socket::RaknetSocket::start_receiver__step", "vx::socket::RaknetSocket::from"],
    "C17": ["vx::server::RaknetListener::listen__step", "vx::server::RaknetListener::listen", "vx::socket::RaknetSocket::connect_with_version"],
    "C18": ["vx::socket::RaknetSocket::close", "vx::socket::RaknetSocket::flush", "vx::socket::RaknetSocket::recv", "vx::socket::RaknetSocket::send", "vx::socket::RaknetSocket::start_tick__step",
            "vx::socket::RaknetSocket::start_tick__end", "vx::socket::RaknetSocket::drop_watcher__task", "vx::server::RaknetListener::start_session_collect__step"],
    "C19": ["vx::server::RaknetListener::close", "vx::server::RaknetListener::accept", "vx::server::RaknetListener::start_session_collect__end", "vx::server::RaknetListener::drop_watcher__task"],
}
NOT_APPLICABLE = []

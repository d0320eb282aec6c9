#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so the text is easy to review)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
H="read-only re-export of the crate's private modules under --cfg raknet_verif"
p("C01","Control messages decode to exactly what was encoded",
  "Encoding any RakNet control message (unconnected ping and pong, open-connection request and reply 1 and 2, connection request, new incoming connection, connected ping and pong, incompatible-version, already-connected, ack and nack lists) and decoding the result gives back every field, for every field value, including IPv4 and IPv6 addresses and ports. Sequence numbers are 24-bit, strings are at most 65535 bytes of UTF-8, the MTU of the first open-connection request is carried by the datagram's length, and of a connection-request-accepted message the client address and system index are what is read back.",
  ["inputs"],"every value of every field of every control message (all 64-bit integers, all IPv4/IPv6 addresses and ports, all UTF-8 strings up to 65535 bytes, all record lists)",
  "The tests exchange a handful of fixed messages over IPv4 loopback; no test encodes an IPv6 address, a negative timestamp, a non-ASCII motd or a record list with ranges and reads it back.",
  ["src/packet.rs","src/datatype.rs"],
  [("read_packet_*/write_packet_* pairs","src/packet.rs"),("RaknetWriter/RaknetReader primitives, write_address/read_address, write_string/read_string","src/datatype.rs")],None,["return values of the codec functions"],H)
p("C02","Bytes on the wire follow the RakNet layout",
  "Every control message and every data frame is encoded byte for byte in RakNet's layout: its message id, fields in protocol order, big-endian integers, little-endian 24-bit numbers, the 16-byte offline magic, 16-bit length-prefixed strings, inverted IPv4 octets, the 29-byte IPv6 form, record lists that mark single numbers and ranges, and data frames with reliability in the top three bits, payload length in bits, exactly the index fields its reliability calls for and the fragment header only on fragments. The first open-connection request is padded so that the datagram plus 28 bytes of UDP/IP overhead is the probed MTU.",
  ["inputs"],"every message and every data frame, over all field values",
  "Both ends of every test are this library, so a layout error made symmetrically on both sides passes; two captured client packets are the only foreign bytes tested.",
  ["src/packet.rs","src/datatype.rs","src/arq.rs"],
  [("write_packet_*","src/packet.rs"),("RaknetWriter","src/datatype.rs"),("FrameSetPacket::serialize","src/arq.rs")],None,["bytes returned by the encoders"],H)
p("C03","Decoding arbitrary bytes never panics and never accepts truncation",
  "Decoding any byte string a UDP datagram can carry (up to 65507 bytes), of any content, as any control message or as a data datagram always returns, with either a decoded value or an error, and never panics. A message that stops before its last field is an error, never a value with made-up contents.",
  ["inputs"],"every byte string of 0 to 65507 bytes as input of every decoder",
  "Tests only feed well-formed datagrams; the failing inputs are truncated or hostile ones.",
  ["src/packet.rs","src/datatype.rs","src/arq.rs"],
  [("bounds checks of RaknetReader::read_*","src/datatype.rs"),("read_packet_*","src/packet.rs"),("FrameVec::new","src/arq.rs")],None,["return values of the decoders; process liveness"],H)
p("C04","Data datagrams parse into exactly the frames they carry",
  "A data datagram made of a header with a sequence number followed by any number of frames parses into exactly those frames, in order, each with its reliability, its reliable, sequenced and ordered indexes and channel where its reliability has them, its fragment header when it is a fragment, and its payload unchanged; in particular parsing a frame this library serialized returns that frame. A datagram with an unknown reliability or a frame cut short is an error.",
  ["inputs"],"every list of frames over all five reliabilities, fragment or not, all 24-bit/32-bit/16-bit header values, all payloads whose bit length fits the 16-bit length field",
  "One test serializes one frame of one reliability; the header differs for each reliability and fragment flag.",
  ["src/arq.rs","src/datatype.rs"],
  [("FrameSetPacket::serialize, FrameVec::new","src/arq.rs"),("Reliability::from/to_u8, is_reliable/is_ordered/is_sequenced","src/arq.rs")],None,["frames returned by parsing"],H)
p("C05","Outgoing messages are split without loss and fit the MTU",
  "Accepting a message for sending queues it unchanged after what was already queued: in one frame when it fits, otherwise (reliable-ordered only) as consecutive fragments that are numbered 0..n-1, carry the total n, one shared compound id and one shared order index, are non-empty and concatenate to exactly the message. Every datagram produced for a frame, plus 28 bytes of UDP/IP overhead, is at most the connection's MTU (the announced value limited to 400..1500), and each accepted message gets the next index of its own numbering so that no index is used for two messages.",
  ["inputs","histories"],"every payload, every reliability, every MTU a peer can announce, after any sequence of earlier sends",
  "Tests send a few sizes at one MTU (1400/1500); boundary sizes (exact multiples of the fragment size, MTU-60 and its neighbours) and extreme MTUs are not sampled.",
  ["src/arq.rs"],
  [("SendQ::insert, SendQ::new","src/arq.rs"),("FrameSetPacket::new/serialize","src/arq.rs")],
  [("SendQ.packets","frames not yet sent","src/arq.rs")],["frames handed out by flushing the send queue"],H)
p("C06","Fragmented messages reassemble to the original under any arrival",
  "When the fragments of any number of reliable-ordered messages arrive in any order, interleaved with each other and with any repetitions, each message is rebuilt exactly once, only after all of its fragments have arrived, and its payload is the concatenation of its fragments in index order. Fragments of different compounds never mix.",
  ["inputs","schedules","histories"],"every set of messages, every fragment size and count, every arrival permutation, interleaving and duplication",
  "Tests deliver fragments of one message in order, or over loopback with light loss; permutations, interleaved compounds and duplicates are sampled at random at best.",
  ["src/fragment.rs","src/arq.rs"],
  [("FragmentQ::insert/flush, Fragment::insert/full/merge","src/fragment.rs"),("RecvQ::insert","src/arq.rs")],
  [("FragmentQ.fragments","partial messages by compound id","src/fragment.rs")],["messages handed out by the receive queue"],H)
p("C07","Reliable-ordered messages are delivered once, in order, without gaps",
  "Whatever the order, repetition or delay in which reliable-ordered messages reach the receiver, they are handed up in increasing order index starting from 0, each index exactly once, never skipping one, and with the payload it first arrived with; whatever prefix has arrived is handed up by the next read-out.",
  ["schedules","histories","fault_sequences"],"every arrival history of ordered frames (permutation, duplication, late duplicates after delivery), with read-outs interleaved anywhere",
  "Tests see the few interleavings the loopback network happens to produce.",
  ["src/arq.rs"],
  [("RecvQ::insert, RecvQ::flush","src/arq.rs")],
  [("RecvQ.last_ordered_index","next index to hand up","src/arq.rs"),("RecvQ.ordered_packets","arrived, not handed up","src/arq.rs")],["messages handed out by the receive queue"],H)
p("C08","Sequenced messages never go backwards",
  "A sequenced message is accepted only if its sequence index is higher than that of every sequenced message accepted before it on that connection; older ones and repetitions are dropped and never handed up. Unreliable and reliable unordered messages that arrive are handed up with their payload unchanged by the next read-out, except a message whose datagram carries the number of one that is still waiting for that read-out.",
  ["schedules","histories"],"every arrival history of unordered and sequenced frames",
  "The loss test checks one random run for monotonicity on loopback.",
  ["src/arq.rs"],
  [("RecvQ::insert, RecvQ::flush","src/arq.rs")],
  [("RecvQ.sequenced_frame_index","one past the newest accepted index","src/arq.rs")],["messages handed out by the receive queue"],H)
p("C09","Acknowledgements name exactly the datagrams received",
  "The acknowledgement ranges handed out at any moment cover exactly the datagram numbers received since the previous hand-out, no other number, and each range is non-empty and ascending; handing them out empties the list. Repeated, stale and dropped messages are acknowledged like any other, as long as what arrived is read out after each message, as a connection does.",
  ["histories","schedules"],"every arrival history of datagram numbers, with hand-outs interleaved anywhere",
  "The unit test checks three fixed histories.",
  ["src/arq.rs"],
  [("ACKSet::insert/get_ack","src/arq.rs"),("RecvQ::insert/get_ack","src/arq.rs")],
  [("ACKSet.ack","pending ranges","src/arq.rs")],["ranges handed out"],H)
p("C10","Negative acknowledgements name exactly the gaps",
  "A number is reported missing exactly when a datagram with a higher number arrived while every number from it up to that one was still above the highest seen so far (counting from 1); such gaps are each reported once, as ascending ranges, and a number already received is never part of a newly detected gap. Handing the ranges out empties the list.",
  ["histories","schedules"],"every arrival history of datagram numbers, with hand-outs interleaved anywhere",
  "No unit test reads the negative acknowledgements at all.",
  ["src/arq.rs"],
  [("ACKSet::insert/get_nack","src/arq.rs"),("RecvQ::get_nack","src/arq.rs")],
  [("ACKSet.last_max","highest number seen","src/arq.rs"),("ACKSet.nack","pending gaps","src/arq.rs")],["ranges handed out"],H)
p("C11","Reliable messages are kept until acknowledged",
  "Once sent, a reliable message stays queued for retransmission until an acknowledgement arrives for one of the datagram numbers it was given (a number assigned for a retransmission counts from the moment it is assigned), and such an acknowledgement releases that message and no other. An acknowledgement of any other number, any negative acknowledgement and the passage of time release nothing; messages of the unreliable kinds are sent once and forgotten, and the send queue reports itself drained only when nothing is waiting to be sent or acknowledged.",
  ["histories","schedules","fault_sequences"],"every interleaving of sends, flushes at any times, acknowledgements and negative acknowledgements with any numbers",
  "Tests acknowledge in order on a loopback; stale acknowledgements of a renumbered retransmission, or acknowledgements for never-sent numbers, are not generated.",
  ["src/arq.rs"],
  [("SendQ::flush/tick/ack/nack/is_empty","src/arq.rs")],
  [("SendQ.sent_packet","sent, unacknowledged messages with every number they were sent under","src/arq.rs")],["frames handed out by flushing; drained flag"],H)
p("C12","Every datagram gets a fresh number; retransmissions change nothing else",
  "Each datagram handed out for sending, first transmission or retransmission, carries a sequence number strictly greater than that of every datagram handed out before it on that connection's queue, so no number is ever reused. A retransmission differs from the original only in that number: same payload, reliability, indexes and fragment header.",
  ["histories","schedules"],"every interleaving of sends, flushes, acknowledgements and negative acknowledgements, up to the protocol's 24-bit number space",
  "Tests look at one or two retransmissions.",
  ["src/arq.rs"],
  [("SendQ::tick/nack/flush","src/arq.rs")],
  [("SendQ.sequence_number","next datagram number","src/arq.rs")],["frames handed out by flushing"],H)
p("C13","Retransmission timing is bounded and backs off",
  "The retransmission timeout is always between 50 ms and 12 s, whatever round-trip times are measured. An unacknowledged message is retransmitted by the first flush at which it has been reported missing since it was last sent (by a negative acknowledgement, or by an acknowledgement list that skips its number), or at which that timeout, multiplied by 1.5 (in whole milliseconds) for each earlier retransmission or report, has elapsed since it was last sent or reported; never by an earlier flush.",
  ["inputs","histories"],"every measured round-trip time, every history of flush times and acknowledgements",
  "Timing tests on loopback see round-trips near zero only.",
  ["src/arq.rs"],
  [("SendQ::update_rto/get_rto/tick/flush","src/arq.rs")],
  [("SendQ.rto, SendQ.srtt","timeout and smoothed round trip","src/arq.rs")],["timeout value; frames handed out by flushing"],H)
p("C14","Messages that cannot be sent are refused without side effects",
  "Sending an empty message, one that does not start with 0xFE, or any message on a closed connection is refused with the matching error; a message larger than MTU-60 bytes is refused with the MTU error for every reliability except reliable-ordered, and accepted otherwise. A refused message changes nothing: it uses up no index or number, queues nothing and transmits nothing.",
  ["inputs","histories"],"every payload, reliability, MTU and connection state",
  "Tests only send acceptable messages.",
  ["src/socket.rs","src/arq.rs"],
  [("RaknetSocket::send","src/socket.rs"),("SendQ::insert","src/arq.rs")],None,["return value of send; frames on the wire"],H)
p("C15","No datagram takes down the listener or a session",
  "Whatever datagrams arrive, from any address, of any length and content, before, during or after a handshake, the listener goes on answering pings and accepting new connections, and every established session goes on delivering and acknowledging the well-formed messages of its peer. A session ends only by a disconnect message of its peer, by being closed or dropped locally, or after 60 seconds without any datagram from its peer.",
  ["inputs","histories","schedules"],"every sequence of datagrams of 0 to 2048 bytes from any number of addresses, in every state of the handshake and of a session",
  "The tests only send what this library itself produces, plus one fixed malformed packet.",
  ["src/server.rs","src/socket.rs","src/datatype.rs","src/packet.rs","src/arq.rs"],
  [("datagram loop of RaknetListener::listen","src/server.rs"),("receive worker of RaknetSocket","src/socket.rs")],None,["replies on the UDP socket; recv() of established sessions; accept()"],None)
p("C16","A session answers its peer and hands up exactly the user messages",
  "An established session answers a connection request with an acceptance that carries the peer's address and the request's timestamp, a connection acceptance with a new-incoming-connection, a connected ping with a pong that echoes its timestamp, and every data datagram with an acknowledgement of its number. Messages of any other known kind are handed to the application unchanged, control messages never are; acknowledgement lists and negative acknowledgement lists of the peer take effect on the send queue for every number in every range.",
  ["inputs","histories"],"every message content and every sequence of data, acknowledgement and negative acknowledgement datagrams from the peer",
  "Tests let two copies of this library talk to each other and look only at user payloads.",
  ["src/socket.rs","src/packet.rs"],
  [("RaknetSocket::handle","src/socket.rs"),("receive worker of RaknetSocket","src/socket.rs")],None,["datagrams sent to the peer; recv()"],None)
p("C17","The listener follows the offline handshake",
  "An unconnected ping is answered with a pong carrying the listener's id and its current message of the day; a first open-connection request is answered with a first reply if its protocol version is supported (10 or 11) and with an incompatible-version message otherwise; a second open-connection request from an address without a session is answered by a second reply echoing the requested MTU and the requester's address, and opens exactly one session for that address (as long as fewer than ten opened sessions wait to be accepted), and from an address that has one by an already-connected message. Malformed or unknown datagrams are ignored, and every other datagram reaches the session of its address, and only that one, unchanged.",
  ["inputs","histories","schedules"],"every sequence of datagrams from any number of addresses",
  "Tests run the handshake of this library's own client; unsupported versions, repeated requests and interleaved clients are hardly sampled.",
  ["src/server.rs","src/packet.rs"],
  [("datagram loop of RaknetListener::listen","src/server.rs")],
  [("RaknetListener.sessions","session by address","src/server.rs")],["replies on the UDP socket; sockets returned by accept(); recv() of each session"],None)
p("C18","Closing is final and made known",
  "Once a connection is closed, by either side, every send and flush on it is refused with the connection-closed error, and messages that had been handed up before stay readable before receiving fails. A local close (or dropping the socket) is made known to the peer by disconnect messages, a disconnect message of the peer closes the connection, and afterwards the listener accepts a new connection from the same address. Waiting for everything to be acknowledged returns success only when no reliable message is unacknowledged.",
  ["histories","schedules"],"every order of sends, receptions, closes by either side and drops",
  "Tests close one idle connection and look at one of the two ends.",
  ["src/socket.rs","src/server.rs"],
  [("RaknetSocket::close/send/flush/recv, drop watcher, ticker","src/socket.rs"),("session collector","src/server.rs")],None,["return values of send, flush, recv; datagrams sent to the peer"],None)
p("C19","A listener's end is complete",
  "A listener that does not listen yet, or was closed, accepts nothing: accept is refused with the not-listening error. Closing a listener, whether or not it ever listened and whatever its sessions have in flight, returns (as long as applications keep reading from the sessions they accepted; sessions nobody accepted do not hold it up), tells the peer of every open session by a disconnect message, ends those sessions (sends and flushes on them are refused as closed), and frees the bound address; afterwards closing again does nothing, listening again does nothing and asking for the local address is an error, not a panic. Dropping a listener has the same effects.",
  ["histories","schedules"],"every number and state of sessions (idle, with unacknowledged or unread messages, closing, dropped), every moment of closing or dropping the listener",
  "One test closes one listener with one idle session.",
  ["src/server.rs"],
  [("RaknetListener::close, accept, local_addr, drop watcher","src/server.rs"),("session collector and what it does at its end","src/server.rs")],[("RaknetListener.listened, socket","whether accept works, whether the address is bound","src/server.rs")],["results of close, accept, local_addr; disconnect messages to the peers; binding the address again"],None)
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")

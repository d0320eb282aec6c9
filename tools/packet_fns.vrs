@@ fn PacketID::to_u8
    ensures r == pid_value(self),
@@ fn PacketID::from
    ensures r is Ok <==> pid_known(id), r is Ok ==> pid_matches(id, r->Ok_0),
@@ fn write_packet_connection_open_request_1
    requires packet.mtu_size >= 46,
    ensures r is Ok, r->Ok_0@ == enc_OpenConnectionRequest1(*packet),
@@@ before `Ok(cursor`
    proof { assert(cursor.w() =~= enc_OpenConnectionRequest1(*packet)); }
@@ fn read_packet_connection_open_request_1
    requires buf@.len() <= 65507,
    ensures r is Ok <==> fits_OpenConnectionRequest1(buf@), r is Ok ==> at_OpenConnectionRequest1(buf@, r->Ok_0),
@@ fn write_packet_nack
    requires packet.record_count <= packet.sequences@.len(),
    ensures r is Ok, r->Ok_0@ == enc_list(0xa0, packet.record_count, packet.sequences@),
@@@ loops for
@@@ loop 0 inv
    invariant packet.record_count <= packet.sequences@.len(),
        cursor.w() == seq![0xa0u8] + be16(packet.record_count) + enc_recs(packet.sequences@.take(i as int)),
@@@ loop 0 body-end
    proof {
        assert(packet.sequences@.take(i as int + 1).drop_last() =~= packet.sequences@.take(i as int));
        assert(cursor.w() =~= seq![0xa0u8] + be16(packet.record_count) + enc_recs(packet.sequences@.take(i as int + 1)));
    }
@@ fn write_packet_ack
    requires packet.record_count <= packet.sequences@.len(),
    ensures r is Ok, r->Ok_0@ == enc_list(0xc0, packet.record_count, packet.sequences@),
@@@ loops for
@@@ loop 0 inv
    invariant packet.record_count <= packet.sequences@.len(),
        cursor.w() == seq![0xc0u8] + be16(packet.record_count) + enc_recs(packet.sequences@.take(i as int)),
@@@ loop 0 body-end
    proof {
        assert(packet.sequences@.take(i as int + 1).drop_last() =~= packet.sequences@.take(i as int));
        assert(cursor.w() =~= seq![0xc0u8] + be16(packet.record_count) + enc_recs(packet.sequences@.take(i as int + 1)));
    }
@@ fn read_packet_nack
    ensures r is Ok <==> fits_list(buf@), r is Ok ==> list_ok(buf@, r->Ok_0.record_count, r->Ok_0.sequences@),
@@@ loops for
@@@ loop 0 bind it
@@@ loop 0 inv
    invariant cursor.d() == buf@, buf@.len() >= 3, be16(record_count) == cut(buf@, 1, 2),
        recs(buf@, 3, it.index@ as nat) == Some((s@, cursor.p())), 3 <= cursor.p() <= buf@.len(),
@@@ loop 0 body-start
    broadcast use le24_val_of;
    proof { list_step(buf@, record_count, it.index@ as nat); }
@@ fn read_packet_ack
    ensures r is Ok <==> fits_list(buf@), r is Ok ==> list_ok(buf@, r->Ok_0.record_count, r->Ok_0.sequences@),
@@@ loops for
@@@ loop 0 bind it
@@@ loop 0 inv
    invariant cursor.d() == buf@, buf@.len() >= 3, be16(record_count) == cut(buf@, 1, 2),
        recs(buf@, 3, it.index@ as nat) == Some((s@, cursor.p())), 3 <= cursor.p() <= buf@.len(),
@@@ loop 0 body-start
    broadcast use le24_val_of;
    proof { list_step(buf@, record_count, it.index@ as nat); }
@@ fn read_packet_connection_request_accepted
    ensures r is Ok <==> fits_ConnectionRequestAccepted(buf@), r is Ok ==> at_ConnectionRequestAccepted(buf@, r->Ok_0),
@@ fn write_packet_connection_request_accepted
    ensures r is Ok, r->Ok_0@ == enc_ConnectionRequestAccepted(*packet),
@@@ start
    proof { parse_lits(); }
@@@ loops for
@@@ loop 0 bind it
@@@ loop 0 inv
    invariant cursor.w() == seq![0x10u8] + enc_addr(packet.client_address) + be16(packet.system_index) + rep_addr(any_addr(), it.index@ as nat),
        tmp_address == any_addr(),
@@ fn read_packet_new_incomming_connection
    ensures r is Ok <==> fits_NewIncomingConnection(buf@), r is Ok ==> at_NewIncomingConnection(buf@, r->Ok_0),
@@@ start
    proof {
        assert(addrs_end(buf@, 1, 0) == Some(1int));
        assert(addrs_end(buf@, 1, 1) == (if addr_fits(buf@, 1) { Some(1 + addr_len(buf@[1])) } else { None::<int> }));
        if !addr_fits(buf@, 1) { addrs_none(buf@, 1, 1, 11); }
    }
@@@ loops for
@@@ loop 0 bind it
@@@ loop 0 inv
    invariant cursor.d() == buf@, addrs_end(buf@, 1, (it.index@ + 1) as nat) == Some(cursor.p()), cursor.p() <= buf@.len(),
@@@ loop 0 before
    proof { assert(addrs_end(buf@, 1, 0) == Some(1int)); assert(addrs_end(buf@, 1, 1) == Some(cursor.p())); }
@@@ loop 0 body-start
    proof {
        let k = (it.index@ + 2) as nat;
        assert(addrs_end(buf@, 1, k) == (if addr_fits(buf@, cursor.p()) { Some(cursor.p() + addr_len(buf@[cursor.p()])) } else { None::<int> }));
        if addrs_end(buf@, 1, k) is None { addrs_none(buf@, 1, k, 11); }
    }
@@ fn write_packet_new_incomming_connection
    ensures r is Ok, r->Ok_0@ == enc_NewIncomingConnection(*packet),
@@@ start
    proof { parse_lits(); }
@@@ loops for
@@@ loop 0 bind it
@@@ loop 0 inv
    invariant cursor.w() == seq![0x13u8] + enc_addr(packet.server_address) + rep_addr(zero_addr(), it.index@ as nat),
        tmp_address == zero_addr(),

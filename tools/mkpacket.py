"""Writes contracts/packet.vrs: one field table per control message gives its encoder contract, its decoder
contract and the round-trip lemma (the protocol tables are written from the RakNet layout, not from the code)."""
M = "Seq<u8>"
MSG = [
    # struct, id, writer, reader, fields (name, kind)
    ("PacketUnconnectedPing", 0x01, "write_packet_ping", "read_packet_ping", [("time", "i64"), ("magic", "magic"), ("guid", "u64")]),
    ("PacketUnconnectedPong", 0x1c, "write_packet_pong", "read_packet_pong", [("time", "i64"), ("guid", "u64"), ("magic", "magic"), ("motd", "str")]),
    ("OpenConnectionRequest2", 0x07, "write_packet_connection_open_request_2", "read_packet_connection_open_request_2",
     [("magic", "magic"), ("address", "addr"), ("mtu", "u16"), ("guid", "u64")]),
    ("OpenConnectionReply1", 0x06, "write_packet_connection_open_reply_1", "read_packet_connection_open_reply_1",
     [("magic", "magic"), ("guid", "u64"), ("use_encryption", "u8"), ("mtu_size", "u16")]),
    ("OpenConnectionReply2", 0x08, "write_packet_connection_open_reply_2", "read_packet_connection_open_reply_2",
     [("magic", "magic"), ("guid", "u64"), ("address", "addr"), ("mtu", "u16"), ("encryption_enabled", "u8")]),
    ("AlreadyConnected", 0x12, "write_packet_already_connected", "_read_packet_already_connected", [("magic", "magic"), ("guid", "u64")]),
    ("IncompatibleProtocolVersion", 0x19, "write_packet_incompatible_protocol_version", "read_packet_incompatible_protocol_version",
     [("server_protocol", "u8"), ("magic", "magic"), ("server_guid", "u64")]),
    ("ConnectionRequest", 0x09, "write_packet_connection_request", "read_packet_connection_request",
     [("guid", "u64"), ("time", "i64"), ("use_encryption", "u8")]),
    ("ConnectedPing", 0x00, "write_packet_connected_ping", "read_packet_connected_ping", [("client_timestamp", "i64")]),
    ("ConnectedPong", 0x03, "write_packet_connected_pong", "_read_packet_connected_pong", [("client_timestamp", "i64"), ("server_timestamp", "i64")]),
]
SZ = dict(u8=1, u16=2, i64=8, u64=8, magic=16)


def enc(n, k):
    return {"u8": f"seq![p.{n}]", "u16": f"be16(p.{n})", "i64": f"be64(p.{n} as u64)", "u64": f"be64(p.{n})",
            "magic": "raknet_magic()", "addr": f"enc_addr(p.{n})",
            "str": f"be16(utf8(p.{n}@).len() as u16) + utf8(p.{n}@)"}[k]


def at(n, k, o):
    return {"u8": f"r.{n} == d[{o}]", "u16": f"be16(r.{n}) == cut(d, {o}, 2)", "i64": f"be64(r.{n} as u64) == cut(d, {o}, 8)",
            "u64": f"be64(r.{n}) == cut(d, {o}, 8)", "magic": f"r.{n} == (cut(d, {o}, 16) == raknet_magic())",
            "addr": f"addr_at(d, {o}, r.{n})",
            "str": f"be16(utf8(r.{n}@).len() as u16) == cut(d, {o}, 2) && utf8(r.{n}@).len() <= 65535 && utf8(r.{n}@) == cut(d, ({o} + 2) as int, utf8(r.{n}@).len() as int)"}[k]


top, fns = [], []
for st, mid, w, r, fields in MSG:
    e = " + ".join([f"seq![{mid:#04x}u8]"] + [enc(n, k) for n, k in fields])
    top.append(f"/// {st}: id {mid:#04x}; " + ", ".join(f"{n}:{k}" for n, k in fields))
    top.append(f"pub open spec fn enc_{st}(p: {st}) -> Seq<u8> {{ {e} }}")
    const, var = 1, ""
    fits, ats, offs = [], [], []
    for n, k in fields:
        o = f"{const}{var}"
        offs.append(o)
        ats.append(at(n, k, o))
        if k in SZ:
            const += SZ[k]
        elif k == "addr":
            fits.append(f"addr_fits(d, {o})")
            var += f" + addr_len(d[{o}])"
        elif k == "str":
            fits.append(f"d.len() >= {o} + 2")
            fits.append(f"(exists|n: u16| #[trigger] be16(n) == cut(d, {o}, 2) && d.len() >= {o} + 2 + n && is_utf8(cut(d, ({o} + 2) as int, n as int)))")
    if fields[-1][1] != "str":
        fits.append(f"d.len() >= {const}{var}")
    top.append(f"pub open spec fn fits_{st}(d: Seq<u8>) -> bool {{ " + " && ".join(fits) + " }")
    top.append(f"pub open spec fn at_{st}(d: Seq<u8>, r: {st}) -> bool {{ " + " && ".join(ats) + " }")
    # round trip
    req, ens, prf = [], [f"fits_{st}(enc_{st}(p))"], []
    same = []
    for n, k in fields:
        if k == "magic":
            same.append(f"r.{n}")
        elif k == "addr":
            same.append(f"sa_ip(r.{n}) == sa_ip(p.{n}) && sa_port(r.{n}) == sa_port(p.{n})")
        elif k == "str":
            same.append(f"r.{n}@ == p.{n}@")
            req.append(f"utf8(p.{n}@).len() <= 65535")
        else:
            same.append(f"r.{n} == p.{n}")
    ens.append(f"at_{st}(enc_{st}(p), r) ==> " + " && ".join(same))
    prf.append(f"let d = enc_{st}(p);")
    if any(k == "addr" for _, k in fields):
        prf.append("broadcast use group_addr;")
    for (n, k), o in zip(fields, offs):
        if k == "u8":
            prf.append(f"assert(d[{o}] == p.{n});")
        elif k == "addr":
            prf.append(f"let e = enc_addr(p.{n}); assert(cut(d, {o}, e.len() as int) =~= e); addr_roundtrip(d, {o}, p.{n}, r.{n});")
        elif k == "str":
            prf.append(f"let u = utf8(p.{n}@); assert(cut(d, {o}, 2) =~= be16(u.len() as u16)); assert(cut(d, ({o} + 2) as int, u.len() as int) =~= u);")
            prf.append(f"utf8_injective(p.{n}@, r.{n}@); be16_inj(u.len() as u16, utf8(r.{n}@).len() as u16);")
        else:
            prf.append(f"assert(cut(d, {o}, {SZ[k]}) =~= {enc(n, k)});")
            if k == "u16":
                prf.append(f"be16_inj(p.{n}, r.{n});")
            if k == "u64":
                prf.append(f"be64_inj(p.{n}, r.{n});")
            if k == "i64":
                prf.append(f"be64_inj(p.{n} as u64, r.{n} as u64); i64_as_u64_injective(p.{n}, r.{n});")
    top.append(f"pub proof fn roundtrip_{st}(p: {st}, r: {st})\n" + (f"    requires {', '.join(req)},\n" if req else "") +
               "    ensures " + ",\n        ".join(ens) + ",\n{\n    " + "\n    ".join(prf) + "\n}")
    fns.append(f"@@ fn {w}\n    ensures r is Ok, r->Ok_0@ == enc_{st}(*packet),\n@@@ start\n    broadcast use seq_cat;")
    fns.append(f"@@ fn {r}\n    ensures r is Ok <==> fits_{st}(buf@), r is Ok ==> at_{st}(buf@, r->Ok_0),")

TOP = open(__file__.replace("mkpacket.py", "packet_top.vrs")).read()
FNS = open(__file__.replace("mkpacket.py", "packet_fns.vrs")).read()
open(__file__.replace("tools/mkpacket.py", "contracts/packet.vrs"), "w").write(
    "@@ module packet drop-use=std::net\n@@ top\n" + TOP + "\n".join(top) + "\n" + FNS + "\n".join(fns) + "\n")

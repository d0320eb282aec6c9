"""Which source files make up the verified crate, and which rewrites each gets."""
from gen import *
import netrules as nr
BASE = [drop_log_macros, closure_underscore, int_bytes, nr.min_]
HM = [keys_cloned_collect, hm_index, hm_get_mut]
NET = [nr.arc, nr.share_refs, nr.let_mut, nr.paths, nr.result_closures, nr.select, nr.timeouts, nr.map_local_index, nr.for_continue, nr.share_clone]
# dead code (no caller outside the test items): FrameSetPacket::_deserialize/_size, FrameVec::_serialize
PLAN = [
    dict(mod="error", file="error.rs", rules=BASE),
    dict(mod="utils", file="utils.rs", rules=BASE),
    dict(mod="datatype", file="datatype.rs", rules=BASE),
    dict(mod="packet", file="packet.rs", rules=BASE),
    dict(mod="arq", file="arq.rs", rules=BASE + HM + [sort_by, f64_casts, clamp],
         drop_fns=("FrameSetPacket::_deserialize", "FrameSetPacket::_size", "FrameVec::_serialize")),
    dict(mod="fragment", file="fragment.rs", rules=BASE + HM),
    dict(mod="socket", file="socket.rs", rules=BASE + NET, lift={k: nr.lift for k in (
        "RaknetSocket::start_receiver", "RaknetSocket::start_sender", "RaknetSocket::start_tick", "RaknetSocket::drop_watcher", "RaknetSocket::connect_with_version")}),
    dict(mod="server", file="server.rs", rules=BASE + [nr.server_calls] + NET + [hm_get_mut], lift={k: nr.lift for k in (
        "RaknetListener::start_session_collect", "RaknetListener::listen", "RaknetListener::drop_watcher")}),
]


// ---- starting the node ----
// one more query: find_node for the local id, to that address
pub open spec fn asked_host(a: Seq<(int, S_net_UDPAddr, S_krpc_BaseRequest, int)>, b: Seq<(int, S_net_UDPAddr, S_krpc_BaseRequest, int)>, s: int, to: S_net_UDPAddr, id: Seq<u8>, h: int) -> bool {
    &&& b.len() == a.len() + 1 && b.drop_last() =~= a
    &&& b.last().0 == s && b.last().1 == to && b.last().2.qType =~= @"find_node" && b.last().2.handler == h
    &&& b.last().2.body.m =~= map![@"id" => Val::Str(id), @"target" => Val::Str(id)]
}
pub open spec fn serves(m: Map<Seq<u8>, Val>, q: Seq<u8>, h: int) -> bool { m.dom().contains(q) && m[q] == Val::Fn(tagv_krpc_RpcHandlerFunc(), h) }
pub open spec fn serves_all(m: Map<Seq<u8>, Val>) -> bool {
    serves(m, @"ping", fn_dht_pingHandler()) && serves(m, @"find_node", fn_dht_findNodeHandler()) && serves(m, @"get_peers", fn_dht_getPeersHandler()) && serves(m, @"announce_peer", fn_dht_announcePeerHandler())
}
pub open spec fn open_ok(u: S_krpc_UdpServer, f: Map<int, S_atomic_Value>) -> bool { u.closed_ != 0 && f.dom().contains(u.closed_) && f[u.closed_].v is Bool }

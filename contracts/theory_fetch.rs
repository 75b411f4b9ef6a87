
// ---- where metadata is fetched from ----
pub open spec fn fetch_port(m: Map<Seq<u8>, Val>) -> int { m[@"port"]->Int_0 }
pub open spec fn announce_fields(m: Map<Seq<u8>, Val>) -> bool {
    m.dom().contains(@"port") && m[@"port"] is Int && (m.dom().contains(@"implied_port") ==> m[@"implied_port"] is Int)
}
pub open spec fn implied(m: Map<Seq<u8>, Val>) -> bool { m.dom().contains(@"implied_port") && m[@"implied_port"] is Int && m[@"implied_port"]->Int_0 > 0 }
// the source IP with its own port or the announced one (a source address always has an IP; the zone of a link-local
// address may stay or go)
pub open spec fn fetch_addr(r: Seq<u8>, m: Map<Seq<u8>, Val>, a: S_net_UDPAddr) -> bool {
    let port = if implied(m) { a.Port } else { fetch_port(m) };
    ||| r =~= join_host(ip_str(a.IP), itoa(port))
    ||| a.IP.len() == 0 || (a.Zone.len() > 0 && r =~= join_host(ip_str(a.IP) + @"%" + a.Zone, itoa(port)))
}
pub proof fn lemma_fetch_addr(ha: Map<int, S_net_UDPAddr>)
    ensures forall|a: S_net_UDPAddr| #[trigger] udp_str(a) == join_host(if a.IP.len() == 0 { Seq::<u8>::empty() } else if a.Zone.len() == 0 { ip_raw(a.IP) } else { ip_raw(a.IP) + @"%" + a.Zone }, itoa(a.Port))
{
    reveal(udp_str);
    /*literals*/
    assert(@"" =~= Seq::<u8>::empty());
}

// ---- torrent files ----
pub open spec fn wrote(fs: Seq<(Seq<u8>, Seq<u8>)>, i: int, b: Seq<u8>) -> Seq<(Seq<u8>, Seq<u8>)> {
    if 0 <= i < fs.len() { fs.update(i, (fs[i].0, fs[i].1 + b)) } else { fs }
}
// one more file of that name, holding the data (part of it after a file error), or none after a file error
pub open spec fn flushed(a: Seq<(Seq<u8>, Seq<u8>)>, b: Seq<(Seq<u8>, Seq<u8>)>, name: Seq<u8>, data: Seq<u8>, fine: bool) -> bool {
    ||| !fine && b == a
    ||| b.len() == a.len() + 1 && b.drop_last() =~= a && b.last().0 =~= name && starts_with(b.last().1, data) && (fine ==> b.last().1 =~= data)
}
pub open spec fn ctx_ok(ctx: int, h: Map<int, S_krpc_RpcContext>) -> bool { ctx != 0 && h[ctx].req != 0 }
pub open spec fn body_of(ctx: int, h: Map<int, S_krpc_RpcContext>, rs: Map<int, S_krpc_BaseRequest>) -> Map<Seq<u8>, Val> { rs[h[ctx].req].body.m }
pub open spec fn names_a_torrent(m: Map<Seq<u8>, Val>) -> bool { m.dom().contains(@"info_hash") && m[@"info_hash"] is Str && m[@"info_hash"]->Str_0.len() == 20 }
pub open spec fn saved(a: Seq<(Seq<u8>, Seq<u8>)>, b: Seq<(Seq<u8>, Seq<u8>)>, m: Map<Seq<u8>, Val>, fine: bool) -> bool {
    m.dom().contains(@"info_hash") && m[@"info_hash"] is Str && exists|data: Seq<u8>| #[trigger] sha1_of(data) =~= m[@"info_hash"]->Str_0
        && flushed(a, b, @"torrent/" + hex_text(m[@"info_hash"]->Str_0) + @".torrent", data, fine)
}


// ---- addresses, hexadecimal, network byte order ----
#[verifier::opaque] pub open spec fn ip16(a: Seq<u8>) -> bool { arbitrary() }
// net.IP.To4: the four bytes of an IPv4 address in either representation
pub open spec fn to4(ip: Seq<u8>) -> Seq<u8> { if ip.len() == 4 { ip } else if ip.len() == 16 && ip16(ip) { ip.subrange(12, 16) } else { Seq::<u8>::empty() } }
pub open spec fn be16(n: int) -> Seq<u8> { seq![((n / 256) % 256) as u8, (n % 256) as u8] }
pub open spec fn be16_val(s: Seq<u8>, i: int) -> int { s[i] as int * 256 + s[i + 1] as int }
pub open spec fn be32(n: int) -> Seq<u8> { seq![(n / 256 / 256 / 256 % 256) as u8, (n / 256 / 256 % 256) as u8, (n / 256 % 256) as u8, (n % 256) as u8] }
pub open spec fn be32_val(s: Seq<u8>) -> int { ((s[0] as int * 256 + s[1] as int) * 256 + s[2] as int) * 256 + s[3] as int }
pub open spec fn hexd(n: int) -> u8 { if n < 10 { (48 + n) as u8 } else { (87 + n) as u8 } }
pub open spec fn hex_text(s: Seq<u8>) -> Seq<u8> { Seq::new(2 * s.len(), |i: int| if i % 2 == 0 { hexd(s[i / 2] as int / 16) } else { hexd(s[i / 2] as int % 16) }) }
#[verifier::opaque] pub open spec fn ip_raw(ip: Seq<u8>) -> Seq<u8> { arbitrary() }
pub open spec fn ip_str(ip: Seq<u8>) -> Seq<u8> { if ip.len() == 0 { @"<nil>" } else { ip_raw(ip) } }
// net.JoinHostPort
#[verifier::opaque] pub open spec fn join_host(h: Seq<u8>, p: Seq<u8>) -> Seq<u8> {
    if (exists|i: int| 0 <= i < h.len() && #[trigger] h[i] == 58u8) { @"[" + h + @"]:" + p } else { h + @":" + p }
}
// net.UDPAddr.String
#[verifier::opaque] pub open spec fn udp_str(a: S_net_UDPAddr) -> Seq<u8> {
    join_host(if a.IP.len() == 0 { @"" } else if a.Zone.len() == 0 { ip_raw(a.IP) } else { ip_raw(a.IP) + @"%" + a.Zone }, itoa(a.Port))
}
pub open spec fn addr_str(ha: Map<int, S_net_UDPAddr>, a: int) -> Seq<u8> { if a == 0 { @"<nil>" } else { udp_str(ha[a]) } }
#[verifier::opaque] pub open spec fn sha1_raw(s: Seq<u8>) -> Seq<u8> { arbitrary() }
pub open spec fn sha1_of(s: Seq<u8>) -> Seq<u8> { if sha1_raw(s).len() == 20 { sha1_raw(s) } else { Seq::new(20, |i: int| 0u8) } }
pub open spec fn starts_with<A>(a: Seq<A>, b: Seq<A>) -> bool { a.len() <= b.len() && b.subrange(0, a.len() as int) =~= a }
// the address a host and port resolve to
#[verifier::opaque] pub open spec fn resolved(a: Seq<u8>) -> S_net_UDPAddr { arbitrary() }

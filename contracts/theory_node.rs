
// ---- node.go ----
pub open spec fn node_text(hn: Map<int, S_dht_NodeInfo>, ha: Map<int, S_net_UDPAddr>, r: int) -> Seq<u8> {
    hn[r].Id + to4(ha[hn[r].Addr].IP) + be16(ha[hn[r].Addr].Port % 65536)
}
pub open spec fn nodes_text(hn: Map<int, S_dht_NodeInfo>, ha: Map<int, S_net_UDPAddr>, s: Seq<int>) -> Seq<u8>
    decreases s.len()
{ if s.len() == 0 { Seq::<u8>::empty() } else { nodes_text(hn, ha, s.drop_last()) + node_text(hn, ha, s.last()) } }
pub proof fn lemma_nodes_text_start(hn: Map<int, S_dht_NodeInfo>, ha: Map<int, S_net_UDPAddr>, s: Seq<int>)
    ensures nodes_text(hn, ha, s.subrange(0, 0)) == Seq::<u8>::empty()
{}
pub proof fn lemma_nodes_text_step(hn: Map<int, S_dht_NodeInfo>, ha: Map<int, S_net_UDPAddr>, s: Seq<int>, i: int)
    ensures 0 <= i < s.len() ==> nodes_text(hn, ha, s.subrange(0, i + 1)) == nodes_text(hn, ha, s.subrange(0, i)) + node_text(hn, ha, s[i])
{ if 0 <= i < s.len() { assert(s.subrange(0, i + 1).drop_last() =~= s.subrange(0, i)); } }
pub open spec fn is_node(hn: Map<int, S_dht_NodeInfo>, ha: Map<int, S_net_UDPAddr>, r: int, t: Seq<u8>, i: int) -> bool {
    r != 0 && hn.dom().contains(r) && hn[r].Addr != 0 && ha.dom().contains(hn[r].Addr)
    && hn[r].Id =~= t.subrange(26 * i, 26 * i + 20)
    && to4(ha[hn[r].Addr].IP) =~= t.subrange(26 * i + 20, 26 * i + 24)
    && ha[hn[r].Addr].Port == be16_val(t, 26 * i + 24)
}
pub open spec fn encodable_node(hn: Map<int, S_dht_NodeInfo>, ha: Map<int, S_net_UDPAddr>, r: int) -> bool {
    hn[r].Id.len() == 20 && to4(ha[hn[r].Addr].IP).len() == 4 && 0 <= ha[hn[r].Addr].Port < 65536
}
pub proof fn lemma_be16(n: int)
    ensures 0 <= n < 65536 ==> be16_val(be16(n), 0) == n
{}
// parsing what joinNodeInfos built gives back the same nodes
pub proof fn lemma_nodes_round_trip(hn: Map<int, S_dht_NodeInfo>, ha: Map<int, S_net_UDPAddr>, s: Seq<int>, i: int)
    requires
        forall|k: int| 0 <= k < s.len() ==> encodable_node(hn, ha, #[trigger] s[k]),
        0 <= i < s.len(),
    ensures
        nodes_text(hn, ha, s).len() == 26 * s.len(),
        nodes_text(hn, ha, s).subrange(26 * i, 26 * i + 20) == hn[s[i]].Id,
        nodes_text(hn, ha, s).subrange(26 * i + 20, 26 * i + 24) == to4(ha[hn[s[i]].Addr].IP),
        be16_val(nodes_text(hn, ha, s), 26 * i + 24) == ha[hn[s[i]].Addr].Port,
    decreases s.len()
{
    let t = s.drop_last();
    lemma_nodes_len(hn, ha, t);
    assert(encodable_node(hn, ha, s.last()));
    let x = nodes_text(hn, ha, t);
    let y = node_text(hn, ha, s.last());
    assert(y.len() == 26);
    let z = nodes_text(hn, ha, s);
    assert(z == x + y);
    if i == s.len() - 1 {
        assert(z.subrange(26 * i, 26 * i + 20) =~= hn[s[i]].Id);
        assert(z.subrange(26 * i + 20, 26 * i + 24) =~= to4(ha[hn[s[i]].Addr].IP));
    } else {
        lemma_nodes_round_trip(hn, ha, t, i);
        assert(z.subrange(26 * i, 26 * i + 20) =~= x.subrange(26 * i, 26 * i + 20));
        assert(z.subrange(26 * i + 20, 26 * i + 24) =~= x.subrange(26 * i + 20, 26 * i + 24));
    }
}
pub proof fn lemma_nodes_len(hn: Map<int, S_dht_NodeInfo>, ha: Map<int, S_net_UDPAddr>, s: Seq<int>)
    requires forall|k: int| 0 <= k < s.len() ==> encodable_node(hn, ha, #[trigger] s[k])
    ensures nodes_text(hn, ha, s).len() == 26 * s.len()
    decreases s.len()
{ if s.len() > 0 { lemma_nodes_len(hn, ha, s.drop_last()); assert(encodable_node(hn, ha, s.last())); } }

pub open spec fn peer_text(ha: Map<int, S_net_UDPAddr>, r: int) -> Seq<u8> { to4(ha[r].IP) + be16(ha[r].Port % 65536) }
pub open spec fn peer_ok(v: Val) -> bool { v is Str && v->Str_0.len() == 6 }
pub open spec fn peers_ok(l: List) -> bool { forall|k: int| 0 <= k < l.s.len() ==> peer_ok(#[trigger] l.s[k]) }
pub open spec fn is_peer(ha: Map<int, S_net_UDPAddr>, r: int, v: Val) -> bool {
    r != 0 && ha.dom().contains(r) && to4(ha[r].IP) =~= v->Str_0.subrange(0, 4) && ha[r].Port == be16_val(v->Str_0, 4)
}
pub proof fn lemma_peers_round_trip(ha: Map<int, S_net_UDPAddr>, r: int)
    requires to4(ha[r].IP).len() == 4, 0 <= ha[r].Port < 65536
    ensures
        peer_ok(Val::Str(peer_text(ha, r))),
        peer_text(ha, r).subrange(0, 4) == to4(ha[r].IP),
        be16_val(peer_text(ha, r), 4) == ha[r].Port,
{ assert(peer_text(ha, r).subrange(0, 4) =~= to4(ha[r].IP)); }

// lower-case hexadecimal
pub open spec fn hex4(n: int) -> Seq<u8> { hex_text(be16(n)) }
pub open spec fn is_hexd(c: u8) -> bool { 48 <= c <= 57 || 97 <= c <= 102 }
// four lower-case hexadecimal characters, different for different counters
pub proof fn lemma_hex4(n: int, m: int)
    requires 0 <= n < 65536, 0 <= m < 65536
    ensures
        hex4(n).len() == 4, forall|i: int| 0 <= i < 4 ==> is_hexd(#[trigger] hex4(n)[i]),
        hex4(n) == hex4(m) ==> n == m,
{
    let a = be16(n); let b = be16(m);
    lemma_hexd(a[0]); lemma_hexd(a[1]); lemma_hexd(b[0]); lemma_hexd(b[1]);
    if hex4(n) == hex4(m) {
        assert(hex4(n)[0] == hex4(m)[0] && hex4(n)[1] == hex4(m)[1] && hex4(n)[2] == hex4(m)[2] && hex4(n)[3] == hex4(m)[3]);
        assert(a[0] == b[0]);
        assert(a[1] == b[1]);
    }
}
pub proof fn lemma_hexd(x: u8)
    ensures
        is_hexd(hexd(x as int / 16)), is_hexd(hexd(x as int % 16)),
        forall|y: u8| #![trigger hexd(y as int / 16)] hexd(x as int / 16) == hexd(y as int / 16) && hexd(x as int % 16) == hexd(y as int % 16) ==> x == y,
{}

// ---- prefix length ----
pub open spec fn bit_at(s: Seq<u8>, i: int) -> u8 { (s[i / 8] >> ((7 - i % 8) as u8)) & 1u8 }
pub open spec fn min_bits(a: Seq<u8>, b: Seq<u8>) -> int { 8 * (if a.len() < b.len() { a.len() as int } else { b.len() as int }) }
pub open spec fn is_prefix_len(r: int, a: Seq<u8>, b: Seq<u8>) -> bool {
    0 <= r <= min_bits(a, b) && (forall|i: int| 0 <= i < r ==> #[trigger] bit_at(a, i) == bit_at(b, i)) && (r < min_bits(a, b) ==> bit_at(a, r) != bit_at(b, r))
}
pub open spec fn lz8(x: u8) -> int {
    if x >= 128 { 0 } else if x >= 64 { 1 } else if x >= 32 { 2 } else if x >= 16 { 3 } else if x >= 8 { 4 } else if x >= 4 { 5 } else if x >= 2 { 6 } else if x >= 1 { 7 } else { 8 }
}
pub proof fn lemma_lz8(x: u8, y: u8)
    ensures
        (x ^ y == 0) == (x == y),
        lz8(x ^ y) >= 0, lz8(x ^ y) <= 8,
        x != y ==> lz8(x ^ y) < 8,
        forall|i: u8| i < lz8(x ^ y) && i < 8 ==> #[trigger] ((x >> ((7 - i) as u8)) & 1u8) == ((y >> ((7 - i) as u8)) & 1u8),
        lz8(x ^ y) < 8 ==> ((x >> ((7 - lz8(x ^ y)) as u8)) & 1u8) != ((y >> ((7 - lz8(x ^ y)) as u8)) & 1u8),
{
    let z = x ^ y;
    assert((x ^ y == 0) == (x == y)) by(bit_vector);
    assert(z == x ^ y);
    assert(z >= 128u8 ==> ((x >> 7u8) & 1u8) != ((y >> 7u8) & 1u8)) by(bit_vector) requires z == x ^ y;
    assert(z < 128u8 ==> ((x >> 7u8) & 1u8) == ((y >> 7u8) & 1u8)) by(bit_vector) requires z == x ^ y;
    assert(64u8 <= z < 128u8 ==> ((x >> 6u8) & 1u8) != ((y >> 6u8) & 1u8)) by(bit_vector) requires z == x ^ y;
    assert(z < 64u8 ==> ((x >> 6u8) & 1u8) == ((y >> 6u8) & 1u8)) by(bit_vector) requires z == x ^ y;
    assert(32u8 <= z < 64u8 ==> ((x >> 5u8) & 1u8) != ((y >> 5u8) & 1u8)) by(bit_vector) requires z == x ^ y;
    assert(z < 32u8 ==> ((x >> 5u8) & 1u8) == ((y >> 5u8) & 1u8)) by(bit_vector) requires z == x ^ y;
    assert(16u8 <= z < 32u8 ==> ((x >> 4u8) & 1u8) != ((y >> 4u8) & 1u8)) by(bit_vector) requires z == x ^ y;
    assert(z < 16u8 ==> ((x >> 4u8) & 1u8) == ((y >> 4u8) & 1u8)) by(bit_vector) requires z == x ^ y;
    assert(8u8 <= z < 16u8 ==> ((x >> 3u8) & 1u8) != ((y >> 3u8) & 1u8)) by(bit_vector) requires z == x ^ y;
    assert(z < 8u8 ==> ((x >> 3u8) & 1u8) == ((y >> 3u8) & 1u8)) by(bit_vector) requires z == x ^ y;
    assert(4u8 <= z < 8u8 ==> ((x >> 2u8) & 1u8) != ((y >> 2u8) & 1u8)) by(bit_vector) requires z == x ^ y;
    assert(z < 4u8 ==> ((x >> 2u8) & 1u8) == ((y >> 2u8) & 1u8)) by(bit_vector) requires z == x ^ y;
    assert(2u8 <= z < 4u8 ==> ((x >> 1u8) & 1u8) != ((y >> 1u8) & 1u8)) by(bit_vector) requires z == x ^ y;
    assert(z < 2u8 ==> ((x >> 1u8) & 1u8) == ((y >> 1u8) & 1u8)) by(bit_vector) requires z == x ^ y;
    assert(z == 1u8 ==> ((x >> 0u8) & 1u8) != ((y >> 0u8) & 1u8)) by(bit_vector) requires z == x ^ y;
    assert(z == 0u8 ==> ((x >> 0u8) & 1u8) == ((y >> 0u8) & 1u8)) by(bit_vector) requires z == x ^ y;
    assert forall|i: u8| i < lz8(x ^ y) && i < 8 implies #[trigger] ((x >> ((7 - i) as u8)) & 1u8) == ((y >> ((7 - i) as u8)) & 1u8) by {
        if i == 0 {} else if i == 1 {} else if i == 2 {} else if i == 3 {} else if i == 4 {} else if i == 5 {} else if i == 6 {} else { assert(i == 7); }
    }
}
pub proof fn lemma_xor_byte(a: Seq<u8>, b: Seq<u8>, i: int)
    ensures 0 <= i < a.len() && i < b.len() ==> (go_xor_u8(a[i] as int, b[i] as int) == 0) == (a[i] == b[i])
{ if 0 <= i < a.len() && i < b.len() { lemma_lz8(a[i], b[i]); } }
// whole equal bytes, then the leading zeros of the first difference
pub proof fn lemma_prefix_len(a: Seq<u8>, b: Seq<u8>)
    ensures
        (forall|k: int| 0 <= k < a.len() && k < b.len() ==> a[k] == #[trigger] b[k]) ==> is_prefix_len(min_bits(a, b), a, b),
        forall|i: int| 0 <= i < a.len() && i < b.len() && (forall|k: int| 0 <= k < i ==> a[k] == #[trigger] b[k]) && a[i] != b[i]
            ==> is_prefix_len(i * 8 + #[trigger] lz8(a[i] ^ b[i]), a, b),
{
    assert forall|i: int| 0 <= i < a.len() && i < b.len() && (forall|k: int| 0 <= k < i ==> a[k] == #[trigger] b[k]) && a[i] != b[i]
            implies is_prefix_len(i * 8 + #[trigger] lz8(a[i] ^ b[i]), a, b) by {
        let r = i * 8 + lz8(a[i] ^ b[i]);
        lemma_lz8(a[i], b[i]);
        assert forall|j: int| 0 <= j < r implies #[trigger] bit_at(a, j) == bit_at(b, j) by {
            if j / 8 < i { assert(a[j / 8] == b[j / 8]); } else {
                let q = (j % 8) as u8;
                assert(j / 8 == i && q < lz8(a[i] ^ b[i]));
                assert(((a[i] >> ((7 - q) as u8)) & 1u8) == ((b[i] >> ((7 - q) as u8)) & 1u8));
            }
        }
        assert(r / 8 == i && r % 8 == lz8(a[i] ^ b[i]));
    }
    if forall|k: int| 0 <= k < a.len() && k < b.len() ==> a[k] == #[trigger] b[k] {
        assert forall|j: int| 0 <= j < min_bits(a, b) implies #[trigger] bit_at(a, j) == bit_at(b, j) by { assert(a[j / 8] == b[j / 8]); }
    }
}
// the length is determined by the ids and the same in both directions
pub proof fn lemma_prefix_unique(r: int, q: int, a: Seq<u8>, b: Seq<u8>)
    requires is_prefix_len(r, a, b), is_prefix_len(q, b, a)
    ensures r == q
{
    if r < q { assert(bit_at(b, r) == bit_at(a, r)); }
    if q < r { assert(bit_at(a, q) == bit_at(b, q)); }
}

// ---- peer handshake ----
pub open spec fn ext_bit(b: u8) -> bool { b & 16u8 != 0 }
pub proof fn lemma_ext_bit()
    ensures forall|x: u8| #[trigger] ext_bit(x) ==> x & 16u8 == 16u8 && (x >> 4u8) & 1u8 == 1u8 && (x / 16) % 2 == 1,
        forall|x: u8| !#[trigger] ext_bit(x) ==> x & 16u8 == 0u8 && (x >> 4u8) & 1u8 == 0u8 && (x / 16) % 2 == 0
{
    assert forall|x: u8| #[trigger] ext_bit(x) implies x & 16u8 == 16u8 && (x >> 4u8) & 1u8 == 1u8 && (x / 16) % 2 == 1 by {
        assert(x & 16u8 != 0 ==> x & 16u8 == 16u8 && (x >> 4u8) & 1u8 == 1u8 && (x / 16) % 2 == 1) by (bit_vector);
    }
    assert forall|x: u8| !#[trigger] ext_bit(x) implies x & 16u8 == 0u8 && (x >> 4u8) & 1u8 == 0u8 && (x / 16) % 2 == 0 by {
        assert(x & 16u8 == 0 ==> (x >> 4u8) & 1u8 == 0u8 && (x / 16) % 2 == 0) by (bit_vector);
    }
}
pub open spec fn handshake(r: Seq<u8>, infoHash: Seq<u8>, peerId: Seq<u8>) -> bool {
    &&& r.len() == 68 && r[0] == 19 && r.subrange(1, 20) =~= @"BitTorrent protocol"
    &&& ext_bit(r[25])
    &&& r.subrange(28, 48) =~= infoHash && r.subrange(48, 68) =~= peerId
}
// the fields literally present after a protocol name of the announced length
pub open spec fn handshake_of(d: Seq<u8>, b: S_peerwire_BaseHandShakeMsg) -> bool {
    let n = d[0] as int + 1;
    b.protocol =~= d.subrange(1, n) && b.rBytes =~= d.subrange(n, n + 8) && b.infoHash =~= d.subrange(n + 8, n + 28) && b.peerId =~= d.subrange(n + 28, n + 48)
}
pub proof fn lemma_handshake_round_trip(r: Seq<u8>, infoHash: Seq<u8>, peerId: Seq<u8>, b: S_peerwire_BaseHandShakeMsg)
    requires handshake(r, infoHash, peerId), handshake_of(r, b)
    ensures b.protocol =~= @"BitTorrent protocol", b.infoHash =~= infoHash, b.peerId =~= peerId, b.rBytes.len() == 8, ext_bit(b.rBytes[5])
{}

// ---- extension messages ----
pub proof fn lemma_be32_mod()
    ensures forall|n: int| n >= 0 ==> #[trigger] be32(n % 0x1_0000_0000) == be32(n)
{
    assert forall|n: int| n >= 0 implies #[trigger] be32(n % 0x1_0000_0000) == be32(n) by {
        let m = n % 0x1_0000_0000; let q = n / 0x1_0000_0000;
        let (n1, m1) = (n / 256, m / 256);
        assert(n1 == q * 0x100_0000 + m1);
        let (n2, m2) = (n1 / 256, m1 / 256);
        assert(n2 == q * 0x1_0000 + m2);
        let (n3, m3) = (n2 / 256, m2 / 256);
        assert(n3 == q * 0x100 + m3);
        assert(n % 256 == m % 256 && n1 % 256 == m1 % 256 && n2 % 256 == m2 % 256 && n3 % 256 == m3 % 256);
    }
}
pub proof fn lemma_be32(n: int, rest: Seq<u8>)
    requires 0 <= n < 0x1_0000_0000
    ensures be32_val(be32(n) + rest) == n
{
    let s = be32(n) + rest;
    assert(s[0] == be32(n)[0] && s[1] == be32(n)[1] && s[2] == be32(n)[2] && s[3] == be32(n)[3]);
}
// length prefix, message type 20, extension id, dictionary, payload
pub open spec fn ext_message(r: Seq<u8>, id: int, e: Seq<u8>, payload: Seq<u8>) -> bool {
    &&& r.len() == 6 + e.len() + payload.len()
    &&& r.subrange(0, 4) =~= be32(r.len() - 4) && r[4] == 20 && r[5] == (id % 256) as u8
    &&& r.subrange(6, 6 + e.len() as int) =~= e && r.skip(6 + e.len() as int) =~= payload
}
pub open spec fn fetch_map(t: int, piece: int, total: int, data: Seq<u8>) -> Map<Seq<u8>, Val> {
    let m = map![@"msg_type" => Val::Int(t), @"piece" => Val::Int(piece)];
    if data.len() > 0 { m.insert(@"total_size", Val::Int(total)) } else { m }
}
pub open spec fn fetch_message(r: Seq<u8>, id: int, t: int, piece: int, total: int, data: Seq<u8>) -> bool {
    exists|e: Seq<u8>, d: Dict| #[trigger] encoded(e, Val::Dict(d)) && d.m =~= fetch_map(t, piece, total, data) && ext_message(r, id, e, data)
}
pub open spec fn fetch_msg(r: Seq<u8>, b: S_peerwire_BaseExFetchMetaMsg) -> bool { fetch_message(r, b.MsgId, b.ExMsgType, b.ExPieceNum, b.ExTotalSize, b.data) }
pub open spec fn has_int(m: Map<Seq<u8>, Val>, k: Seq<u8>) -> bool { m.dom().contains(k) && m[k] is Int }
// an extension message whose body starts with a dictionary
pub open spec fn ext_ok(d: Seq<u8>) -> bool { d.len() >= 2 && d[0] == 20 && (parse_val(d.skip(2)) matches Some((v, n)) && v is Dict) }
pub open spec fn ext_map(d: Seq<u8>) -> Map<Seq<u8>, Val> { parse_val(d.skip(2))->Some_0.0->Dict_0.m }
pub open spec fn ext_end(d: Seq<u8>) -> int { 2 + parse_val(d.skip(2))->Some_0.1 }
pub open spec fn fetch_ok(d: Seq<u8>) -> bool {
    ext_ok(d) && has_int(ext_map(d), @"msg_type") && has_int(ext_map(d), @"piece") && (ext_end(d) < d.len() ==> has_int(ext_map(d), @"total_size"))
}
pub open spec fn fetch_of(d: Seq<u8>, b: S_peerwire_BaseExFetchMetaMsg) -> bool {
    &&& b.MsgId == d[1] && b.ExMsgType == ext_map(d)[@"msg_type"]->Int_0 && b.ExPieceNum == ext_map(d)[@"piece"]->Int_0
    &&& b.data =~= d.skip(if ext_end(d) < d.len() { ext_end(d) } else { d.len() as int })
    &&& b.ExTotalSize == (if ext_end(d) < d.len() { ext_map(d)[@"total_size"]->Int_0 } else { 0 })
}
pub open spec fn shake_dict(metadata: Dict, dict: Dict) -> Dict { Dict { nil: false, m: dict.m.insert(@"m", Val::Dict(metadata)) } }
pub open spec fn shake_message(r: Seq<u8>, d: Dict) -> bool {
    exists|e: Seq<u8>| #[trigger] encoded(e, Val::Dict(d)) && ext_message(r, 0, e, Seq::<u8>::empty())
}
pub open spec fn shake_ok(d: Seq<u8>) -> bool { ext_ok(d) && d[1] == 0 && ext_end(d) == d.len() && ext_map(d).dom().contains(@"m") && ext_map(d)[@"m"] is Dict }
pub open spec fn shake_map(d: Seq<u8>) -> Map<Seq<u8>, Val> { ext_map(d) }
pub proof fn lemma_ext(r: Seq<u8>, id: int, e: Seq<u8>, d: Dict, payload: Seq<u8>)
    requires encoded(e, Val::Dict(d)), ext_message(r, id, e, payload), 0 <= id < 256, r.len() < 0x1_0000_0000
    ensures be32_val(r) == r.len() - 4, ext_ok(r.skip(4)), r.skip(4)[1] == id, ext_map(r.skip(4)) == d.m, r.skip(4).skip(ext_end(r.skip(4))) =~= payload, ext_end(r.skip(4)) == 2 + e.len()
{
    lemma_be32(r.len() - 4, r.skip(4));
    assert(r =~= r.subrange(0, 4) + r.skip(4));
    assert(r.skip(4).skip(2) =~= e + payload);
    assert(parse_val(e + payload) == Some((Val::Dict(d), e.len() as int)));
    assert(r.skip(4).skip(2 + e.len() as int) =~= payload);
}
pub proof fn lemma_fetch_round_trip(r: Seq<u8>, b: S_peerwire_BaseExFetchMetaMsg, c: S_peerwire_BaseExFetchMetaMsg)
    requires fetch_msg(r, b), 0 <= b.MsgId < 256, r.len() < 0x1_0000_0000
    ensures be32_val(r) == r.len() - 4, fetch_ok(r.skip(4)),
        fetch_of(r.skip(4), c) ==> c.MsgId == b.MsgId && c.ExMsgType == b.ExMsgType && c.ExPieceNum == b.ExPieceNum && c.data =~= b.data && c.ExTotalSize == (if b.data.len() > 0 { b.ExTotalSize } else { 0 })
{
    let (e, d) = choose|e: Seq<u8>, d: Dict| #[trigger] encoded(e, Val::Dict(d)) && d.m =~= fetch_map(b.ExMsgType, b.ExPieceNum, b.ExTotalSize, b.data) && ext_message(r, b.MsgId, e, b.data);
    lemma_ext(r, b.MsgId, e, d, b.data);
    if b.data.len() == 0 { assert(r.skip(4).skip(ext_end(r.skip(4))) =~= Seq::<u8>::empty()); }
    assert(r.len() == 6 + e.len() + b.data.len());
    let m = ext_map(r.skip(4));
    assert(m =~= fetch_map(b.ExMsgType, b.ExPieceNum, b.ExTotalSize, b.data));
    /*literals*/
    assert(@"msg_type" != @"piece" && @"msg_type" != @"total_size" && @"piece" != @"total_size");
    assert(m[@"msg_type"] == Val::Int(b.ExMsgType));
    assert(m[@"piece"] == Val::Int(b.ExPieceNum));
    assert(b.data.len() > 0 ==> m[@"total_size"] == Val::Int(b.ExTotalSize));
    if fetch_of(r.skip(4), c) {
        assert(c.MsgId == b.MsgId);
        assert(c.ExMsgType == b.ExMsgType);
        assert(c.ExPieceNum == b.ExPieceNum);
        assert(c.data =~= b.data);
        assert(c.ExTotalSize == (if b.data.len() > 0 { b.ExTotalSize } else { 0 }));
    }
}
pub proof fn lemma_shake_round_trip(r: Seq<u8>, d: Dict)
    requires shake_message(r, d), d.m.dom().contains(@"m"), d.m[@"m"] is Dict, r.len() < 0x1_0000_0000
    ensures be32_val(r) == r.len() - 4, shake_ok(r.skip(4)), shake_map(r.skip(4)) =~= d.m
{
    let e = choose|e: Seq<u8>| #[trigger] encoded(e, Val::Dict(d)) && ext_message(r, 0, e, Seq::<u8>::empty());
    lemma_ext(r, 0, e, d, Seq::<u8>::empty());
}

// ---- framing ----
pub open spec fn frame_ok(s: Seq<u8>) -> bool { s.len() >= 4 && be32_val(s) <= 32768 && s.len() >= 4 + be32_val(s) }
pub open spec fn framed(s: Seq<u8>, keepalive: bool, data: Seq<u8>) -> bool {
    frame_ok(s) && keepalive == (be32_val(s) == 0) && data =~= s.subrange(4, 4 + be32_val(s))
}
// the next n bytes of one reader were consumed, and nothing else
pub open spec fn took(a: Map<int, Seq<u8>>, b: Map<int, Seq<u8>>, r: int, n: int) -> bool {
    b.dom().contains(r) && b[r] =~= a[r].skip(n) && b.remove(r) =~= a.remove(r)
}

// ---- download ----
pub open spec fn all_set(s: Seq<bool>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] }
pub open spec fn pieces(size: int) -> int { (size + 16383) / 16384 }
// the peer, the wanted hash and the deadline of a download never change
pub open spec fn conn_kept(a: S_peerwire_PeerConn, b: S_peerwire_PeerConn) -> bool {
    a.addr == b.addr && a.conn == b.conn && a.infoHash == b.infoHash && a.connTimeStamp == b.connTimeStamp && a.expireTime == b.expireTime && a.timeoutChan == b.timeoutChan
}
// the requests for pieces 0..n were written to the connection, in order, and nothing else
pub open spec fn asked(a: Seq<(int, Seq<u8>)>, b: Seq<(int, Seq<u8>)>, conn: int, n: int) -> bool {
    &&& b.len() == a.len() + n && b.subrange(0, a.len() as int) =~= a
    &&& forall|j: int| a.len() <= j < b.len() ==> (#[trigger] b[j]).0 == conn && fetch_message(b[j].1, 1, 0, j - a.len(), 0, Seq::<u8>::empty())
}
pub open spec fn size_ok(d: Seq<u8>) -> bool {
    shake_ok(d) && has_int(shake_map(d), @"metadata_size") && 0 <= announced_size(d) <= 33554432
}
pub open spec fn announced_size(d: Seq<u8>) -> int { shake_map(d)[@"metadata_size"]->Int_0 }
pub open spec fn is_data(d: Seq<u8>) -> bool { ext_map(d)[@"msg_type"] == Val::Int(1) }
pub open spec fn piece_no(d: Seq<u8>) -> int { ext_map(d)[@"piece"]->Int_0 }
pub open spec fn payload(d: Seq<u8>) -> Seq<u8> { d.skip(if ext_end(d) < d.len() { ext_end(d) } else { d.len() as int }) }
pub open spec fn download_same(a: S_peerwire_PeerConn, b: S_peerwire_PeerConn) -> bool {
    a.metaData =~= b.metaData && a.metaDataSize == b.metaDataSize && a.requestedMetaData =~= b.requestedMetaData
}
// what one extended message does to a download
pub open spec fn ext_handled(d: Seq<u8>, a: S_peerwire_PeerConn, b: S_peerwire_PeerConn, w0: Seq<(int, Seq<u8>)>, w1: Seq<(int, Seq<u8>)>) -> bool {
    &&& d.len() >= 2
    &&& d[1] == 0 ==> size_ok(d) && b.metaDataSize == announced_size(d) && b.metaData.len() == pieces(b.metaDataSize) && b.requestedMetaData.len() == pieces(b.metaDataSize)
            && (forall|j: int| 0 <= j < b.requestedMetaData.len() ==> !(#[trigger] b.requestedMetaData[j])) && asked(w0, w1, a.conn, pieces(b.metaDataSize))
    &&& d[1] == 1 ==> fetch_ok(d) && w1 == w0
    &&& d[1] == 1 && is_data(d) ==> stored(a, b, piece_no(d), payload(d))
    &&& d[1] == 1 && !is_data(d) ==> download_same(a, b)
    &&& d[1] > 1 ==> download_same(a, b) && w1 == w0
}
pub open spec fn stored(a: S_peerwire_PeerConn, b: S_peerwire_PeerConn, i: int, data: Seq<u8>) -> bool {
    &&& 0 <= i < a.metaData.len() && i < a.requestedMetaData.len()
    &&& b.metaDataSize == a.metaDataSize && b.requestedMetaData =~= a.requestedMetaData.update(i, true)
    &&& b.metaData =~= a.metaData.update(i, data) || (a.requestedMetaData[i] && b.metaData =~= a.metaData)
}
// the messages that end a download
pub open spec fn ext_refused(d: Seq<u8>, a: S_peerwire_PeerConn) -> bool {
    ||| d.len() < 2
    ||| d[1] == 0 && !size_ok(d)
    ||| d[1] == 1 && (!fetch_ok(d) || (is_data(d) && !(0 <= piece_no(d) < a.metaData.len() && piece_no(d) < a.requestedMetaData.len())))
}
// the answer of the peer starts with a handshake of the right protocol with the extension bit
pub open spec fn shaken(s: Seq<u8>) -> bool {
    s.len() >= 68 && s[0] == 19 && s.subrange(1, 20) =~= @"BitTorrent protocol" && ext_bit(s[25])
}
pub open spec fn our_shake() -> Dict { shake_dict(Dict { nil: false, m: map![@"ut_metadata" => Val::Int(1)] }, Dict { nil: false, m: Map::<Seq<u8>, Val>::empty() }) }
// more than the opening handshake is only ever written to a peer that answered it
pub open spec fn talked(a: Seq<(int, Seq<u8>)>, b: Seq<(int, Seq<u8>)>, input: Map<int, Seq<u8>>) -> bool {
    starts_with(a, b) && (b.len() > a.len() + 1 ==> shaken(input[b[a.len() as int].0]))
}

// ---- handshake ----
globalinv peerwire.supportProtocolName: self =~= @"BitTorrent protocol"
globalinv peerwire.reservedBytes: self.len() == 8 && ext_bit(self[5])
globalinv peerwire.defaultReservedBytes: self.len() == 8

func peerwire.withHandShakeMsg(peerId, infoHash) (r)
  allocates peerwire.BaseHandShakeMsg
  borrows peerId, infoHash
  fresh r
  panics iff peerId.len() != 20 || infoHash.len() != 20
  ensures layout: handshake(r, infoHash, peerId)

func peerwire.parseHandShakeMsg(data) (r)
  allocates peerwire.BaseHandShakeMsg
  alias r->rBytes = data
  alias r->infoHash = data
  alias r->peerId = data
  fresh r
  panics only data.len() != 68 || data[0] != 19
  ensures size: data.len() == 68 && data[0] <= 19
  ensures fields: handshake_of(data, $peerwire_BaseHandShakeMsg[r])

func peerwire.BaseHandShakeMsg.SupportExtended(b) (r)
  requires b != 0 && b->rBytes.len() >= 6
  entry lemma_ext_bit()
  ensures flag: r == ext_bit(b->rBytes[5])

// the id this node gives in its handshakes
func peerwire.GeneratePeerId(str) (r)
  fresh r
  ensures size: r.len() == 20
initially peerwire.LocalPeerId () (r)
  ensures size: r.len() == 20

lemmas C22: lemma_handshake_round_trip
cone C22: peerwire.withHandShakeMsg peerwire.parseHandShakeMsg peerwire.BaseHandShakeMsg.SupportExtended peerwire.GeneratePeerId initially:peerwire.LocalPeerId
theory C22: net bencode misc peerwire

// ---- extension messages ----
func peerwire.BaseExFetchMetaMsg.Bytes(b) (r)
  requires b != 0 && b->data.len() <= 0x7fff_0000
  fresh r
  entry lemma_flat()
  entry lemma_be32_mod()
  ensures message: fetch_msg(r, $peerwire_BaseExFetchMetaMsg[b])

func peerwire.parseExtendedFetchMetaMsg(data) (r)
  allocates peerwire.BaseExFetchMetaMsg
  allocates misc.Error
  alias r->data = data
  fresh r
  panics only !fetch_ok(data)
  ensures parsed: fetch_ok(data)
  ensures fields: fetch_of(data, $peerwire_BaseExFetchMetaMsg[r])
  ensures within: $peerwire_BaseExFetchMetaMsg[r].data.len() <= data.len()

func peerwire.withExtendedFetchMetaMsg(exMsgId, mType, pieceNum, totalSize, data) (r)
  allocates peerwire.BaseExFetchMetaMsg
  requires size: data.len() == 0 || data[0].len() <= 0x7fff_0000
  borrows data
  fresh r
  ensures message: fetch_message(r, exMsgId, mType, pieceNum, totalSize, if data.len() > 0 { data[0] } else { Seq::<u8>::empty() })

func peerwire.BaseExHandShakeMsg.Bytes(b) (r)
  requires b != 0
  fresh r
  entry lemma_be32_mod()
  panics iff !encodable(Val::Dict(b->ExDict))
  ensures message: shake_message(r, b->ExDict)

func peerwire.NewBaseExHandShakeMsg(metadata, dict) (r)
  allocates peerwire.BaseExHandShakeMsg
  inout dict
  fresh r
  ensures dict: r->ExDict.m =~= dict.m.insert(@"m", Val::Dict(metadata)) && !r->ExDict.nil

func peerwire.withExtendedhandShake(metadata, dict) (r)
  allocates peerwire.BaseExHandShakeMsg
  inout dict
  fresh r
  panics iff !encodable(Val::Dict(shake_dict(metadata, dict)))
  ensures message: shake_message(r, shake_dict(metadata, dict))

func peerwire.parseExtendedHandShake(data) (r)
  allocates peerwire.BaseExHandShakeMsg
  allocates misc.Error
  borrows data
  fresh r
  panics only !shake_ok(data)
  ensures parsed: shake_ok(data)
  ensures fields: r->ExDict.m =~= shake_map(data) && !r->ExDict.nil

lemmas C23: lemma_fetch_round_trip lemma_shake_round_trip lemma_be32
cone C23: peerwire.BaseExFetchMetaMsg.Bytes peerwire.parseExtendedFetchMetaMsg peerwire.withExtendedFetchMetaMsg peerwire.BaseExHandShakeMsg.Bytes peerwire.parseExtendedHandShake peerwire.withExtendedhandShake
theory C23: net bencode misc peerwire

// ---- framing ----
// INPUT is what a reader will still deliver before its first failure.
ghost INPUT: Map<int, Seq<u8>>
extern io.ReadFull(r, buf) (n, err)
  inout buf
  modifies INPUT
  ensures 0 <= n <= buf.len() && n <= old($INPUT)[r].len()
  ensures (err == 0) == (n == buf.len()) && (n < buf.len() ==> n == old($INPUT)[r].len())
  ensures buf_out =~= old($INPUT)[r].subrange(0, n) + buf.skip(n)
  ensures err == 0 ==> took(old($INPUT), $INPUT, r, n)
// a single read delivers any part of what was asked for
extern io.Reader.Read(r, buf) (n, err)
  inout buf
  modifies INPUT
  ensures 0 <= n <= buf.len() && n <= old($INPUT)[r].len()
  ensures buf_out =~= old($INPUT)[r].subrange(0, n) + buf.skip(n)
  ensures err == 0 ==> took(old($INPUT), $INPUT, r, n)
extern io.ReadAtLeast(r, buf, min) (n, err)
  inout buf
  modifies INPUT
  ensures 0 <= n <= buf.len() && n <= old($INPUT)[r].len()
  ensures (err == 0) == (n >= min)
  ensures buf_out =~= old($INPUT)[r].subrange(0, n) + buf.skip(n)
  ensures err == 0 ==> took(old($INPUT), $INPUT, r, n)

globalinv peerwire.peerBytesPool: self != 0 && pool_ok($misc_BytesPool[self])

func peerwire.readBytesByPrefixLenMsg(reader) (keepalive, data, err)
  requires reader != 0
  modifies INPUT, WIDTH, PUTS
  maxbuf 32768
  fresh data
  ensures framed: err == 0 ==> framed(old($INPUT)[reader], keepalive, data)
  ensures consumed: err == 0 ==> took(old($INPUT), $INPUT, reader, 4 + be32_val(old($INPUT)[reader]))
  ensures refused: err != 0 ==> !keepalive && data.len() == 0 && !frame_ok(old($INPUT)[reader])
  ensures too_long: old($INPUT)[reader].len() >= 4 && be32_val(old($INPUT)[reader]) > 32768 ==> took(old($INPUT), $INPUT, reader, 4)
  ensures grows: grows(old($WIDTH), $WIDTH)

cone C24: peerwire.readBytesByPrefixLenMsg
theory C24: net bencode misc pool peerwire

// ---- connections ----
// WIRE: what was written to connections; WERR: connections a write failed on; OPEN: connections that are not closed
ghost WIRE: Seq<(int, Seq<u8>)>
ghost WERR: Set<int>
ghost OPEN: Set<int>
extern net.Conn.Write(c, b) (n, err)
  requires c != 0
  modifies WIRE, WERR
  ensures 0 <= n <= b.len() && (err == 0 ==> n == b.len())
  ensures $WIRE == old($WIRE).push((c, b.subrange(0, n))) && $WERR == (if err != 0 { old($WERR).insert(c) } else { old($WERR) })
extern net.Conn.Read(r, buf) (n, err)
  requires r != 0
  inout buf
  modifies INPUT
  ensures 0 <= n <= buf.len() && n <= old($INPUT)[r].len()
  ensures buf_out =~= old($INPUT)[r].subrange(0, n) + buf.skip(n)
  ensures err == 0 ==> took(old($INPUT), $INPUT, r, n)

func peerwire.PeerConn.CompledMetaData(p) (r)
  requires p != 0
  ensures all: r == all_set(p->requestedMetaData)
  loop 1 (over s, idx i)
    invariant so_far: forall|j: int| 0 <= j < i ==> s[j]

// the extended messages of a peer: id 0 announces the metadata size, id 1 carries a piece
func peerwire.handleExtendedMsg(peerConn, readBytes) ()
  requires conn: peerConn != 0 && peerConn->conn != 0 && !$WERR.contains(peerConn->conn)
  requires size: readBytes.len() <= 32768
  borrows readBytes
  modifies peerwire.PeerConn[peerConn], WIRE, WERR
  allocates peerwire.BaseExFetchMetaMsg
  allocates peerwire.BaseExHandShakeMsg
  allocates misc.Error
  maxbuf 33554432
  panics may
  ensures kept: conn_kept(old($peerwire_PeerConn)[peerConn], $peerwire_PeerConn[peerConn]) && !$WERR.contains(peerConn->conn)
  ensures handled: ext_handled(readBytes, old($peerwire_PeerConn)[peerConn], $peerwire_PeerConn[peerConn], old($WIRE), $WIRE)
  ensures sent: starts_with(old($WIRE), $WIRE)
  xensures sent: starts_with(old($WIRE), $WIRE)
  xensures refused: $WERR.contains(peerConn->conn) || ext_refused(readBytes, old($peerwire_PeerConn)[peerConn])
  loop 1 (i)
    invariant count: 0 <= i <= pieces(peerConn->metaDataSize)
    invariant kept: conn_kept(old($peerwire_PeerConn)[peerConn], $peerwire_PeerConn[peerConn]) && size_ok(readBytes) && peerConn->metaDataSize == announced_size(readBytes) && !$WERR.contains(peerConn->conn)
    invariant room: peerConn->metaData.len() == pieces(peerConn->metaDataSize) && peerConn->requestedMetaData.len() == pieces(peerConn->metaDataSize)
    invariant clear: forall|j: int| 0 <= j < peerConn->requestedMetaData.len() ==> !(#[trigger] peerConn->requestedMetaData[j])
    invariant asked: asked(old($WIRE), $WIRE, peerConn->conn, i)

cone C26: peerwire.handleExtendedMsg peerwire.PeerConn.CompledMetaData
theory C26: net bencode misc peerwire

// ---- download ----
// DIALS: connection attempts (network, address)
ghost DIALS: Seq<(Seq<u8>, Seq<u8>)>
extern net.DialTimeout(network, addr, timeout) (c, err)
  modifies DIALS, OPEN
  ensures $DIALS == old($DIALS).push((network, addr))
  ensures err == 0 ==> c != 0 && !old($OPEN).contains(c) && !$WERR.contains(c) && $OPEN == old($OPEN).insert(c)
  ensures err != 0 ==> $OPEN == old($OPEN)
extern net.Dial(network, addr) (c, err)
  modifies DIALS, OPEN
  ensures $DIALS == old($DIALS).push((network, addr))
  ensures err == 0 ==> c != 0 && !old($OPEN).contains(c) && !$WERR.contains(c) && $OPEN == old($OPEN).insert(c)
  ensures err != 0 ==> $OPEN == old($OPEN)
extern net.Conn.Close(c) (err)
  requires c != 0
  modifies OPEN
  ensures $OPEN == old($OPEN).remove(c)
// RLIM, WLIM: the connections whose reads and whose writes end at some time (the zero time is none)
ghost RLIM: Set<int>
ghost WLIM: Set<int>
extern net.Conn.SetReadDeadline(c, t) (err)
  requires c != 0
  modifies RLIM
  ensures $RLIM == (if t != 0 { old($RLIM).insert(c) } else { old($RLIM).remove(c) })
extern net.Conn.SetWriteDeadline(c, t) (err)
  requires c != 0
  modifies WLIM
  ensures $WLIM == (if t != 0 { old($WLIM).insert(c) } else { old($WLIM).remove(c) })
extern net.Conn.SetDeadline(c, t) (err)
  requires c != 0
  modifies RLIM, WLIM
  ensures $RLIM == (if t != 0 { old($RLIM).insert(c) } else { old($RLIM).remove(c) })
  ensures $WLIM == (if t != 0 { old($WLIM).insert(c) } else { old($WLIM).remove(c) })
extern time.Time.Add(t, d) (r)
  ensures r == t + d
extern time.After(d) (c)
  ensures c != 0 && timer_of(c) == d
extern bytes.Equal(a, b) (r)
  ensures r == (a =~= b)

func peerwire.GenerateInfoHash(bytes) (r)
  borrows bytes
  fresh r
  ensures digest: r =~= sha1_of(bytes)

func peerwire.NewPeerConn(addr, conn, infoHash, expireTime) (r)
  allocates peerwire.PeerConn
  alias r->infoHash = infoHash
  fresh r
  ensures fields: r->conn == conn && r->infoHash =~= infoHash
  ensures incomplete: r->requestedMetaData.len() > 0 && !r->requestedMetaData[0]

// our handshake is written, and the answer is the handshake of a peer with the protocol and the extension bit
func peerwire.handshakePeer(peerId, peerConn) ()
  requires conn: peerConn != 0 && peerConn->conn != 0
  requires limited: $RLIM.contains(peerConn->conn) && $WLIM.contains(peerConn->conn)
  borrows peerId
  modifies WIRE, WERR, INPUT
  allocates peerwire.BaseHandShakeMsg
  panics may
  ensures sent: $WIRE.len() == old($WIRE).len() + 1 && $WIRE.last().0 == peerConn->conn && handshake($WIRE.last().1, peerConn->infoHash, peerId) && starts_with(old($WIRE), $WIRE)
  ensures shaken: shaken(old($INPUT)[peerConn->conn])
  ensures healthy: $WERR == old($WERR)
  xensures sent: starts_with(old($WIRE), $WIRE) && $WIRE.len() <= old($WIRE).len() + 1

func peerwire.initialMessages(peerConn) ()
  requires conn: peerConn != 0 && peerConn->conn != 0
  requires limited: $RLIM.contains(peerConn->conn) && $WLIM.contains(peerConn->conn)
  modifies WIRE, WERR
  allocates peerwire.BaseExHandShakeMsg
  panics may
  ensures sent: $WIRE.len() == old($WIRE).len() + 1 && $WIRE.last().0 == peerConn->conn && shake_message($WIRE.last().1, our_shake()) && starts_with(old($WIRE), $WIRE)
  ensures healthy: $WERR == old($WERR)
  xensures sent: starts_with(old($WIRE), $WIRE)

func peerwire.readMetaDataHandler(peerConn) ()
  requires conn: peerConn != 0 && peerConn->conn != 0 && !$WERR.contains(peerConn->conn)
  requires limited: $RLIM.contains(peerConn->conn) && $WLIM.contains(peerConn->conn)
  modifies peerwire.PeerConn[peerConn], WIRE, WERR, INPUT, WIDTH, PUTS
  allocates peerwire.BaseExFetchMetaMsg
  allocates peerwire.BaseExHandShakeMsg
  allocates peerwire.BasePrefixLenMsg
  allocates misc.Error
  panics may
  ensures kept: conn_kept(old($peerwire_PeerConn)[peerConn], $peerwire_PeerConn[peerConn]) && !$WERR.contains(peerConn->conn)
  ensures sent: starts_with(old($WIRE), $WIRE)
  xensures sent: starts_with(old($WIRE), $WIRE)

func peerwire.readMetaDataLoop(peerConn) ()
  requires conn: peerConn != 0 && peerConn->conn != 0 && !$WERR.contains(peerConn->conn)
  requires limited: $RLIM.contains(peerConn->conn) && $WLIM.contains(peerConn->conn)
  modifies peerwire.PeerConn[peerConn], WIRE, WERR, INPUT, WIDTH, PUTS
  allocates peerwire.BaseExFetchMetaMsg
  allocates peerwire.BaseExHandShakeMsg
  allocates peerwire.BasePrefixLenMsg
  allocates misc.Error
  panics may
  ensures kept: conn_kept(old($peerwire_PeerConn)[peerConn], $peerwire_PeerConn[peerConn])
  ensures sent: starts_with(old($WIRE), $WIRE)
  xensures sent: starts_with(old($WIRE), $WIRE)
  loop 1 ()
    nodecreases
    invariant kept: conn_kept(old($peerwire_PeerConn)[peerConn], $peerwire_PeerConn[peerConn]) && !$WERR.contains(peerConn->conn)
    invariant sent: starts_with(old($WIRE), $WIRE)

func peerwire.FetchMetaData(laddr, peerId, infoHash) (ret, err)
  borrows peerId, infoHash
  fresh ret
  modifies WIRE, WERR, INPUT, WIDTH, PUTS, OPEN, DIALS, STACK, RLIM, WLIM
  allocates peerwire.PeerConn
  allocates peerwire.BaseHandShakeMsg
  allocates peerwire.BaseExFetchMetaMsg
  allocates peerwire.BaseExHandShakeMsg
  allocates peerwire.BasePrefixLenMsg
  allocates misc.Error
  ensures verified: err == 0 ==> sha1_of(ret) =~= infoHash
  ensures nothing: err != 0 ==> ret.len() == 0
  ensures closed: $OPEN =~= old($OPEN)
  ensures dialled: $DIALS == old($DIALS).push((@"tcp", laddr))
  ensures handshake: err == 0 ==> $WIRE.len() >= old($WIRE).len() + 2
  ensures first: talked(old($WIRE), $WIRE, old($INPUT))
  loop 1 (i, result: Seq<u8>)
    invariant range: 0 <= i

cone C25: peerwire.FetchMetaData peerwire.readMetaDataLoop peerwire.readMetaDataHandler peerwire.initialMessages peerwire.handshakePeer
theory C25: net bencode misc pool peerwire

// ---- the receiving loop ----
// RECVD: datagrams read from the socket, with their source addresses
ghost RECVD: Seq<(Seq<u8>, S_net_UDPAddr)>
ghost CH_krpc_RecvPacket: Seq<(int, int)>
extern net.UDPConn.ReadFromUDP(c, b) (n, addr, err)
  requires conn: c != 0
  inout b
  modifies RECVD
  allocates net.UDPAddr
  ensures kept: b_out.len() == b.len()
  ensures failed: err != 0 ==> $RECVD == old($RECVD)
  ensures received: err == 0 ==> 0 <= n <= b.len() && addr != 0 && $RECVD == old($RECVD).push((b_out.take(n), $net_UDPAddr[addr]))

globalinv krpc.RecvPacketLen: 1 <= self <= 1000000
chaninv *krpc.RecvPacket: v != 0
atomic atomic_Value.v: o is Bool ==> n is Bool | n is Bool

// every datagram goes to the channel once, in a buffer of its own, with exactly its bytes and its source address
func krpc.UdpServer.recvRoutiue(s) ()
  requires made: s != 0 && s->recvq != 0 && s->conn != 0 && s->closed != 0 && $atomic_Value[s->closed].v is Bool
  diverges
  modifies RECVD, CH_krpc_RecvPacket, WIDTH, atomic_Value[s->closed]
  allocates krpc.RecvPacket
  allocates net.UDPAddr
  on send passed: c == s->recvq && v->Bytes =~= $RECVD.last().0 && $net_UDPAddr[v->Addr] == $RECVD.last().1 && v->Addr != 0
  on send once: may_pass($CH_krpc_RecvPacket.len() - old($CH_krpc_RecvPacket).len(), $RECVD.len() - old($RECVD).len())
  ensures all: may_read($CH_krpc_RecvPacket.len() - old($CH_krpc_RecvPacket).len(), $RECVD.len() - old($RECVD).len())
  ensures stopped: $atomic_Value[s->closed].v == Val::Bool(true)
  loop 1
    nodecreases
    invariant all: may_read($CH_krpc_RecvPacket.len() - old($CH_krpc_RecvPacket).len(), $RECVD.len() - old($RECVD).len())
    invariant flag: $atomic_Value[s->closed].v is Bool

cone C07: krpc.UdpServer.recvRoutiue

// every packet received becomes one task of the pool, which handles this very packet
func krpc.RpcServer.Listen(s) ()
  requires made: s != 0 && s->udpConn != 0 && s->udpConn->recvq != 0 && unlocked($L_misc_SyncMap)
  requires ok: srv_ok($krpc_RpcServer[s], $misc_SyncMap, $krpc_BaseRequest)
  requires config: defs_ok($DEFS, $config_dhtConfig, $config_fetchTorrentConfig, $config_pprofConfig, $config_loggerConfig) && cache_ok($g.config.configMap, $CONF, $config_dhtConfig, $config_fetchTorrentConfig, $config_pprofConfig, $config_loggerConfig)
  tasks
  diverges
  panics may
  allocates misc.WorkPool
  allocates config.dhtConfig
  allocates misc.Error
  modifies GOT, CH_misc_AsyncWorkFunc, ADDS, DONES, GOES, STORED, g.config.configMap
  entry lemma_tasks()
  entry lemma_traces()
  go 1 on krpc.RpcServer.recvPacketHandle packet: arg0 == s && arg1 == arg && $PUTS == old($PUTS)
  go 1 ensures handled: $PUTS.len() == old($PUTS.len()) + 1
  loop 1 (obj p: misc_WorkPool)
    nodecreases
    invariant pool: pool_made($misc_WorkPool[p]) && $L_misc_WorkPool[p] == 0
    invariant queued: queued(at_entry($CH_misc_AsyncWorkFunc), $CH_misc_AsyncWorkFunc, p->queue, tasks(at_entry($GOT), $GOT, s->udpConn->recvq)) && more(at_entry($GOT), $GOT)


// every announcement handed over becomes one task of the pool, which fetches for this very announcement
ghost FETCHED: Seq<int>
chaninv *krpc.RpcContext: v != 0
func dht.fetchTorrent() ()
  requires queue: $g.dht.recvInfoHash != 0
  requires config: defs_ok($DEFS, $config_dhtConfig, $config_fetchTorrentConfig, $config_pprofConfig, $config_loggerConfig) && cache_ok($g.config.configMap, $CONF, $config_dhtConfig, $config_fetchTorrentConfig, $config_pprofConfig, $config_loggerConfig)
  tasks
  diverges
  panics may
  allocates misc.WorkPool
  allocates config.fetchTorrentConfig
  allocates misc.Error
  modifies GOT, CH_misc_AsyncWorkFunc, ADDS, DONES, GOES, STORED, g.config.configMap
  entry lemma_tasks()
  entry lemma_traces()
  go 1 ensures fetched: $FETCHED == old($FETCHED).push(arg)
  loop 1 (obj p: misc_WorkPool)
    nodecreases
    invariant pool: pool_made($misc_WorkPool[p]) && $L_misc_WorkPool[p] == 0
    invariant queued: queued(at_entry($CH_misc_AsyncWorkFunc), $CH_misc_AsyncWorkFunc, p->queue, tasks(at_entry($GOT), $GOT, $g.dht.recvInfoHash)) && more(at_entry($GOT), $GOT)

theory C34: net bencode misc pool conc config krpc peerwire fetch pipesys
cone C34: krpc.UdpServer.recvRoutiue krpc.RpcServer.Listen/* dht.fetchTorrent/*
assumption C34: the events of the lemma that puts the loops together (theory_pipesys.rs) are those of the contracts and of channels: read off, not derived

// ---- starting the node ----
// LISTENS: sockets opened, with their addresses
ghost LISTENS: Seq<(int, S_net_UDPAddr)>
extern net.ResolveUDPAddr(network, address) (addr, err)
  allocates net.UDPAddr
  ensures err == 0 ==> addr != 0 && $net_UDPAddr[addr] == resolved(address)
  ensures err != 0 ==> addr == 0
extern net.ListenUDP(network, laddr) (conn, err)
  modifies LISTENS
  ensures err == 0 ==> conn != 0 && $LISTENS == old($LISTENS).push((conn, $net_UDPAddr[laddr]))
  ensures err != 0 ==> conn == 0 && $LISTENS == old($LISTENS)
extern log.Panic(v) ()
  panics iff true

globalinv krpc.RecvChanLen: 0 <= self <= 1000000
func krpc.StartUdpServer(localAddr) (r)
  panics may
  allocates krpc.UdpServer
  allocates net.UDPAddr
  allocates atomic_Value
  modifies LISTENS, GOES, STORED
  fresh r
  on go started: f == fn_krpc_UdpServer_recvRoutiue() && $GOES == old($GOES)
  ensures open: r->recvq != 0 && r->conn != 0 && open_ok($krpc_UdpServer[r], $atomic_Value) && $atomic_Value[r->closed].v == Val::Bool(false)
  ensures socket: $LISTENS == old($LISTENS).push((r->conn, resolved(localAddr)))
  ensures receiving: $GOES == old($GOES).push((fn_krpc_UdpServer_recvRoutiue(), r))
  xensures nothing: $GOES == old($GOES) && $LISTENS == old($LISTENS)

func krpc.NewRpcServer(laddr) (r)
  panics may
  allocates krpc.UdpServer
  allocates krpc.RpcServer
  allocates misc.SyncMap
  allocates net.UDPAddr
  allocates atomic_Value
  modifies LISTENS, GOES, STORED
  fresh r
  ensures made: r->udpConn != 0 && r->udpConn->recvq != 0 && r->udpConn->conn != 0 && open_ok($krpc_UdpServer[r->udpConn], $atomic_Value) && srv_ok($krpc_RpcServer[r], $misc_SyncMap, $krpc_BaseRequest)
  ensures empty: $misc_SyncMap[r->reqestHandlerRouter].mapping.m =~= Map::<Seq<u8>, Val>::empty() && $misc_SyncMap[r->requestMapping].mapping.m =~= Map::<Seq<u8>, Val>::empty() && r->reqHandlerChain.len() == 0 && r->respHandlerChain.len() == 0
  ensures socket: $LISTENS == old($LISTENS).push((r->udpConn->conn, resolved(laddr)))
  ensures receiving: $GOES == old($GOES).push((fn_krpc_UdpServer_recvRoutiue(), r->udpConn))

// every supported query type is served by its own handler from before the first packet is taken
// NETCLOSED: sockets closed
ghost NETCLOSED: Seq<int>
extern net.UDPConn.Close(c) (err)
  modifies NETCLOSED
  ensures $NETCLOSED == old($NETCLOSED).push(c)
func krpc.UdpServer.Close(s) (err)
  requires made: s != 0 && s->closed != 0 && $atomic_Value[s->closed].v is Bool && $L_krpc_UdpServer[s] == 0
  modifies NETCLOSED, atomic_Value[s->closed], STORED
  ensures closed: $atomic_Value[s->closed].v is Bool
  ensures once: $NETCLOSED == old($NETCLOSED) || s->conn != 0 && $NETCLOSED == old($NETCLOSED).push(s->conn)
  on store flag: self == s->closed && n == Val::Bool(true) && $NETCLOSED == old($NETCLOSED)
  ensures done: $STORED.len() > old($STORED).len() && s->conn != 0 ==> $NETCLOSED == old($NETCLOSED).push(s->conn)
func krpc.RpcServer.Close(s) ()
  requires made: s != 0 && s->udpConn != 0 ==> open_ok($krpc_UdpServer[s->udpConn], $atomic_Value) && $L_krpc_UdpServer[s->udpConn] == 0
  requires real: s != 0
  modifies NETCLOSED, atomic_Value[$krpc_UdpServer[s->udpConn].closed_], STORED
  ensures socket: s->udpConn != 0 && $STORED.len() > old($STORED).len() && $krpc_UdpServer[s->udpConn].conn != 0 ==> $NETCLOSED == old($NETCLOSED).push($krpc_UdpServer[s->udpConn].conn)
func dht.Run() ()
  requires server: $g.dht.rpcServer != 0 && $krpc_RpcServer[$g.dht.rpcServer].udpConn != 0 && $krpc_UdpServer[$krpc_RpcServer[$g.dht.rpcServer].udpConn].recvq != 0 && open_ok($krpc_UdpServer[$krpc_RpcServer[$g.dht.rpcServer].udpConn], $atomic_Value) && $L_krpc_UdpServer[$krpc_RpcServer[$g.dht.rpcServer].udpConn] == 0 && srv_ok($krpc_RpcServer[$g.dht.rpcServer], $misc_SyncMap, $krpc_BaseRequest) && unlocked($L_misc_SyncMap)
  requires config: defs_ok($DEFS, $config_dhtConfig, $config_fetchTorrentConfig, $config_pprofConfig, $config_loggerConfig) && cache_ok($g.config.configMap, $CONF, $config_dhtConfig, $config_fetchTorrentConfig, $config_pprofConfig, $config_loggerConfig)
  requires queue: $g.dht.recvInfoHash != 0
  requires cleanups: shutdown_made($misc_shutdownContext[$g.misc.defaultShutdownCtx]) && $L_misc_shutdownContext[$g.misc.defaultShutdownCtx] == 0
  tasks
  diverges
  panics may
  modifies GOT, CH_misc_AsyncWorkFunc, ADDS, DONES, GOES, STORED, g.config.configMap, misc.SyncMap[$krpc_RpcServer[$g.dht.rpcServer].reqestHandlerRouter], misc_shutdownContext[$g.misc.defaultShutdownCtx]
  allocates config.dhtConfig
  allocates misc.WorkPool
  allocates misc.Error
  go 1 on krpc.RpcServer.Close server: arg0 == $g.dht.rpcServer
  on krpc.RpcServer.Listen served: arg0 == $g.dht.rpcServer && serves_all(router_of($krpc_RpcServer[arg0], $misc_SyncMap))
  on krpc.RpcServer.Listen fetching: $GOES == old($GOES).push((fn_dht_fetchTorrent(), 0))
  on krpc.RpcServer.Listen cleanup: $misc_shutdownContext[$g.misc.defaultShutdownCtx].cleans =~= old($misc_shutdownContext[$g.misc.defaultShutdownCtx].cleans).push(task_of(1, 0))


func dht.BootStrap(host) ()
  records BOOTED: $BOOTED.push(host)
  ensures recorded: $BOOTED == old($BOOTED).push(host)
  requires ids: $g.dht.txIdGenerator != 0 && unlocked($L_dht_TxIdGenerator)
  requires server: $g.dht.rpcServer != 0 && $krpc_RpcServer[$g.dht.rpcServer].udpConn != 0 && unlocked($L_misc_SyncMap) && srv_ok($krpc_RpcServer[$g.dht.rpcServer], $misc_SyncMap, $krpc_BaseRequest)
  modifies BOOTED, IDS, QUERIES, SENT, dht.TxIdGenerator[$g.dht.txIdGenerator], misc.SyncMap[$krpc_RpcServer[$g.dht.rpcServer].requestMapping]
  allocates krpc.BaseRequest
  allocates net.UDPAddr
  allocates misc.Error
  panics may
  ensures asked: asked_host(old($QUERIES), $QUERIES, $g.dht.rpcServer, resolved(host), $g.dht.localNodeId, fn_dht_genericRespHandler())
  ensures id: old($IDS).len() < $QUERIES.last().3 <= $IDS.len() && $QUERIES.last().2.txId == $IDS[$QUERIES.last().3 - 1]
  ensures server: srv_ok($krpc_RpcServer[$g.dht.rpcServer], $misc_SyncMap, $krpc_BaseRequest)
  xensures silent: $SENT == old($SENT)

// what serving relies on holds from the start
initially dht.rpcServer () (s)
  panics may
  allocates krpc.UdpServer
  allocates krpc.RpcServer
  allocates misc.SyncMap
  allocates net.UDPAddr
  allocates atomic_Value
  modifies LISTENS, GOES, STORED
  ensures made: s != 0 && s->udpConn != 0 && s->udpConn->recvq != 0 && s->udpConn->conn != 0 && srv_ok($krpc_RpcServer[s], $misc_SyncMap, $krpc_BaseRequest)
  ensures socket: open_ok($krpc_UdpServer[s->udpConn], $atomic_Value) && $LISTENS == old($LISTENS).push((s->udpConn->conn, resolved($g.dht.localAddr)))
  ensures empty: $misc_SyncMap[s->reqestHandlerRouter].mapping.m =~= Map::<Seq<u8>, Val>::empty() && $misc_SyncMap[s->requestMapping].mapping.m =~= Map::<Seq<u8>, Val>::empty() && s->reqHandlerChain.len() == 0 && s->respHandlerChain.len() == 0
// the address of the node is the port of the configuration, on every interface
initially dht.localAddr () (a)
  panics may
  requires config: defs_ok($DEFS, $config_dhtConfig, $config_fetchTorrentConfig, $config_pprofConfig, $config_loggerConfig) && cache_ok($g.config.configMap, $CONF, $config_dhtConfig, $config_fetchTorrentConfig, $config_pprofConfig, $config_loggerConfig)
  modifies g.config.configMap
  allocates config.dhtConfig
  allocates misc.Error
  ensures port: a =~= seq![58u8] + itoa(if conf_has($CONF, @"dht.port") { file_int($CONF, @"dht.port") } else { 21000 })
initially misc.defaultShutdownCtx () (c)
  allocates misc_shutdownContext
  modifies NOTIFIED, STORED
  ensures made: c != 0 && shutdown_made($misc_shutdownContext[c]) && rank(c->status) == 0
initially dht.recvInfoHash () (c)
  panics may
  requires config: defs_ok($DEFS, $config_dhtConfig, $config_fetchTorrentConfig, $config_pprofConfig, $config_loggerConfig) && cache_ok($g.config.configMap, $CONF, $config_dhtConfig, $config_fetchTorrentConfig, $config_pprofConfig, $config_loggerConfig)
  modifies g.config.configMap
  allocates config.fetchTorrentConfig
  allocates misc.Error
  ensures made: c != 0

theory C35: net bencode misc node pool conc config krpc start
cone C35: initially:dht.localAddr/* initially:misc.defaultShutdownCtx initially:dht.rpcServer initially:dht.recvInfoHash/* krpc.RpcServer.Close krpc.UdpServer.Close krpc.StartUdpServer krpc.NewRpcServer dht.Run/* dht.BootStrap/*

// BOOTED: hosts asked for their neighbours
ghost BOOTED: Seq<Seq<u8>>
extern viper.SetConfigFile(in) ()
extern http.NewServeMux() (m)
extern misc.StartPProf() ()
func cmd.rootCmd.Run(cmd, args) ()
  requires ids: $g.dht.txIdGenerator != 0 && unlocked($L_dht_TxIdGenerator)
  requires server: $g.dht.rpcServer != 0 && $krpc_RpcServer[$g.dht.rpcServer].udpConn != 0 && $krpc_UdpServer[$krpc_RpcServer[$g.dht.rpcServer].udpConn].recvq != 0 && open_ok($krpc_UdpServer[$krpc_RpcServer[$g.dht.rpcServer].udpConn], $atomic_Value) && $L_krpc_UdpServer[$krpc_RpcServer[$g.dht.rpcServer].udpConn] == 0 && srv_ok($krpc_RpcServer[$g.dht.rpcServer], $misc_SyncMap, $krpc_BaseRequest) && unlocked($L_misc_SyncMap)
  requires config: defs_ok($DEFS, $config_dhtConfig, $config_fetchTorrentConfig, $config_pprofConfig, $config_loggerConfig) && cache_ok($g.config.configMap, $CONF, $config_dhtConfig, $config_fetchTorrentConfig, $config_pprofConfig, $config_loggerConfig)
  requires queue: $g.dht.recvInfoHash != 0
  requires cleanups: shutdown_made($misc_shutdownContext[$g.misc.defaultShutdownCtx]) && $L_misc_shutdownContext[$g.misc.defaultShutdownCtx] == 0 && rank($misc_shutdownContext[$g.misc.defaultShutdownCtx].status) == 0
  modifies CONF, READS, SAVED, SAVEERR, g.config.configMap, IDS, QUERIES, SENT, BOOTED, GOT, GOES, STORED, dht.TxIdGenerator[$g.dht.txIdGenerator], misc.SyncMap[$krpc_RpcServer[$g.dht.rpcServer].requestMapping], misc_shutdownContext[$g.misc.defaultShutdownCtx]
  allocates config.dhtConfig
  allocates config.pprofConfig
  allocates krpc.BaseRequest
  allocates net.UDPAddr
  allocates misc.Error
  panics may
  on go run: f == fn_dht_Run() && $GOES == old($GOES)
  on misc.Wait4Shutdown started: $GOES == old($GOES).push((fn_dht_Run(), 0))
  ensures hosts: exists|d: S_config_dhtConfig| #[trigger] dht_section(d, $CONF) && $BOOTED =~= old($BOOTED) + d.BootstrapNodes
  ensures waited: rank($misc_shutdownContext[$g.misc.defaultShutdownCtx].status) == 2
  loop 1 (idx i, over vs)
    invariant hosts: $BOOTED =~= old($BOOTED) + vs.subrange(0, i)
    invariant server: srv_ok($krpc_RpcServer[$g.dht.rpcServer], $misc_SyncMap, $krpc_BaseRequest)

cone C35: cmd.rootCmd.Run/*

// STARTED: commands executed, with what became of them
ghost STARTED: Seq<(int, int)>
extern cobra.Command.Execute(c) (err)
  modifies STARTED
  ensures $STARTED == old($STARTED).push((c, err))
func cmd.ExecuteBackgroud() ()
  modifies STARTED
  allocates misc.Error
  panics may
  xensures failed: $STARTED.len() > 0 && $STARTED.last().1 != 0 && $STARTED == old($STARTED).push(($g.cmd.rootCmd, $STARTED.last().1))
  ensures once: $STARTED == old($STARTED).push(($g.cmd.rootCmd, 0))
cone C35: cmd.ExecuteBackgroud/*

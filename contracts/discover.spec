// ---- discovery ----
// ADDED: nodes offered to a routing table, and whether it accepted them
ghost ADDED: Seq<(int, int, bool)>
// IDS: transaction ids drawn
ghost IDS: Seq<Seq<u8>>
// QUERIES: queries handed to the server: destination, message, and how many ids had been drawn
ghost QUERIES: Seq<(int, S_net_UDPAddr, S_krpc_BaseRequest, int)>

func dht.findNodeRespHandler(ctx, nodes) ()
  requires ids: $g.dht.txIdGenerator != 0 && unlocked($L_dht_TxIdGenerator)
  requires table: $g.dht.rtable != 0 && $L_dht_RouteTable[$g.dht.rtable] == 0 && unlocked($L_dht_Bucket) && rt_ok($dht_Bucket, $dht_NodeInfo, $net_UDPAddr, $dht_RouteTable[$g.dht.rtable]) && $dht_RouteTable[$g.dht.rtable].k <= MAXREFS() && stored($dht_Bucket, $dht_RouteTable[$g.dht.rtable], $dht_RouteTable[$g.dht.rtable].hnode)
  requires server: $g.dht.rpcServer != 0 && $krpc_RpcServer[$g.dht.rpcServer].udpConn != 0 && unlocked($L_misc_SyncMap) && srv_ok($krpc_RpcServer[$g.dht.rpcServer], $misc_SyncMap, $krpc_BaseRequest)
  requires nodes: forall|i: int| 0 <= i < nodes.len() ==> node_there($dht_NodeInfo, $net_UDPAddr, #[trigger] nodes[i]) && $dht_NodeInfo[nodes[i]].Addr != 0
  borrows nodes
  modifies ADDED, IDS, QUERIES, SENT
  modifies dht.RouteTable[$g.dht.rtable]
  modifies dht.Bucket*
  modifies dht.TxIdGenerator[$g.dht.txIdGenerator]
  modifies misc.SyncMap[$krpc_RpcServer[$g.dht.rpcServer].requestMapping]
  allocates dht.Bucket
  allocates krpc.BaseRequest
  allocates misc.Error
  decreases 0
  entry lemma_taken(old($ADDED).len() as int)
  ensures offered: offered(old($ADDED), $ADDED, $g.dht.rtable, nodes, nodes.len() as int)
  ensures queried: queried(old($QUERIES), $QUERIES, taken($ADDED, old($ADDED).len() as int), old($IDS), $IDS, $g.dht.rpcServer, $g.dht.localNodeId, $dht_NodeInfo, $net_UDPAddr)
  ensures table: rt_ok($dht_Bucket, $dht_NodeInfo, $net_UDPAddr, $dht_RouteTable[$g.dht.rtable])
  ensures server: srv_ok($krpc_RpcServer[$g.dht.rpcServer], $misc_SyncMap, $krpc_BaseRequest)
  loop 1 (idx i, over vs)
    invariant offered: offered(old($ADDED), $ADDED, $g.dht.rtable, vs, i)
    invariant queried: queried(old($QUERIES), $QUERIES, taken($ADDED, old($ADDED).len() as int), old($IDS), $IDS, $g.dht.rpcServer, $g.dht.localNodeId, $dht_NodeInfo, $net_UDPAddr)
    invariant table: rt_ok($dht_Bucket, $dht_NodeInfo, $net_UDPAddr, $dht_RouteTable[$g.dht.rtable]) && $dht_RouteTable[$g.dht.rtable].k <= MAXREFS() && stored($dht_Bucket, $dht_RouteTable[$g.dht.rtable], $dht_RouteTable[$g.dht.rtable].hnode)
    invariant server: srv_ok($krpc_RpcServer[$g.dht.rpcServer], $misc_SyncMap, $krpc_BaseRequest)

// what a handler of responses may assume, and keeps
func dht.genericRespHandler(ctx) ()
  requires ctx: ctx != 0 && ctx->req != 0 && ctx->resp != 0
  requires ids: $g.dht.txIdGenerator != 0 && unlocked($L_dht_TxIdGenerator)
  requires table: $g.dht.rtable != 0 && $L_dht_RouteTable[$g.dht.rtable] == 0 && unlocked($L_dht_Bucket) && rt_ok($dht_Bucket, $dht_NodeInfo, $net_UDPAddr, $dht_RouteTable[$g.dht.rtable]) && $dht_RouteTable[$g.dht.rtable].k <= MAXREFS() && stored($dht_Bucket, $dht_RouteTable[$g.dht.rtable], $dht_RouteTable[$g.dht.rtable].hnode)
  requires alloc: rt_alloc($dht_Bucket, $dht_NodeInfo, $net_UDPAddr, $dht_RouteTable[$g.dht.rtable])
  requires server: $g.dht.rpcServer != 0 && $krpc_RpcServer[$g.dht.rpcServer].udpConn != 0 && unlocked($L_misc_SyncMap) && srv_ok($krpc_RpcServer[$g.dht.rpcServer], $misc_SyncMap, $krpc_BaseRequest)
  modifies ADDED, IDS, QUERIES, SENT
  modifies dht.RouteTable[$g.dht.rtable]
  modifies dht.Bucket*
  modifies dht.TxIdGenerator[$g.dht.txIdGenerator]
  modifies misc.SyncMap[$krpc_RpcServer[$g.dht.rpcServer].requestMapping]
  allocates dht.Bucket
  allocates dht.NodeInfo
  allocates net.UDPAddr
  allocates krpc.BaseRequest
  allocates misc.Error
  panics may
  decreases 1
  entry lemma_rt_kept_all($dht_Bucket, $dht_NodeInfo, $net_UDPAddr, $dht_RouteTable[$g.dht.rtable])
  ensures listed: found(ctx, $krpc_RpcContext, $krpc_BaseRequest) ==> has_str($krpc_BaseResponse[ctx->resp].body.m, @"nodes") && listed(old($ADDED), $ADDED, $g.dht.rtable, $krpc_BaseResponse[ctx->resp].body.m[@"nodes"]->Str_0, $dht_NodeInfo, $net_UDPAddr)
  ensures queried: found(ctx, $krpc_RpcContext, $krpc_BaseRequest) ==> queried(old($QUERIES), $QUERIES, taken($ADDED, old($ADDED).len() as int), old($IDS), $IDS, $g.dht.rpcServer, $g.dht.localNodeId, $dht_NodeInfo, $net_UDPAddr)
  ensures others: !found(ctx, $krpc_RpcContext, $krpc_BaseRequest) ==> $QUERIES == old($QUERIES) && $SENT == old($SENT)
  ensures table: rt_ok($dht_Bucket, $dht_NodeInfo, $net_UDPAddr, $dht_RouteTable[$g.dht.rtable])
  ensures server: srv_ok($krpc_RpcServer[$g.dht.rpcServer], $misc_SyncMap, $krpc_BaseRequest)
  xensures silent: $QUERIES == old($QUERIES) && $SENT == old($SENT)
  xensures table: rt_ok($dht_Bucket, $dht_NodeInfo, $net_UDPAddr, $dht_RouteTable[$g.dht.rtable])
  xensures cause: !found(ctx, $krpc_RpcContext, $krpc_BaseRequest) || !has_str($krpc_BaseResponse[ctx->resp].body.m, @"nodes") || !has_str($krpc_BaseResponse[ctx->resp].body.m, @"id")

cone C19: dht.genericRespHandler dht.findNodeRespHandler
theory C19: net bencode misc node rtable krpc discover

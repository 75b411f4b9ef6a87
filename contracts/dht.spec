// ---- query handlers ----
// the download jobs handed to the fetcher, in order
ghost CH_krpc_RpcContext: Seq<(int, int)>
extern sha1.Sum(data) (r)
  ensures digest: r =~= sha1_of(data)
globalinv dht.localNodeId: self.len() == 20

func dht.WithPingResponse(txId, nodeId) (r)
  entry lemma_flat()
  allocates krpc.BaseResponse
  fresh r
  ensures reply: reply_to($krpc_BaseResponse[r], txId, nodeId)
func dht.WithFindNodeResponse(txId, nodeId, nodes) (r)
  entry lemma_flat()
  requires stored: forall|i: int| 0 <= i < nodes.len() ==> (#[trigger] nodes[i]) != 0 && $dht_NodeInfo[nodes[i]].Addr != 0
  allocates krpc.BaseResponse
  fresh r
  ensures reply: reply_to($krpc_BaseResponse[r], txId, nodeId)
  ensures nodes: body_str($krpc_BaseResponse[r].body, @"nodes", nodes_text($dht_NodeInfo, $net_UDPAddr, nodes))
func dht.WithGetPeersNodesResponse(txId, nodeId, token, nodes) (r)
  entry lemma_flat()
  requires stored: forall|i: int| 0 <= i < nodes.len() ==> (#[trigger] nodes[i]) != 0 && $dht_NodeInfo[nodes[i]].Addr != 0
  allocates krpc.BaseResponse
  fresh r
  ensures reply: reply_to($krpc_BaseResponse[r], txId, nodeId)
  ensures nodes: body_str($krpc_BaseResponse[r].body, @"nodes", nodes_text($dht_NodeInfo, $net_UDPAddr, nodes))
  ensures token: body_str($krpc_BaseResponse[r].body, @"token", token)
func dht.WithGetPeersValsResponse(txId, nodeId, token, addrs) (r)
  requires stored: forall|i: int| 0 <= i < addrs.len() ==> (#[trigger] addrs[i]) != 0
  allocates krpc.BaseResponse
  fresh r
  ensures fields: $krpc_BaseResponse[r].txId == txId && !$krpc_BaseResponse[r].isErr && !$krpc_BaseResponse[r].body.nil
  ensures id: body_str($krpc_BaseResponse[r].body, @"id", nodeId)
  ensures token: body_str($krpc_BaseResponse[r].body, @"token", token)
func dht.WithAnnouncePeerResponse(txId, nodeId) (r)
  entry lemma_flat()
  allocates krpc.BaseResponse
  fresh r
  ensures reply: reply_to($krpc_BaseResponse[r], txId, nodeId)

func dht.pingHandler(ctx) ()
  requires ctx != 0 && ctx->req != 0
  modifies krpc.RpcContext[ctx]
  allocates krpc.BaseResponse
  ensures kept: ctx_kept(old($krpc_RpcContext)[ctx], $krpc_RpcContext[ctx])
  ensures reply: answered(old($krpc_BaseResponse), $krpc_BaseResponse, ctx->resp, $krpc_BaseRequest[ctx->req].txId, $g.dht.localNodeId)

func dht.findNodeHandler(ctx) ()
  requires ctx != 0 && ctx->req != 0
  modifies krpc.RpcContext[ctx]
  allocates krpc.BaseResponse
  ensures kept: ctx_kept(old($krpc_RpcContext)[ctx], $krpc_RpcContext[ctx])
  ensures reply: answered(old($krpc_BaseResponse), $krpc_BaseResponse, ctx->resp, $krpc_BaseRequest[ctx->req].txId, $g.dht.localNodeId)
  ensures nodes: lists_nodes($krpc_BaseResponse[ctx->resp].body, $dht_NodeInfo, $net_UDPAddr)
  entry lemma_no_nodes($dht_NodeInfo, $net_UDPAddr)

func dht.getPeersHandler(ctx) ()
  requires ctx != 0 && ctx->req != 0
  modifies krpc.RpcContext[ctx]
  allocates krpc.BaseResponse
  allocates misc.Error
  panics iff !has_str($krpc_BaseRequest[ctx->req].body.m, @"info_hash")
  xensures biz: biz_err(pv, $misc_Error)
  xensures no_reply: $krpc_RpcContext[ctx] == old($krpc_RpcContext)[ctx]
  ensures kept: ctx_kept(old($krpc_RpcContext)[ctx], $krpc_RpcContext[ctx])
  ensures reply: answered(old($krpc_BaseResponse), $krpc_BaseResponse, ctx->resp, $krpc_BaseRequest[ctx->req].txId, $g.dht.localNodeId)
  ensures nodes: lists_nodes($krpc_BaseResponse[ctx->resp].body, $dht_NodeInfo, $net_UDPAddr)
  ensures token: body_str($krpc_BaseResponse[ctx->resp].body, @"token", $krpc_BaseRequest[ctx->req].txId)
  entry lemma_no_nodes($dht_NodeInfo, $net_UDPAddr)

func dht.announcePeerHandler(ctx) ()
  requires ctx != 0 && ctx->req != 0
  modifies krpc.RpcContext[ctx], CH_krpc_RpcContext
  allocates krpc.BaseResponse
  allocates misc.Error
  panics iff !announce_ok($krpc_BaseRequest[ctx->req].body.m)
  xensures biz: biz_err(pv, $misc_Error)
  xensures no_reply: $krpc_RpcContext[ctx] == old($krpc_RpcContext)[ctx]
  xensures no_job: $CH_krpc_RpcContext == old($CH_krpc_RpcContext)
  ensures kept: ctx_kept(old($krpc_RpcContext)[ctx], $krpc_RpcContext[ctx])
  ensures reply: answered(old($krpc_BaseResponse), $krpc_BaseResponse, ctx->resp, $krpc_BaseRequest[ctx->req].txId, $g.dht.localNodeId)
  ensures job: $CH_krpc_RpcContext == old($CH_krpc_RpcContext).push(($g.dht.recvInfoHash, ctx))

lemmas C18: lemma_reply_encodable
cone C18: dht.pingHandler dht.findNodeHandler dht.getPeersHandler dht.announcePeerHandler dht.WithGetPeersValsResponse
theory C18: net bencode misc node krpc dht

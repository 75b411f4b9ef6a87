// ---- shared string-keyed tables ----
guarded misc_SyncMap: mapping
interfered misc_SyncMap dht_TxIdGenerator dht_RouteTable
interfered dht_Bucket: bucket_ok(self, self.cap)
func misc.NewSyncMap(captity) (r)
  requires size: captity >= 0
  allocates misc.SyncMap
  fresh r
  ensures empty: !r->mapping.nil && r->mapping.m =~= Map::<Seq<u8>, Val>::empty()
func misc.SyncMap.Put(m, key, handler) ()
  requires m != 0 && $L_misc_SyncMap[m] == 0 && !m->mapping.nil
  modifies misc.SyncMap[m]
  ensures stored: m->mapping.m == old($misc_SyncMap)[m].mapping.m.insert(key, handler) && !m->mapping.nil
func misc.SyncMap.Get(m, key) (v, ok)
  requires m != 0 && $L_misc_SyncMap[m] == 0
  ensures found: ok == m->mapping.m.dom().contains(key) && v == (if ok { m->mapping.m[key] } else { Val::Nil })
func misc.SyncMap.Del(m, key) ()
  requires m != 0 && $L_misc_SyncMap[m] == 0
  modifies misc.SyncMap[m]
  ensures removed: m->mapping.m =~= old($misc_SyncMap)[m].mapping.m.remove(key) && m->mapping.nil == old($misc_SyncMap)[m].mapping.nil

// ---- ghost trace ----
// CALLS: handler invocations, in order, with the context given to them
ghost CALLS: Seq<(int, int)>
// SENT: datagrams handed to the socket: content, destination, the pending-request tables at that time
// SEEN: the response a context held when a handler was given it (one entry per invocation not nested in another)
ghost SEEN: Seq<int>
ghost SENT: Seq<(Seq<u8>, S_net_UDPAddr, Map<int, S_misc_SyncMap>)>
// HS: how many of them were sent by handlers
ghost HS: int
// ESC: the last handler invoked from outside a handler ended in a panic
ghost ESC: bool

extern net.UDPConn.WriteToUDP(conn, b, addr) (n, err)
  modifies SENT
  ensures err == 0 ==> addr != 0 && $SENT == old($SENT).push((b, $net_UDPAddr[addr], $misc_SyncMap))
  ensures err != 0 ==> $SENT == old($SENT)

// A handler or middleware.  It is called with the context, may continue the chain (Next) any number of times, may
// recover from panics of the handlers it continued to, may send queries, and may panic.
funcvalue krpc.RpcHandlerFunc(h, ctx) ()
  requires ctx: ctx != 0 && ctx->index >= -1 && unlocked($L_misc_SyncMap)
  modifies CALLS, SEEN, SENT, HS, ESC, misc.SyncMap*, krpc.RpcContext[ctx]
  allocates krpc.BaseRequest
  allocates krpc.BaseResponse
  allocates krpc.RpcContext
  allocates misc.SyncMap
  allocates misc.Error
  allocates net.UDPAddr
  panics may
  ensures ctx: ctx_kept(old($krpc_RpcContext)[ctx], $krpc_RpcContext[ctx])
  ensures ran: ran(old($CALLS).push((h, ctx)), old($krpc_RpcContext)[ctx].index, $CALLS, ctx->index, ctx->chain, ctx)
  ensures sends: old($HS) <= $HS && $SENT.len() - old($SENT).len() == $HS - old($HS)
  ensures servers: tables_kept(old($misc_SyncMap), $misc_SyncMap, old($krpc_BaseRequest), $krpc_BaseRequest)
  ensures normal: !$ESC
  ensures seen: starts_with(old($SEEN).push(old($krpc_RpcContext)[ctx].resp), $SEEN)
  xensures seen: starts_with(old($SEEN).push(old($krpc_RpcContext)[ctx].resp), $SEEN)
  xensures ctx: ctx_kept(old($krpc_RpcContext)[ctx], $krpc_RpcContext[ctx])
  xensures ran: ran(old($CALLS).push((h, ctx)), old($krpc_RpcContext)[ctx].index, $CALLS, ctx->index, ctx->chain, ctx)
  xensures sends: old($HS) <= $HS && $SENT.len() - old($SENT).len() == $HS - old($HS)
  xensures servers: tables_kept(old($misc_SyncMap), $misc_SyncMap, old($krpc_BaseRequest), $krpc_BaseRequest)
  xensures escaped: $ESC

// ---- middleware chain ----
func krpc.RpcContext.Next(c) ()
  mathint
  requires c != 0 && c->index >= -1 && unlocked($L_misc_SyncMap)
  modifies CALLS, SEEN, SENT, HS, ESC, misc.SyncMap*, krpc.RpcContext[c]
  allocates krpc.BaseRequest
  allocates krpc.BaseResponse
  allocates krpc.RpcContext
  allocates misc.SyncMap
  allocates misc.Error
  allocates net.UDPAddr
  panics may
  ensures ctx: ctx_kept(old($krpc_RpcContext)[c], $krpc_RpcContext[c]) && c->index >= c->chain.len()
  ensures ran: ran_rest(old($CALLS), old($krpc_RpcContext)[c].index, $CALLS, c->chain, c)
  ensures sends: old($HS) <= $HS && $SENT.len() - old($SENT).len() == $HS - old($HS)
  ensures servers: tables_kept(old($misc_SyncMap), $misc_SyncMap, old($krpc_BaseRequest), $krpc_BaseRequest)
  ensures seen: seen(old($SEEN), $SEEN, old($krpc_RpcContext)[c].resp, $CALLS.len() > old($CALLS).len())
  xensures seen: seen(old($SEEN), $SEEN, old($krpc_RpcContext)[c].resp, $CALLS.len() > old($CALLS).len())
  xensures ctx: ctx_kept(old($krpc_RpcContext)[c], $krpc_RpcContext[c])
  xensures ran: ran(old($CALLS), old($krpc_RpcContext)[c].index, $CALLS, c->index, c->chain, c)
  xensures sends: old($HS) <= $HS && $SENT.len() - old($SENT).len() == $HS - old($HS)
  xensures servers: tables_kept(old($misc_SyncMap), $misc_SyncMap, old($krpc_BaseRequest), $krpc_BaseRequest)
  xensures cause: $ESC || has_nil(c->chain)
  loop 1 ()
    invariant ctx: ctx_kept(old($krpc_RpcContext)[c], $krpc_RpcContext[c])
    invariant ran: ran(old($CALLS), old($krpc_RpcContext)[c].index, $CALLS, c->index - 1, c->chain, c)
    invariant sends: old($HS) <= $HS && $SENT.len() - old($SENT).len() == $HS - old($HS)
    invariant servers: tables_kept(old($misc_SyncMap), $misc_SyncMap, old($krpc_BaseRequest), $krpc_BaseRequest)
    invariant seen: seen(old($SEEN), $SEEN, old($krpc_RpcContext)[c].resp, $CALLS.len() > old($CALLS).len()) && ($SEEN.len() == old($SEEN).len() ==> c->resp == old($krpc_RpcContext)[c].resp)
    decreases c->chain.len() - c->index
    begin lemma_ran_step(old($CALLS), old($krpc_RpcContext)[c].index, $CALLS, c->index, c->chain, c)
    begin lemma_seen_step(old($SEEN), $SEEN, old($krpc_RpcContext)[c].resp, c->resp)

func krpc.NewReqContext(chain, req, resp, addr) (r)
  allocates krpc.RpcContext
  fresh r
  ensures fields: r->chain == chain && r->index == -1 && r->req == req && r->resp == resp && r->addr == addr
func krpc.RpcServer.UseReqHandlerMiddleware(s, handlers) ()
  borrows handlers
  requires s != 0
  modifies krpc.RpcServer[s]
  ensures appended: server_with(old($krpc_RpcServer)[s], $krpc_RpcServer[s], old($krpc_RpcServer)[s].reqHandlerChain + handlers, old($krpc_RpcServer)[s].respHandlerChain)
func krpc.RpcServer.UseRespHandlerMiddleware(s, handlers) ()
  borrows handlers
  requires s != 0
  modifies krpc.RpcServer[s]
  ensures appended: server_with(old($krpc_RpcServer)[s], $krpc_RpcServer[s], old($krpc_RpcServer)[s].reqHandlerChain, old($krpc_RpcServer)[s].respHandlerChain + handlers)

func krpc.RpcServer.doRequestHandle(s, req, reqHandler, addr) (ret)
  requires s != 0 && unlocked($L_misc_SyncMap)
  modifies CALLS, SEEN, SENT, HS, ESC, misc.SyncMap*
  allocates krpc.BaseRequest
  allocates krpc.BaseResponse
  allocates krpc.RpcContext
  allocates misc.SyncMap
  allocates misc.Error
  allocates net.UDPAddr
  panics may
  entry lemma_runs(old($CALLS), s->reqHandlerChain.push(reqHandler))
  before krpc.RpcContext.Next assert($krpc_RpcContext[arg0].chain =~= s->reqHandlerChain.push(reqHandler))
  ensures ran: exists|c: int| #[trigger] run_with(old($CALLS), $CALLS, s->reqHandlerChain.push(reqHandler), c) && ctx_is(old($krpc_RpcContext), $krpc_RpcContext, c, req, addr) && ret == $krpc_RpcContext[c].resp
  ensures sends: old($HS) <= $HS && $SENT.len() - old($SENT).len() == $HS - old($HS)
  ensures servers: tables_kept(old($misc_SyncMap), $misc_SyncMap, old($krpc_BaseRequest), $krpc_BaseRequest)
  xensures ran: part_of(old($CALLS), $CALLS, s->reqHandlerChain.push(reqHandler), old($krpc_RpcContext), $krpc_RpcContext, req, addr)
  xensures sends: old($HS) <= $HS && $SENT.len() - old($SENT).len() == $HS - old($HS)
  xensures servers: tables_kept(old($misc_SyncMap), $misc_SyncMap, old($krpc_BaseRequest), $krpc_BaseRequest)
  xensures cause: $ESC || has_nil(s->reqHandlerChain.push(reqHandler))

func krpc.RpcServer.doResponseHandle(s, req, resp, addr) ()
  requires s != 0 && req != 0 && unlocked($L_misc_SyncMap)
  modifies CALLS, SEEN, SENT, HS, ESC, misc.SyncMap*
  allocates krpc.BaseRequest
  allocates krpc.BaseResponse
  allocates krpc.RpcContext
  allocates misc.SyncMap
  allocates misc.Error
  allocates net.UDPAddr
  panics may
  entry lemma_runs(old($CALLS), s->respHandlerChain.push(old($krpc_BaseRequest)[req].handler))
  before krpc.RpcContext.Next assert($krpc_RpcContext[arg0].chain =~= s->respHandlerChain.push(old($krpc_BaseRequest)[req].handler))
  ensures ran: exists|c: int| #[trigger] run_with(old($CALLS), $CALLS, s->respHandlerChain.push(old($krpc_BaseRequest)[req].handler), c) && ctx_is(old($krpc_RpcContext), $krpc_RpcContext, c, req, addr)
  ensures sends: old($HS) <= $HS && $SENT.len() - old($SENT).len() == $HS - old($HS)
  ensures servers: tables_kept(old($misc_SyncMap), $misc_SyncMap, old($krpc_BaseRequest), $krpc_BaseRequest)
  ensures seen: first_seen(old($SEEN), $SEEN, resp, old($CALLS), $CALLS)
  xensures seen: first_seen(old($SEEN), $SEEN, resp, old($CALLS), $CALLS)
  xensures ran: part_of(old($CALLS), $CALLS, s->respHandlerChain.push(old($krpc_BaseRequest)[req].handler), old($krpc_RpcContext), $krpc_RpcContext, req, addr)
  xensures sends: old($HS) <= $HS && $SENT.len() - old($SENT).len() == $HS - old($HS)
  xensures servers: tables_kept(old($misc_SyncMap), $misc_SyncMap, old($krpc_BaseRequest), $krpc_BaseRequest)

cone C09: krpc.RpcContext.Next krpc.RpcServer.UseReqHandlerMiddleware krpc.RpcServer.UseRespHandlerMiddleware krpc.RpcServer.doRequestHandle krpc.RpcServer.doResponseHandle
theory C09: net bencode misc krpc
lemmas C09: lemma_many_next

// ---- messages ----
func krpc.BaseResponse.RawData(b) (r)
  requires b != 0
  allocates misc.Error
  panics iff b->isErr && !err_body(b->body)
  ensures entries: r.m =~= raw_response($krpc_BaseResponse[b]).m && !r.nil
  ensures raw: r == raw_response($krpc_BaseResponse[b]) && !r.nil
  xensures biz: biz_err(pv, $misc_Error)
func krpc.BaseRequest.RawData(b) (r)
  requires b != 0
  ensures entries: r.m =~= raw_request($krpc_BaseRequest[b]).m && !r.nil
  ensures raw: r == raw_request($krpc_BaseRequest[b])
func krpc.WithResponse(txId, resp) (r)
  allocates krpc.BaseResponse
  fresh r
  ensures fields: response_is($krpc_BaseResponse[r], txId, resp)
func krpc.WithErr(txId, code, errMsg) (r)
  allocates krpc.BaseResponse
  fresh r
  ensures fields: error_reply($krpc_BaseResponse[r], txId, code) && $krpc_BaseResponse[r].body.m[@"msg"] == Val::Str(errMsg)
func krpc.WithParamErr(txId, msg) (r)
  allocates krpc.BaseResponse
  fresh r
  ensures fields: error_reply($krpc_BaseResponse[r], txId, 203)
func krpc.NewBaseRequest(txId, qtype, body, handler) (r)
  allocates krpc.BaseRequest
  fresh r
  ensures fields: request_is($krpc_BaseRequest[r], txId, qtype, body, handler)

// ---- sending ----
func krpc.UdpServer.SendPacket(s, bytes, raddr) (err)
  requires s != 0
  modifies SENT
  ensures sent: err == 0 ==> raddr != 0 && $SENT == old($SENT).push((bytes, $net_UDPAddr[raddr], $misc_SyncMap))
  ensures not_sent: err != 0 ==> $SENT == old($SENT)

func krpc.RpcServer.Query(s, raddr, req) (err)
  requires s != 0 && req != 0 && s->udpConn != 0 && unlocked($L_misc_SyncMap)
  requires ok: srv_ok($krpc_RpcServer[s], $misc_SyncMap, $krpc_BaseRequest)
  records QUERIES: $QUERIES.push((s, $net_UDPAddr[raddr], $krpc_BaseRequest[req], $IDS.len() as int))
  modifies misc.SyncMap[s->requestMapping], SENT, QUERIES
  ensures recorded: $QUERIES == old($QUERIES).push((s, $net_UDPAddr[raddr], $krpc_BaseRequest[req], $IDS.len() as int))
  allocates misc.Error
  ensures registered: $misc_SyncMap[s->requestMapping].mapping.m == old($misc_SyncMap)[s->requestMapping].mapping.m.insert(req->txId, Val::Ref(tag_krpc_BaseRequest(), req)) && !$misc_SyncMap[s->requestMapping].mapping.nil
  ensures sent: err == 0 ==> sent_query(old($SENT), $SENT, $krpc_BaseRequest[req], req, raddr, $net_UDPAddr, s->requestMapping)
  ensures failed: err != 0 ==> $SENT == old($SENT)
  ensures unencodable: !encodable(Val::Dict(raw_request($krpc_BaseRequest[req]))) ==> err != 0

cone C10: krpc.RpcServer.Query krpc.BaseRequest.RawData krpc.BaseResponse.RawData krpc.WithResponse krpc.WithErr krpc.WithParamErr krpc.NewBaseRequest
theory C10: net bencode misc krpc

func dht.WithPingMsg(txId, nodeId, handler) (r)
  allocates krpc.BaseRequest
  fresh r
  ensures message: request_is($krpc_BaseRequest[r], txId, @"ping", $krpc_BaseRequest[r].body, handler)
  ensures args: $krpc_BaseRequest[r].body.m =~= map![@"id" => Val::Str(nodeId)] && !$krpc_BaseRequest[r].body.nil
func dht.WithFindNodeMsg(txId, nodeId, target, handler) (r)
  allocates krpc.BaseRequest
  fresh r
  ensures message: request_is($krpc_BaseRequest[r], txId, @"find_node", $krpc_BaseRequest[r].body, handler)
  ensures args: $krpc_BaseRequest[r].body.m =~= map![@"id" => Val::Str(nodeId), @"target" => Val::Str(target)] && !$krpc_BaseRequest[r].body.nil
func dht.WithGetPeersMsg(txId, nodeId, infoHash, handler) (r)
  allocates krpc.BaseRequest
  fresh r
  ensures message: request_is($krpc_BaseRequest[r], txId, @"get_peers", $krpc_BaseRequest[r].body, handler)
  ensures args: $krpc_BaseRequest[r].body.m =~= map![@"id" => Val::Str(nodeId), @"info_hash" => Val::Str(infoHash)] && !$krpc_BaseRequest[r].body.nil
func dht.WithAnnouncePeerMsg(txId, nodeId, infoHash, token, port, handler) (r)
  allocates krpc.BaseRequest
  fresh r
  ensures message: request_is($krpc_BaseRequest[r], txId, @"announce_peer", $krpc_BaseRequest[r].body, handler)
  ensures args: $krpc_BaseRequest[r].body.m =~= map![@"id" => Val::Str(nodeId), @"info_hash" => Val::Str(infoHash), @"port" => Val::Int(port), @"token" => Val::Str(token), @"implied_port" => Val::Int(0)] && !$krpc_BaseRequest[r].body.nil
cone C10: dht.WithPingMsg dht.WithFindNodeMsg dht.WithGetPeersMsg dht.WithAnnouncePeerMsg

// ---- receiving ----
globalinv krpc.supportQueryType: supported_list(self)
func krpc.RpcServer.RegisteHandler(s, qType, handler) ()
  requires s != 0 && unlocked($L_misc_SyncMap)
  requires ok: srv_ok($krpc_RpcServer[s], $misc_SyncMap, $krpc_BaseRequest)
  modifies misc.SyncMap[s->reqestHandlerRouter]
  allocates misc.Error
  panics iff !supported(qType) || handler == 0
  ensures registered: $misc_SyncMap[s->reqestHandlerRouter].mapping.m == old($misc_SyncMap)[s->reqestHandlerRouter].mapping.m.insert(qType, Val::Fn(tagv_krpc_RpcHandlerFunc(), handler))
  ensures ok: srv_ok($krpc_RpcServer[s], $misc_SyncMap, $krpc_BaseRequest)
  xensures unchanged: $misc_SyncMap[s->reqestHandlerRouter] == old($misc_SyncMap)[s->reqestHandlerRouter]

func krpc.RpcServer.requestHandle(s, addr, resp) (ret)
  requires s != 0 && unlocked($L_misc_SyncMap)
  requires ok: srv_ok($krpc_RpcServer[s], $misc_SyncMap, $krpc_BaseRequest)
  modifies CALLS, SEEN, SENT, HS, ESC, STACK, misc.SyncMap*
  allocates krpc.BaseRequest
  allocates krpc.BaseResponse
  allocates krpc.RpcContext
  allocates misc.SyncMap
  allocates misc.Error
  allocates net.UDPAddr
  panics may
  ensures header: has_str(resp.m, @"t") && has_str(resp.m, @"q")
  ensures rejected: !accepted(resp.m, router_of($krpc_RpcServer[s], old($misc_SyncMap))) ==> $CALLS == old($CALLS) && $SENT == old($SENT) && ret != 0 && error_reply($krpc_BaseResponse[ret], resp.m[@"t"]->Str_0, 203)
  ensures accepted: accepted(resp.m, router_of($krpc_RpcServer[s], old($misc_SyncMap))) ==> handled(resp.m, $krpc_RpcServer[s].reqHandlerChain.push(handler_for(resp.m, router_of($krpc_RpcServer[s], old($misc_SyncMap)))), old($CALLS), $CALLS, old($krpc_RpcContext), $krpc_RpcContext, old($krpc_BaseRequest), $krpc_BaseRequest, $krpc_BaseResponse, addr, ret, $ESC)
  ensures sends: old($HS) <= $HS && $SENT.len() - old($SENT).len() == $HS - old($HS)
  ensures servers: tables_kept(old($misc_SyncMap), $misc_SyncMap, old($krpc_BaseRequest), $krpc_BaseRequest)
  xensures cause: !has_str(resp.m, @"t") || !has_str(resp.m, @"q") || accepted(resp.m, router_of($krpc_RpcServer[s], old($misc_SyncMap)))
  xensures raised: accepted(resp.m, router_of($krpc_RpcServer[s], old($misc_SyncMap))) && has_str(resp.m, @"t") ==> part_handled(resp.m, $krpc_RpcServer[s].reqHandlerChain.push(handler_for(resp.m, router_of($krpc_RpcServer[s], old($misc_SyncMap)))), old($CALLS), $CALLS, old($krpc_RpcContext), $krpc_RpcContext, old($krpc_BaseRequest), $krpc_BaseRequest, addr)
  xensures rejected: !accepted(resp.m, router_of($krpc_RpcServer[s], old($misc_SyncMap))) ==> $CALLS == old($CALLS)
  xensures sends: old($HS) <= $HS && $SENT.len() - old($SENT).len() == $HS - old($HS)
  xensures servers: tables_kept(old($misc_SyncMap), $misc_SyncMap, old($krpc_BaseRequest), $krpc_BaseRequest)

cone C06: krpc.RpcServer.requestHandle krpc.RpcServer.doRequestHandle krpc.RpcServer.RegisteHandler
theory C06: net bencode misc krpc

func krpc.RpcServer.responseHandle(s, addr, dict) ()
  requires s != 0 && unlocked($L_misc_SyncMap)
  requires ok: srv_ok($krpc_RpcServer[s], $misc_SyncMap, $krpc_BaseRequest)
  modifies CALLS, SEEN, SENT, HS, ESC, misc.SyncMap*
  allocates krpc.BaseRequest
  allocates krpc.BaseResponse
  allocates krpc.RpcContext
  allocates misc.SyncMap
  allocates misc.Error
  allocates net.UDPAddr
  panics may
  ensures dropped: has_str(dict.m, @"t") && !pending_of($krpc_RpcServer[s], old($misc_SyncMap)).dom().contains(dict.m[@"t"]->Str_0) ==> $CALLS == old($CALLS) && $SENT == old($SENT) && $misc_SyncMap == old($misc_SyncMap)
  ensures delivered: has_str(dict.m, @"t") && pending_of($krpc_RpcServer[s], old($misc_SyncMap)).dom().contains(dict.m[@"t"]->Str_0) ==> delivered(dict.m, request_for(dict.m, pending_of($krpc_RpcServer[s], old($misc_SyncMap))), $krpc_RpcServer[s].respHandlerChain.push(old($krpc_BaseRequest)[request_for(dict.m, pending_of($krpc_RpcServer[s], old($misc_SyncMap)))].handler), old($CALLS), $CALLS, old($SEEN), $SEEN, old($krpc_RpcContext), $krpc_RpcContext, old($krpc_BaseResponse), $krpc_BaseResponse, addr)
  ensures header: has_str(dict.m, @"t") && dict.m.dom().contains(@"r") && dict.m[@"r"] is Dict && has_str(dict.m[@"r"]->Dict_0.m, @"id")
  ensures sends: old($HS) <= $HS && $SENT.len() - old($SENT).len() == $HS - old($HS)
  ensures servers: tables_kept(old($misc_SyncMap), $misc_SyncMap, old($krpc_BaseRequest), $krpc_BaseRequest)
  xensures dropped: !(has_str(dict.m, @"t") && pending_of($krpc_RpcServer[s], old($misc_SyncMap)).dom().contains(dict.m[@"t"]->Str_0)) ==> $CALLS == old($CALLS)
  xensures part: has_str(dict.m, @"t") && pending_of($krpc_RpcServer[s], old($misc_SyncMap)).dom().contains(dict.m[@"t"]->Str_0) ==> $CALLS == old($CALLS) || part_of(old($CALLS), $CALLS, $krpc_RpcServer[s].respHandlerChain.push(old($krpc_BaseRequest)[request_for(dict.m, pending_of($krpc_RpcServer[s], old($misc_SyncMap)))].handler), old($krpc_RpcContext), $krpc_RpcContext, request_for(dict.m, pending_of($krpc_RpcServer[s], old($misc_SyncMap))), addr)
  xensures sends: old($HS) <= $HS && $SENT.len() - old($SENT).len() == $HS - old($HS)
  xensures servers: tables_kept(old($misc_SyncMap), $misc_SyncMap, old($krpc_BaseRequest), $krpc_BaseRequest)

func krpc.RpcServer.responseErrHandle(s, addr, err) ()
  requires s != 0
  allocates misc.Error
  panics may

cone C08: krpc.RpcServer.responseHandle krpc.RpcServer.responseErrHandle krpc.RpcServer.doResponseHandle krpc.RpcServer.Query krpc.RpcServer.recvPacketHandle
theory C08: net bencode misc pool krpc

globalinv krpc.krpcBytesPool: self != 0 && pool_ok($misc_BytesPool[self])
func krpc.RpcServer.recvPacketHandle(s, packet) ()
  requires s != 0 && s->udpConn != 0 && packet != 0 && unlocked($L_misc_SyncMap)
  requires ok: srv_ok($krpc_RpcServer[s], $misc_SyncMap, $krpc_BaseRequest)
  consumes packet
  modifies CALLS, SEEN, SENT, HS, ESC, STACK, WIDTH, PUTS, misc.SyncMap*
  allocates krpc.BaseRequest
  allocates krpc.BaseResponse
  allocates krpc.RpcContext
  allocates misc.SyncMap
  allocates misc.Error
  allocates net.UDPAddr
  ensures returned: $PUTS == old($PUTS).push(packet->Bytes)
  ensures servers: tables_kept(old($misc_SyncMap), $misc_SyncMap, old($krpc_BaseRequest), $krpc_BaseRequest)
  ensures at_most_one: old($HS) <= $HS && $HS - old($HS) <= $SENT.len() - old($SENT).len() <= $HS - old($HS) + 1
  ensures reply: $SENT.len() - old($SENT).len() > $HS - old($HS) ==> replied(dict_of(packet->Bytes), $krpc_RpcServer[s], old($misc_SyncMap), old($CALLS), $CALLS, old($krpc_RpcContext), $krpc_RpcContext, old($krpc_BaseRequest), $krpc_BaseRequest, $krpc_BaseResponse, packet->Addr, $ESC, $SENT.last().0) && packet->Addr != 0 && $SENT.last().1 == $net_UDPAddr[packet->Addr]
  ensures quiet: !runs_handlers(packet->Bytes) ==> $CALLS == old($CALLS)
  ensures response: kind_is(packet->Bytes, @"r") && !pending_of($krpc_RpcServer[s], old($misc_SyncMap)).dom().contains(dict_of(packet->Bytes)[@"t"]->Str_0) ==> $CALLS == old($CALLS)
  ensures delivered: kind_is(packet->Bytes, @"r") && pending_of($krpc_RpcServer[s], old($misc_SyncMap)).dom().contains(dict_of(packet->Bytes)[@"t"]->Str_0) ==> $CALLS == old($CALLS) || delivered(dict_of(packet->Bytes), request_for(dict_of(packet->Bytes), pending_of($krpc_RpcServer[s], old($misc_SyncMap))), $krpc_RpcServer[s].respHandlerChain.push(old($krpc_BaseRequest)[request_for(dict_of(packet->Bytes), pending_of($krpc_RpcServer[s], old($misc_SyncMap)))].handler), old($CALLS), $CALLS, old($SEEN), $SEEN, old($krpc_RpcContext), $krpc_RpcContext, old($krpc_BaseResponse), $krpc_BaseResponse, packet->Addr) || part_of(old($CALLS), $CALLS, $krpc_RpcServer[s].respHandlerChain.push(old($krpc_BaseRequest)[request_for(dict_of(packet->Bytes), pending_of($krpc_RpcServer[s], old($misc_SyncMap)))].handler), old($krpc_RpcContext), $krpc_RpcContext, request_for(dict_of(packet->Bytes), pending_of($krpc_RpcServer[s], old($misc_SyncMap))), packet->Addr)

cone C07: krpc.RpcServer.recvPacketHandle
theory C07: net bencode misc pool krpc

// ---- lock discipline ----
locks C28
cone C28: -
theory C28: net


// ---- handler chains ----
// the invocations of a chain's handlers with one context (a nil handler is never invoked)
pub open spec fn calls_of(chain: Seq<int>, ctx: int) -> Seq<(int, int)>
    decreases chain.len()
{
    if chain.len() == 0 { Seq::empty() } else if chain.last() == 0 { calls_of(chain.drop_last(), ctx) } else { calls_of(chain.drop_last(), ctx).push((chain.last(), ctx)) }
}
pub open spec fn cut(i: int, n: nat) -> int { if i < n { i } else { n as int } }
// between position i and position j of the chain exactly the handlers i+1..=j were invoked, in order
pub open spec fn ran(a: Seq<(int, int)>, i: int, b: Seq<(int, int)>, j: int, chain: Seq<int>, ctx: int) -> bool {
    -1 <= i <= j && b =~= a + calls_of(chain.subrange(cut(i + 1, chain.len()), cut(j + 1, chain.len())), ctx)
}
pub open spec fn has_nil(chain: Seq<int>) -> bool { exists|j: int| 0 <= j < chain.len() && #[trigger] chain[j] == 0 }
pub open spec fn unlocked(l: Map<int, int>) -> bool { forall|r: int| #[trigger] l[r] == 0 }
pub proof fn lemma_calls_cat(a: Seq<int>, b: Seq<int>, ctx: int)
    ensures calls_of(a + b, ctx) =~= calls_of(a, ctx) + calls_of(b, ctx)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_calls_cat(a, b.drop_last(), ctx); }
}
pub proof fn lemma_calls_nonnil(chain: Seq<int>, ctx: int)
    ensures !has_nil(chain) ==> calls_of(chain, ctx) =~= Seq::new(chain.len(), |i: int| (chain[i], ctx))
    decreases chain.len()
{
    if chain.len() > 0 && !has_nil(chain) {
        assert forall|j: int| 0 <= j < chain.drop_last().len() implies #[trigger] chain.drop_last()[j] != 0 by { assert(chain[j] != 0); }
        lemma_calls_nonnil(chain.drop_last(), ctx);
        assert(chain.last() == chain[chain.len() - 1]);
    }
}
pub proof fn lemma_ran_trans(a: Seq<(int, int)>, i: int, b: Seq<(int, int)>, j: int, c: Seq<(int, int)>, k: int, chain: Seq<int>, ctx: int)
    ensures ran(a, i, b, j, chain, ctx) && ran(b, j, c, k, chain, ctx) ==> ran(a, i, c, k, chain, ctx)
{
    if ran(a, i, b, j, chain, ctx) && ran(b, j, c, k, chain, ctx) {
        let (p, q, r) = (cut(i + 1, chain.len()), cut(j + 1, chain.len()), cut(k + 1, chain.len()));
        assert(chain.subrange(p, r) =~= chain.subrange(p, q) + chain.subrange(q, r));
        lemma_calls_cat(chain.subrange(p, q), chain.subrange(q, r), ctx);
    }
}
pub proof fn lemma_ran_one(a: Seq<(int, int)>, j: int, chain: Seq<int>, ctx: int)
    ensures 0 <= j < chain.len() ==> ran(a, j - 1, if chain[j] == 0 { a } else { a.push((chain[j], ctx)) }, j, chain, ctx)
{
    if 0 <= j < chain.len() {
        let s = chain.subrange(j, j + 1);
        assert(s.drop_last() =~= Seq::<int>::empty());
        assert(s.last() == chain[j]);
        assert(calls_of(s.drop_last(), ctx) =~= Seq::<(int, int)>::empty());
        reveal_with_fuel(calls_of, 3);
    }
}
pub proof fn lemma_ran_step(a: Seq<(int, int)>, i: int, b: Seq<(int, int)>, j: int, chain: Seq<int>, ctx: int)
    ensures
        0 <= j < chain.len() && ran(a, i, b, j - 1, chain, ctx) && chain[j] == 0 ==> ran(a, i, b, j, chain, ctx),
        forall|c: Seq<(int, int)>, k: int| 0 <= j < chain.len() && ran(a, i, b, j - 1, chain, ctx) && #[trigger] ran(b.push((chain[j], ctx)), j, c, k, chain, ctx) && chain[j] != 0 ==> ran(a, i, c, k, chain, ctx),
{
    if 0 <= j < chain.len() && ran(a, i, b, j - 1, chain, ctx) {
        lemma_ran_one(b, j, chain, ctx);
        if chain[j] == 0 { lemma_ran_trans(a, i, b, j - 1, b, j, chain, ctx); }
        else {
            let b2 = b.push((chain[j], ctx));
            lemma_ran_trans(a, i, b, j - 1, b2, j, chain, ctx);
            assert forall|c: Seq<(int, int)>, k: int| #[trigger] ran(b2, j, c, k, chain, ctx) implies ran(a, i, c, k, chain, ctx) by { lemma_ran_trans(a, i, b2, j, c, k, chain, ctx); }
        }
    }
}
// a handler that continues the chain any number of times (and may recover in between) meets the handler contract:
// nothing run keeps the relation, and each continuation extends it
pub proof fn lemma_many_next(chain: Seq<int>, ctx: int, trace: Seq<Seq<(int, int)>>, at: Seq<int>)
    requires
        trace.len() == at.len(), trace.len() > 0, at[0] >= -1,
        forall|n: int| 0 <= n < trace.len() - 1 ==> #[trigger] ran(trace[n], at[n], trace[n + 1], at[n + 1], chain, ctx),
    ensures ran(trace[0], at[0], trace.last(), at.last(), chain, ctx)
    decreases trace.len()
{
    if trace.len() == 1 { 
        let p = cut(at[0] + 1, chain.len());
        assert(chain.subrange(p, p) =~= Seq::<int>::empty());
    } else {
        let (t, p) = (trace.drop_last(), at.drop_last());
        assert forall|n: int| 0 <= n < t.len() - 1 implies #[trigger] ran(t[n], p[n], t[n + 1], p[n + 1], chain, ctx) by { assert(ran(trace[n], at[n], trace[n + 1], at[n + 1], chain, ctx)); }
        lemma_many_next(chain, ctx, t, p);
        let n = trace.len() - 2;
        assert(ran(trace[n], at[n], trace[n + 1], at[n + 1], chain, ctx));
        lemma_ran_trans(trace[0], at[0], trace[n], at[n], trace[n + 1], at[n + 1], chain, ctx);
    }
}
pub open spec fn ctx_kept(a: S_krpc_RpcContext, b: S_krpc_RpcContext) -> bool { a.chain == b.chain && a.addr == b.addr && a.req == b.req && a.index <= b.index }
// from position i on, the rest of the chain was invoked
pub open spec fn ran_rest(a: Seq<(int, int)>, i: int, b: Seq<(int, int)>, chain: Seq<int>, ctx: int) -> bool {
    b =~= a + calls_of(chain.skip(cut(i + 1, chain.len())), ctx)
}
// every handler of the chain was invoked, each once, in order, with one context
pub open spec fn run_with(a: Seq<(int, int)>, b: Seq<(int, int)>, chain: Seq<int>, c: int) -> bool { c != 0 && b =~= a + calls_of(chain, c) }
// a context created for this message and holding it
pub open spec fn ctx_is(x0: Map<int, S_krpc_RpcContext>, x1: Map<int, S_krpc_RpcContext>, c: int, req: int, addr: int) -> bool {
    !x0.dom().contains(c) && x1.dom().contains(c) && x1[c].req == req && x1[c].addr == addr
}
// a first part of the chain was invoked, in order, with one context
pub open spec fn run_part(a: Seq<(int, int)>, b: Seq<(int, int)>, chain: Seq<int>, c: int) -> bool {
    c != 0 && exists|n: int| 0 <= n <= chain.len() && b =~= a + calls_of(#[trigger] chain.subrange(0, n), c)
}
pub open spec fn part_of(a: Seq<(int, int)>, b: Seq<(int, int)>, chain: Seq<int>, x0: Map<int, S_krpc_RpcContext>, x1: Map<int, S_krpc_RpcContext>, req: int, addr: int) -> bool {
    exists|c: int| #[trigger] run_part(a, b, chain, c) && ctx_is(x0, x1, c, req, addr)
}
pub proof fn lemma_runs(a: Seq<(int, int)>, t: Seq<int>)
    ensures
        forall|b: Seq<(int, int)>, j: int, chain: Seq<int>, c: int| #[trigger] ran(a, -1, b, j, chain, c) && chain =~= t && c != 0 ==> run_part(a, b, t, c),
        forall|b: Seq<(int, int)>, chain: Seq<int>, c: int| #[trigger] ran_rest(a, -1, b, chain, c) && chain =~= t && c != 0 ==> run_with(a, b, t, c),
{
    assert forall|b: Seq<(int, int)>, j: int, chain: Seq<int>, c: int| #[trigger] ran(a, -1, b, j, chain, c) && chain =~= t && c != 0 implies run_part(a, b, t, c) by {
        let n = cut(j + 1, t.len());
        assert(b =~= a + calls_of(t.subrange(0, n), c));
    }
    assert forall|b: Seq<(int, int)>, chain: Seq<int>, c: int| #[trigger] ran_rest(a, -1, b, chain, c) && chain =~= t && c != 0 implies run_with(a, b, t, c) by {
        assert(chain.skip(0) =~= t);
    }
}
pub open spec fn server_with(a: S_krpc_RpcServer, b: S_krpc_RpcServer, req: Seq<int>, resp: Seq<int>) -> bool {
    b.udpConn == a.udpConn && b.reqestHandlerRouter == a.reqestHandlerRouter && b.requestMapping == a.requestMapping && b.reqHandlerChain =~= req && b.respHandlerChain =~= resp
}
pub open spec fn srv_ok(s: S_krpc_RpcServer, maps: Map<int, S_misc_SyncMap>, reqs: Map<int, S_krpc_BaseRequest>) -> bool {
    &&& s.reqestHandlerRouter != 0 && s.requestMapping != 0 && s.reqestHandlerRouter != s.requestMapping
    &&& maps.dom().contains(s.reqestHandlerRouter) && maps.dom().contains(s.requestMapping)
    &&& !maps[s.reqestHandlerRouter].mapping.nil && !maps[s.requestMapping].mapping.nil
    &&& forall|k: Seq<u8>| #![trigger maps[s.reqestHandlerRouter].mapping.m.dom().contains(k)] #![trigger maps[s.reqestHandlerRouter].mapping.m[k]] maps[s.reqestHandlerRouter].mapping.m.dom().contains(k) ==> is_handler(maps[s.reqestHandlerRouter].mapping.m[k])
    &&& forall|k: Seq<u8>| #![trigger maps[s.requestMapping].mapping.m.dom().contains(k)] #![trigger maps[s.requestMapping].mapping.m[k]] maps[s.requestMapping].mapping.m.dom().contains(k) ==> is_request(maps[s.requestMapping].mapping.m[k], reqs)
}
pub open spec fn is_handler(v: Val) -> bool { v matches Val::Fn(t, h) && t == tagv_krpc_RpcHandlerFunc() && h != 0 }
pub open spec fn is_request(v: Val, reqs: Map<int, S_krpc_BaseRequest>) -> bool { v matches Val::Ref(t, r) && t == tag_krpc_BaseRequest() && r != 0 && reqs.dom().contains(r) }
pub open spec fn tables_kept(m0: Map<int, S_misc_SyncMap>, m1: Map<int, S_misc_SyncMap>, r0: Map<int, S_krpc_BaseRequest>, r1: Map<int, S_krpc_BaseRequest>) -> bool {
    forall|s: S_krpc_RpcServer| srv_ok(s, m0, r0) ==> #[trigger] srv_ok(s, m1, r1)
}

// if any handler ran, the first one found the response r in the context
pub open spec fn seen(a: Seq<int>, b: Seq<int>, r: int, any: bool) -> bool {
    a.len() <= b.len() && b.subrange(0, a.len() as int) =~= a && (b.len() > a.len() ==> b[a.len() as int] == r) && (any ==> b.len() > a.len())
}
pub open spec fn first_seen(s0: Seq<int>, s1: Seq<int>, r: int, a: Seq<(int, int)>, b: Seq<(int, int)>) -> bool { seen(s0, s1, r, b.len() > a.len()) }
pub proof fn lemma_seen_step(a: Seq<int>, m: Seq<int>, r: int, now: int)
    ensures forall|b: Seq<int>| #[trigger] starts_with(m.push(now), b) && seen(a, m, r, false) && (m.len() == a.len() ==> now == r) ==> seen(a, b, r, true) && b.len() > a.len()
{
    assert forall|b: Seq<int>| #[trigger] starts_with(m.push(now), b) && seen(a, m, r, false) && (m.len() == a.len() ==> now == r) implies seen(a, b, r, true) && b.len() > a.len() by {
        let p = b.subrange(0, m.len() as int + 1);
        assert(p =~= m.push(now));
        assert forall|i: int| 0 <= i < a.len() implies b.subrange(0, a.len() as int)[i] == a[i] by {
            assert(p[i] == m.push(now)[i]);
            assert(m.subrange(0, a.len() as int)[i] == a[i]);
        }
        assert(p[a.len() as int] == m.push(now)[a.len() as int]);
    }
}

// ---- messages ----
pub open spec fn err_body(d: Dict) -> bool { d.m.dom().contains(@"code") && d.m[@"code"] is Int && d.m.dom().contains(@"msg") && d.m[@"msg"] is Str }
pub open spec fn raw_response(b: S_krpc_BaseResponse) -> Dict {
    if !b.isErr { Dict { nil: false, m: map![@"t" => Val::Str(b.txId), @"y" => Val::Str(@"r"), @"r" => Val::Dict(b.body)] } }
    else { Dict { nil: false, m: map![@"t" => Val::Str(b.txId), @"y" => Val::Str(@"e"), @"e" => Val::List(List { nil: false, s: seq![b.body.m[@"code"], b.body.m[@"msg"]] })] } }
}
pub open spec fn raw_request(b: S_krpc_BaseRequest) -> Dict {
    Dict { nil: false, m: map![@"t" => Val::Str(b.txId), @"y" => Val::Str(@"q"), @"q" => Val::Str(b.qType), @"a" => Val::Dict(b.body)] }
}
pub open spec fn error_reply(b: S_krpc_BaseResponse, txId: Seq<u8>, code: int) -> bool {
    b.txId == txId && b.isErr && err_body(b.body) && b.body.m[@"code"] == Val::Int(code)
}
// exactly one datagram, to that address, decoding to that request's envelope; by then the request was registered
pub open spec fn sent_query(a: Seq<(Seq<u8>, S_net_UDPAddr, Map<int, S_misc_SyncMap>)>, b: Seq<(Seq<u8>, S_net_UDPAddr, Map<int, S_misc_SyncMap>)>, r: S_krpc_BaseRequest, req: int, to: int, addrs: Map<int, S_net_UDPAddr>, pend: int) -> bool {
    &&& b.len() == a.len() + 1 && b.drop_last() =~= a
    &&& encoded(b.last().0, Val::Dict(raw_request(r)))
    &&& to != 0 && b.last().1 == addrs[to]
    &&& b.last().2[pend].mapping.m.dom().contains(r.txId) && b.last().2[pend].mapping.m[r.txId] == Val::Ref(tag_krpc_BaseRequest(), req)
}
pub open spec fn response_is(b: S_krpc_BaseResponse, t: Seq<u8>, body: Dict) -> bool { b.txId == t && b.body == body && !b.isErr }
pub open spec fn request_is(b: S_krpc_BaseRequest, t: Seq<u8>, q: Seq<u8>, body: Dict, h: int) -> bool { b.txId == t && b.qType == q && b.body == body && b.handler == h }

// ---- queries ----
pub open spec fn has_str(m: Map<Seq<u8>, Val>, k: Seq<u8>) -> bool { m.dom().contains(k) && m[k] is Str }
pub open spec fn supported_list(l: List) -> bool { l.s =~= seq![Val::Str(@"ping"), Val::Str(@"find_node"), Val::Str(@"get_peers"), Val::Str(@"announce_peer")] }
pub open spec fn supported(q: Seq<u8>) -> bool { fold_eq(@"ping", q) || fold_eq(@"find_node", q) || fold_eq(@"get_peers", q) || fold_eq(@"announce_peer", q) }
pub open spec fn router_of(s: S_krpc_RpcServer, maps: Map<int, S_misc_SyncMap>) -> Map<Seq<u8>, Val> { maps[s.reqestHandlerRouter].mapping.m }
pub open spec fn query_ok(m: Map<Seq<u8>, Val>) -> bool {
    has_str(m, @"q") && supported(m[@"q"]->Str_0) && m.dom().contains(@"a") && m[@"a"] is Dict && has_str(m[@"a"]->Dict_0.m, @"id") && (m[@"a"]->Dict_0.m[@"id"]->Str_0).len() == 20
}
pub open spec fn accepted(m: Map<Seq<u8>, Val>, router: Map<Seq<u8>, Val>) -> bool { query_ok(m) && router.dom().contains(m[@"q"]->Str_0) }
pub open spec fn handler_for(m: Map<Seq<u8>, Val>, router: Map<Seq<u8>, Val>) -> int { router[m[@"q"]->Str_0]->Fn_1 }
// the message's transaction id, type and arguments, in a new request
pub open spec fn request_of(m: Map<Seq<u8>, Val>, r0: Map<int, S_krpc_BaseRequest>, r1: Map<int, S_krpc_BaseRequest>, r: int) -> bool {
    r != 0 && !r0.dom().contains(r) && r1[r].txId == m[@"t"]->Str_0 && r1[r].qType == m[@"q"]->Str_0 && r1[r].body == m[@"a"]->Dict_0
}
pub open spec fn part_handled(m: Map<Seq<u8>, Val>, chain: Seq<int>, a: Seq<(int, int)>, b: Seq<(int, int)>, x0: Map<int, S_krpc_RpcContext>, x1: Map<int, S_krpc_RpcContext>, r0: Map<int, S_krpc_BaseRequest>, r1: Map<int, S_krpc_BaseRequest>, addr: int) -> bool {
    exists|c: int, r: int| #[trigger] run_part(a, b, chain, c) && #[trigger] ctx_is(x0, x1, c, r, addr) && request_of(m, r0, r1, r)
}
// the chain ran completely, its handlers saw the query and its source, and ret is what they wrote; or a handler raised a
// business error and ret is the error reply
pub open spec fn handled(m: Map<Seq<u8>, Val>, chain: Seq<int>, a: Seq<(int, int)>, b: Seq<(int, int)>, x0: Map<int, S_krpc_RpcContext>, x1: Map<int, S_krpc_RpcContext>, r0: Map<int, S_krpc_BaseRequest>, r1: Map<int, S_krpc_BaseRequest>, rs: Map<int, S_krpc_BaseResponse>, addr: int, ret: int, esc: bool) -> bool {
    ||| exists|c: int, r: int| #[trigger] run_with(a, b, chain, c) && #[trigger] ctx_is(x0, x1, c, r, addr) && request_of(m, r0, r1, r) && ret == x1[c].resp
    ||| part_handled(m, chain, a, b, x0, x1, r0, r1, addr) && (esc || has_nil(chain)) && ret != 0 && error_reply(rs[ret], m[@"t"]->Str_0, 203)
}

// ---- responses ----
pub open spec fn pending_of(s: S_krpc_RpcServer, maps: Map<int, S_misc_SyncMap>) -> Map<Seq<u8>, Val> { maps[s.requestMapping].mapping.m }
pub open spec fn request_for(m: Map<Seq<u8>, Val>, pend: Map<Seq<u8>, Val>) -> int { pend[m[@"t"]->Str_0]->Ref_1 }
pub open spec fn response_to(m: Map<Seq<u8>, Val>, rs0: Map<int, S_krpc_BaseResponse>, rs1: Map<int, S_krpc_BaseResponse>, r: int) -> bool {
    r != 0 && !rs0.dom().contains(r) && response_is(rs1[r], m[@"t"]->Str_0, m[@"r"]->Dict_0)
}
// the response chain and the request's handler ran, once each, given the request, the response's own body and its source
pub open spec fn delivered(m: Map<Seq<u8>, Val>, req: int, chain: Seq<int>, a: Seq<(int, int)>, b: Seq<(int, int)>, s0: Seq<int>, s1: Seq<int>, x0: Map<int, S_krpc_RpcContext>, x1: Map<int, S_krpc_RpcContext>, rs0: Map<int, S_krpc_BaseResponse>, rs1: Map<int, S_krpc_BaseResponse>, addr: int) -> bool {
    (exists|c: int| #[trigger] run_with(a, b, chain, c) && ctx_is(x0, x1, c, req, addr)) && exists|r: int| #[trigger] first_seen(s0, s1, r, a, b) && response_to(m, rs0, rs1, r)
}
// ---- datagrams ----
pub open spec fn is_msg(b: Seq<u8>) -> bool { parse_val(b) matches Some((v, n)) && v is Dict }
pub open spec fn dict_of(b: Seq<u8>) -> Map<Seq<u8>, Val> { parse_val(b)->Some_0.0->Dict_0.m }
pub open spec fn kind_is(b: Seq<u8>, k: Seq<u8>) -> bool { is_msg(b) && has_str(dict_of(b), @"y") && dict_of(b)[@"y"]->Str_0 =~= k }
pub open spec fn runs_handlers(b: Seq<u8>) -> bool { kind_is(b, @"q") || kind_is(b, @"r") }
pub open spec fn reply_is(m: Map<Seq<u8>, Val>, s: S_krpc_RpcServer, maps: Map<int, S_misc_SyncMap>, a: Seq<(int, int)>, b: Seq<(int, int)>, x0: Map<int, S_krpc_RpcContext>, x1: Map<int, S_krpc_RpcContext>, r0: Map<int, S_krpc_BaseRequest>, r1: Map<int, S_krpc_BaseRequest>, rs: Map<int, S_krpc_BaseResponse>, addr: int, esc: bool, ret: int) -> bool {
    if accepted(m, router_of(s, maps)) { handled(m, s.reqHandlerChain.push(handler_for(m, router_of(s, maps))), a, b, x0, x1, r0, r1, rs, addr, ret, esc) } else { ret != 0 && error_reply(rs[ret], m[@"t"]->Str_0, 203) }
}
// the datagram is the complete encoding of the reply to a query
pub open spec fn replied(m: Map<Seq<u8>, Val>, s: S_krpc_RpcServer, maps: Map<int, S_misc_SyncMap>, a: Seq<(int, int)>, b: Seq<(int, int)>, x0: Map<int, S_krpc_RpcContext>, x1: Map<int, S_krpc_RpcContext>, r0: Map<int, S_krpc_BaseRequest>, r1: Map<int, S_krpc_BaseRequest>, rs: Map<int, S_krpc_BaseResponse>, addr: int, esc: bool, sent: Seq<u8>) -> bool {
    has_str(m, @"y") && m[@"y"]->Str_0 =~= @"q" && has_str(m, @"t") && has_str(m, @"q")
    && exists|ret: int| encoded(sent, Val::Dict(#[trigger] raw_response(rs[ret]))) && reply_is(m, s, maps, a, b, x0, x1, r0, r1, rs, addr, esc, ret)
}

// what an event of the receiving loop needs (theory_pipesys.rs puts the loops together)
pub open spec fn may_read(sent: int, read: int) -> bool { sent == read }
pub open spec fn may_pass(sent: int, read: int) -> bool { sent == read - 1 }


// ---- discovery ----
// the nodes accepted since the first n insertions, in order
pub open spec fn taken(a: Seq<(int, int, bool)>, n: int) -> Seq<int>
    decreases a.len()
{ if a.len() <= n || a.len() == 0 { Seq::<int>::empty() } else if a.last().2 { taken(a.drop_last(), n).push(a.last().1) } else { taken(a.drop_last(), n) } }
pub proof fn lemma_taken(n: int)
    ensures
        forall|a: Seq<(int, int, bool)>, x: (int, int, bool)| #![trigger taken(a.push(x), n)] a.len() >= n && a.len() >= 0 ==> taken(a.push(x), n) == (if x.2 { taken(a, n).push(x.1) } else { taken(a, n) }),
        forall|a: Seq<(int, int, bool)>| #![trigger taken(a, n)] a.len() <= n ==> taken(a, n) == Seq::<int>::empty(),
{
    assert forall|a: Seq<(int, int, bool)>, x: (int, int, bool)| #![trigger taken(a.push(x), n)] a.len() >= n implies taken(a.push(x), n) == (if x.2 { taken(a, n).push(x.1) } else { taken(a, n) }) by {
        assert(a.push(x).drop_last() =~= a);
    }
}
// all nodes of a list were offered to the table, in order
pub open spec fn offered(a: Seq<(int, int, bool)>, b: Seq<(int, int, bool)>, t: int, ns: Seq<int>, n: int) -> bool {
    starts_with(a, b) && b.len() == a.len() + n && forall|k: int| a.len() <= k < b.len() ==> (#[trigger] b[k]).0 == t && b[k].1 == ns[k - a.len()]
}
// a find_node query for the local id, to the address of that node
pub open spec fn query_to(q: (int, S_net_UDPAddr, S_krpc_BaseRequest, int), r: int, s: int, id: Seq<u8>, hn: Map<int, S_dht_NodeInfo>, ha: Map<int, S_net_UDPAddr>) -> bool {
    &&& q.0 == s && q.1 == ha[hn[r].Addr]
    &&& q.2.qType =~= @"find_node" && q.2.body.m.dom().contains(@"target") && q.2.body.m[@"target"] == Val::Str(id) && q.2.body.m.dom().contains(@"id") && q.2.body.m[@"id"] == Val::Str(id)
}
// exactly one such query per node of the list, each under an id drawn after the previous one
pub open spec fn queried(a: Seq<(int, S_net_UDPAddr, S_krpc_BaseRequest, int)>, b: Seq<(int, S_net_UDPAddr, S_krpc_BaseRequest, int)>, ns: Seq<int>, i0: Seq<Seq<u8>>, i1: Seq<Seq<u8>>,
        s: int, id: Seq<u8>, hn: Map<int, S_dht_NodeInfo>, ha: Map<int, S_net_UDPAddr>) -> bool {
    &&& starts_with(a, b) && b.len() == a.len() + ns.len() && starts_with(i0, i1)
    &&& forall|k: int| a.len() <= k < b.len() ==> query_to(#[trigger] b[k], ns[k - a.len()], s, id, hn, ha) && i0.len() < b[k].3 <= i1.len() && b[k].2.txId == i1[b[k].3 - 1]
    &&& forall|k: int| a.len() < k < b.len() ==> b[k - 1].3 < (#[trigger] b[k]).3
}
// the nodes of the table exist
pub open spec fn rt_alloc(hb: Map<int, S_dht_Bucket>, hn: Map<int, S_dht_NodeInfo>, ha: Map<int, S_net_UDPAddr>, t: S_dht_RouteTable) -> bool {
    &&& node_there(hn, ha, t.hnode)
    &&& forall|x: int| #[trigger] stored(hb, t, x) ==> node_there(hn, ha, x)
}
pub open spec fn node_there(hn: Map<int, S_dht_NodeInfo>, ha: Map<int, S_net_UDPAddr>, x: int) -> bool { x != 0 && hn.dom().contains(x) && (hn[x].Addr == 0 || ha.dom().contains(hn[x].Addr)) }
pub open spec fn kept<A>(a: Map<int, A>, b: Map<int, A>) -> bool { forall|r: int| #[trigger] a.dom().contains(r) ==> b.dom().contains(r) && b[r] == a[r] }
// new nodes and addresses do not touch the table
pub proof fn lemma_rt_kept(hb: Map<int, S_dht_Bucket>, hn: Map<int, S_dht_NodeInfo>, ha: Map<int, S_net_UDPAddr>, t: S_dht_RouteTable, hn1: Map<int, S_dht_NodeInfo>, ha1: Map<int, S_net_UDPAddr>)
    ensures rt_ok(hb, hn, ha, t) && rt_alloc(hb, hn, ha, t) && kept(hn, hn1) && kept(ha, ha1) ==> rt_ok(hb, hn1, ha1, t) && rt_alloc(hb, hn1, ha1, t)
{
    if rt_ok(hb, hn, ha, t) && rt_alloc(hb, hn, ha, t) && kept(hn, hn1) && kept(ha, ha1) {
        assert forall|x: int| #[trigger] stored(hb, t, x) implies node_there(hn1, ha1, x) by { assert(node_there(hn, ha, x)); }
        assert(node_there(hn, ha, t.hnode));
        assert forall|i: int, j: int| #[trigger] valid(hb, t, i, j) implies placed(hb, hn1, t, i, j) by {
            assert(placed(hb, hn, t, i, j));
            assert(stored(hb, t, at(hb, t, i, j)));
        }
        assert forall|i: int, j: int, q: int| #[trigger] valid(hb, t, i, j) && #[trigger] valid(hb, t, i, q) && j < q implies !same_node(hn1, ha1, at(hb, t, i, j), at(hb, t, i, q)) by {
            assert(stored(hb, t, at(hb, t, i, j)));
            assert(stored(hb, t, at(hb, t, i, q)));
        }
    }
}
pub proof fn lemma_rt_kept_all(hb: Map<int, S_dht_Bucket>, hn: Map<int, S_dht_NodeInfo>, ha: Map<int, S_net_UDPAddr>, t: S_dht_RouteTable)
    ensures rt_ok(hb, hn, ha, t) && rt_alloc(hb, hn, ha, t) ==> forall|hn1: Map<int, S_dht_NodeInfo>, ha1: Map<int, S_net_UDPAddr>| kept(hn, hn1) && kept(ha, ha1) ==> #[trigger] rt_ok(hb, hn1, ha1, t)
{
    assert forall|hn1: Map<int, S_dht_NodeInfo>, ha1: Map<int, S_net_UDPAddr>| rt_ok(hb, hn, ha, t) && rt_alloc(hb, hn, ha, t) && kept(hn, hn1) && kept(ha, ha1) implies #[trigger] rt_ok(hb, hn1, ha1, t) by {
        lemma_rt_kept(hb, hn, ha, t, hn1, ha1);
    }
}
// the nodes offered since are those of a compact list
pub open spec fn listed(a: Seq<(int, int, bool)>, b: Seq<(int, int, bool)>, t: int, text: Seq<u8>, hn: Map<int, S_dht_NodeInfo>, ha: Map<int, S_net_UDPAddr>) -> bool {
    &&& starts_with(a, b) && b.len() == a.len() + text.len() / 26
    &&& forall|k: int| a.len() <= k < b.len() ==> (#[trigger] b[k]).0 == t && is_node(hn, ha, b[k].1, text, k - a.len())
}
pub open spec fn found(ctx: int, h: Map<int, S_krpc_RpcContext>, rs: Map<int, S_krpc_BaseRequest>) -> bool { rs[h[ctx].req].qType =~= @"find_node" }

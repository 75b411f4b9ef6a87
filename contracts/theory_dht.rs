
// ---- replies ----
pub open spec fn body_str(d: Dict, k: Seq<u8>, v: Seq<u8>) -> bool { d.m.dom().contains(k) && (d.m[k] matches Val::Str(t) && t =~= v) }
// a success reply under that transaction id, carrying that node id, that can be put on the wire
pub open spec fn reply_to(b: S_krpc_BaseResponse, t: Seq<u8>, id: Seq<u8>) -> bool {
    b.txId == t && !b.isErr && !b.body.nil && body_str(b.body, @"id", id) && encodable(Val::Dict(b.body))
}
pub open spec fn answered(rs0: Map<int, S_krpc_BaseResponse>, rs1: Map<int, S_krpc_BaseResponse>, r: int, t: Seq<u8>, id: Seq<u8>) -> bool {
    r != 0 && !rs0.dom().contains(r) && rs1.dom().contains(r) && id.len() == 20 && reply_to(rs1[r], t, id)
}
pub open spec fn lists_nodes(d: Dict, hn: Map<int, S_dht_NodeInfo>, ha: Map<int, S_net_UDPAddr>) -> bool {
    exists|s: Seq<int>| body_str(d, @"nodes", #[trigger] nodes_text(hn, ha, s)) && forall|k: int| 0 <= k < s.len() ==> encodable_node(hn, ha, #[trigger] s[k])
}
pub proof fn lemma_no_nodes(hn: Map<int, S_dht_NodeInfo>, ha: Map<int, S_net_UDPAddr>)
    ensures forall|s: Seq<int>| s.len() == 0 ==> #[trigger] nodes_text(hn, ha, s) == Seq::<u8>::empty()
{}
pub open spec fn announce_ok(m: Map<Seq<u8>, Val>) -> bool { has_str(m, @"info_hash") && m.dom().contains(@"port") && m[@"port"] is Int }
// the envelope of such a reply can be encoded
pub proof fn lemma_reply_encodable(b: S_krpc_BaseResponse)
    ensures !b.isErr && encodable(Val::Dict(b.body)) ==> encodable(Val::Dict(raw_response(b)))
{
    if !b.isErr && encodable(Val::Dict(b.body)) {
        let d = raw_response(b);
        assert forall|k: Seq<u8>| #![trigger d.m[k]] d.m.dom().contains(k) implies encodable(d.m[k]) by {
            if d.m[k] is Str {} else {}
        }
    }
}

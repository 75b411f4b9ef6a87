// ---- compact encodings ----
func dht.joinNodeInfos(nodes) (r)
  requires stored: forall|i: int| 0 <= i < nodes.len() ==> (#[trigger] nodes[i]) != 0 && $dht_NodeInfo[nodes[i]].Addr != 0
  ensures text: r =~= nodes_text($dht_NodeInfo, $net_UDPAddr, nodes)
  loop 1 (idx i, over vs, acc builder: Seq<u8>)
    invariant text: builder =~= nodes_text($dht_NodeInfo, $net_UDPAddr, vs.subrange(0, i))
    entry lemma_nodes_text_start($dht_NodeInfo, $net_UDPAddr, nodes)
    begin lemma_nodes_text_step($dht_NodeInfo, $net_UDPAddr, nodes, i)

func dht.parseNodeInfo(infos) (r)
  allocates dht.NodeInfo
  allocates net.UDPAddr
  ensures count: r.len() == infos.len() / 26
  ensures each: forall|i: int| 0 <= i < r.len() ==> is_node($dht_NodeInfo, $net_UDPAddr, #[trigger] r[i], infos, i)
  ensures new: forall|i: int| 0 <= i < r.len() ==> !old($dht_NodeInfo).dom().contains(#[trigger] r[i]) && !old($net_UDPAddr).dom().contains($dht_NodeInfo[r[i]].Addr)
  loop 1 (idx i, over vs, nodes: Seq<int>)
    invariant count: (at_entry(nodes.len()) == infos.len() / 26 && nodes.len() == infos.len() / 26) || (at_entry(nodes.len()) == 0 && nodes.len() == i)
    invariant each: forall|k: int| 0 <= k < i ==> is_node($dht_NodeInfo, $net_UDPAddr, #[trigger] nodes[k], infos, k)
    invariant new: forall|k: int| 0 <= k < i ==> !old($dht_NodeInfo).dom().contains(#[trigger] nodes[k]) && !old($net_UDPAddr).dom().contains($dht_NodeInfo[nodes[k]].Addr)

func dht.NewNodeInfo(id, addr) (r)
  allocates dht.NodeInfo
  fresh r
  ensures fields: r->Id == id && r->Addr == addr

cone C11: dht.joinNodeInfos dht.parseNodeInfo
theory C11: net node
lemmas C11: lemma_nodes_round_trip

func dht.parsePeerInfo(vals) (r)
  allocates net.UDPAddr
  allocates misc.Error
  panics iff !peers_ok(vals)
  xensures biz: biz_err(pv, $misc_Error)
  ensures count: r.len() == vals.s.len()
  ensures each: forall|i: int| 0 <= i < r.len() ==> is_peer($net_UDPAddr, #[trigger] r[i], vals.s[i])
  loop 1 (idx i, over vs, addrs: Seq<int>)
    invariant count: (at_entry(addrs.len()) == vals.s.len() && addrs.len() == vals.s.len()) || (at_entry(addrs.len()) == 0 && addrs.len() == i)
    invariant good: forall|k: int| 0 <= k < i ==> peer_ok(#[trigger] vals.s[k])
    invariant each: forall|k: int| 0 <= k < i ==> is_peer($net_UDPAddr, #[trigger] addrs[k], vals.s[k])

func dht.joinPeerInfos(addrs) (r)
  requires stored: forall|i: int| 0 <= i < addrs.len() ==> (#[trigger] addrs[i]) != 0
  ensures count: r.s.len() == addrs.len()
  ensures each: forall|i: int| 0 <= i < addrs.len() ==> #[trigger] r.s[i] == Val::Str(peer_text($net_UDPAddr, addrs[i]))
  loop 1 (idx i, over vs, vals: List)
    invariant count: (at_entry(vals.s.len()) == addrs.len() && vals.s.len() == addrs.len()) || (at_entry(vals.s.len()) == 0 && vals.s.len() == i)
    invariant each: forall|k: int| 0 <= k < i ==> #[trigger] vals.s[k] == Val::Str(peer_text($net_UDPAddr, addrs[k]))

cone C12: dht.parsePeerInfo dht.joinPeerInfos
theory C12: net misc node
lemmas C12: lemma_peers_round_trip

// ---- transaction ids ----
guarded dht_TxIdGenerator: txId
func dht.TxIdGenerator.nextVal(g) (r)
  requires g != 0 && $L_dht_TxIdGenerator[g] == 0
  modifies dht.TxIdGenerator[g]
  ensures advances: r == (old($dht_TxIdGenerator)[g].txId + 1) % 65536 && g->txId == r

func dht.TxIdGenerator.Next(g) (r)
  requires g != 0 && $L_dht_TxIdGenerator[g] == 0
  records IDS: $IDS.push(r)
  modifies dht.TxIdGenerator[g], IDS
  ensures recorded: $IDS == old($IDS).push(r)
  ensures text: r =~= hex4((old($dht_TxIdGenerator)[g].txId + 1) % 65536) && g->txId == (old($dht_TxIdGenerator)[g].txId + 1) % 65536

func dht.NewTxIdGenerator(init) (r)
  allocates dht.TxIdGenerator
  fresh r
  ensures first: r->txId == init

initially dht.txIdGenerator () (g)
  allocates dht.TxIdGenerator
  ensures made: g != 0

cone C13: initially:dht.txIdGenerator dht.TxIdGenerator.Next dht.NewTxIdGenerator
theory C13: net node
lemmas C13: lemma_hex4

// ---- prefix length ----
func dht.solvePrefixLen(a, b) (r)
  ensures exact: is_prefix_len(r, a, b)
  entry lemma_prefix_len(a, b)
  loop 1 (idx i, over bs)
    invariant equal: forall|k: int| 0 <= k < i ==> a[k] == #[trigger] b[k]
    begin lemma_xor_byte(a, b, i)

cone C17: dht.solvePrefixLen misc.Xor
theory C17: net node
lemmas C17: lemma_prefix_unique

// ---- route table ----
guarded dht_Bucket: nodes size
guarded dht_RouteTable: nodeMap size lastBucketIndex

func dht.NodeInfo.Equals(n, node) (r)
  requires n != 0
  ensures value: r == (node != 0 && same_node($dht_NodeInfo, $net_UDPAddr, n, node))

func dht.NewBucket(capacity) (r)
  requires size: 0 <= capacity <= MAXREFS()
  allocates dht.Bucket
  fresh r
  ensures empty: r->size == 0 && bucket_ok($dht_Bucket[r], capacity)

func dht.Bucket.Exist(b, node) (r)
  requires b != 0 && node != 0 && $L_dht_Bucket[b] == 0
  requires shape: bucket_ok($dht_Bucket[b], b->cap) && forall|j: int| 0 <= j < b->size ==> (#[trigger] b->nodes[j]) != 0
  ensures value: r == in_bucket($dht_NodeInfo, $net_UDPAddr, $dht_Bucket[b], node)
  loop 1 (i)
    invariant none: 0 <= i && forall|j: int| 0 <= j < i && j < b->size ==> !same_node($dht_NodeInfo, $net_UDPAddr, #[trigger] b->nodes[j], node)

func dht.Bucket.Add(b, node) (r)
  requires b != 0 && $L_dht_Bucket[b] == 0 && bucket_ok($dht_Bucket[b], b->cap) && b->cap <= MAXREFS()
  modifies dht.Bucket[b]
  ensures refused: !r ==> $dht_Bucket[b] == old($dht_Bucket)[b] && b->size >= b->cap
  ensures stored: r ==> old($dht_Bucket)[b].size < old($dht_Bucket)[b].cap && appended(old($dht_Bucket)[b], $dht_Bucket[b], node)

func dht.Bucket.All(b) (r)
  borrows r
  requires b != 0 && $L_dht_Bucket[b] == 0 && bucket_ok($dht_Bucket[b], b->cap)
  ensures nodes: r =~= b->nodes.subrange(0, b->size)

func dht.Bucket.Size(b) (r)
  requires b != 0 && $L_dht_Bucket[b] == 0
  ensures size: r == b->size

func dht.Bucket.Full(b) (r)
  requires b != 0 && $L_dht_Bucket[b] == 0
  ensures full: r == (b->size >= b->cap)

func dht.RouteTable.solveMaxPreLen(t, id) (r)
  requires t != 0 && $L_dht_RouteTable[t] >= 1 && t->hnode != 0
  ensures slot: r == (if plen(id, $dht_NodeInfo[t->hnode].Id) <= t->lastBucketIndex { plen(id, $dht_NodeInfo[t->hnode].Id) } else { t->lastBucketIndex })
  entry lemma_plen(id, $dht_NodeInfo[t->hnode].Id)

func dht.RouteTable.addNode(t, node, preLen) (err)
  mathint
  requires t != 0 && node != 0 && $L_dht_RouteTable[t] == 2 && forall|r: int| $L_dht_Bucket[r] == 0
  requires ok: rt_ok($dht_Bucket, $dht_NodeInfo, $net_UDPAddr, $dht_RouteTable[t]) && t->k <= MAXREFS()
  requires slot: preLen == slot($dht_NodeInfo, $dht_RouteTable[t], node)
  modifies dht.RouteTable[t]
  modifies dht.Bucket{exists|i: int| 0 <= i <= old($dht_RouteTable)[t].lastBucketIndex && #[trigger] old($dht_RouteTable)[t].nodeMap.m[i] == r}
  allocates dht.Bucket
  decreases t->capacity - t->lastBucketIndex, 1int
  entry lemma_known($dht_Bucket, $dht_NodeInfo, $net_UDPAddr, $dht_RouteTable[t], node)
  exit lemma_gained(old($dht_Bucket), old($dht_RouteTable)[t], $dht_Bucket, $dht_RouteTable[t], $dht_NodeInfo, $net_UDPAddr, preLen, node)
  exit lemma_unchanged(old($dht_Bucket), old($dht_RouteTable)[t], $dht_Bucket, $dht_RouteTable[t], $dht_NodeInfo, $net_UDPAddr, node)
  ensures ok: rt_ok($dht_Bucket, $dht_NodeInfo, $net_UDPAddr, $dht_RouteTable[t])
  ensures inserted: inserted(old($dht_Bucket), old($dht_RouteTable)[t], $dht_Bucket, $dht_RouteTable[t], $dht_NodeInfo, $net_UDPAddr, node, err == 0)
  ensures direct: !known(old($dht_Bucket), $dht_NodeInfo, $net_UDPAddr, old($dht_RouteTable)[t], node) && !full(old($dht_Bucket), old($dht_RouteTable)[t], preLen) ==> gained(old($dht_Bucket), old($dht_RouteTable)[t], $dht_Bucket, $dht_RouteTable[t], preLen, node)

func dht.RouteTable.addNodeWithsplitBucket(t, node) (err)
  mathint
  requires t != 0 && node != 0 && $L_dht_RouteTable[t] == 2 && forall|r: int| $L_dht_Bucket[r] == 0
  requires ok: rt_ok($dht_Bucket, $dht_NodeInfo, $net_UDPAddr, $dht_RouteTable[t]) && t->k <= MAXREFS()
  requires needed: slot($dht_NodeInfo, $dht_RouteTable[t], node) == t->lastBucketIndex && !known($dht_Bucket, $dht_NodeInfo, $net_UDPAddr, $dht_RouteTable[t], node) && full($dht_Bucket, $dht_RouteTable[t], t->lastBucketIndex)
  modifies dht.RouteTable[t]
  modifies dht.Bucket{exists|i: int| 0 <= i <= old($dht_RouteTable)[t].lastBucketIndex && #[trigger] old($dht_RouteTable)[t].nodeMap.m[i] == r}
  allocates dht.Bucket
  decreases t->capacity - t->lastBucketIndex, 0int
  ensures ok: rt_ok($dht_Bucket, $dht_NodeInfo, $net_UDPAddr, $dht_RouteTable[t])
  ensures inserted: inserted(old($dht_Bucket), old($dht_RouteTable)[t], $dht_Bucket, $dht_RouteTable[t], $dht_NodeInfo, $net_UDPAddr, node, err == 0)
  entry lemma_known($dht_Bucket, $dht_NodeInfo, $net_UDPAddr, $dht_RouteTable[t], node)
  loop 1 (idx i, over vs)
    entry lemma_split_start(old($dht_Bucket), old($dht_RouteTable)[t], $dht_Bucket, $dht_RouteTable[t], $dht_NodeInfo, $net_UDPAddr, vs)
    invariant split: splitting(old($dht_Bucket), old($dht_RouteTable)[t], $dht_NodeInfo, $net_UDPAddr, vs) && split_at(old($dht_Bucket), old($dht_RouteTable)[t], $dht_Bucket, $dht_RouteTable[t], $dht_NodeInfo, $net_UDPAddr, vs, i)
    begin lemma_split_pre(old($dht_Bucket), old($dht_RouteTable)[t], $dht_Bucket, $dht_RouteTable[t], $dht_NodeInfo, $net_UDPAddr, vs, i)
    begin lemma_known($dht_Bucket, $dht_NodeInfo, $net_UDPAddr, $dht_RouteTable[t], vs[i])
    end lemma_split_step(old($dht_Bucket), old($dht_RouteTable)[t], at_begin($dht_Bucket), at_begin($dht_RouteTable)[t], $dht_Bucket, $dht_RouteTable[t], $dht_NodeInfo, $net_UDPAddr, vs, i - 1)
    exit lemma_split_done(old($dht_Bucket), old($dht_RouteTable)[t], $dht_Bucket, $dht_RouteTable[t], $dht_NodeInfo, $net_UDPAddr, vs, node)
    exit lemma_known($dht_Bucket, $dht_NodeInfo, $net_UDPAddr, $dht_RouteTable[t], node)

func dht.RouteTable.nodeCount(t) (r)
  mathint
  requires t != 0 && $L_dht_RouteTable[t] >= 1 && forall|r: int| $L_dht_Bucket[r] == 0
  requires ok: forall|i: int| 0 <= i <= t->lastBucketIndex ==> #[trigger] has_bucket($dht_Bucket, $dht_RouteTable[t], i)
  requires last: 0 <= t->lastBucketIndex
  ensures sum: r == total($dht_Bucket, t->nodeMap.m, t->lastBucketIndex + 1)
  loop 1 (i, size: int)
    invariant sum: 0 <= i <= t->lastBucketIndex + 1 && size == total($dht_Bucket, t->nodeMap.m, i)
    begin lemma_has_bucket($dht_Bucket, $dht_RouteTable[t], i)

func dht.NewRouteTable(hostNode, k, capacity) (t)
  requires args: hostNode != 0 && 1 <= k <= MAXREFS() && capacity >= 0
  requires locks: forall|r: int| $L_dht_Bucket[r] == 0
  allocates dht.Bucket
  allocates dht.RouteTable
  fresh t
  ensures ok: rt_ok($dht_Bucket, $dht_NodeInfo, $net_UDPAddr, $dht_RouteTable[t]) && t->k == k && t->capacity == capacity && t->hnode == hostNode
  ensures host: stored($dht_Bucket, $dht_RouteTable[t], hostNode) && t->size == 1
  exit lemma_new($dht_Bucket, $dht_NodeInfo, $net_UDPAddr, hostNode)

func dht.RouteTable.AddNode(t, node) (err)
  requires t != 0 && node != 0 && $L_dht_RouteTable[t] == 0 && forall|r: int| $L_dht_Bucket[r] == 0
  requires ok: rt_ok($dht_Bucket, $dht_NodeInfo, $net_UDPAddr, $dht_RouteTable[t]) && t->k <= MAXREFS()
  requires host: stored($dht_Bucket, $dht_RouteTable[t], t->hnode)
  records ADDED: $ADDED.push((t, node, err == 0))
  modifies dht.RouteTable[t], ADDED
  ensures recorded: $ADDED == old($ADDED).push((t, node, err == 0))
  modifies dht.Bucket{exists|i: int| 0 <= i <= old($dht_RouteTable)[t].lastBucketIndex && #[trigger] old($dht_RouteTable)[t].nodeMap.m[i] == r}
  allocates dht.Bucket
  ensures ok: rt_ok($dht_Bucket, $dht_NodeInfo, $net_UDPAddr, $dht_RouteTable[t])
  ensures host: stored($dht_Bucket, $dht_RouteTable[t], t->hnode)
  ensures inserted: inserted(old($dht_Bucket), old($dht_RouteTable)[t], $dht_Bucket, $dht_RouteTable[t], $dht_NodeInfo, $net_UDPAddr, node, err == 0)

func dht.RouteTable.Size(t) (r)
  requires t != 0 && $L_dht_RouteTable[t] == 0
  ensures size: r == t->size

func dht.RouteTable.Full(t) (r)
  requires t != 0 && $L_dht_RouteTable[t] == 0 && forall|r: int| $L_dht_Bucket[r] == 0
  requires ok: rt_ok($dht_Bucket, $dht_NodeInfo, $net_UDPAddr, $dht_RouteTable[t])
  ensures full: r == (t->lastBucketIndex >= t->capacity && full($dht_Bucket, $dht_RouteTable[t], t->lastBucketIndex))
  entry lemma_has_bucket($dht_Bucket, $dht_RouteTable[t], t->lastBucketIndex)

func dht.RouteTable.Find(t, id) (r)
  requires t != 0 && $L_dht_RouteTable[t] == 0 && forall|r: int| $L_dht_Bucket[r] == 0
  requires ok: rt_ok($dht_Bucket, $dht_NodeInfo, $net_UDPAddr, $dht_RouteTable[t])
  ensures found: r != 0 ==> stored($dht_Bucket, $dht_RouteTable[t], r) && $dht_NodeInfo[r].Id == id
  ensures missing: r == 0 ==> forall|x: int| #[trigger] stored($dht_Bucket, $dht_RouteTable[t], x) ==> $dht_NodeInfo[x].Id != id
  entry lemma_find($dht_Bucket, $dht_NodeInfo, $net_UDPAddr, $dht_RouteTable[t], id)
  loop 1 (idx i, over vs)
    invariant none: forall|j: int| 0 <= j < i ==> $dht_NodeInfo[#[trigger] vs[j]].Id != id

func dht.RouteTable.FindClosest(t, id, k) (r)
  mathint
  requires t != 0 && $L_dht_RouteTable[t] == 0 && (forall|r: int| $L_dht_Bucket[r] == 0) && 0 <= k <= MAXREFS()
  requires ok: rt_ok($dht_Bucket, $dht_NodeInfo, $net_UDPAddr, $dht_RouteTable[t])
  fresh r
  ensures nodes: exists|q: int| -1 <= q <= id_slot($dht_NodeInfo, $dht_RouteTable[t], id) && #[trigger] closest_ok($dht_Bucket, $dht_NodeInfo, $net_UDPAddr, $dht_RouteTable[t], id_slot($dht_NodeInfo, $dht_RouteTable[t], id), q, r) && (q == -1 || r.len() > k)
  entry lemma_find($dht_Bucket, $dht_NodeInfo, $net_UDPAddr, $dht_RouteTable[t], id)
  loop 1 (nodes: Seq<int>, pLen: int)
    invariant nodes: -1 <= pLen <= id_slot($dht_NodeInfo, $dht_RouteTable[t], id) && nodes =~= down($dht_Bucket, t->nodeMap.m, id_slot($dht_NodeInfo, $dht_RouteTable[t], id), pLen)
    decreases pLen + 1
    begin lemma_has_bucket($dht_Bucket, $dht_RouteTable[t], pLen)
    exit lemma_down($dht_Bucket, $dht_NodeInfo, $net_UDPAddr, $dht_RouteTable[t], id_slot($dht_NodeInfo, $dht_RouteTable[t], id), pLen)

// the node's own table is well formed from the start, and knows the local node under the local id
initially dht.rtable () (t)
  requires locks: forall|r: int| $L_dht_Bucket[r] == 0
  panics may
  allocates dht.NodeInfo
  allocates net.UDPAddr
  allocates dht.Bucket
  allocates dht.RouteTable
  fresh t
  ensures ok: rt_ok($dht_Bucket, $dht_NodeInfo, $net_UDPAddr, $dht_RouteTable[t]) && t->k <= MAXREFS()
  ensures host: stored($dht_Bucket, $dht_RouteTable[t], t->hnode) && $dht_NodeInfo[t->hnode].Id == $g.dht.localNodeId && t->size == 1

cone C14: initially:dht.rtable dht.NewRouteTable dht.RouteTable.AddNode dht.RouteTable.Size dht.RouteTable.Full
theory C14: net node rtable
cone C15: dht.RouteTable.AddNode
theory C15: net node rtable
cone C16: dht.RouteTable.Find dht.RouteTable.FindClosest
theory C16: net node rtable
lemmas C16: lemma_closest_all


// ---- routetable.go ----
pub open spec fn plen(a: Seq<u8>, b: Seq<u8>) -> int { choose|r: int| is_prefix_len(r, a, b) }
pub proof fn lemma_plen(a: Seq<u8>, b: Seq<u8>)
    ensures forall|r: int| #[trigger] is_prefix_len(r, a, b) ==> plen(a, b) == r
{
    assert forall|r: int| #[trigger] is_prefix_len(r, a, b) implies plen(a, b) == r by {
        let q = plen(a, b);
        assert(is_prefix_len(q, a, b));
        if r < q { assert(bit_at(a, r) == bit_at(b, r)); }
        if q < r { assert(bit_at(a, q) == bit_at(b, q)); }
    }
}
pub open spec fn same_node(hn: Map<int, S_dht_NodeInfo>, ha: Map<int, S_net_UDPAddr>, x: int, y: int) -> bool {
    hn[x].Id == hn[y].Id && addr_str(ha, hn[x].Addr) == addr_str(ha, hn[y].Addr)
}
pub open spec fn bucket_ok(b: S_dht_Bucket, k: int) -> bool { 0 <= b.size <= b.cap && b.cap == k && b.nodes.len() == k }
pub open spec fn slot(hn: Map<int, S_dht_NodeInfo>, t: S_dht_RouteTable, r: int) -> int {
    let p = plen(hn[r].Id, hn[t.hnode].Id);
    if p <= t.lastBucketIndex { p } else { t.lastBucketIndex }
}
pub open spec fn total(hb: Map<int, S_dht_Bucket>, m: Map<int, int>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { total(hb, m, n - 1) + hb[m[n - 1]].size } }
pub proof fn lemma_total(ha: Map<int, S_dht_Bucket>, ma: Map<int, int>, hb: Map<int, S_dht_Bucket>, mb: Map<int, int>, n: int, p: int)
    requires forall|i: int| 0 <= i < n && i != p ==> ha[ma[i]].size == #[trigger] hb[mb[i]].size
    ensures
        0 <= p < n ==> total(hb, mb, n) == total(ha, ma, n) + hb[mb[p]].size - ha[ma[p]].size,
        !(0 <= p < n) ==> total(hb, mb, n) == total(ha, ma, n),
    decreases n
{ if n > 0 { lemma_total(ha, ma, hb, mb, n - 1, p); if n - 1 != p { assert(hb[mb[n - 1]].size == ha[ma[n - 1]].size); } } }

// a bucket of the table
pub open spec fn has_bucket(hb: Map<int, S_dht_Bucket>, t: S_dht_RouteTable, i: int) -> bool {
    t.nodeMap.m.dom().contains(i) && t.nodeMap.m[i] != 0 && hb.dom().contains(t.nodeMap.m[i]) && bucket_ok(hb[t.nodeMap.m[i]], t.k)
}
pub open spec fn placed(hb: Map<int, S_dht_Bucket>, hn: Map<int, S_dht_NodeInfo>, t: S_dht_RouteTable, i: int, j: int) -> bool {
    hb[t.nodeMap.m[i]].nodes[j] != 0 && slot(hn, t, hb[t.nodeMap.m[i]].nodes[j]) == i
}
pub open spec fn at(hb: Map<int, S_dht_Bucket>, t: S_dht_RouteTable, i: int, j: int) -> int { hb[t.nodeMap.m[i]].nodes[j] }
pub open spec fn valid(hb: Map<int, S_dht_Bucket>, t: S_dht_RouteTable, i: int, j: int) -> bool { 0 <= i <= t.lastBucketIndex && 0 <= j < hb[t.nodeMap.m[i]].size }
pub open spec fn rt_ok(hb: Map<int, S_dht_Bucket>, hn: Map<int, S_dht_NodeInfo>, ha: Map<int, S_net_UDPAddr>, t: S_dht_RouteTable) -> bool {
    t.hnode != 0 && t.k >= 1 && 0 <= t.lastBucketIndex <= t.capacity && !t.nodeMap.nil
    && (forall|i: int| 0 <= i <= t.lastBucketIndex ==> #[trigger] has_bucket(hb, t, i))
    && (forall|i: int, j: int| 0 <= i < j <= t.lastBucketIndex ==> #[trigger] t.nodeMap.m[i] != #[trigger] t.nodeMap.m[j])
    && (forall|i: int, j: int| #[trigger] valid(hb, t, i, j) ==> placed(hb, hn, t, i, j))
    && (forall|i: int, j: int, q: int| #[trigger] valid(hb, t, i, j) && #[trigger] valid(hb, t, i, q) && j < q ==> !same_node(hn, ha, at(hb, t, i, j), at(hb, t, i, q)))
    && t.size == total(hb, t.nodeMap.m, t.lastBucketIndex + 1)
}
pub open spec fn stored(hb: Map<int, S_dht_Bucket>, t: S_dht_RouteTable, r: int) -> bool { exists|i: int, j: int| #[trigger] valid(hb, t, i, j) && at(hb, t, i, j) == r }
pub open spec fn known(hb: Map<int, S_dht_Bucket>, hn: Map<int, S_dht_NodeInfo>, ha: Map<int, S_net_UDPAddr>, t: S_dht_RouteTable, r: int) -> bool {
    exists|i: int, j: int| #[trigger] valid(hb, t, i, j) && same_node(hn, ha, at(hb, t, i, j), r)
}
pub open spec fn in_bucket(hn: Map<int, S_dht_NodeInfo>, ha: Map<int, S_net_UDPAddr>, b: S_dht_Bucket, r: int) -> bool {
    exists|j: int| 0 <= j < b.size && same_node(hn, ha, #[trigger] b.nodes[j], r)
}
pub open spec fn same_table(t0: S_dht_RouteTable, t1: S_dht_RouteTable) -> bool { t1.hnode == t0.hnode && t1.k == t0.k && t1.capacity == t0.capacity }
pub open spec fn unchanged(h0: Map<int, S_dht_Bucket>, t0: S_dht_RouteTable, h1: Map<int, S_dht_Bucket>, t1: S_dht_RouteTable) -> bool {
    t1 == t0 && (forall|i: int| 0 <= i <= t0.lastBucketIndex ==> #[trigger] h1[t0.nodeMap.m[i]] == h0[t0.nodeMap.m[i]])
}
pub open spec fn appended(b0: S_dht_Bucket, b1: S_dht_Bucket, r: int) -> bool { b1.size == b0.size + 1 && b1.cap == b0.cap && b1.nodes == b0.nodes.update(b0.size, r) }
// one bucket gained one node, nothing else changed
pub open spec fn gained(h0: Map<int, S_dht_Bucket>, t0: S_dht_RouteTable, h1: Map<int, S_dht_Bucket>, t1: S_dht_RouteTable, p: int, r: int) -> bool {
    0 <= p <= t0.lastBucketIndex
    && t1.hnode == t0.hnode && t1.k == t0.k && t1.capacity == t0.capacity && t1.nodeMap == t0.nodeMap && t1.lastBucketIndex == t0.lastBucketIndex && t1.size == t0.size + 1
    && (forall|i: int| 0 <= i <= t0.lastBucketIndex ==> h1.dom().contains(#[trigger] t0.nodeMap.m[i]))
    && (forall|i: int| 0 <= i <= t0.lastBucketIndex && i != p ==> #[trigger] h1[t0.nodeMap.m[i]] == h0[t0.nodeMap.m[i]])
    && appended(h0[t0.nodeMap.m[p]], h1[t0.nodeMap.m[p]], r)
}
pub open spec fn full(h: Map<int, S_dht_Bucket>, t: S_dht_RouteTable, i: int) -> bool { h[t.nodeMap.m[i]].size >= t.k }
// what an insertion does to the table
pub open spec fn inserted(h0: Map<int, S_dht_Bucket>, t0: S_dht_RouteTable, h1: Map<int, S_dht_Bucket>, t1: S_dht_RouteTable,
        hn: Map<int, S_dht_NodeInfo>, ha: Map<int, S_net_UDPAddr>, r: int, ok: bool) -> bool {
    same_table(t0, t1)
    && (forall|x: int| #[trigger] stored(h0, t0, x) ==> stored(h1, t1, x))
    && (forall|x: int| #[trigger] stored(h1, t1, x) ==> stored(h0, t0, x) || x == r)
    && (ok == known(h1, hn, ha, t1, r))
    && (known(h0, hn, ha, t0, r) ==> ok && unchanged(h0, t0, h1, t1))
    && (ok && !known(h0, hn, ha, t0, r) ==> stored(h1, t1, r) && t1.size == t0.size + 1)
    && (!ok ==> t1.size == t0.size && full(h1, t1, slot(hn, t1, r)) && (slot(hn, t1, r) < t1.lastBucketIndex || t1.lastBucketIndex >= t1.capacity))
}
pub proof fn lemma_gained(h0: Map<int, S_dht_Bucket>, t0: S_dht_RouteTable, h1: Map<int, S_dht_Bucket>, t1: S_dht_RouteTable, hn: Map<int, S_dht_NodeInfo>, ha: Map<int, S_net_UDPAddr>, p: int, r: int)
    ensures
        rt_ok(h0, hn, ha, t0) && r != 0 && p == slot(hn, t0, r) && gained(h0, t0, h1, t1, p, r) && h0[t0.nodeMap.m[p]].size < t0.k && !in_bucket(hn, ha, h0[t0.nodeMap.m[p]], r)
            ==> rt_ok(h1, hn, ha, t1) && inserted(h0, t0, h1, t1, hn, ha, r, true),
{
    if rt_ok(h0, hn, ha, t0) && r != 0 && p == slot(hn, t0, r) && gained(h0, t0, h1, t1, p, r) && h0[t0.nodeMap.m[p]].size < t0.k && !in_bucket(hn, ha, h0[t0.nodeMap.m[p]], r) {
        let m = t0.nodeMap.m;
        let b0 = h0[m[p]];
        assert(has_bucket(h0, t0, p));
        assert forall|i: int| 0 <= i <= t1.lastBucketIndex implies #[trigger] has_bucket(h1, t1, i) by {
            assert(has_bucket(h0, t0, i));
            if i != p { assert(h1[m[i]] == h0[m[i]]); }
        }
        assert forall|i: int, j: int| #[trigger] valid(h1, t1, i, j) implies placed(h1, hn, t1, i, j) && (valid(h0, t0, i, j) && at(h1, t1, i, j) == at(h0, t0, i, j) || i == p && j == b0.size && at(h1, t1, i, j) == r) by {
            if i != p { assert(h1[m[i]] == h0[m[i]]); }
            if i == p && j == b0.size {} else { assert(valid(h0, t0, i, j)); }
        }
        assert forall|i: int, j: int, q: int| #[trigger] valid(h1, t1, i, j) && #[trigger] valid(h1, t1, i, q) && j < q implies !same_node(hn, ha, at(h1, t1, i, j), at(h1, t1, i, q)) by {
            if i == p && q == b0.size {
                assert(valid(h0, t0, i, j));
                assert(b0.nodes[j] == at(h1, t1, i, j));
            } else {
                assert(valid(h0, t0, i, j));
                assert(valid(h0, t0, i, q));
            }
        }
        lemma_total(h0, m, h1, m, t0.lastBucketIndex + 1, p);
        assert forall|i: int, j: int| #[trigger] valid(h0, t0, i, j) implies valid(h1, t1, i, j) && at(h1, t1, i, j) == at(h0, t0, i, j) by {
            if i != p { assert(h1[m[i]] == h0[m[i]]); }
        }
        assert forall|x: int| #[trigger] stored(h0, t0, x) implies stored(h1, t1, x) by {
            let (i, j) = choose|i: int, j: int| #[trigger] valid(h0, t0, i, j) && at(h0, t0, i, j) == x;
            assert(valid(h1, t1, i, j) && at(h1, t1, i, j) == x);
        }
        assert forall|x: int| #[trigger] stored(h1, t1, x) implies stored(h0, t0, x) || x == r by {
            let (i, j) = choose|i: int, j: int| #[trigger] valid(h1, t1, i, j) && at(h1, t1, i, j) == x;
            if x != r { assert(valid(h0, t0, i, j) && at(h0, t0, i, j) == x); }
        }
        assert(valid(h1, t1, p, b0.size) && at(h1, t1, p, b0.size) == r);
        lemma_known(h0, hn, ha, t0, r);
    }
}
// a node with this id can only be in its own slot
pub proof fn lemma_known(h: Map<int, S_dht_Bucket>, hn: Map<int, S_dht_NodeInfo>, ha: Map<int, S_net_UDPAddr>, t: S_dht_RouteTable, r: int)
    ensures rt_ok(h, hn, ha, t) ==> 0 <= slot(hn, t, r) <= t.lastBucketIndex && has_bucket(h, t, slot(hn, t, r))
        && (forall|i: int| #![trigger t.nodeMap.m[i]] #![trigger t.nodeMap.m.dom().contains(i)] 0 <= i <= t.lastBucketIndex ==> h.dom().contains(t.nodeMap.m[i]) && t.nodeMap.m[i] != 0 && t.nodeMap.m.dom().contains(i))
        && (forall|j: int| 0 <= j < h[t.nodeMap.m[slot(hn, t, r)]].size ==> #[trigger] h[t.nodeMap.m[slot(hn, t, r)]].nodes[j] != 0)
        && known(h, hn, ha, t, r) == in_bucket(hn, ha, h[t.nodeMap.m[slot(hn, t, r)]], r)
{
    if rt_ok(h, hn, ha, t) {
        lemma_plen_range(hn[r].Id, hn[t.hnode].Id);
        let p = slot(hn, t, r);
        let b = h[t.nodeMap.m[p]];
        assert forall|i: int| #![trigger t.nodeMap.m[i]] #![trigger t.nodeMap.m.dom().contains(i)] 0 <= i <= t.lastBucketIndex implies h.dom().contains(t.nodeMap.m[i]) && t.nodeMap.m[i] != 0 && t.nodeMap.m.dom().contains(i) by { assert(has_bucket(h, t, i)); }
        assert(has_bucket(h, t, p));
        assert forall|j: int| 0 <= j < b.size implies #[trigger] b.nodes[j] != 0 by { assert(valid(h, t, p, j)); assert(placed(h, hn, t, p, j)); }
        if known(h, hn, ha, t, r) {
            let (i, j) = choose|i: int, j: int| #[trigger] valid(h, t, i, j) && same_node(hn, ha, at(h, t, i, j), r);
            assert(placed(h, hn, t, i, j));
            assert(i == p);
            assert(same_node(hn, ha, b.nodes[j], r));
        }
        if in_bucket(hn, ha, b, r) {
            let j = choose|j: int| 0 <= j < b.size && same_node(hn, ha, #[trigger] b.nodes[j], r);
            assert(valid(h, t, p, j));
        }
    }
}
pub proof fn lemma_plen_range(a: Seq<u8>, b: Seq<u8>)
    ensures is_prefix_len(plen(a, b), a, b)
{
    lemma_first_diff(a, b, 0);
}
pub proof fn lemma_first_diff(a: Seq<u8>, b: Seq<u8>, i: int)
    requires 0 <= i <= min_bits(a, b), forall|j: int| 0 <= j < i ==> #[trigger] bit_at(a, j) == bit_at(b, j)
    ensures exists|r: int| is_prefix_len(r, a, b)
    decreases min_bits(a, b) - i
{
    if i < min_bits(a, b) && bit_at(a, i) == bit_at(b, i) { lemma_first_diff(a, b, i + 1); } else { assert(is_prefix_len(i, a, b)); }
}
pub proof fn lemma_unchanged(h0: Map<int, S_dht_Bucket>, t0: S_dht_RouteTable, h1: Map<int, S_dht_Bucket>, t1: S_dht_RouteTable, hn: Map<int, S_dht_NodeInfo>, ha: Map<int, S_net_UDPAddr>, r: int)
    ensures
        rt_ok(h0, hn, ha, t0) && unchanged(h0, t0, h1, t1) && (forall|i: int| 0 <= i <= t0.lastBucketIndex ==> h1.dom().contains(#[trigger] t0.nodeMap.m[i]))
            ==> rt_ok(h1, hn, ha, t1) && known(h1, hn, ha, t1, r) == known(h0, hn, ha, t0, r) && (forall|x: int| #[trigger] stored(h0, t0, x) == stored(h1, t1, x)),
{
    if rt_ok(h0, hn, ha, t0) && unchanged(h0, t0, h1, t1) && (forall|i: int| 0 <= i <= t0.lastBucketIndex ==> h1.dom().contains(#[trigger] t0.nodeMap.m[i])) {
        let m = t0.nodeMap.m;
        assert forall|i: int| 0 <= i <= t1.lastBucketIndex implies #[trigger] has_bucket(h1, t1, i) by { assert(has_bucket(h0, t0, i)); assert(h1[m[i]] == h0[m[i]]); }
        assert forall|i: int, j: int| #[trigger] valid(h1, t1, i, j) implies valid(h0, t0, i, j) && at(h1, t1, i, j) == at(h0, t0, i, j) && placed(h1, hn, t1, i, j) by { assert(h1[m[i]] == h0[m[i]]); assert(valid(h0, t0, i, j)); }
        assert forall|i: int, j: int| #[trigger] valid(h0, t0, i, j) implies valid(h1, t1, i, j) && at(h1, t1, i, j) == at(h0, t0, i, j) by { assert(h1[m[i]] == h0[m[i]]); }
        lemma_total(h0, m, h1, m, t0.lastBucketIndex + 1, -1);
        assert forall|x: int| #[trigger] stored(h0, t0, x) == stored(h1, t1, x) by {
            if stored(h0, t0, x) { let (i, j) = choose|i: int, j: int| #[trigger] valid(h0, t0, i, j) && at(h0, t0, i, j) == x; assert(valid(h1, t1, i, j)); }
            if stored(h1, t1, x) { let (i, j) = choose|i: int, j: int| #[trigger] valid(h1, t1, i, j) && at(h1, t1, i, j) == x; assert(valid(h0, t0, i, j)); }
        }
        if known(h0, hn, ha, t0, r) { let (i, j) = choose|i: int, j: int| #[trigger] valid(h0, t0, i, j) && same_node(hn, ha, at(h0, t0, i, j), r); assert(valid(h1, t1, i, j)); }
        if known(h1, hn, ha, t1, r) { let (i, j) = choose|i: int, j: int| #[trigger] valid(h1, t1, i, j) && same_node(hn, ha, at(h1, t1, i, j), r); assert(valid(h0, t0, i, j)); }
    }
}

// ---- splitting the last bucket ----
pub open spec fn split_at(h0: Map<int, S_dht_Bucket>, t0: S_dht_RouteTable, h1: Map<int, S_dht_Bucket>, t1: S_dht_RouteTable,
        hn: Map<int, S_dht_NodeInfo>, ha: Map<int, S_net_UDPAddr>, vs: Seq<int>, n: int) -> bool {
    let l = t0.lastBucketIndex;
    rt_ok(h1, hn, ha, t1) && same_table(t0, t1) && t1.lastBucketIndex == l + 1
    && (forall|j: int| 0 <= j < l ==> #[trigger] t1.nodeMap.m[j] == t0.nodeMap.m[j])
    && (forall|j: int| 0 <= j < l ==> h1[t0.nodeMap.m[j]] == #[trigger] h0[t0.nodeMap.m[j]])
    && !h0.dom().contains(t1.nodeMap.m[l]) && !h0.dom().contains(t1.nodeMap.m[l + 1])
    && h1[t1.nodeMap.m[l]].size + h1[t1.nodeMap.m[l + 1]].size == n
    && (forall|q: int| 0 <= q < n ==> stored(h1, t1, #[trigger] vs[q]))
    && (forall|i: int, j: int| #[trigger] valid(h1, t1, i, j) && i >= l ==> exists|q: int| 0 <= q < n && #[trigger] vs[q] == at(h1, t1, i, j))
}
pub open spec fn splitting(h0: Map<int, S_dht_Bucket>, t0: S_dht_RouteTable, hn: Map<int, S_dht_NodeInfo>, ha: Map<int, S_net_UDPAddr>, vs: Seq<int>) -> bool {
    rt_ok(h0, hn, ha, t0) && vs == h0[t0.nodeMap.m[t0.lastBucketIndex]].nodes.subrange(0, h0[t0.nodeMap.m[t0.lastBucketIndex]].size)
}
pub open spec fn split_begin(h0: Map<int, S_dht_Bucket>, t0: S_dht_RouteTable, h1: Map<int, S_dht_Bucket>, t1: S_dht_RouteTable, vs: Seq<int>) -> bool {
    let l = t0.lastBucketIndex;
    same_table(t0, t1) && t1.lastBucketIndex == l + 1 && t1.lastBucketIndex <= t1.capacity && !t1.nodeMap.nil
    && (forall|j: int| 0 <= j < l ==> t1.nodeMap.m.dom().contains(j) && #[trigger] t1.nodeMap.m[j] == t0.nodeMap.m[j])
    && (forall|j: int| 0 <= j < l ==> h1.dom().contains(t0.nodeMap.m[j]) && h1[t0.nodeMap.m[j]] == h0[#[trigger] t0.nodeMap.m[j]])
    && !h0.dom().contains(t1.nodeMap.m[l]) && !h0.dom().contains(t1.nodeMap.m[l + 1])
    && t1.nodeMap.m[l] != t1.nodeMap.m[l + 1]
    && has_bucket(h1, t1, l) && has_bucket(h1, t1, l + 1)
    && h1[t1.nodeMap.m[l]].size == 0 && h1[t1.nodeMap.m[l + 1]].size == 0
    && t1.size == t0.size - vs.len()
}
pub proof fn lemma_split_start(h0: Map<int, S_dht_Bucket>, t0: S_dht_RouteTable, h1: Map<int, S_dht_Bucket>, t1: S_dht_RouteTable,
        hn: Map<int, S_dht_NodeInfo>, ha: Map<int, S_net_UDPAddr>, vs: Seq<int>)
    ensures
        rt_ok(h0, hn, ha, t0) ==> forall|i: int| 0 <= i <= t0.lastBucketIndex ==> h0.dom().contains(#[trigger] t0.nodeMap.m[i]),
        splitting(h0, t0, hn, ha, vs) && split_begin(h0, t0, h1, t1, vs) ==> split_at(h0, t0, h1, t1, hn, ha, vs, 0),
{
    let l = t0.lastBucketIndex;
    let m0 = t0.nodeMap.m; let m1 = t1.nodeMap.m;
    if rt_ok(h0, hn, ha, t0) {
        assert forall|i: int| 0 <= i <= t0.lastBucketIndex implies h0.dom().contains(#[trigger] t0.nodeMap.m[i]) by { assert(has_bucket(h0, t0, i)); }
    }
    if splitting(h0, t0, hn, ha, vs) && split_begin(h0, t0, h1, t1, vs) {
        assert(has_bucket(h0, t0, l));
        assert forall|i: int| 0 <= i <= t1.lastBucketIndex implies #[trigger] has_bucket(h1, t1, i) by {
            if i < l { assert(has_bucket(h0, t0, i)); assert(m1[i] == m0[i]); assert(h1[m0[i]] == h0[m0[i]]); } else { assert(i == l || i == l + 1); }
        }
        assert forall|i: int, j: int| 0 <= i < j <= t1.lastBucketIndex implies #[trigger] m1[i] != #[trigger] m1[j] by {
            if i < l { assert(has_bucket(h0, t0, i)); assert(m1[i] == m0[i]); }
            if j < l { assert(m1[j] == m0[j]); }
        }
        assert forall|i: int, j: int| #[trigger] valid(h1, t1, i, j) implies i < l && valid(h0, t0, i, j) && at(h1, t1, i, j) == at(h0, t0, i, j) by {
            if i >= l { assert(i == l || i == l + 1); }
            assert(m1[i] == m0[i]); assert(h1[m0[i]] == h0[m0[i]]);
        }
        assert forall|i: int, j: int| #[trigger] valid(h1, t1, i, j) implies placed(h1, hn, t1, i, j) by {
            assert(valid(h0, t0, i, j)); assert(placed(h0, hn, t0, i, j));
            assert(at(h1, t1, i, j) == at(h0, t0, i, j));
        }
        assert forall|i: int, j: int, q: int| #[trigger] valid(h1, t1, i, j) && #[trigger] valid(h1, t1, i, q) && j < q implies !same_node(hn, ha, at(h1, t1, i, j), at(h1, t1, i, q)) by {
            assert(valid(h0, t0, i, j) && valid(h0, t0, i, q));
        }
        assert forall|i: int| 0 <= i < l && i != -1 implies h0[m0[i]].size == #[trigger] h1[m1[i]].size by { assert(m1[i] == m0[i]); assert(h1[m0[i]] == h0[m0[i]]); }
        lemma_total(h0, m0, h1, m1, l, -1);
        assert(total(h0, m0, l + 1) == total(h0, m0, l) + h0[m0[l]].size);
        assert(total(h1, m1, l + 1) == total(h1, m1, l) + h1[m1[l]].size);
        assert(total(h1, m1, l + 2) == total(h1, m1, l + 1) + h1[m1[l + 1]].size);
    }
}
// the next node of the source bucket is new to the table and its bucket has room
pub proof fn lemma_split_pre(h0: Map<int, S_dht_Bucket>, t0: S_dht_RouteTable, h1: Map<int, S_dht_Bucket>, t1: S_dht_RouteTable,
        hn: Map<int, S_dht_NodeInfo>, ha: Map<int, S_net_UDPAddr>, vs: Seq<int>, n: int)
    ensures
        splitting(h0, t0, hn, ha, vs) && 0 <= n < vs.len() && split_at(h0, t0, h1, t1, hn, ha, vs, n)
            ==> vs[n] != 0 && !known(h1, hn, ha, t1, vs[n]) && !full(h1, t1, slot(hn, t1, vs[n])) && (slot(hn, t1, vs[n]) == t0.lastBucketIndex || slot(hn, t1, vs[n]) == t0.lastBucketIndex + 1),
{
    if splitting(h0, t0, hn, ha, vs) && 0 <= n < vs.len() && split_at(h0, t0, h1, t1, hn, ha, vs, n) {
        let l = t0.lastBucketIndex;
        let r = vs[n];
        let p = slot(hn, t1, r);
        assert(has_bucket(h0, t0, l));
        assert(valid(h0, t0, l, n)); assert(placed(h0, hn, t0, l, n)); assert(at(h0, t0, l, n) == r);
        assert(slot(hn, t0, r) == l);
        assert(p == l || p == l + 1);
        assert(has_bucket(h1, t1, l)); assert(has_bucket(h1, t1, l + 1));
        assert(h1[t1.nodeMap.m[p]].size <= n < t0.k);
        if known(h1, hn, ha, t1, r) {
            let (i, j) = choose|i: int, j: int| #[trigger] valid(h1, t1, i, j) && same_node(hn, ha, at(h1, t1, i, j), r);
            assert(placed(h1, hn, t1, i, j));
            assert(i == p);
            let q = choose|q: int| 0 <= q < n && #[trigger] vs[q] == at(h1, t1, i, j);
            assert(valid(h0, t0, l, q)); assert(at(h0, t0, l, q) == vs[q]);
            assert(!same_node(hn, ha, at(h0, t0, l, q), at(h0, t0, l, n)));
        }
    }
}
pub proof fn lemma_split_step(h0: Map<int, S_dht_Bucket>, t0: S_dht_RouteTable, h1: Map<int, S_dht_Bucket>, t1: S_dht_RouteTable, h2: Map<int, S_dht_Bucket>, t2: S_dht_RouteTable,
        hn: Map<int, S_dht_NodeInfo>, ha: Map<int, S_net_UDPAddr>, vs: Seq<int>, n: int)
    ensures
        splitting(h0, t0, hn, ha, vs) && 0 <= n < vs.len() && split_at(h0, t0, h1, t1, hn, ha, vs, n) && gained(h1, t1, h2, t2, slot(hn, t1, vs[n]), vs[n]) && rt_ok(h2, hn, ha, t2)
            ==> split_at(h0, t0, h2, t2, hn, ha, vs, n + 1),
{
    if splitting(h0, t0, hn, ha, vs) && 0 <= n < vs.len() && split_at(h0, t0, h1, t1, hn, ha, vs, n) && gained(h1, t1, h2, t2, slot(hn, t1, vs[n]), vs[n]) && rt_ok(h2, hn, ha, t2) {
        lemma_split_pre(h0, t0, h1, t1, hn, ha, vs, n);
        let l = t0.lastBucketIndex;
        let m = t1.nodeMap.m;
        let p = slot(hn, t1, vs[n]);
        let b1 = h1[m[p]];
        assert(has_bucket(h1, t1, p));
        lemma_gained(h1, t1, h2, t2, hn, ha, p, vs[n]);
        lemma_known(h1, hn, ha, t1, vs[n]);
        assert forall|j: int| 0 <= j < l implies h2[t0.nodeMap.m[j]] == #[trigger] h0[t0.nodeMap.m[j]] by { assert(m[j] == t0.nodeMap.m[j]); assert(h2[m[j]] == h1[m[j]]); }
        if p == l { assert(h2[m[l + 1]] == h1[m[l + 1]]); } else { assert(h2[m[l]] == h1[m[l]]); }
        assert forall|q: int| 0 <= q < n + 1 implies stored(h2, t2, #[trigger] vs[q]) by { if q < n { assert(stored(h1, t1, vs[q])); } }
        assert forall|i: int, j: int| #[trigger] valid(h2, t2, i, j) && i >= l implies exists|q: int| 0 <= q < n + 1 && #[trigger] vs[q] == at(h2, t2, i, j) by {
            if i != p { assert(h2[m[i]] == h1[m[i]]); }
            if i == p && j == b1.size { assert(vs[n] == at(h2, t2, i, j)); } else {
                assert(valid(h1, t1, i, j));
                assert(at(h1, t1, i, j) == at(h2, t2, i, j));
                let q = choose|q: int| 0 <= q < n && #[trigger] vs[q] == at(h1, t1, i, j);
                assert(vs[q] == at(h2, t2, i, j));
            }
        }
    }
}
pub proof fn lemma_split_done(h0: Map<int, S_dht_Bucket>, t0: S_dht_RouteTable, h1: Map<int, S_dht_Bucket>, t1: S_dht_RouteTable,
        hn: Map<int, S_dht_NodeInfo>, ha: Map<int, S_net_UDPAddr>, vs: Seq<int>, r: int)
    ensures
        splitting(h0, t0, hn, ha, vs) && split_at(h0, t0, h1, t1, hn, ha, vs, vs.len() as int)
            ==> (forall|x: int| #[trigger] stored(h0, t0, x) == stored(h1, t1, x)) && known(h1, hn, ha, t1, r) == known(h0, hn, ha, t0, r) && t1.size == t0.size,
{
    if splitting(h0, t0, hn, ha, vs) && split_at(h0, t0, h1, t1, hn, ha, vs, vs.len() as int) {
        let l = t0.lastBucketIndex;
        let m0 = t0.nodeMap.m; let m1 = t1.nodeMap.m;
        assert(has_bucket(h0, t0, l));
        assert forall|i: int, j: int| #[trigger] valid(h0, t0, i, j) implies stored(h1, t1, at(h0, t0, i, j)) by {
            if i < l { assert(m1[i] == m0[i]); assert(h1[m0[i]] == h0[m0[i]]); assert(valid(h1, t1, i, j)); assert(at(h1, t1, i, j) == at(h0, t0, i, j)); } else { assert(vs[j] == at(h0, t0, i, j)); }
        }
        assert forall|i: int, j: int| #[trigger] valid(h1, t1, i, j) implies stored(h0, t0, at(h1, t1, i, j)) by {
            if i < l { assert(m1[i] == m0[i]); assert(h1[m0[i]] == h0[m0[i]]); assert(valid(h0, t0, i, j)); assert(at(h1, t1, i, j) == at(h0, t0, i, j)); } else {
                let q = choose|q: int| 0 <= q < vs.len() && #[trigger] vs[q] == at(h1, t1, i, j);
                assert(valid(h0, t0, l, q)); assert(at(h0, t0, l, q) == vs[q]);
            }
        }
        assert forall|x: int| #[trigger] stored(h0, t0, x) == stored(h1, t1, x) by {
            if stored(h0, t0, x) { let (i, j) = choose|i: int, j: int| #[trigger] valid(h0, t0, i, j) && at(h0, t0, i, j) == x; }
            if stored(h1, t1, x) { let (i, j) = choose|i: int, j: int| #[trigger] valid(h1, t1, i, j) && at(h1, t1, i, j) == x; }
        }
        if known(h0, hn, ha, t0, r) {
            let (i, j) = choose|i: int, j: int| #[trigger] valid(h0, t0, i, j) && same_node(hn, ha, at(h0, t0, i, j), r);
            assert(stored(h0, t0, at(h0, t0, i, j)));
            let (a, b) = choose|a: int, b: int| #[trigger] valid(h1, t1, a, b) && at(h1, t1, a, b) == at(h0, t0, i, j);
        }
        if known(h1, hn, ha, t1, r) {
            let (i, j) = choose|i: int, j: int| #[trigger] valid(h1, t1, i, j) && same_node(hn, ha, at(h1, t1, i, j), r);
            assert(stored(h0, t0, at(h1, t1, i, j)));
            let (a, b) = choose|a: int, b: int| #[trigger] valid(h0, t0, a, b) && at(h0, t0, a, b) == at(h1, t1, i, j);
        }
        assert forall|i: int| 0 <= i < l && i != -1 implies h0[m0[i]].size == #[trigger] h1[m1[i]].size by { assert(m1[i] == m0[i]); assert(h1[m0[i]] == h0[m0[i]]); }
        lemma_total(h0, m0, h1, m1, l, -1);
        assert(total(h0, m0, l + 1) == total(h0, m0, l) + h0[m0[l]].size);
        assert(total(h1, m1, l + 1) == total(h1, m1, l) + h1[m1[l]].size);
        assert(total(h1, m1, l + 2) == total(h1, m1, l + 1) + h1[m1[l + 1]].size);
    }
}
pub proof fn lemma_has_bucket(h: Map<int, S_dht_Bucket>, t: S_dht_RouteTable, i: int)
    ensures (forall|i: int| 0 <= i <= t.lastBucketIndex ==> #[trigger] has_bucket(h, t, i)) && 0 <= i <= t.lastBucketIndex ==> has_bucket(h, t, i)
{}

// ---- lookups ----
pub open spec fn bucket_nodes(h: Map<int, S_dht_Bucket>, m: Map<int, int>, i: int) -> Seq<int> { h[m[i]].nodes.subrange(0, h[m[i]].size) }
// the nodes of buckets p, p-1, ... down to (and without) bucket q
pub open spec fn down(h: Map<int, S_dht_Bucket>, m: Map<int, int>, p: int, q: int) -> Seq<int>
    decreases p - q
{ if p <= q { Seq::<int>::empty() } else { down(h, m, p, q + 1) + bucket_nodes(h, m, q + 1) } }
pub open spec fn closest_ok(h: Map<int, S_dht_Bucket>, hn: Map<int, S_dht_NodeInfo>, ha: Map<int, S_net_UDPAddr>, t: S_dht_RouteTable, p: int, q: int, r: Seq<int>) -> bool {
    (forall|i: int| 0 <= i < r.len() ==> r[i] != 0 && stored(h, t, #[trigger] r[i]) && q < slot(hn, t, r[i]) <= p)
    && (forall|i: int, j: int| 0 <= i < j < r.len() ==> !same_node(hn, ha, #[trigger] r[i], #[trigger] r[j]) && slot(hn, t, r[i]) >= slot(hn, t, r[j]))
    && (forall|x: int| #[trigger] stored(h, t, x) && q < slot(hn, t, x) <= p ==> r.contains(x))
    && r.len() == total(h, t.nodeMap.m, p + 1) - total(h, t.nodeMap.m, q + 1)
}
pub proof fn lemma_down(h: Map<int, S_dht_Bucket>, hn: Map<int, S_dht_NodeInfo>, ha: Map<int, S_net_UDPAddr>, t: S_dht_RouteTable, p: int, q: int)
    ensures rt_ok(h, hn, ha, t) && -1 <= q <= p <= t.lastBucketIndex ==> closest_ok(h, hn, ha, t, p, q, down(h, t.nodeMap.m, p, q))
    decreases p - q
{
    if rt_ok(h, hn, ha, t) && -1 <= q <= p <= t.lastBucketIndex {
        let m = t.nodeMap.m;
        let r = down(h, m, p, q);
        if q < p {
            lemma_down(h, hn, ha, t, p, q + 1);
            let a = down(h, m, p, q + 1);
            let b = bucket_nodes(h, m, q + 1);
            assert(has_bucket(h, t, q + 1));
            assert(r == a + b);
            assert forall|j: int| 0 <= j < b.len() implies valid(h, t, q + 1, j) && #[trigger] b[j] == at(h, t, q + 1, j) && slot(hn, t, b[j]) == q + 1 && b[j] != 0 && stored(h, t, b[j]) by {
                assert(valid(h, t, q + 1, j)); assert(placed(h, hn, t, q + 1, j));
            }
            assert forall|i: int| 0 <= i < r.len() implies r[i] != 0 && stored(h, t, #[trigger] r[i]) && q < slot(hn, t, r[i]) <= p by {
                if i < a.len() { assert(r[i] == a[i]); } else { assert(r[i] == b[i - a.len()]); }
            }
            assert forall|i: int, j: int| 0 <= i < j < r.len() implies !same_node(hn, ha, #[trigger] r[i], #[trigger] r[j]) && slot(hn, t, r[i]) >= slot(hn, t, r[j]) by {
                if i < a.len() { assert(r[i] == a[i]); } else { assert(r[i] == b[i - a.len()]); }
                if j < a.len() { assert(r[j] == a[j]); } else { assert(r[j] == b[j - a.len()]); }
                if i >= a.len() {
                    assert(valid(h, t, q + 1, i - a.len()) && valid(h, t, q + 1, j - a.len()));
                    assert(!same_node(hn, ha, at(h, t, q + 1, i - a.len()), at(h, t, q + 1, j - a.len())));
                }
            }
            assert forall|x: int| #[trigger] stored(h, t, x) && q < slot(hn, t, x) <= p implies r.contains(x) by {
                if slot(hn, t, x) == q + 1 {
                    let (i, j) = choose|i: int, j: int| #[trigger] valid(h, t, i, j) && at(h, t, i, j) == x;
                    assert(placed(h, hn, t, i, j));
                    assert(b[j] == x);
                    assert(r[a.len() + j] == x);
                } else {
                    let i = choose|i: int| 0 <= i < a.len() && a[i] == x;
                    assert(r[i] == x);
                }
            }
            assert(total(h, m, q + 2) == total(h, m, q + 1) + h[m[q + 1]].size);
        }
    }
}

pub open spec fn id_slot(hn: Map<int, S_dht_NodeInfo>, t: S_dht_RouteTable, id: Seq<u8>) -> int {
    let p = plen(id, hn[t.hnode].Id);
    if p <= t.lastBucketIndex { p } else { t.lastBucketIndex }
}
pub proof fn lemma_find(h: Map<int, S_dht_Bucket>, hn: Map<int, S_dht_NodeInfo>, ha: Map<int, S_net_UDPAddr>, t: S_dht_RouteTable, id: Seq<u8>)
    ensures rt_ok(h, hn, ha, t) ==> {
        let b = h[t.nodeMap.m[id_slot(hn, t, id)]];
        &&& 0 <= id_slot(hn, t, id) <= t.lastBucketIndex && has_bucket(h, t, id_slot(hn, t, id))
        &&& forall|j: int| 0 <= j < b.size ==> #[trigger] b.nodes[j] != 0 && stored(h, t, b.nodes[j])
        &&& forall|x: int| #[trigger] stored(h, t, x) && hn[x].Id == id ==> exists|j: int| 0 <= j < b.size && #[trigger] b.nodes[j] == x && b.nodes.subrange(0, b.size)[j] == x
    }
{
    if rt_ok(h, hn, ha, t) {
        lemma_plen_range(id, hn[t.hnode].Id);
        let p = id_slot(hn, t, id);
        let b = h[t.nodeMap.m[p]];
        assert(has_bucket(h, t, p));
        assert forall|j: int| 0 <= j < b.size implies #[trigger] b.nodes[j] != 0 && stored(h, t, b.nodes[j]) by { assert(valid(h, t, p, j)); assert(placed(h, hn, t, p, j)); }
        assert forall|x: int| #[trigger] stored(h, t, x) && hn[x].Id == id implies exists|j: int| 0 <= j < b.size && #[trigger] b.nodes[j] == x && b.nodes.subrange(0, b.size)[j] == x by {
            let (i, j) = choose|i: int, j: int| #[trigger] valid(h, t, i, j) && at(h, t, i, j) == x;
            assert(placed(h, hn, t, i, j));
            assert(b.nodes[j] == x && b.nodes.subrange(0, b.size)[j] == x);
        }
    }
}
// when the buckets from the queried one downwards hold no more than k nodes, all of them are returned
pub proof fn lemma_closest_all(h: Map<int, S_dht_Bucket>, hn: Map<int, S_dht_NodeInfo>, ha: Map<int, S_net_UDPAddr>, t: S_dht_RouteTable, p: int, q: int, r: Seq<int>, k: int, x: int)
    requires rt_ok(h, hn, ha, t), 0 <= p <= t.lastBucketIndex, -1 <= q <= p, closest_ok(h, hn, ha, t, p, q, r), q == -1 || r.len() > k, total(h, t.nodeMap.m, p + 1) <= k, stored(h, t, x), slot(hn, t, x) <= p
    ensures r.contains(x)
{
    lemma_total_pos(h, hn, ha, t, q + 1);
    let (i, j) = choose|i: int, j: int| #[trigger] valid(h, t, i, j) && at(h, t, i, j) == x;
    assert(placed(h, hn, t, i, j));
}
pub proof fn lemma_total_pos(h: Map<int, S_dht_Bucket>, hn: Map<int, S_dht_NodeInfo>, ha: Map<int, S_net_UDPAddr>, t: S_dht_RouteTable, n: int)
    requires rt_ok(h, hn, ha, t), n <= t.lastBucketIndex + 1
    ensures total(h, t.nodeMap.m, n) >= 0
    decreases n
{ if n > 0 { lemma_total_pos(h, hn, ha, t, n - 1); assert(has_bucket(h, t, n - 1)); } }
// a new table: one bucket with the local node
pub proof fn lemma_new(h: Map<int, S_dht_Bucket>, hn: Map<int, S_dht_NodeInfo>, ha: Map<int, S_net_UDPAddr>, host: int)
    ensures forall|t: S_dht_RouteTable| #![trigger rt_ok(h, hn, ha, t)] #![trigger stored(h, t, host)] host != 0 && t.hnode == host && t.k >= 1 && t.lastBucketIndex == 0 && t.capacity >= 0 && !t.nodeMap.nil && t.size == 1 && has_bucket(h, t, 0)
        && h[t.nodeMap.m[0]].size == 1 && h[t.nodeMap.m[0]].nodes[0] == host ==> rt_ok(h, hn, ha, t) && stored(h, t, host)
{
    assert forall|t: S_dht_RouteTable| #![trigger rt_ok(h, hn, ha, t)] #![trigger stored(h, t, host)] host != 0 && t.hnode == host && t.k >= 1 && t.lastBucketIndex == 0 && t.capacity >= 0 && !t.nodeMap.nil && t.size == 1 && has_bucket(h, t, 0)
        && h[t.nodeMap.m[0]].size == 1 && h[t.nodeMap.m[0]].nodes[0] == host implies rt_ok(h, hn, ha, t) && stored(h, t, host) by {
        lemma_plen_range(hn[host].Id, hn[host].Id);
        assert(valid(h, t, 0, 0));
        assert(at(h, t, 0, 0) == host);
        assert(slot(hn, t, host) == 0);
        reveal_with_fuel(total, 3);
        assert(total(h, t.nodeMap.m, 1) == 1);
        assert forall|i: int, j: int| #[trigger] valid(h, t, i, j) implies placed(h, hn, t, i, j) by { assert(i == 0 && j == 0); }
    }
}

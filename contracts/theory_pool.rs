pub open spec fn pool_entry(key: Val, v: Val, w: Map<int, int>) -> bool {
    key is Int && (v matches Val::Ref(t, c) && t == tag_chan_bytes() && c != 0 && w.dom().contains(c) && w[c] == key->Int_0)
}
pub open spec fn new_entry(key: Val, v: Val, w: Map<int, int>) -> bool {
    key is Int && (v matches Val::Ref(t, c) && t == tag_chan_bytes() && c != 0 && !w.dom().contains(c))
}
pub open spec fn grows(a: Map<int, int>, b: Map<int, int>) -> bool {
    forall|c: int| #![trigger b.dom().contains(c)] #![trigger b[c]] a.dom().contains(c) ==> b.dom().contains(c) && b[c] == a[c]
}
pub open spec fn pool_ok(p: S_misc_BytesPool) -> bool { p.chanMapping != 0 && 0 <= p.maxSize && 0 <= p.defaultWidth <= MAXLEN() }

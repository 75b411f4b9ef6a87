// ---- the registry of loggers ----
#[verifier::opaque] pub open spec fn upper(s: Seq<u8>) -> Seq<u8> { arbitrary() }
pub open spec fn level_of(s: Seq<u8>) -> int {
    if s =~= @"INFO" { 1 } else if s =~= @"WARN" { 2 } else if s =~= @"ERROR" { 3 } else if s =~= @"PANIC" { 4 } else if s =~= @"TRACE" { 5 } else { 0 }
}
pub open spec fn levels_ok(t: GoMap<Seq<u8>, int>) -> bool {
    forall|s: Seq<u8>| (if #[trigger] t.m.dom().contains(s) { t.m[s] } else { 0 }) == level_of(s)
}
pub open spec fn registry(b: S_misc_bufferLogger) -> Map<Seq<u8>, int> { b.bufferedLoggers.m }
pub open spec fn registry_level(b: S_misc_bufferLogger) -> int { b.level }
pub open spec fn registered(a: S_misc_bufferLogger, b: S_misc_bufferLogger, name: Seq<u8>, r: int) -> bool {
    registry_level(b) == registry_level(a) && !b.bufferedLoggers.nil
        && (if registry(a).dom().contains(name) { r == registry(a)[name] && registry(b) =~= registry(a) } else { registry(b) =~= registry(a).insert(name, r) })
}
pub open spec fn logger_keys(m: Map<Seq<u8>, int>, ks: Seq<Seq<u8>>) -> bool { ks.no_duplicates() && ks.to_set() =~= m.dom() }
// the loggers of the first n keys were flushed, one after another
pub open spec fn flushed_part(a: Seq<int>, b: Seq<int>, m: Map<Seq<u8>, int>, ks: Seq<Seq<u8>>, n: int) -> bool {
    0 <= n <= ks.len() && b.len() == a.len() + n && (forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i]) && (forall|i: int| a.len() <= i < b.len() ==> #[trigger] b[i] == m[ks[i - a.len()]])
}
pub open spec fn flushed_all(a: Seq<int>, b: Seq<int>, m: Map<Seq<u8>, int>) -> bool {
    exists|ks: Seq<Seq<u8>>| #[trigger] logger_keys(m, ks) && flushed_part(a, b, m, ks, ks.len() as int)
}
pub proof fn lemma_flushed(a: Seq<int>, b: Seq<int>, m: Map<Seq<u8>, int>, ks: Seq<Seq<u8>>)
    ensures ks.no_duplicates() && (forall|q: int| 0 <= q < ks.len() ==> m.dom().contains(#[trigger] ks[q])) && (forall|k: Seq<u8>| #[trigger] m.dom().contains(k) ==> ks.contains(k)) && flushed_part(a, b, m, ks, ks.len() as int) ==> flushed_all(a, b, m)
{
    if ks.no_duplicates() && (forall|q: int| 0 <= q < ks.len() ==> m.dom().contains(#[trigger] ks[q])) && (forall|k: Seq<u8>| #[trigger] m.dom().contains(k) ==> ks.contains(k)) {
        assert(ks.to_set() =~= m.dom());
        assert(logger_keys(m, ks));
    }
}


// ---- errors ----
#[verifier::opaque] pub open spec fn error_says(e: int) -> Seq<u8> { arbitrary() }
#[verifier::opaque] pub open spec fn stringer_says(s: int) -> Seq<u8> { arbitrary() }
#[verifier::opaque] pub open spec fn json_err(v: Val) -> int { arbitrary() }
#[verifier::opaque] pub open spec fn json_text(v: Val) -> Seq<u8> { arbitrary() }
// the text of a value: a string is its own text, an error and what describes itself say their text, the rest is JSON
pub open spec fn to_str(v: Val) -> Seq<u8> {
    if v is Str { v->Str_0 }
    else if v is Err { error_says(v->Err_0) }
    else if v is Ref && v->Ref_0 == tag_misc_Error() { error_says(err_of_ref(tag_misc_Error(), v->Ref_1)) }
    else if dyn_is(v, tagv_fmt_Stringer()) { stringer_says(dyn_as(v, tagv_fmt_Stringer())) }
    else if json_err(v) != 0 { error_says(json_err(v)) }
    else { json_text(v) }
}
#[verifier::opaque] pub open spec fn fold_raw(a: Seq<u8>, b: Seq<u8>) -> bool { arbitrary() }
pub open spec fn fold_eq(a: Seq<u8>, b: Seq<u8>) -> bool { a =~= b || fold_raw(a, b) }
pub open spec fn joined(s: Seq<Val>) -> Seq<u8>
    decreases s.len()
{ if s.len() == 0 { Seq::<u8>::empty() } else { joined(s.drop_last()) + to_str(s.last()) + seq![124u8] } }
pub open spec fn error_head(e: S_misc_Error) -> Seq<u8> { itoa(e.code) + seq![58u8] + e.msg }
pub open spec fn error_text(e: S_misc_Error, stack: Seq<u8>) -> Seq<u8> {
    error_head(e) + (if e.context.nil { Seq::<u8>::empty() } else { @", params: " + joined(e.context.s) }) + (if e.printStack { @"\r\nstacks:\r\n" + stack } else { Seq::<u8>::empty() })
}
pub proof fn lemma_joined_start(s: Seq<Val>)
    ensures joined(s.subrange(0, 0)) == Seq::<u8>::empty()
{}
pub proof fn lemma_joined_step(s: Seq<Val>, i: int)
    ensures 0 <= i < s.len() ==> joined(s.subrange(0, i + 1)) == joined(s.subrange(0, i)) + to_str(s[i]) + seq![124u8]
{
    if 0 <= i < s.len() { assert(s.subrange(0, i + 1).drop_last() =~= s.subrange(0, i)); }
}
pub proof fn lemma_joined_all(s: Seq<Val>)
    ensures s.subrange(0, s.len() as int) == s
{ assert(s.subrange(0, s.len() as int) =~= s); }
pub open spec fn biz_err(pv: Val, h: Map<int, S_misc_Error>) -> bool {
    pv matches Val::Ref(t, r) && t == tag_misc_Error() && r != 0 && h.dom().contains(r) && h[r].code == 201 && !h[r].printStack
}
pub open spec fn sys_err(pv: Val, h: Map<int, S_misc_Error>) -> bool {
    pv matches Val::Ref(t, r) && t == tag_misc_Error() && r != 0 && h.dom().contains(r) && h[r].code == 201 && h[r].printStack
}
pub open spec fn err_says(pv: Val, h: Map<int, S_misc_Error>, msg: Seq<u8>, params: List) -> bool { h[pv->Ref_1].msg == msg && h[pv->Ref_1].context == params }
pub open spec fn err_msg(pv: Val, h: Map<int, S_misc_Error>, msg: Seq<u8>) -> bool { h[pv->Ref_1].msg == msg }

// ---- logger ----
pub open spec fn has_prefix(s: Seq<u8>, p: Seq<u8>) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) =~= p }
// ks lists the keys of m, each once
pub open spec fn keys_of(m: Map<Seq<u8>, Val>, ks: Seq<Seq<u8>>) -> bool {
    ks.no_duplicates() && ks.to_set() =~= m.dom()
}
// key:value|key:value... of the first n keys
pub open spec fn entries_text(m: Map<Seq<u8>, Val>, ks: Seq<Seq<u8>>, n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { Seq::<u8>::empty() } else { entries_text(m, ks, n - 1) + (if n > 1 { seq![124u8] } else { Seq::<u8>::empty() }) + ks[n - 1] + seq![58u8] + to_str(m[ks[n - 1]]) }
}
// the message, followed by every entry of the context
pub open spec fn line_of(t: Seq<u8>, msg: Seq<u8>, c: Dict) -> bool {
    if c.nil { t =~= msg } else { exists|ks: Seq<Seq<u8>>| #[trigger] keys_of(c.m, ks) && t =~= msg + @", " + entries_text(c.m, ks, ks.len() as int) }
}
pub proof fn lemma_line(t: Seq<u8>, msg: Seq<u8>, c: Dict, ks: Seq<Seq<u8>>)
    ensures !c.nil && ks.no_duplicates() && (forall|q: int| 0 <= q < ks.len() ==> c.m.dom().contains(#[trigger] ks[q])) && (forall|k: Seq<u8>| #[trigger] c.m.dom().contains(k) ==> ks.contains(k)) && t =~= msg + @", " + entries_text(c.m, ks, ks.len() as int) ==> line_of(t, msg, c)
{
    if ks.no_duplicates() && (forall|q: int| 0 <= q < ks.len() ==> c.m.dom().contains(#[trigger] ks[q])) && (forall|k: Seq<u8>| #[trigger] c.m.dom().contains(k) ==> ks.contains(k)) {
        assert(ks.to_set() =~= c.m.dom());
        assert(keys_of(c.m, ks));
    }
}
// one line with the level's name, the logger's prefix, the message and the context, or nothing
pub open spec fn printed(a: Seq<(Seq<u8>, List)>, b: Seq<(Seq<u8>, List)>, on: bool, level: Seq<u8>, prefix: Seq<u8>, msg: Seq<u8>, c: Dict) -> bool {
    if on {
        b.len() == a.len() + 1 && b.drop_last() =~= a && line_args(b.last().1.s, level, prefix, msg, c)
    } else { b == a }
}
pub open spec fn line_args(s: Seq<Val>, level: Seq<u8>, prefix: Seq<u8>, msg: Seq<u8>, c: Dict) -> bool {
    s.len() > 1 && s[1] == Val::Str(level) && (prefix.len() > 0 ==> s.len() > 2 && s[s.len() - 2] == Val::Str(prefix)) && (s.last() matches Val::Str(t) && line_of(t, msg, c))
}
pub open spec fn zap_level(s: Seq<u8>) -> int {
    if s =~= @"DEBUG" { -1 } else if s =~= @"WARN" { 1 } else if s =~= @"ERROR" { 2 } else if s =~= @"PANIC" { 4 } else if s =~= @"TRACE" { 10 } else { 0 }
}

// ---- file logger ----
#[verifier::opaque] pub open spec fn zap_any(k: Seq<u8>, v: Val) -> S_zapcore_Field { arbitrary() }
// whether a logger, a core lets a level through
#[verifier::opaque] pub open spec fn zap_on(l: int, level: int) -> bool { arbitrary() }
#[verifier::opaque] pub open spec fn core_on(c: int, level: int) -> bool { arbitrary() }
pub open spec fn zap_out(a: Seq<(int, int, Seq<u8>, Seq<S_zapcore_Field>)>, b: Seq<(int, int, Seq<u8>, Seq<S_zapcore_Field>)>, l: int, level: int, msg: Seq<u8>, fs: Seq<S_zapcore_Field>) -> bool {
    b == (if zap_on(l, level) { a.push((l, level, msg, fs)) } else { a })
}
pub open spec fn fields_part(m: Map<Seq<u8>, Val>, ks: Seq<Seq<u8>>, fs: Seq<S_zapcore_Field>, n: int) -> bool {
    0 <= n <= ks.len() && forall|j: int| 0 <= j < n && j < fs.len() ==> #[trigger] fs[j] == zap_any(ks[j], m[ks[j]])
}
pub open spec fn fields_of(c: Dict, fs: Seq<S_zapcore_Field>) -> bool {
    exists|ks: Seq<Seq<u8>>| #[trigger] keys_of(c.m, ks) && ks.len() == fs.len() && fields_part(c.m, ks, fs, ks.len() as int)
}
pub open spec fn zapped(a: Seq<(int, int, Seq<u8>, Seq<S_zapcore_Field>)>, b: Seq<(int, int, Seq<u8>, Seq<S_zapcore_Field>)>, l: int, level: int, msg: Seq<u8>, c: Dict) -> bool {
    if zap_on(l, level) { b.len() == a.len() + 1 && b.drop_last() =~= a && b.last().0 == l && b.last().1 == level && b.last().2 =~= msg && fields_of(c, b.last().3) } else { b == a }
}
pub proof fn lemma_fields(c: Dict, ks: Seq<Seq<u8>>, fs: Seq<S_zapcore_Field>)
    ensures ks.no_duplicates() && (forall|q: int| 0 <= q < ks.len() ==> c.m.dom().contains(#[trigger] ks[q])) && (forall|k: Seq<u8>| #[trigger] c.m.dom().contains(k) ==> ks.contains(k)) && fs.len() == ks.len() && fields_part(c.m, ks, fs, ks.len() as int) ==> fields_of(c, fs)
{
    if ks.no_duplicates() && (forall|q: int| 0 <= q < ks.len() ==> c.m.dom().contains(#[trigger] ks[q])) && (forall|k: Seq<u8>| #[trigger] c.m.dom().contains(k) ==> ks.contains(k)) && fs.len() == ks.len() && fields_part(c.m, ks, fs, ks.len() as int) {
        assert(ks.to_set() =~= c.m.dom());
        assert(keys_of(c.m, ks));
    }
}
pub proof fn lemma_no_fields(c: Dict)
    ensures c.m.dom().len() == 0 && c.m.dom().finite() ==> fields_of(c, Seq::empty())
{
    if c.m.dom().len() == 0 && c.m.dom().finite() {
        let ks = Seq::<Seq<u8>>::empty();
        assert(c.m.dom() =~= Set::empty());
        assert(keys_of(c.m, ks));
    }
}

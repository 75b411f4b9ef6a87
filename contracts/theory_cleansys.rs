// ---- all goroutines of one shutdown together ----
// What each event may do is the `on` clause of runCleans' contract (the predicates may_... are shared with them); a wait
// group counts, Wait returns at zero.
pub struct CleanSys {
    pub cleans: Seq<int>,           // what was registered when the waiting goroutine looked
    pub adds: int,
    pub dones: int,
    pub goes: Seq<int>,             // the functions goroutines were started for, in order
    pub ran: Seq<int>,              // which of those goroutines ran their function, in order
    pub over: Set<int>,             // which of those goroutines called Done
    pub waited: bool,
    pub sent: bool,
}
pub enum CleanEv { Add { n: int }, Start { f: int }, Ran { i: int }, Done { i: int }, Waited, Sent }

pub open spec fn clean_init(a: CleanSys) -> bool {
    a.adds == 0 && a.dones == 0 && a.goes.len() == 0 && a.ran.len() == 0 && a.over == Set::<int>::empty() && !a.waited && !a.sent
}
pub open spec fn clean_can(a: CleanSys, e: CleanEv) -> bool {
    match e {
        CleanEv::Add { n } => may_add(!a.waited),
        CleanEv::Start { f } => may_start(a.adds, a.goes.len() as int),
        CleanEv::Ran { i } => 0 <= i < a.goes.len() && !a.ran.contains(i),
        CleanEv::Done { i } => 0 <= i < a.goes.len() && may_end(a.ran.contains(i), !a.over.contains(i)),
        CleanEv::Waited => !a.waited && may_wait(a.adds, a.cleans.len() as int, a.goes =~= a.cleans) && a.adds - a.dones == 0,
        CleanEv::Sent => may_send(a.waited, !a.sent),
    }
}
pub open spec fn clean_next(a: CleanSys, e: CleanEv) -> CleanSys {
    match e {
        CleanEv::Add { n } => CleanSys { adds: a.adds + n, ..a },
        CleanEv::Start { f } => CleanSys { goes: a.goes.push(f), ..a },
        CleanEv::Ran { i } => CleanSys { ran: a.ran.push(i), ..a },
        CleanEv::Done { i } => CleanSys { dones: a.dones + 1, over: a.over.insert(i), ..a },
        CleanEv::Waited => CleanSys { waited: true, ..a },
        CleanEv::Sent => CleanSys { sent: true, ..a },
    }
}
pub open spec fn clean_inv(a: CleanSys) -> bool {
    &&& a.over.finite() && a.dones == a.over.len()
    &&& forall|i: int| #[trigger] a.over.contains(i) ==> a.ran.contains(i)
    &&& forall|k: int| 0 <= k < a.ran.len() ==> 0 <= #[trigger] a.ran[k] < a.goes.len()
    &&& forall|j: int, k: int| 0 <= j < k < a.ran.len() ==> a.ran[j] != a.ran[k]
    &&& a.waited ==> a.goes =~= a.cleans && a.adds == a.cleans.len() && a.over.len() == a.cleans.len()
    &&& a.sent ==> a.waited
}
pub proof fn lemma_clean_init(a: CleanSys)
    requires clean_init(a)
    ensures clean_inv(a)
{
}
pub proof fn lemma_clean_step(a: CleanSys, e: CleanEv)
    requires clean_inv(a), clean_can(a, e)
    ensures clean_inv(clean_next(a, e)), clean_next(a, e).cleans == a.cleans
{
    let b = clean_next(a, e);
    match e {
        CleanEv::Ran { i } => {
            assert forall|t: int| a.ran.contains(t) implies b.ran.contains(t) by { let k = choose|k: int| 0 <= k < a.ran.len() && a.ran[k] == t; assert(b.ran[k] == t); }
            assert forall|j: int, k: int| 0 <= j < k < b.ran.len() implies b.ran[j] != b.ran[k] by { if k == a.ran.len() { assert(a.ran.contains(a.ran[j])); } }
        }
        CleanEv::Done { i } => { if a.waited { lemma_all_over(a); assert(a.over.contains(i)); } }
        _ => { }
    }
}
// the goroutines that are over are those that were started
proof fn lemma_all_over(a: CleanSys)
    requires clean_inv(a), a.waited
    ensures forall|i: int| 0 <= i < a.cleans.len() ==> #[trigger] a.over.contains(i)
{
    let all = vstd::set_lib::set_int_range(0, a.cleans.len() as int);
    vstd::set_lib::lemma_int_range(0, a.cleans.len() as int);
    assert(a.over.subset_of(all)) by {
        assert forall|i: int| a.over.contains(i) implies all.contains(i) by { let k = choose|k: int| 0 <= k < a.ran.len() && a.ran[k] == i; assert(0 <= a.ran[k] < a.goes.len()); }
    }
    vstd::set_lib::lemma_subset_equality(a.over, all);
}
// when the waiting one is told, each registered cleanup was started once and has returned
pub proof fn lemma_clean_told(a: CleanSys)
    requires clean_inv(a), a.sent
    ensures a.goes =~= a.cleans, forall|i: int| 0 <= i < a.cleans.len() ==> #[trigger] a.ran.contains(i), a.ran.len() == a.cleans.len()
{
    lemma_all_over(a);
    assert forall|i: int| 0 <= i < a.cleans.len() implies #[trigger] a.ran.contains(i) by { assert(a.over.contains(i)); }
    let all = vstd::set_lib::set_int_range(0, a.cleans.len() as int);
    vstd::set_lib::lemma_int_range(0, a.cleans.len() as int);
    assert(a.ran.no_duplicates());
    a.ran.unique_seq_to_set();
    assert(a.ran.to_set() =~= all) by {
        assert forall|i: int| a.ran.to_set().contains(i) <==> all.contains(i) by { if a.ran.contains(i) { let k = choose|k: int| 0 <= k < a.ran.len() && a.ran[k] == i; assert(0 <= a.ran[k] < a.goes.len()); } }
    }
}
// once all are started, it is told after at most as many events as are left: cleanups that return, their Done, Wait, the send
pub open spec fn clean_left(a: CleanSys) -> int { 2 * a.cleans.len() - a.ran.len() - a.over.len() + (if a.waited { 0int } else { 1int }) + (if a.sent { 0int } else { 1int }) }
pub open spec fn clean_ready(a: CleanSys) -> bool { a.goes =~= a.cleans && a.adds == a.cleans.len() }
pub proof fn lemma_clean_moves(a: CleanSys) -> (e: CleanEv)
    requires clean_inv(a), clean_ready(a), !a.sent
    ensures clean_can(a, e), !(e is Add), !(e is Start), clean_ready(clean_next(a, e)), clean_left(clean_next(a, e)) < clean_left(a)
{
    if exists|i: int| 0 <= i < a.goes.len() && !a.ran.contains(i) { let i = choose|i: int| 0 <= i < a.goes.len() && !a.ran.contains(i); CleanEv::Ran { i } }
    else if exists|i: int| 0 <= i < a.goes.len() && !a.over.contains(i) { let i = choose|i: int| 0 <= i < a.goes.len() && !a.over.contains(i); CleanEv::Done { i } }
    else if !a.waited {
        let all = vstd::set_lib::set_int_range(0, a.cleans.len() as int);
        vstd::set_lib::lemma_int_range(0, a.cleans.len() as int);
        assert(a.over =~= all) by {
            assert forall|i: int| a.over.contains(i) <==> all.contains(i) by { if a.over.contains(i) { let k = choose|k: int| 0 <= k < a.ran.len() && a.ran[k] == i; assert(0 <= a.ran[k] < a.goes.len()); } }
        }
        CleanEv::Waited
    } else { CleanEv::Sent }
}

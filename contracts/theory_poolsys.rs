// ---- all goroutines of one worker pool together ----
// What each event of a goroutine may do is the `on` clause of its contract (the predicates may_... are shared with
// them); what the primitives do with it is Go's: a wait group counts, Wait returns at zero, a channel gives each value once.
pub struct PoolSys {
    pub size: int,
    pub status: Val,
    pub pend: int,                  // the counter of pending
    pub wgn: int,                   // the counter of wg
    pub accepted: Set<int>,         // submissions that were counted
    pub counted: Set<int>,          // ... and not settled yet
    pub sent: Set<int>,             // ... and queued
    pub queue: Seq<int>,
    pub working: Set<int>,          // workers that did not leave
    pub running: Map<int, int>,     // what a worker runs
    pub told: Set<int>,             // workers that saw shutdowned closed
    pub found: Set<int>,            // workers that found the queue empty since they last received
    pub done: Seq<int>,             // submissions whose task was run, in order
    pub claimed: bool,              // a shutdown moved the status and waits
    pub settled: bool,              // its wait for pending returned
    pub closed: bool,               // shutdowned is closed
    pub finished: bool,             // finish is closed
}
pub enum PoolEv { Count { s: int }, Queue { s: int }, Settle { s: int }, Take { w: int }, Ran { w: int }, Told { w: int }, Found { w: int }, Left { w: int }, Status { n: Val, held: int }, Waited, Tell, Finish }

pub open spec fn pool_init(a: PoolSys) -> bool {
    a.size >= 0 && status_ok(a.status) && rank(a.status) == 0 && a.pend == 0 && a.wgn == a.size && a.accepted == Set::<int>::empty() && a.counted == Set::<int>::empty()
    && a.sent == Set::<int>::empty() && a.queue.len() == 0 && a.working.finite() && a.working.len() == a.size && a.running.dom() == Set::<int>::empty()
    && a.told == Set::<int>::empty() && a.found == Set::<int>::empty() && a.done.len() == 0 && !a.claimed && !a.settled && !a.closed && !a.finished
}
pub open spec fn pool_can(a: PoolSys, e: PoolEv) -> bool {
    match e {
        // AsyncSubmit: on add counted, on send accepted, on done counted; ensures queued: once for each call
        PoolEv::Count { s } => may_count(a.status, 2, 1) && !a.accepted.contains(s),
        PoolEv::Queue { s } => a.counted.contains(s) && !a.sent.contains(s) && may_queue(1) && a.queue.len() < a.size,
        PoolEv::Settle { s } => a.counted.contains(s) && a.sent.contains(s) && may_settle(1),
        // workerLoop, drainQueue: each task received is run before the next receive (ensures ran)
        PoolEv::Take { w } => a.working.contains(w) && !a.running.contains_key(w) && a.queue.len() > 0,
        PoolEv::Ran { w } => a.working.contains(w) && a.running.contains_key(w),
        PoolEv::Told { w } => a.working.contains(w) && !a.running.contains_key(w) && a.closed && !a.told.contains(w),
        PoolEv::Found { w } => a.working.contains(w) && !a.running.contains_key(w) && a.queue.len() == 0 && !a.found.contains(w),
        PoolEv::Left { w } => a.working.contains(w) && !a.running.contains_key(w) && may_leave(a.found.contains(w), a.told.contains(w)),
        // every store to the status is within the guarantee
        PoolEv::Status { n, held } => pool_guar(a.status, n, held),
        // waitFinish: started by the one that moved the status; on wait order, on close order
        PoolEv::Waited => a.claimed && a.pend == 0 && !a.settled,
        PoolEv::Tell => may_tell(a.settled) && !a.closed,
        PoolEv::Finish => may_finish(a.closed, a.wgn == 0) && !a.finished,
    }
}
pub open spec fn pool_next(a: PoolSys, e: PoolEv) -> PoolSys {
    match e {
        PoolEv::Count { s } => PoolSys { pend: a.pend + 1, accepted: a.accepted.insert(s), counted: a.counted.insert(s), ..a },
        PoolEv::Queue { s } => PoolSys { sent: a.sent.insert(s), queue: a.queue.push(s), ..a },
        PoolEv::Settle { s } => PoolSys { pend: a.pend - 1, counted: a.counted.remove(s), ..a },
        PoolEv::Take { w } => PoolSys { running: a.running.insert(w, a.queue[0]), queue: a.queue.skip(1), found: a.found.remove(w), ..a },
        PoolEv::Ran { w } => PoolSys { running: a.running.remove(w), done: a.done.push(a.running[w]), ..a },
        PoolEv::Told { w } => PoolSys { told: a.told.insert(w), found: a.found.remove(w), ..a },
        PoolEv::Found { w } => PoolSys { found: a.found.insert(w), ..a },
        PoolEv::Left { w } => PoolSys { wgn: a.wgn - 1, working: a.working.remove(w), ..a },
        PoolEv::Status { n, held } => PoolSys { status: n, claimed: a.claimed || rank(a.status) == 0 && rank(n) == 1, ..a },
        PoolEv::Waited => PoolSys { settled: true, ..a },
        PoolEv::Tell => PoolSys { closed: true, ..a },
        PoolEv::Finish => PoolSys { finished: true, ..a },
    }
}
// where a submission is: queued, being run, run
pub open spec fn in_queue(a: PoolSys, s: int) -> bool { a.queue.contains(s) }
pub open spec fn in_run(m: Map<int, int>, s: int) -> bool { exists|w: int| #[trigger] m.contains_key(w) && m[w] == s }
pub open spec fn in_done(a: PoolSys, s: int) -> bool { a.done.contains(s) }
pub open spec fn once(q: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < j < q.len() ==> q[i] != q[j] }
pub open spec fn pool_inv(a: PoolSys) -> bool {
    &&& status_ok(a.status) && a.size >= 0
    &&& a.counted.finite() && a.pend == a.counted.len()
    &&& a.working.finite() && a.wgn == a.working.len() && a.wgn <= a.size
    &&& a.counted.subset_of(a.accepted) && a.sent.subset_of(a.accepted)
    &&& forall|s: int| #[trigger] a.accepted.contains(s) ==> a.counted.contains(s) || a.sent.contains(s)
    // what is queued, run or done was queued once, and is in one place
    &&& forall|s: int| #[trigger] a.queue.contains(s) ==> a.sent.contains(s) && !in_run(a.running, s) && !in_done(a, s)
    &&& forall|w: int| #[trigger] a.running.contains_key(w) ==> a.working.contains(w) && a.sent.contains(a.running[w]) && !in_done(a, a.running[w])
    &&& forall|w: int, x: int| #[trigger] a.running.contains_key(w) && #[trigger] a.running.contains_key(x) && w != x ==> a.running[w] != a.running[x]
    &&& forall|s: int| #[trigger] a.done.contains(s) ==> a.sent.contains(s)
    &&& forall|s: int| #[trigger] a.sent.contains(s) ==> in_queue(a, s) || in_run(a.running, s) || in_done(a, s)
    &&& once(a.queue) && once(a.done)
    // the shutdown
    &&& a.claimed ==> rank(a.status) >= 1
    &&& a.settled ==> a.claimed && a.counted =~= Set::<int>::empty()
    &&& a.closed ==> a.settled
    &&& forall|w: int| #[trigger] a.told.contains(w) ==> a.closed
    &&& forall|w: int| #[trigger] a.told.contains(w) && a.found.contains(w) ==> a.queue.len() == 0
    &&& a.wgn < a.size ==> a.closed && a.queue.len() == 0
    &&& a.size == 0 ==> a.queue.len() == 0
    &&& a.finished ==> a.closed && a.wgn == 0
}
pub proof fn lemma_pool_init(a: PoolSys)
    requires pool_init(a)
    ensures pool_inv(a)
{
}
pub proof fn lemma_pool_step(a: PoolSys, e: PoolEv)
    requires pool_inv(a), pool_can(a, e)
    ensures pool_inv(pool_next(a, e)),
        // the reported state only moves forward; nothing is accepted once it left running
        rank(pool_next(a, e).status) >= rank(a.status),
        rank(a.status) != 0 ==> pool_next(a, e).accepted == a.accepted,
{
    let b = pool_next(a, e);
    match e {
        PoolEv::Count { s } => { }
        PoolEv::Queue { s } => {
            assert(once(b.queue)) by { assert forall|i: int, j: int| 0 <= i < j < b.queue.len() implies b.queue[i] != b.queue[j] by { if j == a.queue.len() { assert(a.queue.contains(a.queue[i])); } } }
            assert forall|t: int| b.queue.contains(t) <==> a.queue.contains(t) || t == s by {
                if a.queue.contains(t) { let i = choose|i: int| 0 <= i < a.queue.len() && a.queue[i] == t; assert(b.queue[i] == t); }
                if t == s { assert(b.queue[a.queue.len() as int] == s); }
            }
            assert forall|t: int| in_run(b.running, t) == in_run(a.running, t) by { }
        }
        PoolEv::Settle { s } => { }
        PoolEv::Take { w } => {
            let s = a.queue[0];
            assert(a.queue.contains(s));
            assert(once(b.queue)) by { assert forall|i: int, j: int| 0 <= i < j < b.queue.len() implies b.queue[i] != b.queue[j] by { assert(a.queue[i + 1] != a.queue[j + 1]); } }
            assert forall|t: int| b.queue.contains(t) <==> a.queue.contains(t) && t != s by {
                if b.queue.contains(t) { let i = choose|i: int| 0 <= i < b.queue.len() && b.queue[i] == t; assert(a.queue[i + 1] == t); }
                if a.queue.contains(t) && t != s { let i = choose|i: int| 0 <= i < a.queue.len() && a.queue[i] == t; assert(b.queue[i - 1] == t); }
            }
            assert forall|t: int| in_run(b.running, t) <==> in_run(a.running, t) || t == s by {
                if in_run(a.running, t) { let x = choose|x: int| #[trigger] a.running.contains_key(x) && a.running[x] == t; assert(b.running.contains_key(x) && b.running[x] == t); }
                if t == s { assert(b.running.contains_key(w)); }
            }
            assert forall|x: int| #[trigger] b.running.contains_key(x) implies b.working.contains(x) && b.sent.contains(b.running[x]) && !in_done(b, b.running[x]) by { if x != w { assert(a.running.contains_key(x)); } }
            assert forall|x: int, y: int| #[trigger] b.running.contains_key(x) && #[trigger] b.running.contains_key(y) && x != y implies b.running[x] != b.running[y] by {
                if x != w { assert(a.running.contains_key(x)); assert(in_run(a.running, a.running[x])); }
                if y != w { assert(a.running.contains_key(y)); assert(in_run(a.running, a.running[y])); }
            }
        }
        PoolEv::Ran { w } => {
            let s = a.running[w];
            assert forall|t: int| b.done.contains(t) <==> a.done.contains(t) || t == s by {
                if a.done.contains(t) { let i = choose|i: int| 0 <= i < a.done.len() && a.done[i] == t; assert(b.done[i] == t); }
                if t == s { assert(b.done[a.done.len() as int] == s); }
            }
            assert(in_run(a.running, s));
            assert forall|t: int| in_run(b.running, t) <==> in_run(a.running, t) && t != s by {
                if in_run(b.running, t) { let x = choose|x: int| #[trigger] b.running.contains_key(x) && b.running[x] == t; assert(a.running.contains_key(x) && x != w); }
                if in_run(a.running, t) && t != s { let x = choose|x: int| #[trigger] a.running.contains_key(x) && a.running[x] == t; assert(b.running.contains_key(x)); }
            }
            assert forall|x: int| #[trigger] b.running.contains_key(x) implies b.working.contains(x) && b.sent.contains(b.running[x]) && !in_done(b, b.running[x]) by { assert(a.running.contains_key(x)); }
            assert(once(b.done)) by { assert forall|i: int, j: int| 0 <= i < j < b.done.len() implies b.done[i] != b.done[j] by { if j == a.done.len() { assert(a.done.contains(a.done[i])); } } }
        }
        PoolEv::Told { w } => { }
        PoolEv::Found { w } => { }
        PoolEv::Left { w } => { assert(b.running == a.running); assert forall|t: int| in_run(b.running, t) == in_run(a.running, t) by { } }
        PoolEv::Status { n, held } => { }
        PoolEv::Waited => { assert(a.counted =~= Set::<int>::empty()); }
        PoolEv::Tell => { }
        PoolEv::Finish => { }
    }
    if !(e is Queue) && !(e is Take) && !(e is Ran) && !(e is Left) {
        assert(b.running == a.running && b.queue == a.queue && b.done == a.done);
        assert forall|t: int| in_run(b.running, t) == in_run(a.running, t) by { }
    }
}
// when the shutdown has finished, each accepted task was run, once, and nothing else was run
pub proof fn lemma_pool_finished(a: PoolSys)
    requires pool_inv(a), a.finished
    ensures forall|s: int| #[trigger] a.accepted.contains(s) <==> a.done.contains(s), once(a.done)
{
    assert(a.working =~= Set::<int>::empty());
    assert(a.queue.len() == 0);
    assert forall|s: int| #[trigger] a.accepted.contains(s) <==> a.done.contains(s) by {
        if a.accepted.contains(s) {
            assert(a.sent.contains(s));
            assert(!in_run(a.running, s));
        }
    }
}

// the shutdown ends once running and queued tasks are done: until it has finished some goroutine has something to do, and
// nothing can be done for ever
pub open spec fn moves(e: PoolEv) -> bool { !(e is Status) }
pub open spec fn b2i(b: bool) -> int { if b { 1int } else { 0int } }
pub open spec fn pool_left(a: PoolSys) -> int {
    12 * a.accepted.difference(a.sent).len() + a.counted.len() + 8 * a.queue.len() + 4 * a.working.filter(|w: int| a.running.contains_key(w)).len()
    + 3 * a.working.filter(|w: int| !a.told.contains(w)).len() + a.working.filter(|w: int| !a.found.contains(w)).len() + a.working.len()
    + b2i(!a.settled) + b2i(!a.closed) + b2i(!a.finished)
}
pub proof fn lemma_pool_moves(a: PoolSys) -> (e: PoolEv)
    requires pool_inv(a), a.claimed, !a.finished, a.size > 0
    ensures pool_can(a, e), moves(e)
{
    if a.pend > 0 {
        assert(a.counted.len() > 0);
        let s = a.counted.choose();
        assert(a.counted.contains(s)) by { if forall|t: int| !a.counted.contains(t) { assert(a.counted =~= Set::<int>::empty()); } }
        if a.sent.contains(s) { PoolEv::Settle { s } }
        else if a.queue.len() < a.size { PoolEv::Queue { s } }
        else {
            assert(a.working.len() > 0);
            let w = a.working.choose();
            assert(a.working.contains(w)) by { if forall|t: int| !a.working.contains(t) { assert(a.working =~= Set::<int>::empty()); } }
            if a.running.contains_key(w) { PoolEv::Ran { w } } else { PoolEv::Take { w } }
        }
    } else if !a.settled { PoolEv::Waited }
    else if !a.closed { PoolEv::Tell }
    else if a.wgn == 0 { PoolEv::Finish }
    else {
        assert(a.working.len() > 0);
        let w = a.working.choose();
        assert(a.working.contains(w)) by { if forall|t: int| !a.working.contains(t) { assert(a.working =~= Set::<int>::empty()); } }
        if a.running.contains_key(w) { PoolEv::Ran { w } }
        else if a.queue.len() > 0 { PoolEv::Take { w } }
        else if !a.told.contains(w) { PoolEv::Told { w } }
        else if !a.found.contains(w) { PoolEv::Found { w } }
        else { PoolEv::Left { w } }
    }
}
proof fn lemma_filter_add(q: Set<int>, f: spec_fn(int) -> bool, g: spec_fn(int) -> bool, x: int)
    requires q.finite(), q.contains(x), !f(x), g(x), forall|y: int| y != x ==> #[trigger] f(y) == #[trigger] g(y)
    ensures q.filter(g).len() == q.filter(f).len() + 1, q.filter(f).finite(), q.filter(g).finite()
{
    assert(q.filter(g) =~= q.filter(f).insert(x));
    assert(!q.filter(f).contains(x));
    q.lemma_len_filter(f);
}
proof fn lemma_filter_gone(q: Set<int>, f: spec_fn(int) -> bool, x: int)
    requires q.finite()
    ensures q.remove(x).filter(f).len() <= q.filter(f).len(), q.remove(x).filter(f).finite()
{
    q.lemma_len_filter(f);
    assert(q.filter(f).finite());
    assert(q.remove(x).filter(f).subset_of(q.filter(f)));
    vstd::set_lib::lemma_len_subset(q.remove(x).filter(f), q.filter(f));
}
pub proof fn lemma_pool_ends(a: PoolSys, e: PoolEv)
    requires pool_inv(a), a.claimed, a.accepted.finite(), pool_can(a, e), moves(e)
    ensures pool_left(pool_next(a, e)) < pool_left(a), pool_left(a) >= 0, pool_next(a, e).accepted.finite()
{
    let b = pool_next(a, e);
    let fr = |w: int| a.running.contains_key(w);
    let ft = |w: int| !a.told.contains(w);
    let ff = |w: int| !a.found.contains(w);
    let gr = |w: int| b.running.contains_key(w);
    let gt = |w: int| !b.told.contains(w);
    let gf = |w: int| !b.found.contains(w);
    assert(pool_left(a) == 12 * a.accepted.difference(a.sent).len() + a.counted.len() + 8 * a.queue.len() + 4 * a.working.filter(fr).len() + 3 * a.working.filter(ft).len() + a.working.filter(ff).len() + a.working.len() + b2i(!a.settled) + b2i(!a.closed) + b2i(!a.finished));
    assert(pool_left(b) == 12 * b.accepted.difference(b.sent).len() + b.counted.len() + 8 * b.queue.len() + 4 * b.working.filter(gr).len() + 3 * b.working.filter(gt).len() + b.working.filter(gf).len() + b.working.len() + b2i(!b.settled) + b2i(!b.closed) + b2i(!b.finished));
    match e {
        PoolEv::Count { s } => { }
        PoolEv::Queue { s } => {
            assert(b.accepted.difference(b.sent) =~= a.accepted.difference(a.sent).remove(s));
            assert(a.accepted.difference(a.sent).finite());
            assert(a.accepted.difference(a.sent).contains(s));
            assert(gr =~= fr); assert(gt =~= ft); assert(gf =~= ff);
        }
        PoolEv::Settle { s } => { }
        PoolEv::Take { w } => {
            lemma_filter_add(a.working, fr, gr, w);
            if a.found.contains(w) { lemma_filter_add(a.working, ff, gf, w); } else { assert(a.working.filter(ff) =~= a.working.filter(gf)); }
        }
        PoolEv::Ran { w } => { lemma_filter_add(a.working, gr, fr, w); }
        PoolEv::Told { w } => {
            lemma_filter_add(a.working, gt, ft, w);
            if a.found.contains(w) { lemma_filter_add(a.working, ff, gf, w); } else { assert(a.working.filter(ff) =~= a.working.filter(gf)); }
        }
        PoolEv::Found { w } => { lemma_filter_add(a.working, gf, ff, w); }
        PoolEv::Left { w } => {
            lemma_filter_gone(a.working, fr, w); lemma_filter_gone(a.working, ft, w); lemma_filter_gone(a.working, ff, w);
        }
        PoolEv::Status { n, held } => { }
        PoolEv::Waited => { }
        PoolEv::Tell => { }
        PoolEv::Finish => { }
    }
}

// ---- status of pools and shutdowns: 0 running, 1 shutting down, 2 shut down ----
pub open spec fn status_ok(v: Val) -> bool { v matches Val::NInt(t, i) && t == tagv_misc_ShutdownStatus() && 0 <= i <= 2 }
pub open spec fn rank(v: Val) -> int { match v { Val::NInt(t, i) => i, _ => 3 } }
// the status of a pool moves forward; it leaves "running" only under the pool's lock
pub open spec fn pool_rely(o: Val, n: Val, held: int) -> bool {
    status_ok(o) ==> status_ok(n) && rank(n) >= rank(o) && (rank(o) == 0 && held != 0 ==> n == o)
}
pub open spec fn pool_guar(o: Val, n: Val, held: int) -> bool {
    status_ok(o) ==> status_ok(n) && rank(n) >= rank(o) && (rank(o) == 0 ==> n == o || rank(n) == 1 && held == 2)
}
pub open spec fn conf_same(a: S_misc_WorkPool, b: S_misc_WorkPool) -> bool {
    a.name == b.name && a.size == b.size && a.queue == b.queue && a.shutdowned == b.shutdowned && a.ctx == b.ctx
}
pub open spec fn pool_made(p: S_misc_WorkPool) -> bool {
    status_ok(p.status) && p.queue != 0 && p.shutdowned != 0 && p.queue != p.shutdowned && p.ctx != 0 && p.size >= 0
}
// this operation is the one that moved the pool from running to shutting down
pub open spec fn claim(s: Seq<(int, Val, Val)>, p: int) -> bool { s.len() > 0 && s.last().0 == p && rank(s.last().1) == 0 && rank(s.last().2) == 1 }

// what an event of the pool needs (theory_poolsys.rs puts the goroutines together)
pub open spec fn may_count(status: Val, held: int, n: int) -> bool { n == 1 && held == 2 && rank(status) == 0 }
pub open spec fn may_queue(owed: int) -> bool { owed == 1 }
pub open spec fn may_settle(owed: int) -> bool { owed > 0 }
pub open spec fn may_leave(empty: bool, told: bool) -> bool { empty && told }
pub open spec fn may_tell(settled: bool) -> bool { settled }
pub open spec fn may_finish(told: bool, left: bool) -> bool { told && left }

// ---- what a goroutine received and ran ----
pub open spec fn tasks(o: Seq<(int, int)>, g: Seq<(int, int)>, q: int) -> Seq<int> decreases g.len() {
    if g.len() <= o.len() { Seq::<int>::empty() }
    else if g.last().0 == q { tasks(o, g.drop_last(), q).push(g.last().1) }
    else { tasks(o, g.drop_last(), q) }
}
pub open spec fn more<A>(s: Seq<A>, t: Seq<A>) -> bool { s.len() <= t.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] t[i] == s[i] }
pub open spec fn since<A>(o: Seq<A>, s: Seq<A>, v: A) -> bool { exists|i: int| o.len() <= i < s.len() && #[trigger] s[i] == v }
pub open spec fn got_from(o: Seq<(int, int)>, g: Seq<(int, int)>, c: int) -> bool { exists|i: int| o.len() <= i < g.len() && (#[trigger] g[i]).0 == c }
pub open spec fn started(g: Seq<(int, int)>, f: int, a: int) -> int decreases g.len() {
    if g.len() == 0 { 0 } else { started(g.drop_last(), f, a) + (if g.last() == (f, a) { 1int } else { 0int }) }
}
pub proof fn lemma_tasks_add(o: Seq<(int, int)>, g: Seq<(int, int)>, h: Seq<(int, int)>, q: int)
    requires o.len() <= g.len(), more(g, h)
    ensures tasks(o, h, q) == tasks(o, g, q) + tasks(g, h, q)
    decreases h.len()
{
    if h.len() <= g.len() { assert(h =~= g); assert(tasks(o, h, q) =~= tasks(o, g, q) + tasks(g, h, q)); }
    else {
        lemma_tasks_add(o, g, h.drop_last(), q);
        assert(tasks(o, h, q) =~= tasks(o, g, q) + tasks(g, h, q));
    }
}
pub proof fn lemma_tasks()
    ensures forall|o: Seq<(int, int)>, g: Seq<(int, int)>, q: int, e: (int, int)| o.len() <= g.len() ==> #[trigger] tasks(o, g.push(e), q) == (if e.0 == q { tasks(o, g, q).push(e.1) } else { tasks(o, g, q) }),
        forall|o: Seq<(int, int)>, g: Seq<(int, int)>, h: Seq<(int, int)>, q: int| o.len() <= g.len() && more(g, h) ==> #[trigger] tasks(o, h, q) == tasks(o, g, q) + #[trigger] tasks(g, h, q),
{
    assert forall|o: Seq<(int, int)>, g: Seq<(int, int)>, q: int, e: (int, int)| o.len() <= g.len() implies #[trigger] tasks(o, g.push(e), q) == (if e.0 == q { tasks(o, g, q).push(e.1) } else { tasks(o, g, q) }) by {
        assert(g.push(e).drop_last() =~= g);
    }
    assert forall|o: Seq<(int, int)>, g: Seq<(int, int)>, h: Seq<(int, int)>, q: int| o.len() <= g.len() && more(g, h) implies #[trigger] tasks(o, h, q) == tasks(o, g, q) + #[trigger] tasks(g, h, q) by {
        lemma_tasks_add(o, g, h, q);
    }
}
pub proof fn lemma_started()
    ensures forall|g: Seq<(int, int)>, f: int, a: int, e: (int, int)| #[trigger] started(g.push(e), f, a) == started(g, f, a) + (if e == (f, a) { 1int } else { 0int })
{
    assert forall|g: Seq<(int, int)>, f: int, a: int, e: (int, int)| #[trigger] started(g.push(e), f, a) == started(g, f, a) + (if e == (f, a) { 1int } else { 0int }) by {
        assert(g.push(e).drop_last() =~= g);
    }
}
pub proof fn lemma_traces()
    ensures forall|o: Seq<int>, t: Seq<int>, v: int, w: int| o.len() <= t.len() && (w == v || since(o, t, v)) ==> #[trigger] since(o, t.push(w), v),
        forall|o: Seq<(int, int)>, t: Seq<(int, int)>, e: (int, int), c: int| o.len() <= t.len() && (e.0 == c || got_from(o, t, c)) ==> #[trigger] got_from(o, t.push(e), c),
        forall|o: Seq<(int, int)>, t: Seq<(int, int)>, u: Seq<(int, int)>, c: int| #[trigger] more(t, u) && #[trigger] got_from(o, t, c) ==> got_from(o, u, c),
        forall|o: Seq<(int, int)>, t: Seq<(int, int)>, e: (int, int), u: Seq<(int, int)>, c: int| o.len() <= t.len() && e.0 == c && #[trigger] more(t.push(e), u) ==> #[trigger] got_from(o, u, c),
{
    assert forall|o: Seq<(int, int)>, t: Seq<(int, int)>, e: (int, int), u: Seq<(int, int)>, c: int| o.len() <= t.len() && e.0 == c && #[trigger] more(t.push(e), u) implies #[trigger] got_from(o, u, c) by {
        assert(u[t.len() as int] == t.push(e)[t.len() as int]);
    }
    assert forall|o: Seq<int>, t: Seq<int>, v: int, w: int| o.len() <= t.len() && (w == v || since(o, t, v)) implies #[trigger] since(o, t.push(w), v) by {
        if w == v { assert(t.push(w)[t.len() as int] == v); } else {
            let i = choose|i: int| o.len() <= i < t.len() && #[trigger] t[i] == v;
            assert(t.push(w)[i] == v);
        }
    }
    assert forall|o: Seq<(int, int)>, t: Seq<(int, int)>, e: (int, int), c: int| o.len() <= t.len() && (e.0 == c || got_from(o, t, c)) implies #[trigger] got_from(o, t.push(e), c) by {
        if e.0 == c { assert(t.push(e)[t.len() as int].0 == c); } else {
            let i = choose|i: int| o.len() <= i < t.len() && (#[trigger] t[i]).0 == c;
            assert(t.push(e)[i].0 == c);
        }
    }
    assert forall|o: Seq<(int, int)>, t: Seq<(int, int)>, u: Seq<(int, int)>, c: int| #[trigger] more(t, u) && #[trigger] got_from(o, t, c) implies got_from(o, u, c) by {
        let i = choose|i: int| o.len() <= i < t.len() && (#[trigger] t[i]).0 == c;
        assert(u[i] == t[i]);
    }
}

// ---- cleanups ----
// a signal as a value of os.Signal
pub open spec fn signal_of(n: int) -> int { err_of_ref(tagv_syscall_Signal(), n) }
pub open spec fn told(n: Seq<(int, Seq<int>)>, c: int) -> bool { n.len() > 0 && n.last().0 == c && n.last().1.contains(signal_of(2)) && n.last().1.contains(signal_of(15)) }
pub open spec fn cleans_ok(c: Seq<int>) -> bool { forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] != 0 }
pub open spec fn shutdown_made(s: S_misc_shutdownContext) -> bool {
    status_ok(s.status) && s.sigChan != 0 && s.innerCtx != 0 && cleans_ok(s.cleans)
}
// the first n cleanups were each started once, in a goroutine of its own
pub open spec fn each_started(o: Seq<(int, int)>, g: Seq<(int, int)>, c: Seq<int>, n: int) -> bool {
    g.len() == o.len() + n && more(o, g) && forall|i: int| 0 <= i < n ==> #[trigger] g[o.len() + i] == (2int, c[i])
}
// nothing was added to any other wait group
pub open spec fn only_group(o: Map<int, int>, m: Map<int, int>, a: int) -> bool { forall|b: int| b != a ==> #[trigger] m[b] == o[b] }

// a's count was raised before the loop, where it was e, or by one in each round of it
pub open spec fn counted(o: Map<int, int>, e: Map<int, int>, m: Map<int, int>, a: int, i: int) -> bool {
    m == e && e[a] > o[a] || only_group(o, m, a) && m[a] == o[a] + i
}

// more than n was added to some wait group
pub open spec fn added(o: Map<int, int>, m: Map<int, int>, n: int) -> bool { exists|a: int| may_start(#[trigger] m[a] - o[a], n) }
pub proof fn lemma_added()
    ensures forall|o: Map<int, int>, m: Map<int, int>, a: int, v: int, n: int| v > o[a] + n ==> #[trigger] added(o, m.insert(a, v), n)
{
    assert forall|o: Map<int, int>, m: Map<int, int>, a: int, v: int, n: int| v > o[a] + n implies #[trigger] added(o, m.insert(a, v), n) by {
        assert(m.insert(a, v)[a] == v);
    }
}

// what an event of a shutdown needs (theory_cleansys.rs puts the goroutines together)
pub open spec fn may_add(before: bool) -> bool { before }
pub open spec fn may_start(adds: int, started: int) -> bool { adds > started }
pub open spec fn may_end(ran: bool, first: bool) -> bool { ran && first }
pub open spec fn may_wait(adds: int, n: int, all: bool) -> bool { adds == n && all }
pub open spec fn may_send(waited: bool, first: bool) -> bool { waited && first }

// each of these was queued once as a task, in this order
pub open spec fn queued(o: Seq<(int, int)>, c: Seq<(int, int)>, q: int, t: Seq<int>) -> bool {
    more(o, c) && c.len() == o.len() + t.len() && forall|i: int| 0 <= i < t.len() ==> #[trigger] c[o.len() + i] == (q, task_of(1, t[i]))
}

// ---- the worker pool ----
// What one goroutine did: GOT, values received by channel; RAN, function values called; CLOSED, channels closed; ADDS
// and DONES, by wait group; WAITS, wait groups waited for; EMPTY, channels found empty since the last value received;
// GOES, goroutines started; STORED, stores to an atomic field.
ghost GOT: Seq<(int, int)>
ghost RAN: Seq<int>
ghost CLOSED: Seq<int>
ghost ADDS: Map<int, int>
ghost DONES: Map<int, int>
ghost WAITS: Seq<int>
ghost EMPTY: Set<int>
ghost GOES: Seq<(int, int)>
ghost STORED: Seq<(int, Val, Val)>
ghost CH_misc_AsyncWorkFunc: Seq<(int, int)>
extern context.Context.Done(ctx) (c)
  ensures c != 0 && c == done_of(ctx)

chaninv misc.AsyncWorkFunc: v != 0
funcvalue misc.AsyncWorkFunc(f) ()
  modifies RAN
  ensures ran: $RAN == old($RAN).push(f)

atomic misc_WorkPool.status: pool_rely(o, n, $L_misc_WorkPool[self]) | pool_guar(o, n, $L_misc_WorkPool[self])

// a task is queued only when the pool was running, under its lock, after it was counted as pending
func misc.WorkPool.AsyncSubmit(pool, worker) ()
  requires unlocked: $L_misc_WorkPool[pool] == 0
  requires made: pool != 0 && pool_made($misc_WorkPool[pool])
  requires task: worker != 0
  modifies CH_misc_AsyncWorkFunc, ADDS, DONES, misc_WorkPool[pool]
  panics may
  on add counted: a == pool->pending && may_count(pool->status, $L_misc_WorkPool[pool], n)
  on send accepted: c == pool->queue && v == worker && may_queue($ADDS[pool->pending] - $DONES[pool->pending] - old($ADDS[pool->pending] - $DONES[pool->pending]))
  on done counted: a == pool->pending && may_settle($ADDS[a] - $DONES[a] - old($ADDS[a] - $DONES[a]))
  ensures running: rank(old(pool->status)) == 0
  ensures queued: $CH_misc_AsyncWorkFunc == old($CH_misc_AsyncWorkFunc).push((old(pool->queue), worker))
  ensures settled: $ADDS[pool->pending] - $DONES[pool->pending] == old($ADDS[pool->pending] - $DONES[pool->pending])
  ensures kept: conf_same($misc_WorkPool[pool], old($misc_WorkPool[pool])) && status_ok(pool->status)
  xensures refused: rank(pool->status) != 0 && $CH_misc_AsyncWorkFunc == old($CH_misc_AsyncWorkFunc) && $ADDS[pool->pending] - $DONES[pool->pending] == old($ADDS[pool->pending] - $DONES[pool->pending])

func misc.WorkPool.Status(pool) (r)
  requires made: pool != 0 && status_ok(pool->status)
  modifies misc_WorkPool[pool]
  ensures kept: conf_same($misc_WorkPool[pool], old($misc_WorkPool[pool]))
  ensures forward: pool_rely(old(pool->status), pool->status, $L_misc_WorkPool[pool])
  ensures seen: r == rank(pool->status) && 0 <= r <= 2

// a worker runs every task it takes, once, before it takes the next; it leaves when the pool is shut down and it found the
// queue empty after that
func misc.WorkPool.workerLoop(pool) ()
  requires made: pool != 0 && pool_made($misc_WorkPool[pool])
  diverges
  modifies GOT, RAN, EMPTY, DONES
  entry lemma_tasks()
  entry lemma_traces()
  on block tasks: c == pool->queue
  on block shutdown: c == pool->shutdowned
  on done left: a == pool->wg && may_leave($EMPTY.contains(pool->queue), got_from(old($GOT), $GOT, pool->shutdowned)) && $DONES == old($DONES)
  ensures ran: more(old($GOT), $GOT) && $RAN == old($RAN) + tasks(old($GOT), $GOT, pool->queue)
  ensures left: $DONES[pool->wg] == old($DONES[pool->wg]) + 1
  loop 1 (cond on)
    nodecreases
    invariant told: on || got_from(old($GOT), $GOT, pool->shutdowned)
    invariant ran: more(old($GOT), $GOT) && $RAN =~= old($RAN) + tasks(old($GOT), $GOT, pool->queue)
    invariant stays: $DONES == old($DONES)

func misc.WorkPool.drainQueue(pool) ()
  requires made: pool != 0 && pool_made($misc_WorkPool[pool])
  diverges
  on block never: false
  modifies GOT, RAN, EMPTY
  entry lemma_tasks()
  entry lemma_traces()
  ensures ran: more(old($GOT), $GOT) && $RAN == old($RAN) + tasks(old($GOT), $GOT, pool->queue)
  ensures drained: $EMPTY.contains(pool->queue)
  loop 1 (cond on)
    nodecreases
    invariant drained: on || $EMPTY.contains(pool->queue)
    invariant ran: more(old($GOT), $GOT) && $RAN =~= old($RAN) + tasks(old($GOT), $GOT, pool->queue)

// the one that ends the running state waits, at most for the timeout, until all accepted work was done
func misc.WorkPool.Shutdown(pool, timeout) ()
  requires unlocked: $L_misc_WorkPool[pool] == 0
  requires made: pool != 0 && pool_made($misc_WorkPool[pool])
  modifies GOT, GOES, STORED, misc_WorkPool[pool]
  entry lemma_traces()
  on block bounded: timer_of(c) == timeout
  on block finished: $GOES == old($GOES).push((1, c))
  on store forward: self == pool && (rank(n) == 2 ==> $GOT.len() == old($GOT.len()) + 1 && ($GOES == old($GOES).push((1, $GOT.last().0)) || timer_of($GOT.last().0) == timeout))
  ensures heard: more(old($GOT), $GOT)
  ensures kept: conf_same($misc_WorkPool[pool], old($misc_WorkPool[pool])) && status_ok(pool->status)
  ensures ends: rank(pool->status) >= 1
  ensures done: $STORED.len() > old($STORED.len()) ==> rank(pool->status) == 2
  ensures idle: $STORED.len() == old($STORED.len()) ==> $GOES == old($GOES) && $GOT == old($GOT)
  ensures waited: rank(old(pool->status)) != 0 ==> $STORED == old($STORED)

// everything accepted is queued, then the workers are told to leave, then all of them have left, then the channel is closed
func misc.WorkPool.waitFinish(pool) (r)
  requires made: pool != 0 && pool_made($misc_WorkPool[pool])
  requires claim: claim($STORED, pool)
  nonblocking
  modifies GOES, CLOSED, WAITS
  entry lemma_traces()
  go 1 on close order: c == pool->shutdowned && may_tell(since(old($WAITS), $WAITS, pool->pending)) && $CLOSED == old($CLOSED) || c == arg && may_finish($CLOSED == old($CLOSED).push(pool->shutdowned), since(old($WAITS), $WAITS, pool->wg))
  go 1 on wait order: a == pool->pending || a == pool->wg && $CLOSED == old($CLOSED).push(pool->shutdowned)
  go 1 ensures closed: $CLOSED == old($CLOSED).push(pool->shutdowned).push(arg)
  ensures one: $GOES == old($GOES).push((1, r)) && r != 0
  ensures nothing: $CLOSED == old($CLOSED) && $WAITS == old($WAITS)

// a cancellation shuts the pool down
func misc.WorkPool.listenCancelLoop(pool) ()
  requires unlocked: $L_misc_WorkPool[pool] == 0
  requires made: pool != 0 && pool_made($misc_WorkPool[pool])
  modifies GOT, GOES, STORED, misc_WorkPool[pool]
  entry lemma_traces()
  on block shutdown: c == pool->shutdowned || timer_of(c) == 2000000000
  on block cancelled: c == done_of(pool->ctx) || timer_of(c) == 2000000000
  ensures down: got_from(old($GOT), $GOT, done_of(old(pool->ctx))) && !got_from(old($GOT), $GOT, pool->shutdowned) ==> rank(pool->status) >= 1
  ensures heard: got_from(old($GOT), $GOT, done_of(old(pool->ctx))) || got_from(old($GOT), $GOT, old(pool->shutdowned))

func misc.NewWorkPool(ctx, name, size) (r)
  requires ctx: ctx != 0
  panics only size < 0
  allocates misc_WorkPool
  modifies GOES, ADDS, STORED
  entry lemma_started()
  fresh r
  on go ready: pool_made($misc_WorkPool[arg]) && rank(arg->status) >= 0 && $ADDS[arg->wg] == old($ADDS)[arg->wg] + size
  ensures made: pool_made($misc_WorkPool[r]) && rank(r->status) == 0
  ensures unlocked: $L_misc_WorkPool[r] == 0
  ensures conf: r->name == name && r->size == size && r->ctx == ctx
  ensures workers: started($GOES, fn_misc_WorkPool_workerLoop(), r) == started(old($GOES), fn_misc_WorkPool_workerLoop(), r) + size
  ensures listener: started($GOES, fn_misc_WorkPool_listenCancelLoop(), r) == started(old($GOES), fn_misc_WorkPool_listenCancelLoop(), r) + 1
  ensures counted: $ADDS[r->wg] == old($ADDS)[r->wg] + size
  loop 1 (idx i, obj p: misc_WorkPool)
    invariant workers: started($GOES, fn_misc_WorkPool_workerLoop(), p) == at_entry(started($GOES, fn_misc_WorkPool_workerLoop(), p)) + i
    invariant listener: started($GOES, fn_misc_WorkPool_listenCancelLoop(), p) == at_entry(started($GOES, fn_misc_WorkPool_listenCancelLoop(), p))
    invariant counted: i <= p->size

theory C31: misc conc poolsys
cone C31: misc.NewWorkPool misc.WorkPool.AsyncSubmit misc.WorkPool.Status misc.WorkPool.workerLoop misc.WorkPool.drainQueue misc.WorkPool.Shutdown misc.WorkPool.waitFinish misc.WorkPool.listenCancelLoop
assumption C31: a task does not panic and does not touch the pool's unexported fields
assumption C31: the events of the lemma that puts the goroutines together (theory_poolsys.rs) are those of the contracts and of WaitGroup, channels and Mutex: read off, not derived
assumption C31: other goroutines change the status only within the declared rely (every store of the package is checked against the guarantee)

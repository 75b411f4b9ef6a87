// ---- shutdown of the process ----
// NOTIFIED: channels told about signals
ghost NOTIFIED: Seq<(int, Seq<int>)>
ghost CH_bool: Seq<(int, bool)>
extern signal.Notify(c, sig) ()
  requires buffered: c != 0 && chan_cap(c) >= 1
  modifies NOTIFIED
  ensures $NOTIFIED == old($NOTIFIED).push((c, sig))
extern context.Background() (ctx)
  ensures ctx != 0
extern context.Context.Err(ctx) (err)
  ensures got_from(Seq::<(int, int)>::empty(), $GOT, done_of(ctx)) ==> err != 0

funcvalue misc.CleanFunc(f) ()
  modifies RAN
  ensures ran: $RAN == old($RAN).push(f)

guarded misc_shutdownContext: cleans
// the status is changed by the one that waits, one step at a time
atomic misc_shutdownContext.status: n == o | status_ok(n) && rank(n) == rank(o) + 1

func misc.WithShutdownContext(ctx) (r)
  requires ctx: ctx != 0
  allocates misc_shutdownContext
  modifies NOTIFIED, STORED
  fresh r
  ensures made: shutdown_made($misc_shutdownContext[r]) && rank(r->status) == 0 && r->innerCtx == ctx && r->cleans.len() == 0
  ensures signals: told($NOTIFIED, r->sigChan)

func misc.shutdownContext.Clean(ctx, cleanHandler) ()
  requires made: ctx != 0 && shutdown_made($misc_shutdownContext[ctx]) && $L_misc_shutdownContext[ctx] == 0
  requires real: cleans_ok(cleanHandler)
  modifies misc_shutdownContext[ctx]
  ensures added: ctx->cleans =~= old(ctx->cleans) + cleanHandler
  ensures kept: shutdown_made($misc_shutdownContext[ctx]) && ctx->status == old(ctx->status) && ctx->sigChan == old(ctx->sigChan) && ctx->innerCtx == old(ctx->innerCtx)
  loop 1 (idx i, over s)
    invariant added: ctx->cleans =~= at_entry(ctx->cleans) + s.take(i)
    invariant kept: shutdown_made($misc_shutdownContext[ctx]) && ctx->status == at_entry(ctx->status) && ctx->sigChan == at_entry(ctx->sigChan) && ctx->innerCtx == at_entry(ctx->innerCtx)

func misc.RegisterShutDownClean(cleanFunc) ()
  requires made: shutdown_made($misc_shutdownContext[$g.misc.defaultShutdownCtx]) && $L_misc_shutdownContext[$g.misc.defaultShutdownCtx] == 0
  requires real: cleans_ok(cleanFunc)
  modifies misc_shutdownContext[$g.misc.defaultShutdownCtx]
  ensures added: $misc_shutdownContext[$g.misc.defaultShutdownCtx].cleans =~= old($misc_shutdownContext[$g.misc.defaultShutdownCtx].cleans) + cleanFunc
  ensures kept: shutdown_made($misc_shutdownContext[$g.misc.defaultShutdownCtx])

func misc.InitShutdownCtx(ctx) ()
  requires made: shutdown_made($misc_shutdownContext[$g.misc.defaultShutdownCtx]) && $L_misc_shutdownContext[$g.misc.defaultShutdownCtx] == 0 && ctx != 0
  modifies misc_shutdownContext[$g.misc.defaultShutdownCtx]
  ensures taken: $misc_shutdownContext[$g.misc.defaultShutdownCtx].innerCtx == ctx
  ensures kept: shutdown_made($misc_shutdownContext[$g.misc.defaultShutdownCtx]) && $misc_shutdownContext[$g.misc.defaultShutdownCtx].cleans == old($misc_shutdownContext[$g.misc.defaultShutdownCtx].cleans)

func misc.Wait4Shutdown(timeout) ()
  requires made: shutdown_made($misc_shutdownContext[$g.misc.defaultShutdownCtx]) && $L_misc_shutdownContext[$g.misc.defaultShutdownCtx] == 0
  requires first: rank($misc_shutdownContext[$g.misc.defaultShutdownCtx].status) == 0
  modifies GOT, GOES, STORED, misc_shutdownContext[$g.misc.defaultShutdownCtx]
  on misc.shutdownContext.WaitShutdown whole: arg1 == timeout
  ensures down: rank($misc_shutdownContext[$g.misc.defaultShutdownCtx].status) == 2
  ensures cleaned: $GOES.len() == old($GOES.len()) + 1

// one wait: for a signal or the cancellation, then for the cleanups or the timeout
func misc.shutdownContext.WaitShutdown(ctx, timeout) ()
  requires made: ctx != 0 && shutdown_made($misc_shutdownContext[ctx]) && $L_misc_shutdownContext[ctx] == 0
  requires first: rank(ctx->status) == 0
  modifies GOT, GOES, STORED, misc_shutdownContext[ctx]
  entry lemma_traces()
  on block cancelled: if rank(ctx->status) == 0 { c == done_of(ctx->innerCtx) } else { timer_of(c) == timeout }
  on block signalled: if rank(ctx->status) == 0 { c == ctx->sigChan } else { $GOES == old($GOES).push((1, c)) }
  on store woken: self == ctx && $GOT.len() >= old($GOT.len()) + rank(n) && more(old($GOT), $GOT) && ($GOT[old($GOT.len()) as int].0 == ctx->sigChan || $GOT[old($GOT.len()) as int].0 == done_of(ctx->innerCtx))
  on store over: rank(n) == 2 ==> $GOES == old($GOES).push((1, $GOT.last().0)) || timer_of($GOT.last().0) == timeout && $GOES.len() == old($GOES.len()) + 1
  ensures down: rank(ctx->status) == 2 && $STORED.len() == old($STORED.len()) + 2
  ensures cleaned: $GOES.len() == old($GOES.len()) + 1

// every cleanup is started once; the channel is sent to when all of them have returned
func misc.shutdownContext.runCleans(ctx) (r)
  requires made: ctx != 0 && shutdown_made($misc_shutdownContext[ctx]) && $L_misc_shutdownContext[ctx] == 0
  requires shutting: rank(ctx->status) == 1
  nonblocking
  modifies GOES, RAN, ADDS, DONES, WAITS, CH_bool
  entry lemma_added()
  go 1 on add group: only_group(old($ADDS), $ADDS, a) && may_add($WAITS == old($WAITS))
  go 1 on wait all: may_wait($ADDS[a] - old($ADDS)[a], ctx->cleans.len() as int, each_started(old($GOES), $GOES, ctx->cleans, ctx->cleans.len() as int))
  go 1 on send done: c == arg && may_send($WAITS.len() == old($WAITS.len()) + 1, $CH_bool == old($CH_bool))
  go 1 on go counted: added(old($ADDS), $ADDS, $GOES.len() - old($GOES.len()))
  go 1 ensures told: $CH_bool.len() == old($CH_bool.len()) + 1
  go 1 ensures nothing: $RAN == old($RAN) && $DONES == old($DONES)
  go 2 on done group: $ADDS[a] > at_call($ADDS)[a] && may_end($RAN == old($RAN).push(arg), $DONES == old($DONES))
  go 2 ensures ran: $RAN == old($RAN).push(arg) && $DONES != old($DONES)
  ensures one: $GOES == old($GOES).push((1, r)) && r != 0
  ensures nothing: $RAN == old($RAN) && $ADDS == old($ADDS) && $DONES == old($DONES) && $WAITS == old($WAITS) && $CH_bool == old($CH_bool)
  loop 1 (idx i, wg: sync_WaitGroup)
    invariant started: each_started(at_entry($GOES), $GOES, ctx->cleans, i)
    invariant counted: counted(old($ADDS), at_entry($ADDS), $ADDS, wg, i)

globalinv misc.defaultShutdownCtx: self != 0

theory C32: misc conc cleansys
cone C32: misc.RegisterShutDownClean misc.InitShutdownCtx misc.Wait4Shutdown misc.WithShutdownContext misc.shutdownContext.Clean misc.shutdownContext.WaitShutdown misc.shutdownContext.runCleans
assumption C32: a cleanup does not panic; one goroutine waits once
assumption C32: the events of the lemma that puts the goroutines together (theory_cleansys.rs) are those of the contracts and of WaitGroup: read off, not derived

// ---- from the socket to the jobs ----
// The receiving loop, the channel and the dispatching loop together. What the loops may do is their contracts: each datagram is
// passed on once, before the next is read (on send once, passed); every value received becomes one task, in order
// (invariant queued); a channel gives each value once, in the order sent; the pool runs each accepted task once (C31).
pub struct PipeSys<D> {
    pub read: Seq<D>,       // datagrams read from the socket
    pub sent: Seq<D>,       // what was sent to the channel
    pub got: Seq<D>,        // what was received from it
    pub jobs: Seq<D>,       // what the tasks queued work on
}
pub enum PipeEv<D> { Read { d: D }, Failed, Send, Take, Submit }
pub open spec fn pipe_init<D>(a: PipeSys<D>) -> bool { a.read.len() == 0 && a.sent.len() == 0 && a.got.len() == 0 && a.jobs.len() == 0 }
pub open spec fn pipe_can<D>(a: PipeSys<D>, e: PipeEv<D>) -> bool {
    match e {
        PipeEv::Read { d } => may_read(a.sent.len() as int, a.read.len() as int),
        PipeEv::Failed => true,
        PipeEv::Send => may_pass(a.sent.len() as int, a.read.len() as int),
        PipeEv::Take => a.got.len() < a.sent.len() && a.jobs.len() == a.got.len(),
        PipeEv::Submit => a.jobs.len() < a.got.len(),
    }
}
pub open spec fn pipe_next<D>(a: PipeSys<D>, e: PipeEv<D>) -> PipeSys<D> {
    match e {
        PipeEv::Read { d } => PipeSys { read: a.read.push(d), ..a },
        PipeEv::Failed => a,
        PipeEv::Send => PipeSys { sent: a.sent.push(a.read.last()), ..a },
        PipeEv::Take => PipeSys { got: a.got.push(a.sent[a.got.len() as int]), ..a },
        PipeEv::Submit => PipeSys { jobs: a.jobs.push(a.got[a.jobs.len() as int]), ..a },
    }
}
pub open spec fn pipe_inv<D>(a: PipeSys<D>) -> bool {
    &&& a.sent.len() <= a.read.len() <= a.sent.len() + 1
    &&& a.sent =~= a.read.take(a.sent.len() as int)
    &&& a.got.len() <= a.sent.len() && a.got =~= a.sent.take(a.got.len() as int)
    &&& a.jobs.len() <= a.got.len() <= a.jobs.len() + 1 && a.jobs =~= a.got.take(a.jobs.len() as int)
}
pub proof fn lemma_pipe_init<D>(a: PipeSys<D>)
    requires pipe_init(a)
    ensures pipe_inv(a)
{
}
pub proof fn lemma_pipe_step<D>(a: PipeSys<D>, e: PipeEv<D>)
    requires pipe_inv(a), pipe_can(a, e)
    ensures pipe_inv(pipe_next(a, e))
{
}
// the k-th job works on the k-th datagram; when nothing is under way every datagram has its job
pub proof fn lemma_pipe_jobs<D>(a: PipeSys<D>)
    requires pipe_inv(a)
    ensures a.jobs.len() <= a.read.len(), forall|k: int| 0 <= k < a.jobs.len() ==> #[trigger] a.jobs[k] == a.read[k],
        (forall|e: PipeEv<D>| (#[trigger] pipe_can(a, e)) ==> e is Read || e is Failed) ==> a.jobs == a.read,
{
    assert forall|k: int| 0 <= k < a.jobs.len() implies #[trigger] a.jobs[k] == a.read[k] by {
        assert(a.jobs[k] == a.got[k]); assert(a.got[k] == a.sent[k]); assert(a.sent[k] == a.read[k]);
    }
    if forall|e: PipeEv<D>| (#[trigger] pipe_can(a, e)) ==> e is Read || e is Failed {
        assert(!pipe_can(a, PipeEv::<D>::Send));
        assert(!pipe_can(a, PipeEv::<D>::Take));
        assert(!pipe_can(a, PipeEv::<D>::Submit));
        assert(a.jobs =~= a.read);
    }
}

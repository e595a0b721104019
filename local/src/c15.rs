//! C15: streams attached to an actor.
use std::{
    collections::VecDeque,
    future::Future,
    ops::ControlFlow,
    pin::Pin,
    sync::{
        atomic::{AtomicUsize, Ordering},
        Arc,
    },
    task::Poll,
    time::Duration,
};

use futures::Stream;
use kameo::{
    actor::{ActorRef, PreparedActor, WeakActorRef},
    error::{ActorStopReason, Infallible, PanicError, SendError},
    message::{Context, Message, StreamMessage},
    Actor,
};
use pbt::{boxed, sim, CaseResult, Fail, Info, Session};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tokio::task::JoinHandle;

use crate::lab::{cap, check, desc, hang, mailbox, pause, pause_for, Ev, JobErr, Log, Step};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Bad {
    No,
    Err,
    Panic,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Item {
    /// before the stream yields it
    delay: Vec<Step>,
    /// how its handler takes it
    take: Vec<Step>,
    bad: Bad,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Src {
    /// attached by the start hook, by a handler, or from outside
    by: u8,
    at: u8,
    items: Vec<Item>,
    /// never ends after its last item
    endless: bool,
    /// its task is cancelled at that time
    cancel: Option<u8>,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum End {
    /// nobody stops it: the references are dropped once the streams are attached
    Drop,
    Stop(u8),
    Kill(u8),
    /// attached to an actor which has stopped already
    Before,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    cap: Option<u8>,
    start: Vec<Step>,
    srcs: Vec<Src>,
    /// ordinary messages: when
    msgs: Vec<(u8, Vec<Step>)>,
    end: End,
}

#[derive(Debug)]
struct Elem {
    stream: usize,
    idx: usize,
    take: Vec<Step>,
    bad: Bad,
    _trace: Trace,
}

/// Tells which task dropped the item.
struct Trace(usize, Drops);
type Drops = Arc<std::sync::Mutex<Vec<(usize, Option<tokio::task::Id>)>>>;

impl Drop for Trace {
    fn drop(&mut self) {
        self.1.lock().unwrap().push((self.0, tokio::task::try_id()));
    }
}

impl std::fmt::Debug for Trace {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "item {}", self.0)
    }
}

type Msg = StreamMessage<Elem, usize, usize>;

/// A stream which yields its items after their delays.
struct Items {
    stream: usize,
    left: VecDeque<Item>,
    wait: Option<Pin<Box<dyn Future<Output = ()> + Send>>>,
    pulled: Arc<AtomicUsize>,
    endless: bool,
    /// polled again after it ended
    again: Arc<AtomicUsize>,
    ended: bool,
    virt: bool,
    log: Log,
    drops: Drops,
}

async fn pause_real(steps: &[Step], virt: bool) {
    if virt {
        return pause_for(steps).await;
    }
    for s in steps {
        match s {
            Step::Yield(n) => sim::yields(*n).await,
            Step::Sleep(ms) => tokio::time::sleep(Duration::from_micros(*ms as u64 * 60)).await,
            _ => {}
        }
    }
}

impl Stream for Items {
    type Item = Elem;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<Option<Elem>> {
        let Some(first) = self.left.front() else {
            if self.endless {
                return Poll::Pending;
            }
            if self.ended {
                self.again.fetch_add(1, Ordering::SeqCst);
            }
            self.ended = true;
            return Poll::Ready(None);
        };
        let (delay, virt) = (first.delay.clone(), self.virt);
        let wait = self.wait.get_or_insert_with(|| Box::pin(async move { pause_real(&delay, virt).await }));
        match wait.as_mut().poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(()) => {
                self.wait = None;
                let it = self.left.pop_front().unwrap();
                let idx = self.pulled.fetch_add(1, Ordering::SeqCst);
                self.log.push(4, Ev::Step(self.stream as u32));
                Poll::Ready(Some(Elem {
                    stream: self.stream,
                    idx,
                    take: it.take,
                    bad: it.bad,
                    _trace: Trace(idx, self.drops.clone()),
                }))
            }
        }
    }
}

type Task = JoinHandle<Result<Items, SendError<Msg>>>;

struct Sink {
    log: Log,
    start: Vec<Step>,
    own: Vec<(usize, Items)>,
    tasks: tokio::sync::mpsc::UnboundedSender<(usize, Task)>,
    virt: bool,
}

impl Actor for Sink {
    type Error = Infallible;
    async fn on_start(&mut self, me: ActorRef<Self>) -> Result<(), Infallible> {
        for (i, s) in self.own.drain(..) {
            let _ = self.tasks.send((i, me.attach_stream(s, i, i)));
        }
        pause_real(&self.start, self.virt).await;
        self.log.push(0, Ev::StartEnd(true));
        Ok(())
    }
    async fn on_panic(&mut self, _: WeakActorRef<Self>, _: PanicError) -> Result<ControlFlow<ActorStopReason>, Infallible> {
        Ok(ControlFlow::Continue(()))
    }
    async fn on_stop(&mut self, _: WeakActorRef<Self>, reason: ActorStopReason) -> Result<(), Infallible> {
        self.log.push(0, Ev::StopBegin(desc(&reason), 0));
        Ok(())
    }
}

/// started: stream * 10_000, item: + 1 + index, finished: + 9_999; ordinary messages: 900_000 + index
fn code(stream: usize, pos: Option<usize>) -> u32 {
    (stream * 10_000 + pos.map(|p| p + 1).unwrap_or(9_999)) as u32
}

impl Message<Msg> for Sink {
    type Reply = Result<(), JobErr>;
    async fn handle(&mut self, msg: Msg, _: &mut Context<Self, Self::Reply>) -> Self::Reply {
        match msg {
            StreamMessage::Started(s) => self.log.push(0, Ev::Begin((s * 10_000) as u32)),
            StreamMessage::Finished(s) => self.log.push(0, Ev::Begin(code(s, None))),
            StreamMessage::Next(e) => {
                self.log.push(0, Ev::Begin(code(e.stream, Some(e.idx))));
                pause_real(&e.take, self.virt).await;
                self.log.push(0, Ev::End(code(e.stream, Some(e.idx))));
                match e.bad {
                    Bad::No => {}
                    Bad::Err => return Err(JobErr(0)),
                    Bad::Panic => panic!("item"),
                }
            }
        }
        Ok(())
    }
}

struct Plain(u32, Vec<Step>);
impl Message<Plain> for Sink {
    type Reply = ();
    async fn handle(&mut self, msg: Plain, _: &mut Context<Self, ()>) {
        self.log.push(0, Ev::Begin(msg.0));
        pause_real(&msg.1, self.virt).await;
    }
}

struct Attach(usize, Items);
impl Message<Attach> for Sink {
    type Reply = ();
    async fn handle(&mut self, msg: Attach, ctx: &mut Context<Self, ()>) {
        let t = ctx.actor_ref().attach_stream(msg.1, msg.0, msg.0);
        let _ = self.tasks.send((msg.0, t));
    }
}

async fn body(c: &Case, log: &Log, virt: bool) -> CaseResult {
    let patience = Duration::from_secs(if virt { 5_000_000 } else { 20 });
    let sleep = move |ms: u8| async move {
        if virt {
            sim::sleep_ms(ms as u64).await
        } else {
            tokio::time::sleep(Duration::from_micros(ms as u64 * 60)).await
        }
    };
    let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel();
    let mut pulled = vec![];
    let mut again = vec![];
    let mut drops: Vec<Drops> = vec![];
    let mut own = vec![];
    let mut later = vec![];
    for (i, s) in c.srcs.iter().enumerate() {
        let (p, a) = (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)));
        let items = Items {
            stream: i,
            left: s.items.iter().cloned().collect(),
            wait: None,
            pulled: p.clone(),
            endless: s.endless,
            again: a.clone(),
            ended: false,
            virt,
            log: log.clone(),
            drops: Drops::default(),
        };
        drops.push(items.drops.clone());
        pulled.push(p);
        again.push(a);
        if s.by % 3 == 0 {
            own.push((i, items));
        } else {
            later.push((i, s.clone(), items));
        }
    }
    let p = PreparedActor::new(mailbox(c.cap));
    let a = p.actor_ref().clone();
    let join = p.spawn(Sink { log: log.clone(), start: c.start.clone(), own, tasks: tx.clone(), virt });
    let log3 = log.clone();
    let join = tokio::spawn(async move {
        let r = join.await;
        log3.push(0, Ev::StopEnd);
        r.unwrap()
    });
    if c.end == End::Before {
        a.kill();
        a.wait_for_shutdown().await;
    }
    let mut hs = vec![];
    for (i, s, items) in later {
        let (a, tx) = (a.clone(), tx.clone());
        hs.push(tokio::spawn(async move {
            sleep(s.at).await;
            if s.by % 3 == 1 {
                let _ = a.tell(Attach(i, items)).send().await;
            } else {
                let _ = tx.send((i, a.attach_stream(items, i, i)));
            }
        }));
    }
    for (k, (at, steps)) in c.msgs.iter().cloned().enumerate() {
        let (a, log) = (a.clone(), log.clone());
        hs.push(tokio::spawn(async move {
            sleep(at).await;
            if a.tell(Plain(900_000 + k as u32, steps)).send().await.is_ok() {
                log.push(2, Ev::Note(format!("{}", 900_000 + k)));
            }
        }));
    }
    drop(tx);
    let ender = a.downgrade();
    let end = c.end;
    let log2 = log.clone();
    let ending = tokio::spawn(async move {
        match end {
            End::Stop(at) => {
                sleep(at).await;
                if let Some(a) = ender.upgrade() {
                    log2.push(1, Ev::StopReq);
                    let _ = a.stop_gracefully().await;
                }
            }
            End::Kill(at) => {
                sleep(at).await;
                if let Some(a) = ender.upgrade() {
                    log2.push(1, Ev::Kill);
                    a.kill();
                }
            }
            _ => {}
        }
    });
    drop(a);
    let mut tasks = vec![];
    let tick = if virt { sim::ms(100) } else { Duration::from_millis(3) };
    let begun = tokio::time::Instant::now();
    loop {
        let (i, t) = match tokio::time::timeout(tick, rx.recv()).await {
            Ok(Some(x)) => x,
            // those sent to an actor which stops are never attached
            _ if join.is_finished() && hs.iter().all(|h| h.is_finished()) => match rx.try_recv() {
                Ok(x) => x,
                Err(_) => break,
            },
            _ if begun.elapsed() > patience => return Err(hang(log, "a stream is never attached")),
            _ => continue,
        };
        // (cancelled relative to the moment it was attached)
        if let Some(at) = c.srcs[i].cancel {
            let ah = t.abort_handle();
            let log = log.clone();
            tokio::spawn(async move {
                sleep(at).await;
                ah.abort();
                log.push(3, Ev::Note(format!("cancel {i}")));
            });
        }
        // whether this stream keeps the actor alive forever
        tasks.push((i, t));
        if tasks.len() == c.srcs.len() {
            break;
        }
    }
    for h in hs {
        if !matches!(tokio::time::timeout(patience, h).await, Ok(Ok(()))) {
            return Err(hang(log, "a message is never accepted"));
        }
    }
    // streams which end, or whose actor ends, or which are cancelled, complete
    let lasting = c.end == End::Drop && c.srcs.iter().any(|s| s.endless && s.cancel.is_none());
    let mut done = vec![];
    let ids: std::collections::HashMap<usize, tokio::task::Id> = tasks.iter().map(|(i, t)| (*i, t.id())).collect();
    let mut waiting = vec![];
    for (i, t) in tasks {
        if lasting && c.srcs[i].endless && c.srcs[i].cancel.is_none() {
            waiting.push((i, t));
            continue;
        }
        match tokio::time::timeout(patience, t).await {
            Err(_) => return Err(Fail { sig: "task-hangs".into(), msg: format!("the task of stream {i} never completes; history:{}", log.show()) }),
            Ok(Ok(r)) => done.push((i, Some(r))),
            Ok(Err(e)) => {
                check!(log, e.is_cancelled() && c.srcs[i].cancel.is_some(), "task-panics", "the task of stream {i} fails: {e}");
                done.push((i, None));
            }
        }
    }
    if lasting {
        // the endless stream keeps it alive, until it is cancelled
        if virt {
            sim::sleep_ms(5_000).await;
        } else {
            tokio::time::sleep(Duration::from_millis(3)).await;
        }
        check!(log, !join.is_finished(), "stopped", "the actor stopped although a stream is still attached");
        for (i, t) in waiting {
            check!(log, !t.is_finished(), "task-ends", "the task of the endless stream {i} ended");
            if virt {
                let n = c.srcs[i].items.len();
                check!(log, pulled[i].load(Ordering::SeqCst) == n, "undelivered", "stream {i} was not read to its end");
            }
            t.abort();
            let _ = t.await;
            done.push((i, None));
        }
    }
    let _ = ending.await;
    let reason = match tokio::time::timeout(patience, join).await {
        Ok(Ok((_, r))) => desc(&r),
        Ok(Err(_)) => return Err(Fail { sig: "lost".into(), msg: "the actor's task panicked".into() }),
        Err(_) => return Err(hang(log, "the actor never stops although all its streams ended and no reference is left")),
    };
    // ------------------------------------------------ verdict
    let l = log.get();
    let handled: Vec<u32> = l.iter().filter_map(|e| match e.ev {
        Ev::Begin(i) if e.who == 0 => Some(i),
        _ => None,
    }).collect();
    let forced = l.iter().any(|e| matches!(e.ev, Ev::StopReq | Ev::Kill)) || c.end == End::Before;
    if !forced {
        check!(log, reason == "normal", "stopped", "the actor stopped with {reason}");
        for e in &l {
            if let (2, Ev::Note(n)) = (e.who, &e.ev) {
                check!(log, handled.contains(&n.parse().unwrap()), "lost", "message {n} was accepted, but not handled");
            }
        }
    }
    let (mut full, mut cut, mut err, mut empty) = (0, 0, 0, 0);
    for (i, r) in &done {
        let src = &c.srcs[*i];
        let seq: Vec<u32> = handled.iter().filter(|h| **h < 900_000 && **h as usize / 10_000 == *i).cloned().collect();
        let n = src.items.len();
        let mut all: Vec<u32> = vec![(*i * 10_000) as u32];
        all.extend((0..n).map(|k| code(*i, Some(k))));
        if !src.endless {
            all.push(code(*i, None));
        }
        check!(log, all.starts_with(&seq), "sequence", "stream {i} was handled as {seq:?}, it is {all:?}");
        let p = pulled[*i].load(Ordering::SeqCst);
        check!(log, again[*i].load(Ordering::SeqCst) == 0, "polled-after-end", "stream {i} was polled after its end");
        if virt && r.is_some() {
            // whatever isn't returned by the stream's task was handed over to the actor
            for (idx, by) in drops[*i].lock().unwrap().iter() {
                check!(log, *by != Some(ids[i]), "undelivered", "stream {i}: item {idx} was neither delivered nor given back by its task");
            }
        }
        match r {
            Some(Ok(rest)) => {
                check!(log, rest.left.len() + p == n, "rest", "stream {i}: {p} items were taken, {} of {n} are left", rest.left.len());
                if !forced {
                    check!(log, seq == all && p == n, "incomplete", "stream {i} completed after {seq:?}");
                    full += 1;
                } else {
                    // what was taken after the actor had stopped was not accepted
                    let joined = l.iter().position(|e| matches!(e.ev, Ev::StopEnd)).unwrap();
                    let late = l.iter().skip(joined).filter(|e| e.who == 4 && e.ev == Ev::Step(*i as u32)).count();
                    check!(log, late == 0, "undelivered", "stream {i}: {late} items were taken after the actor had stopped, and are not given back");
                    check!(log, seq.len() <= p + 1 + usize::from(rest.ended), "sequence", "stream {i}: more was handled than taken");
                    cut += 1;
                }
            }
            Some(Err(SendError::ActorNotRunning(m))) => {
                check!(log, forced, "rejected", "stream {i} was rejected although nobody stopped the actor");
                let at = match m {
                    StreamMessage::Started(s) => {
                        check!(log, s == i && seq.is_empty() && p == 0, "undelivered", "stream {i}: the start marker of {s} is given back after {seq:?} was handled");
                        0
                    }
                    StreamMessage::Next(e) => {
                        check!(log, e.stream == *i && e.idx + 1 == p, "undelivered", "stream {i}: item {} is given back after {p} were taken", e.idx);
                        e.idx + 1
                    }
                    StreamMessage::Finished(s) => {
                        check!(log, s == i && p == n, "undelivered", "stream {i}: the finish marker of {s} is given back after {p} of {n}");
                        n + 1
                    }
                };
                check!(log, seq.len() <= at, "undelivered", "stream {i}: element {at} is given back although {seq:?} was handled");
                err += 1;
            }
            Some(Err(e)) => check!(log, false, "rejected", "stream {i} failed with {:?}", e.to_string()),
            None => {}
        }
        if src.items.is_empty() {
            empty += 1;
        }
    }
    for e in handled.iter().filter(|h| **h >= 900_000) {
        check!(log, handled.iter().filter(|h| *h == e).count() == 1, "duplicate", "message {e} was handled twice");
    }
    Ok(Info::new(done.len() > 1 || handled.len() > 4)
        .label(full > 1, "several complete streams")
        .label(cut > 0, "rest returned")
        .label(err > 0, "undelivered message returned")
        .label(empty > 0, "empty stream")
        .label(lasting, "endless stream")
        .label(done.iter().any(|(_, r)| r.is_none()), "cancelled"))
}

fn sim_case(c: &Case) -> CaseResult {
    let out = sim::run(async {
        let log = Log::new();
        body(c, &log, true).await
    });
    out.unwrap_or_else(|| pbt::fail("hang", "the system never comes to rest"))
}

fn mt_case(c: &Case) -> CaseResult {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_time().build().unwrap();
    let log = Log::new();
    let r = rt.block_on(body(c, &log, false));
    rt.shutdown_background();
    r
}

fn case() -> BoxedStrategy<Case> {
    let steps = || prop::collection::vec(pause(), 0..2);
    let bad = prop_oneof![8 => Just(Bad::No), 1 => Just(Bad::Err), 1 => Just(Bad::Panic)];
    let item = (steps(), steps(), bad).prop_map(|(delay, take, bad)| Item { delay, take, bad });
    let src = (any::<u8>(), 0u8..8, prop::collection::vec(item, 0..8), prop::bool::weighted(0.15), prop::option::weighted(0.15, 0u8..30))
        .prop_map(|(by, at, items, endless, cancel)| Src { by, at, items, endless, cancel });
    let end = prop_oneof![4 => Just(End::Drop), 2 => (0u8..40).prop_map(End::Stop), 2 => (0u8..40).prop_map(End::Kill), 1 => Just(End::Before)];
    boxed(
        (cap(), steps(), prop::collection::vec(src, 1..4), prop::collection::vec((0u8..20, steps()), 0..4), end)
            .prop_map(|(cap, start, srcs, msgs, end)| Case { cap, start, srcs, msgs, end }),
    )
}

pub fn run(s: &mut Session) {
    let rule = "several streams, or one with several items";
    s.prop("streams", rule, 40_000, 1_000_000, case, sim_case);
    s.prop_sharded("streams_on_threads", rule, 1_500, 40_000, 4, case, mt_case);
}

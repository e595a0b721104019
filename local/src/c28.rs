//! C28: the same history, for every way of running an actor; each must do what the model says.
use std::{
    ops::ControlFlow,
    sync::{Arc, Mutex},
    thread::ThreadId,
    time::Duration,
};

use kameo::{
    actor::{self, ActorID, ActorRef, PreparedActor, WeakActorRef},
    error::{ActorStopReason, PanicError, SendError},
    message::{Context, Message},
    Actor,
};
use pbt::{boxed, ensure, fail, CaseResult, Fail, Info, Session};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::lab::{desc, desc_err, mailbox, HookErr, JobErr};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Out {
    Ok,
    Err,
    Panic,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Inner {
    Nothing,
    /// runs another actor in the task of this one
    Runs,
    /// spawns a task, which isn't the actor
    Spawns,
    /// asks another actor
    Asks,
    /// spawns a task which is still there when the actor has stopped
    Leaves,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct Msg {
    out: Out,
    inner: Inner,
    yields: u8,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Op {
    Tell,
    Ask,
    Enqueue,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Way {
    Run,
    PreparedSpawn,
    PreparedThread,
    Spawn,
    SpawnMailbox,
    SpawnLink,
    SpawnLinkMailbox,
    Thread,
    ThreadMailbox,
}

const WAYS: [Way; 9] =
    [Way::Run, Way::PreparedSpawn, Way::PreparedThread, Way::Spawn, Way::SpawnMailbox, Way::SpawnLink, Way::SpawnLinkMailbox, Way::Thread, Way::ThreadMailbox];

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Fin {
    Stop,
    Kill,
    Drop,
    Partner,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Early {
    No,
    Stop,
    Kill,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    threads: bool,
    linked: bool,
    cap: Option<u8>,
    keep: bool,
    start: Out,
    start_yields: u8,
    start_msgs: Vec<Msg>,
    stop: Out,
    pre: Vec<(Op, Msg)>,
    early: Early,
    script: Vec<(Op, Msg)>,
    end: Fin,
}

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Start,
    Msg(u32),
    Panic(String),
    Link(String),
    Stop(String),
}

/// What happened, and where the actor wasn't what it should have been.
#[derive(Default)]
struct Seen {
    log: Vec<Ev>,
    odd: Vec<String>,
    threads: Vec<(ThreadId, Option<String>)>,
    /// the tasks which have come to their ends after the actor
    late: Vec<u32>,
}

type Log = Arc<Mutex<Seen>>;

struct S {
    log: Log,
    me: Option<WeakActorRef<S>>,
    helper: ActorRef<Helper>,
    case: Arc<Case>,
    over: Arc<tokio::sync::Semaphore>,
    sum: u64,
}

impl S {
    fn see(&self, e: Option<Ev>, current: bool) {
        let mut l = self.log.lock().unwrap();
        if let Some(a) = self.me.as_ref().and_then(|m| m.upgrade()) {
            if a.is_current() != current {
                l.odd.push(format!("is_current() is {} at {e:?}", !current));
            }
        }
        let t = std::thread::current();
        l.threads.push((t.id(), t.name().map(str::to_string)));
        l.log.extend(e);
    }
    async fn work(&mut self, id: u32, m: Msg) -> Result<u32, JobErr> {
        self.see(Some(Ev::Msg(id)), true);
        for _ in 0..m.yields {
            tokio::task::yield_now().await;
            self.see(None, true);
        }
        let me = self.me.as_ref().and_then(|m| m.upgrade());
        match m.inner {
            Inner::Nothing => {}
            Inner::Runs => {
                let p = PreparedActor::<Helper>::new(mailbox(None));
                let r = p.actor_ref().clone();
                let _ = r.tell(See(me.clone(), self.log.clone())).await;
                let _ = r.stop_gracefully().await;
                let _ = p.run(Helper { me: Some(r.downgrade()) }).await;
                if r.is_current() {
                    self.log.lock().unwrap().odd.push("an actor which has been run is still current".into());
                }
                self.see(None, true);
            }
            Inner::Spawns => {
                let (me, log) = (me.clone(), self.log.clone());
                let _ = tokio::spawn(async move {
                    if me.is_some_and(|m| m.is_current()) {
                        log.lock().unwrap().odd.push("current in another task".into());
                    }
                })
                .await;
                self.see(None, true);
            }
            Inner::Asks => {
                let _ = self.helper.ask(See(me.clone(), self.log.clone())).await;
                self.see(None, true);
            }
            Inner::Leaves => {
                let (over, log) = (self.over.clone(), self.log.clone());
                tokio::spawn(async move {
                    let _ = over.acquire().await;
                    log.lock().unwrap().late.push(id);
                });
            }
        }
        self.sum = self.sum * 7 + id as u64;
        match m.out {
            Out::Ok => Ok(id * 3),
            Out::Err => Err(JobErr(id)),
            Out::Panic => panic!("{id}"),
        }
    }
}

impl Actor for S {
    type Error = HookErr;
    fn name() -> &'static str {
        "subject-s"
    }
    async fn on_start(&mut self, me: ActorRef<Self>) -> Result<(), HookErr> {
        self.me = Some(me.downgrade());
        self.see(Some(Ev::Start), true);
        for _ in 0..self.case.start_yields {
            tokio::task::yield_now().await;
        }
        for (k, m) in self.case.start_msgs.clone().into_iter().enumerate() {
            let _ = me.tell(Job(k as u32 + 1, m)).try_send();
        }
        self.see(None, true);
        match self.case.start {
            Out::Ok => Ok(()),
            Out::Err => Err(HookErr(1)),
            Out::Panic => panic!("start"),
        }
    }
    async fn on_panic(&mut self, _: WeakActorRef<Self>, e: PanicError) -> Result<ControlFlow<ActorStopReason>, HookErr> {
        self.see(Some(Ev::Panic(desc_err(&e))), true);
        if self.case.keep {
            return Ok(ControlFlow::Continue(()));
        }
        Ok(ControlFlow::Break(ActorStopReason::Panicked(e)))
    }
    async fn on_link_died(&mut self, _: WeakActorRef<Self>, id: ActorID, reason: ActorStopReason) -> Result<ControlFlow<ActorStopReason>, HookErr> {
        self.see(Some(Ev::Link(desc(&reason))), true);
        Ok(ControlFlow::Break(ActorStopReason::LinkDied { id, reason: Box::new(reason) }))
    }
    async fn on_stop(&mut self, _: WeakActorRef<Self>, r: ActorStopReason) -> Result<(), HookErr> {
        let d = short(&r);
        self.see(Some(Ev::Stop(d)), true);
        tokio::task::yield_now().await;
        self.see(None, true);
        match self.case.stop {
            Out::Ok => Ok(()),
            Out::Err => Err(HookErr(2)),
            Out::Panic => panic!("stop"),
        }
    }
}

/// (ids differ from actor to actor)
fn short(r: &ActorStopReason) -> String {
    match r {
        ActorStopReason::LinkDied { reason, .. } => format!("link({})", desc(reason)),
        r => desc(r),
    }
}

struct Job(u32, Msg);
impl Message<Job> for S {
    type Reply = Result<u32, JobErr>;
    async fn handle(&mut self, m: Job, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        if !ctx.actor_ref().is_current() {
            self.log.lock().unwrap().odd.push("the context's actor isn't current".into());
        }
        self.work(m.0, m.1).await
    }
}

struct Helper {
    me: Option<WeakActorRef<Helper>>,
}
impl Actor for Helper {
    type Error = HookErr;
}
/// Looks at who's current, in another actor.
struct See(Option<ActorRef<S>>, Log);
impl Message<See> for Helper {
    type Reply = ();
    async fn handle(&mut self, m: See, ctx: &mut Context<Self, ()>) {
        if m.0.is_some_and(|a| a.is_current()) {
            m.1.lock().unwrap().odd.push("current within another actor".into());
        }
        let mine = self.me.as_ref().and_then(|m| m.upgrade()).is_none_or(|m| m.is_current());
        if !mine || !ctx.actor_ref().is_current() {
            m.1.lock().unwrap().odd.push("another actor isn't current in itself".into());
        }
    }
}

/// Linked with the subject.
struct Partner {
    deaths: Arc<Mutex<Vec<(ActorID, String)>>>,
}
impl Actor for Partner {
    type Error = HookErr;
    async fn on_link_died(&mut self, _: WeakActorRef<Self>, id: ActorID, reason: ActorStopReason) -> Result<ControlFlow<ActorStopReason>, HookErr> {
        self.deaths.lock().unwrap().push((id, short(&reason)));
        Ok(ControlFlow::Continue(()))
    }
}

/// Everything there is to compare.
#[derive(Debug, Default, PartialEq)]
struct Trace {
    log: Vec<Ev>,
    replies: Vec<(u32, String)>,
    reason: String,
    sum: Option<u64>,
    deaths: Vec<String>,
    late: Vec<u32>,
}

fn model(c: &Case, way: Way) -> Trace {
    let mut t = Trace { sum: Some(0), ..Default::default() };
    let mut dead: Option<String> = None;
    t.log.push(Ev::Start);
    let mut started = true;
    match c.start {
        Out::Ok => {}
        o => {
            let e = if o == Out::Err { "hook:1" } else { "str:start" };
            t.log.push(Ev::Panic(e.into()));
            dead = Some(format!("panicked({e})"));
            started = false;
        }
    }
    if started && c.early == Early::Kill {
        dead = Some("killed".into());
    }
    let mut all: Vec<(Option<Op>, u32, Msg)> = vec![];
    // (what it sends itself comes after a stop which is there already)
    let own = if c.early == Early::Stop { &[][..] } else { &c.start_msgs[..] };
    all.extend(own.iter().enumerate().map(|(k, m)| (None, k as u32 + 1, *m)));
    all.extend(c.pre.iter().enumerate().map(|(k, (op, m))| (Some(*op), k as u32 + 100, *m)));
    let before = all.len();
    all.extend(c.script.iter().enumerate().map(|(k, (op, m))| (Some(*op), k as u32 + 200, *m)));
    for (k, (op, id, m)) in all.into_iter().enumerate() {
        if k == before && dead.is_none() && c.early == Early::Stop {
            dead = Some("normal".into());
        }
        if dead.is_some() {
            if matches!(op, Some(Op::Ask | Op::Enqueue)) {
                t.replies.push((id, "dead".into()));
            }
            continue;
        }
        t.log.push(Ev::Msg(id));
        t.sum = t.sum.map(|s| s * 7 + id as u64);
        if m.inner == Inner::Leaves {
            t.late.push(id);
        }
        let asked = matches!(op, Some(Op::Ask | Op::Enqueue));
        let err = match m.out {
            Out::Ok => {
                if asked {
                    t.replies.push((id, format!("ok {}", id * 3)));
                }
                None
            }
            Out::Err if asked => {
                t.replies.push((id, format!("err {id}")));
                None
            }
            Out::Err => Some(format!("job:{id}")),
            Out::Panic => {
                if asked {
                    t.replies.push((id, "dead".into()));
                }
                Some(format!("str:{id}"))
            }
        };
        if let Some(e) = err {
            t.log.push(Ev::Panic(e.clone()));
            if !c.keep {
                dead = Some(format!("panicked({e})"));
            }
        }
    }
    if dead.is_none() && c.early == Early::Stop {
        dead = Some("normal".into());
    }
    let r = dead.unwrap_or_else(|| match c.end {
        Fin::Kill => "killed".into(),
        Fin::Partner => {
            t.log.push(Ev::Link("killed".into()));
            "link(killed)".into()
        }
        _ => "normal".into(),
    });
    t.log.push(Ev::Stop(r.clone()));
    if c.linked && !(r == "link(killed)") {
        t.deaths = vec![r.clone()];
    }
    t.reason = r;
    if !joins(way) {
        t.sum = None;
    }
    t.replies.sort();
    t.late.sort();
    t
}

fn joins(way: Way) -> bool {
    matches!(way, Way::Run | Way::PreparedSpawn | Way::PreparedThread)
}
fn threaded(way: Way) -> bool {
    matches!(way, Way::PreparedThread | Way::Thread | Way::ThreadMailbox)
}
fn possible(c: &Case, way: Way) -> bool {
    (c.threads || !threaded(way))
        && match way {
            Way::Run | Way::PreparedSpawn | Way::PreparedThread => true,
            Way::SpawnLink => c.linked && c.pre.is_empty() && c.early == Early::No && c.cap.is_none_or(|n| n == 64),
            Way::SpawnLinkMailbox => c.linked && c.pre.is_empty() && c.early == Early::No,
            Way::Spawn | Way::Thread => !c.linked && c.pre.is_empty() && c.early == Early::No && c.cap.is_none_or(|n| n == 64),
            Way::SpawnMailbox | Way::ThreadMailbox => !c.linked && c.pre.is_empty() && c.early == Early::No,
        }
}

const PATIENCE: Duration = Duration::from_secs(20);

fn said<M>(r: Result<u32, SendError<M, JobErr>>) -> String {
    match r {
        Ok(n) => format!("ok {n}"),
        Err(SendError::HandlerError(JobErr(n))) => format!("err {n}"),
        Err(SendError::ActorNotRunning(_) | SendError::ActorStopped) => "dead".into(),
        Err(_) => "odd".into(),
    }
}

type Replies = Arc<Mutex<Vec<(u32, String)>>>;

/// Returns when the message has been accepted (or refused), or answered.
async fn send(a: &ActorRef<S>, op: Op, id: u32, m: Msg, replies: &Replies, waiting: &mut Vec<tokio::task::JoinHandle<()>>) {
    match op {
        Op::Tell => {
            let _ = a.tell(Job(id, m)).send().await;
        }
        Op::Ask => {
            let r = said(a.ask(Job(id, m)).await);
            replies.lock().unwrap().push((id, r));
        }
        Op::Enqueue => {
            let (a, replies) = (a.clone(), replies.clone());
            let (tx, accepted) = tokio::sync::oneshot::channel();
            waiting.push(tokio::spawn(async move {
                let r = match a.ask(Job(id, m)).enqueue().await {
                    Ok(p) => {
                        let _ = tx.send(());
                        said(p.await)
                    }
                    Err(SendError::ActorNotRunning(_) | SendError::ActorStopped) => "dead".into(),
                    Err(_) => "odd".into(),
                };
                drop(a);
                replies.lock().unwrap().push((id, r));
            }));
            let _ = accepted.await;
        }
    }
}

async fn client(c: &Case, a: ActorRef<S>, partner: Option<ActorRef<Partner>>, replies: Replies, mut waiting: Vec<tokio::task::JoinHandle<()>>) -> Result<(), Fail> {
    for (k, (op, m)) in c.script.iter().enumerate() {
        ensure!(!a.is_current(), "current-outside", "the actor is current for its client");
        send(&a, *op, k as u32 + 200, *m, &replies, &mut waiting).await;
    }
    // everything has been handled
    let _ = a.ask(Rest).await;
    for w in waiting {
        w.await.map_err(|e| Fail { sig: "caller-panics".into(), msg: e.to_string() })?;
    }
    match c.end {
        Fin::Stop => {
            let _ = a.stop_gracefully().await;
        }
        Fin::Kill => {
            a.kill();
            a.wait_for_shutdown().await;
        }
        // (dead already)
        Fin::Partner if model(c, Way::Run).reason != "link(killed)" => {}
        Fin::Drop => {}
        Fin::Partner => {
            partner.unwrap().kill();
            a.wait_for_shutdown().await;
        }
    }
    drop(a);
    Ok(())
}

struct Rest;
impl Message<Rest> for S {
    type Reply = ();
    async fn handle(&mut self, _: Rest, _: &mut Context<Self, ()>) {}
}

async fn run_one(c: &Arc<Case>, way: Way) -> Result<Trace, Fail> {
    let log = Log::default();
    let deaths = Arc::new(Mutex::new(vec![]));
    let helper = actor::spawn_with_mailbox(Helper { me: None }, mailbox(None));
    let partner = c.linked.then(|| kameo::spawn(Partner { deaths: deaths.clone() }));
    let over = Arc::new(tokio::sync::Semaphore::new(0));
    let subject = S { log: log.clone(), me: None, helper: helper.clone(), case: c.clone(), over: over.clone(), sum: 0 };
    let replies = Replies::default();
    let mut waiting = vec![];
    let cap = c.cap;
    let mut joined: Option<(S, ActorStopReason)> = None;
    let weak;
    if joins(way) {
        let p = PreparedActor::<S>::new(mailbox(cap));
        let a = p.actor_ref().clone();
        weak = a.downgrade();
        if let Some(l) = &partner {
            a.link(l).await;
        }
        for (k, (op, m)) in c.pre.iter().enumerate() {
            // (nobody answers yet)
            let op = if *op == Op::Ask { Op::Enqueue } else { *op };
            send(&a, op, k as u32 + 100, *m, &replies, &mut waiting).await;
        }
        match c.early {
            Early::No => {}
            Early::Stop => {
                let _ = a.stop_gracefully().await;
            }
            Early::Kill => a.kill(),
        }
        let cl = client(c, a, partner.clone(), replies.clone(), waiting);
        let done = async {
            match way {
                Way::Run => {
                    let (r, j) = tokio::join!(cl, p.run(subject));
                    r.map(|_| j)
                }
                Way::PreparedSpawn => {
                    let j = p.spawn(subject);
                    cl.await?;
                    j.await.map_err(|e| Fail { sig: "task-dies".into(), msg: e.to_string() })
                }
                _ => {
                    let j = p.spawn_in_thread(subject);
                    cl.await?;
                    tokio::task::spawn_blocking(move || j.join()).await.unwrap().map_err(|_| Fail { sig: "task-dies".into(), msg: "the thread panicked".into() })
                }
            }
        };
        match tokio::time::timeout(PATIENCE, done).await {
            Ok(r) => joined = Some(r?),
            Err(_) => return fail("hang", format!("{way:?}: {:?}", log.lock().unwrap().log)),
        }
    } else {
        let a = match way {
            Way::Spawn => kameo::spawn(subject),
            Way::SpawnMailbox => actor::spawn_with_mailbox(subject, mailbox(cap)),
            Way::SpawnLink => actor::spawn_link(partner.as_ref().unwrap(), subject).await,
            Way::SpawnLinkMailbox => actor::spawn_link_with_mailbox(partner.as_ref().unwrap(), subject, mailbox(cap)).await,
            Way::Thread => actor::spawn_in_thread(subject),
            _ => actor::spawn_in_thread_with_mailbox(subject, mailbox(cap)),
        };
        weak = a.downgrade();
        match tokio::time::timeout(PATIENCE, client(c, a, partner.clone(), replies.clone(), waiting)).await {
            Ok(r) => r?,
            Err(_) => return fail("hang", format!("{way:?}: {:?}", log.lock().unwrap().log)),
        }
        let over = async {
            loop {
                if log.lock().unwrap().log.iter().any(|e| matches!(e, Ev::Stop(_))) {
                    return;
                }
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
        };
        if tokio::time::timeout(PATIENCE, over).await.is_err() {
            return fail("hang", format!("{way:?} never stops: {:?}", log.lock().unwrap().log));
        }
    }
    let mut t = Trace::default();
    if let Some((s, r)) = joined {
        t.reason = short(&r);
        t.sum = Some(s.sum);
    } else {
        t.reason = log.lock().unwrap().log.iter().rev().find_map(|e| if let Ev::Stop(r) = e { Some(r.clone()) } else { None }).unwrap();
    }
    // the other one has heard of it
    if let Some(p) = partner {
        let heard = async {
            while deaths.lock().unwrap().is_empty() {
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
        };
        if t.reason != "link(killed)" {
            if tokio::time::timeout(PATIENCE, heard).await.is_err() {
                return fail("not-notified", format!("{way:?}: the linked actor never hears of {}", t.reason));
            }
        }
        let _ = p.stop_gracefully().await;
        p.wait_for_shutdown().await;
    }
    // what it has left behind goes on (and tasks which are gone never come to their ends)
    over.add_permits(1_000);
    let want = model(c, way).late.len();
    let all = async {
        while log.lock().unwrap().late.len() < want {
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
    };
    if Arc::strong_count(&over) > 1 {
        let _ = tokio::time::timeout(PATIENCE, all).await;
    }
    let id = weak.id();
    for (i, r) in deaths.lock().unwrap().iter() {
        ensure!(*i == id, "link-id", "{way:?}: the linked actor hears of {i} instead of {id}");
        t.deaths.push(r.clone());
    }
    let seen = log.lock().unwrap();
    ensure!(seen.odd.is_empty(), "current", "{way:?}: {:?}; {:?}", seen.odd, seen.log);
    if threaded(way) {
        let (first, name) = &seen.threads[0];
        ensure!(seen.threads.iter().all(|(t, _)| t == first), "thread", "{way:?}: the actor runs on several threads: {:?}", seen.threads);
        ensure!(name.as_deref() == Some("subject-s"), "thread", "{way:?}: the actor's thread is called {name:?}");
        ensure!(*first != std::thread::current().id(), "thread", "{way:?}: the actor runs on the caller's thread");
    }
    t.log = seen.log.clone();
    t.replies = std::mem::take(&mut *replies.lock().unwrap());
    t.replies.sort();
    t.late = seen.late.clone();
    t.late.sort();
    drop(seen);
    let _ = helper.stop_gracefully().await;
    Ok(t)
}

fn case(c: &Case) -> CaseResult {
    let rt = if c.threads {
        tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_time().build().unwrap()
    } else {
        tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap()
    };
    let arc = Arc::new(c.clone());
    let r = rt.block_on(async {
        let mut n = 0;
        for way in WAYS {
            if !possible(c, way) {
                continue;
            }
            n += 1;
            let t = run_one(&arc, way).await?;
            let want = model(c, way);
            ensure!(t == want, "differs", "{way:?} has {t:?}\n instead of {want:?}");
        }
        Ok(n)
    });
    rt.shutdown_background();
    let n = r?;
    let want = model(c, Way::Run);
    Ok(Info::new(want.log.len() > 3 && n > 1)
        .label(c.threads, "threads")
        .label(c.linked, "linked")
        .label(!c.pre.is_empty() && c.start == Out::Ok, "sent before it runs")
        .label(!want.late.is_empty(), "tasks left behind")
        .label(want.reason.starts_with("panicked"), "panicked")
        .label(want.log.iter().any(|e| matches!(e, Ev::Msg(_))) && want.replies.iter().any(|(_, r)| r.starts_with("ok")), "replied")
        .label(want.replies.iter().any(|(_, r)| r == "dead"), "asked a dead actor"))
}

fn cases() -> BoxedStrategy<Case> {
    let out = |n: u32| prop_oneof![n => Just(Out::Ok), 1 => Just(Out::Err), 1 => Just(Out::Panic)];
    let inner = prop_oneof![4 => Just(Inner::Nothing), 1 => Just(Inner::Runs), 1 => Just(Inner::Spawns), 1 => Just(Inner::Asks), 1 => Just(Inner::Leaves)];
    let msg = (out(8), inner, 0u8..3).prop_map(|(out, inner, yields)| Msg { out, inner, yields });
    let op = || prop_oneof![Just(Op::Tell), Just(Op::Ask), Just(Op::Enqueue)];
    let end = prop_oneof![Just(Fin::Stop), Just(Fin::Kill), Just(Fin::Drop), Just(Fin::Partner)];
    (
        (any::<bool>(), any::<bool>(), prop_oneof![Just(None), Just(Some(64u8)), (1u8..4).prop_map(Some)], prop::bool::weighted(0.7)),
        (out(10), 0u8..3, prop::collection::vec(msg.clone(), 0..3), out(8)),
        prop_oneof![1 => Just(vec![]), 1 => prop::collection::vec((op(), msg.clone()), 1..6)],
        prop_oneof![8 => Just(Early::No), 1 => Just(Early::Stop), 1 => Just(Early::Kill)],
        prop::collection::vec((op(), msg), 0..8),
        end,
    )
        .prop_map(|((threads, linked, mut cap, keep), (start, start_yields, start_msgs, stop), pre, early, script, mut end)| {
            // room for what comes before anything is received
            if !(pre.is_empty() && start_msgs.is_empty() && early == Early::No) {
                cap = cap.map(|_| 64);
            }
            if end == Fin::Partner && !linked {
                end = Fin::Stop;
            }
            Case { threads, linked, cap, keep, start, start_yields, start_msgs, stop, pre, early, script, end }
        })
        .boxed()
}

pub fn run(s: &mut Session) {
    s.prop("ways_of_running", "more than one message or hook beyond the start, and several ways are possible", 30_000, 300_000, || boxed(cases()), case);
}

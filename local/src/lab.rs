//! A scriptable actor that logs everything it does, the ways of sending to it, and the history oracles
//! shared by the checks. The log is one totally ordered list: positions in it are the time stamps.
use std::{
    any::Any,
    collections::{BTreeMap, HashMap},
    ops::ControlFlow,
    sync::{Arc, Mutex},
    time::Duration,
};

use futures::future::BoxFuture;
use kameo::{
    actor::{ActorID, ActorRef, PreparedActor, Recipient, WeakActorRef},
    error::{ActorStopReason, PanicError, SendError},
    mailbox::{self, MailboxReceiver, MailboxSender},
    message::{Context, Message},
    reply::DelegatedReply,
    Actor,
};
use pbt::{sim, Fail};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tokio::sync::Semaphore;

// ---------------------------------------------------------------- log

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    StartBegin,
    StartEnd(bool),
    /// handler entered / step of the handler done / handler returned
    Begin(u32),
    Step(u32),
    End(u32),
    /// panic hook entered with this error / returned (what it decided)
    PanicHook(String),
    PanicHookEnd(String),
    LinkHook(u64, String),
    LinkHookEnd(String),
    StopBegin(String, u64),
    StopEnd,
    /// with whether the actor was alive at that moment
    SendStart(u32, bool),
    SendEnd(u32, Res),
    /// reply of an enqueued request
    Reply(u32, Res),
    StopReq,
    StopReqEnd(bool),
    Kill,
    /// the actor is about to suspend
    Susp,
    Note(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Entry {
    pub who: u32,
    pub at: u64,
    pub ev: Ev,
}

#[derive(Clone)]
pub struct Log {
    pub list: Arc<Mutex<Vec<Entry>>>,
    t0: Option<tokio::time::Instant>,
}

impl Log {
    /// Virtual times are recorded when made inside a runtime.
    pub fn new() -> Self {
        let t0 = tokio::runtime::Handle::try_current().ok().map(|_| tokio::time::Instant::now());
        Log { list: Default::default(), t0 }
    }
    pub fn now(&self) -> u64 {
        self.t0.map(|t| t.elapsed().as_millis() as u64 / sim::scale()).unwrap_or(0)
    }
    pub fn push(&self, who: u32, ev: Ev) {
        let at = self.now();
        self.list.lock().unwrap().push(Entry { who, at, ev });
    }
    pub fn get(&self) -> Vec<Entry> {
        self.list.lock().unwrap().clone()
    }
    pub fn of(&self, who: u32) -> Vec<Ev> {
        self.list.lock().unwrap().iter().filter(|e| e.who == who).map(|e| e.ev.clone()).collect()
    }
    pub fn show(&self) -> String {
        let l = self.list.lock().unwrap();
        let mut s = String::new();
        for (i, e) in l.iter().enumerate().take(400) {
            s.push_str(&format!("\n    {i:3} t={} #{} {:?}", e.at, e.who, e.ev));
        }
        s
    }
}

// ---------------------------------------------------------------- scripts

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    Yield(u8),
    Sleep(u8),
    /// tell oneself without waiting
    SelfTell(u32),
    /// ask oneself without waiting for the reply
    SelfAsk(u32),
    /// tell oneself, waiting for room for at most so many milliseconds
    SelfWait(u32, u8),
    /// send oneself that job, as an ask or not
    SelfJob(bool, Job),
    /// wait for a permit of the shared gate
    Gate,
    /// kill oneself
    Kill,
    /// have a task stop oneself gracefully
    SelfStop,
    /// link or unlink oneself and a peer
    Link(u8, bool),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Default)]
pub enum Out {
    #[default]
    Ok,
    Err,
    PanicStr,
    PanicOwned,
    PanicAny,
    /// reply later from another task
    Delegate(u8),
    /// take the reply channel and drop it
    DropReply,
    /// reply early, then go on for some time
    Early(u8),
}

impl Out {
    pub fn panics(&self) -> bool {
        matches!(self, Out::PanicStr | Out::PanicOwned | Out::PanicAny)
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Default)]
pub enum Decide {
    Continue,
    /// stop with normal / killed / panicked(custom)
    Normal,
    Killed,
    Custom,
    /// the default of the trait
    #[default]
    Default,
    Err,
    Panic,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Script {
    pub start: Vec<Step>,
    pub start_out: Out,
    pub panic: Vec<(u8, Decide)>,
    pub link: Vec<(u8, Decide)>,
    /// what the link hook does
    #[serde(default)]
    pub link_steps: Vec<Step>,
    pub stop: Vec<Step>,
    pub stop_out: Out,
}

impl Script {
    pub fn resilient() -> Self {
        Script { panic: vec![(0, Decide::Continue)], link: vec![(0, Decide::Continue)], ..Default::default() }
    }
}

pub struct Sub {
    pub who: u32,
    pub log: Log,
    pub script: Script,
    /// number of completed steps and messages: the state hooks must see
    pub state: u64,
    pub gate: Arc<Semaphore>,
    pub peers: Peers,
    np: usize,
    nl: usize,
}

/// Whom `Step::Link` links.
pub type Peers = Arc<std::sync::OnceLock<Vec<WeakActorRef<Sub>>>>;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct HookErr(pub u32);
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct JobErr(pub u32);

pub const START_ERR: u32 = 1;
pub const STOP_ERR: u32 = 2;
pub const PANIC_ERR: u32 = 3;
pub const LINK_ERR: u32 = 4;

/// What a panic error carries, in words.
pub fn desc_err(e: &PanicError) -> String {
    if let Some(s) = e.with_str(|s| s.to_string()) {
        return format!("str:{s}");
    }
    if let Some(h) = e.downcast::<HookErr>() {
        return format!("hook:{}", h.0);
    }
    if let Some(h) = e.downcast::<JobErr>() {
        return format!("job:{}", h.0);
    }
    if let Some(n) = e
        .with_downcast_ref(|b: &Box<dyn Any + Send>| b.downcast_ref::<u32>().copied())
        .flatten()
        .or(e.downcast::<u32>())
    {
        return format!("any:{n}");
    }
    "other".into()
}

pub fn desc(r: &ActorStopReason) -> String {
    match r {
        ActorStopReason::Normal => "normal".into(),
        ActorStopReason::Killed => "killed".into(),
        ActorStopReason::Panicked(e) => format!("panicked({})", desc_err(e)),
        ActorStopReason::LinkDied { id, reason } => format!("link({},{})", id.sequence_id(), desc(reason)),
        #[allow(unreachable_patterns)]
        _ => "peer".into(),
    }
}

/// What the message's outcome looks like to the panic hook when it is unhandled.
pub fn desc_out(id: u32, out: Out) -> String {
    match out {
        Out::Err => format!("job:{id}"),
        Out::PanicStr => "str:static".into(),
        Out::PanicOwned => format!("str:owned {id}"),
        Out::PanicAny => format!("any:{id}"),
        _ => "none".into(),
    }
}

pub fn value_of(id: u32) -> u64 {
    id as u64 * 1000 + 7
}

impl Sub {
    pub fn new(who: u32, log: &Log, script: &Script) -> Self {
        Sub {
            who,
            log: log.clone(),
            script: script.clone(),
            state: 0,
            gate: Arc::new(Semaphore::new(0)),
            peers: Default::default(),
            np: 0,
            nl: 0,
        }
    }
    pub fn with_gate(mut self, g: &Arc<Semaphore>) -> Self {
        self.gate = g.clone();
        self
    }
    pub fn with_peers(mut self, p: &Peers) -> Self {
        self.peers = p.clone();
        self
    }
    pub fn log(&self, ev: Ev) {
        self.log.push(self.who, ev);
    }

    /// What hooks do.
    async fn hook_steps(&mut self, steps: &[Step], me: &WeakActorRef<Sub>) {
        for s in steps {
            match s {
                Step::Sleep(ms) => sim::sleep_ms(*ms as u64).await,
                Step::Yield(n) => sim::yields(*n).await,
                Step::Gate => {
                    if let Ok(p) = self.gate.clone().acquire_owned().await {
                        p.forget()
                    }
                }
                Step::Link(i, on) => {
                    if let Some(me) = me.upgrade() {
                        self.link_peer(&me, *i, *on).await
                    }
                }
                _ => {}
            }
        }
    }

    async fn link_peer(&self, me: &ActorRef<Sub>, i: u8, on: bool) {
        if let Some(peers) = self.peers.get() {
            if let Some(peer) = peers[i as usize % peers.len()].upgrade() {
                if on {
                    me.link(&peer).await
                } else {
                    me.unlink(&peer).await
                }
            }
        }
    }

    async fn steps(&mut self, id: u32, steps: &[Step], me: &ActorRef<Sub>) {
        for s in steps {
            match s {
                Step::Yield(n) => {
                    if *n > 0 {
                        self.log(Ev::Susp);
                    }
                    sim::yields(*n).await
                }
                Step::Sleep(ms) => {
                    if *ms > 0 {
                        self.log(Ev::Susp);
                    }
                    sim::sleep_ms(*ms as u64).await
                }
                Step::Gate => {
                    if let Ok(p) = self.gate.clone().acquire_owned().await {
                        p.forget()
                    }
                }
                Step::Kill => {
                    self.log(Ev::Kill);
                    me.kill();
                }
                Step::SelfStop => {
                    crate::c05::stop_task(me.clone(), self.log.clone(), false);
                }
                Step::Link(i, on) => self.link_peer(me, *i, *on).await,
                Step::SelfTell(j) => self.self_send(me, false, Job::new(*j)),
                Step::SelfAsk(j) => self.self_send(me, true, Job::new(*j)),
                Step::SelfWait(j, ms) => {
                    // nobody else makes room meanwhile: either it's accepted at once or given up
                    self.log.push(99, Ev::SendStart(*j, me.is_alive()));
                    let r = tokio::time::timeout(sim::ms(*ms as u64), me.tell(Job::new(*j)).send()).await;
                    // (a send given up while it waits has not sent anything)
                    self.log.push(99, Ev::SendEnd(*j, r.map_or(Res::Full(Some(*j)), Res::of_tell)));
                }
                Step::SelfJob(ask, j) => self.self_send(me, *ask, j.clone()),
            }
            self.state += 1;
            self.log(Ev::Step(id));
        }
    }

    fn self_send(&self, me: &ActorRef<Sub>, ask: bool, job: Job) {
        let j = job.id;
        self.log.push(99, Ev::SendStart(j, me.is_alive()));
        let r = if ask {
            Res::of_enq(me.ask(job).try_enqueue().map(|_| ()))
        } else {
            Res::of_tell(me.tell(job).try_send())
        };
        self.log.push(99, Ev::SendEnd(j, r));
    }

    fn fail_hook(out: Out, code: u32) -> Result<(), HookErr> {
        match out {
            Out::Err => Err(HookErr(code)),
            Out::PanicStr => panic!("static"),
            Out::PanicOwned => panic!("owned {code}"),
            Out::PanicAny => std::panic::panic_any(code),
            _ => Ok(()),
        }
    }

    fn decide(
        d: Decide,
        default: ControlFlow<ActorStopReason>,
        code: u32,
    ) -> Result<ControlFlow<ActorStopReason>, HookErr> {
        match d {
            Decide::Continue => Ok(ControlFlow::Continue(())),
            Decide::Normal => Ok(ControlFlow::Break(ActorStopReason::Normal)),
            Decide::Killed => Ok(ControlFlow::Break(ActorStopReason::Killed)),
            Decide::Custom => Ok(ControlFlow::Break(ActorStopReason::Panicked(PanicError::new(Box::new(
                format!("custom {code}"),
            ))))),
            Decide::Default => Ok(default),
            Decide::Err => Err(HookErr(code)),
            Decide::Panic => panic!("owned {code}"),
        }
    }

    /// The reason (in words) such a decision stands for; `None` to go on.
    fn decided(d: Decide, default: &ControlFlow<ActorStopReason>, code: u32) -> Option<String> {
        match d {
            Decide::Continue => None,
            Decide::Normal => Some("normal".into()),
            Decide::Killed => Some("killed".into()),
            Decide::Custom => Some(format!("panicked(str:custom {code})")),
            Decide::Default => match default {
                ControlFlow::Continue(()) => None,
                ControlFlow::Break(r) => Some(desc(r)),
            },
            Decide::Err => Some(format!("panicked(hook:{code})")),
            Decide::Panic => Some(format!("panicked(str:owned {code})")),
        }
    }
}

impl Actor for Sub {
    type Error = HookErr;

    async fn on_start(&mut self, me: ActorRef<Self>) -> Result<(), HookErr> {
        self.log(Ev::StartBegin);
        let steps = self.script.start.clone();
        self.steps(u32::MAX, &steps, &me).await;
        self.log(Ev::StartEnd(self.script.start_out == Out::Ok));
        Self::fail_hook(self.script.start_out, START_ERR)
    }

    async fn on_panic(
        &mut self,
        _: WeakActorRef<Self>,
        err: PanicError,
    ) -> Result<ControlFlow<ActorStopReason>, HookErr> {
        self.log(Ev::PanicHook(desc_err(&err)));
        let (y, d) = if self.script.panic.is_empty() {
            (0, Decide::Default)
        } else {
            self.script.panic[self.np % self.script.panic.len()]
        };
        self.np += 1;
        sim::yields(y).await;
        let default = ControlFlow::Break(ActorStopReason::Panicked(err));
        let w = Self::decided(d, &default, PANIC_ERR).unwrap_or_else(|| "continue".into());
        self.log(Ev::PanicHookEnd(w));
        Self::decide(d, default, PANIC_ERR)
    }

    async fn on_link_died(
        &mut self,
        me: WeakActorRef<Self>,
        id: ActorID,
        reason: ActorStopReason,
    ) -> Result<ControlFlow<ActorStopReason>, HookErr> {
        self.log(Ev::LinkHook(id.sequence_id(), desc(&reason)));
        let (y, d) = if self.script.link.is_empty() {
            (0, Decide::Default)
        } else {
            self.script.link[self.nl % self.script.link.len()]
        };
        self.nl += 1;
        sim::yields(y).await;
        let steps = self.script.link_steps.clone();
        self.hook_steps(&steps, &me).await;
        let default = match &reason {
            ActorStopReason::Normal => ControlFlow::Continue(()),
            _ => ControlFlow::Break(ActorStopReason::LinkDied { id, reason: Box::new(reason) }),
        };
        let w = Self::decided(d, &default, LINK_ERR).unwrap_or_else(|| "continue".into());
        self.log(Ev::LinkHookEnd(w));
        Self::decide(d, default, LINK_ERR)
    }

    async fn on_stop(&mut self, me: WeakActorRef<Self>, reason: ActorStopReason) -> Result<(), HookErr> {
        self.log(Ev::StopBegin(desc(&reason), self.state));
        let steps = self.script.stop.clone();
        self.hook_steps(&steps, &me).await;
        self.log(Ev::StopEnd);
        Self::fail_hook(self.script.stop_out, STOP_ERR)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Job {
    pub id: u32,
    pub steps: Vec<Step>,
    pub out: Out,
}

impl Job {
    pub fn new(id: u32) -> Self {
        Job { id, steps: vec![], out: Out::Ok }
    }
}

/// Panics inside `Early` etc. are not needed: the outcome is decided at the end of the handler.
impl Message<Job> for Sub {
    type Reply = DelegatedOr;

    async fn handle(&mut self, job: Job, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        self.log(Ev::Begin(job.id));
        let me = ctx.actor_ref();
        self.steps(job.id, &job.steps, &me).await;
        drop(me);
        self.state += 1;
        self.log(Ev::Step(job.id));
        let id = job.id;
        let log = (self.log.clone(), self.who);
        let end = move || log.0.push(log.1, Ev::End(id));
        match job.out {
            Out::Ok => {
                end();
                DelegatedOr::Now(Ok(value_of(id)))
            }
            Out::Err => {
                end();
                DelegatedOr::Now(Err(JobErr(id)))
            }
            Out::PanicStr => panic!("static"),
            Out::PanicOwned => panic!("owned {id}"),
            Out::PanicAny => std::panic::panic_any(id),
            Out::Delegate(ms) => {
                let (_, tx) = ctx.reply_sender();
                if let Some(tx) = tx {
                    tokio::spawn(async move {
                        sim::sleep_ms(ms as u64).await;
                        tx.send(Ok(value_of(id)));
                    });
                }
                end();
                DelegatedOr::Later
            }
            Out::DropReply => {
                let (_, tx) = ctx.reply_sender();
                drop(tx);
                end();
                DelegatedOr::Later
            }
            Out::Early(ms) => {
                let _: DelegatedReply<_> = ctx.reply(Ok(value_of(id)));
                if ms > 0 {
                    self.log(Ev::Susp);
                }
                sim::sleep_ms(ms as u64).await;
                self.state += 1;
                self.log(Ev::Step(id));
                end();
                DelegatedOr::Later
            }
        }
    }
}

/// Either an immediate result or a marker that the reply was sent or delegated.
pub enum DelegatedOr {
    Now(Result<u64, JobErr>),
    Later,
}

impl kameo::reply::Reply for DelegatedOr {
    type Ok = u64;
    type Error = JobErr;
    type Value = Result<u64, JobErr>;
    fn to_result(self) -> Result<u64, JobErr> {
        match self {
            DelegatedOr::Now(r) => r,
            DelegatedOr::Later => unreachable!(),
        }
    }
    fn into_any_err(self) -> Option<Box<dyn kameo::reply::ReplyError>> {
        match self {
            DelegatedOr::Now(Err(e)) => Some(Box::new(e)),
            _ => None,
        }
    }
    fn into_value(self) -> Self::Value {
        match self {
            DelegatedOr::Now(r) => r,
            DelegatedOr::Later => unreachable!("the reply has been taken"),
        }
    }
}

// ---------------------------------------------------------------- sending

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Kind {
    Tell,
    TellTry,
    TellMbox(u16),
    Rec,
    RecTry,
    RecMbox(u16),
    Ask,
    AskTry,
    /// ask with mailbox and reply timeouts (0 = none)
    AskTimed(u16, u16),
    Enq,
    EnqTry,
    /// non-waiting ask with a reply timeout
    AskTryTimed(u16),
    /// enqueued ask with mailbox and reply timeouts (0 = none)
    EnqTimed(u16, u16),
    EnqTryTimed(u16),
}

impl Kind {
    pub fn enq(&self) -> bool {
        matches!(self, Kind::Enq | Kind::EnqTry | Kind::EnqTimed(..) | Kind::EnqTryTimed(_))
    }
    pub fn is_ask(&self) -> bool {
        !matches!(
            self,
            Kind::Tell | Kind::TellTry | Kind::TellMbox(_) | Kind::Rec | Kind::RecTry | Kind::RecMbox(_)
        )
    }
    pub fn is_try(&self) -> bool {
        matches!(
            self,
            Kind::TellTry
                | Kind::RecTry
                | Kind::AskTry
                | Kind::EnqTry
                | Kind::AskTryTimed(_)
                | Kind::EnqTryTimed(_)
        )
    }
    /// completes as soon as the message is accepted
    pub fn accept_only(&self) -> bool {
        !self.is_ask() || self.enq()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Sent,
    Val(u64),
    HErr(u32),
    NotRunning(Option<u32>),
    Full(Option<u32>),
    Stopped,
    /// with the id of the message given back
    Timeout(Option<u32>),
}

impl Res {
    /// the mailbox took the message
    pub fn accepted(&self) -> bool {
        matches!(self, Res::Sent | Res::Val(_) | Res::HErr(_) | Res::Stopped | Res::Timeout(None))
    }
    pub fn of_tell(r: Result<(), SendError<Job>>) -> Res {
        match r {
            Ok(()) => Res::Sent,
            Err(e) => Res::of_err(e.map_err(|_| JobErr(0))),
        }
    }
    pub fn of_enq(r: Result<(), SendError>) -> Res {
        match r {
            Ok(()) => Res::Sent,
            Err(SendError::ActorNotRunning(())) => Res::NotRunning(None),
            Err(SendError::MailboxFull(())) => Res::Full(None),
            Err(SendError::Timeout(Some(()))) => Res::Timeout(Some(u32::MAX)),
            Err(SendError::Timeout(None)) => Res::Timeout(None),
            Err(SendError::ActorStopped) => Res::Stopped,
            Err(SendError::HandlerError(_)) => unreachable!(),
        }
    }
    pub fn of_err(e: SendError<Job, JobErr>) -> Res {
        match e {
            SendError::ActorNotRunning(j) => Res::NotRunning(Some(j.id)),
            SendError::MailboxFull(j) => Res::Full(Some(j.id)),
            SendError::ActorStopped => Res::Stopped,
            SendError::HandlerError(e) => Res::HErr(e.0),
            SendError::Timeout(m) => Res::Timeout(m.map(|j| j.id)),
        }
    }
    pub fn of_ask(r: Result<u64, SendError<Job, JobErr>>) -> Res {
        match r {
            Ok(v) => Res::Val(v),
            Err(e) => Res::of_err(e),
        }
    }
}

/// timeouts that are no number of milliseconds
pub const ZERO: u16 = u16::MAX;
pub const FOREVER: u16 = u16::MAX - 1;

fn ms(n: u16) -> Duration {
    match n {
        ZERO => Duration::ZERO,
        FOREVER => Duration::MAX,
        n => sim::ms(n as u64),
    }
}

/// Sends one message and logs when the call started, when it completed and with what; `task` is the
/// logical sender. An enqueued request's reply is awaited by a task of its own.
pub fn send(a: ActorRef<Sub>, log: Log, task: u32, kind: Kind, job: Job) -> BoxFuture<'static, Res> {
    Box::pin(async move {
        let id = job.id;
        match kind {
            Kind::Enq | Kind::EnqTry | Kind::EnqTimed(..) | Kind::EnqTryTimed(_) => {
                let (tx, rx) = tokio::sync::oneshot::channel();
                let log2 = log.clone();
                tokio::spawn(async move {
                    log2.push(task, Ev::SendStart(id, a.is_alive()));
                    let p = match kind {
                        Kind::Enq | Kind::EnqTimed(0, 0) => a.ask(job).enqueue().await,
                        Kind::EnqTry => a.ask(job).try_enqueue(),
                        Kind::EnqTimed(m, 0) => a.ask(job).mailbox_timeout(ms(m)).enqueue().await,
                        Kind::EnqTimed(0, r) => a.ask(job).reply_timeout(ms(r)).enqueue().await,
                        Kind::EnqTimed(m, r) => {
                            a.ask(job).reply_timeout(ms(r)).mailbox_timeout(ms(m)).enqueue().await
                        }
                        Kind::EnqTryTimed(r) => a.ask(job).reply_timeout(ms(r)).try_enqueue(),
                        _ => unreachable!(),
                    };
                    match p {
                        Ok(p) => {
                            log2.push(task, Ev::SendEnd(id, Res::Sent));
                            let _ = tx.send(Res::Sent);
                            let r = Res::of_ask(p.await);
                            log2.push(task, Ev::Reply(id, r));
                        }
                        Err(e) => {
                            let r = Res::of_enq(Err(e));
                            log2.push(task, Ev::SendEnd(id, r.clone()));
                            let _ = tx.send(r);
                        }
                    }
                });
                rx.await.unwrap()
            }
            _ => {
                log.push(task, Ev::SendStart(id, a.is_alive()));
                let r = match kind {
                    Kind::Tell => Res::of_tell(a.tell(job).send().await),
                    Kind::TellTry => Res::of_tell(a.tell(job).try_send()),
                    Kind::TellMbox(t) => Res::of_tell(a.tell(job).mailbox_timeout(ms(t)).send().await),
                    Kind::Rec | Kind::RecTry | Kind::RecMbox(_) => {
                        let r: Recipient<Job> = a.recipient();
                        Res::of_tell(match kind {
                            Kind::Rec => r.tell(job).send().await,
                            Kind::RecTry => r.tell(job).try_send(),
                            Kind::RecMbox(t) => r.tell(job).mailbox_timeout(ms(t)).send().await,
                            _ => unreachable!(),
                        })
                    }
                    Kind::Ask => Res::of_ask(a.ask(job).send().await),
                    Kind::AskTry => Res::of_ask(a.ask(job).try_send().await),
                    Kind::AskTimed(0, 0) => Res::of_ask(a.ask(job).send().await),
                    Kind::AskTimed(m, 0) => Res::of_ask(a.ask(job).mailbox_timeout(ms(m)).send().await),
                    Kind::AskTimed(0, r) => Res::of_ask(a.ask(job).reply_timeout(ms(r)).send().await),
                    Kind::AskTimed(m, r) => {
                        Res::of_ask(a.ask(job).mailbox_timeout(ms(m)).reply_timeout(ms(r)).send().await)
                    }
                    Kind::AskTryTimed(r) => Res::of_ask(a.ask(job).reply_timeout(ms(r)).try_send().await),
                    _ => unreachable!(),
                };
                log.push(task, Ev::SendEnd(id, r.clone()));
                r
            }
        }
    })
}

pub fn mailbox<A: Actor>(cap: Option<u8>) -> (MailboxSender<A>, MailboxReceiver<A>) {
    match cap {
        Some(c) => mailbox::bounded(c.max(1) as usize),
        None => mailbox::unbounded(),
    }
}

pub type Join = tokio::task::JoinHandle<(Sub, ActorStopReason)>;

pub fn spawn(sub: Sub, cap: Option<u8>) -> (ActorRef<Sub>, Join) {
    let p = PreparedActor::new(mailbox(cap));
    let a = p.actor_ref().clone();
    (a, p.spawn(sub))
}

// ---------------------------------------------------------------- generators

pub fn cap() -> impl Strategy<Value = Option<u8>> {
    prop_oneof![2 => Just(None), 2 => Just(Some(1)), 2 => Just(Some(2)), 1 => (3u8..9).prop_map(Some), 1 => Just(Some(64))]
}

pub fn pause() -> impl Strategy<Value = Step> {
    prop_oneof![(0u8..4).prop_map(Step::Yield), (0u8..4).prop_map(Step::Sleep)]
}

pub fn pauses(max: usize) -> impl Strategy<Value = Vec<Step>> {
    prop::collection::vec(pause(), 0..max)
}

/// longer than anything takes
fn long() -> impl Strategy<Value = u16> {
    prop_oneof![2 => Just(60_000u16), 1 => Just(FOREVER)]
}

pub fn kind() -> impl Strategy<Value = Kind> {
    prop_oneof![
        4 => Just(Kind::Tell),
        2 => Just(Kind::TellTry),
        1 => long().prop_map(Kind::TellMbox),
        2 => Just(Kind::Rec),
        1 => Just(Kind::RecTry),
        1 => long().prop_map(Kind::RecMbox),
        3 => Just(Kind::Ask),
        1 => Just(Kind::AskTry),
        1 => (long(), long()).prop_map(|(m, r)| Kind::AskTimed(m, r)),
        3 => Just(Kind::Enq),
        2 => Just(Kind::EnqTry),
        1 => long().prop_map(Kind::AskTryTimed),
        1 => (long(), long()).prop_map(|(m, r)| Kind::EnqTimed(m, r)),
        1 => long().prop_map(Kind::EnqTryTimed),
    ]
}

/// outcomes after which the actor is unharmed
pub fn mild() -> impl Strategy<Value = Out> {
    prop_oneof![8 => Just(Out::Ok), 1 => (0u8..3).prop_map(Out::Delegate), 1 => Just(Out::DropReply), 1 => (0u8..3).prop_map(Out::Early)]
}

pub fn any_out() -> impl Strategy<Value = Out> {
    prop_oneof![
        5 => mild(),
        2 => Just(Out::Err),
        1 => Just(Out::PanicStr),
        1 => Just(Out::PanicOwned),
        1 => Just(Out::PanicAny),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Item {
    pub wait: Vec<Step>,
    pub kind: Kind,
    pub steps: Vec<Step>,
    pub out: Out,
}

pub fn item(out: BoxedStrategy<Out>) -> impl Strategy<Value = Item> {
    (pauses(2), kind(), pauses(3), out).prop_map(|(wait, kind, steps, out)| Item { wait, kind, steps, out })
}

pub async fn pause_for(steps: &[Step]) {
    for s in steps {
        match s {
            Step::Yield(n) => sim::yields(*n).await,
            Step::Sleep(ms) => sim::sleep_ms(*ms as u64).await,
            _ => {}
        }
    }
}

/// message ids: sender * 1000 + index; ids >= 100_000 are sent by the actor to itself, ids >= 200_000
/// by its start hook
pub fn mid(task: usize, i: usize) -> u32 {
    (task * 1000 + i) as u32
}

/// Runs a sender's list of items as a task.
pub async fn sender(a: ActorRef<Sub>, log: Log, task: usize, items: Vec<Item>) {
    for (i, it) in items.into_iter().enumerate() {
        pause_for(&it.wait).await;
        let job = Job { id: mid(task, i), steps: it.steps, out: it.out };
        send(a.clone(), log.clone(), task as u32, it.kind, job).await;
    }
}

// ---------------------------------------------------------------- history oracles

/// One message's history.
#[derive(Clone, Debug, Default)]
pub struct Msg {
    pub start: Option<usize>,
    pub alive: bool,
    pub end: Option<(usize, Res)>,
    pub reply: Option<(usize, Res)>,
    pub begin: Vec<usize>,
    pub fin: Vec<usize>,
}

pub fn messages(log: &[Entry]) -> BTreeMap<u32, Msg> {
    let mut m: BTreeMap<u32, Msg> = BTreeMap::new();
    for (t, e) in log.iter().enumerate() {
        match &e.ev {
            Ev::SendStart(i, alive) => {
                let x = m.entry(*i).or_default();
                x.start = Some(t);
                x.alive = *alive;
            }
            Ev::SendEnd(i, r) => m.entry(*i).or_default().end = Some((t, r.clone())),
            Ev::Reply(i, r) => m.entry(*i).or_default().reply = Some((t, r.clone())),
            Ev::Begin(i) => m.entry(*i).or_default().begin.push(t),
            Ev::End(i) => m.entry(*i).or_default().fin.push(t),
            _ => {}
        }
    }
    m
}

macro_rules! check {
    ($log:expr, $cond:expr, $sig:expr, $($fmt:tt)*) => {
        if !$cond {
            return Err(Fail { sig: ($sig).to_string(), msg: format!("{}; history:{}", format!($($fmt)*), $log.show()) });
        }
    };
}
pub(crate) use check;

/// Exactly once, never when rejected, in order, one at a time. `all` demands that every accepted
/// message was handled.
pub fn delivery(log: &Log, all: bool) -> Result<BTreeMap<u32, Msg>, Fail> {
    let l = log.get();
    let m = messages(&l);
    for (id, x) in &m {
        check!(log, x.begin.len() <= 1, "duplicate", "message {id} was handled {} times", x.begin.len());
        check!(log, x.start.is_some(), "invented", "message {id} was handled but never sent");
        if let Some((_, r)) = &x.end {
            if !r.accepted() {
                check!(log, x.begin.is_empty(), "rejected-handled", "message {id} was rejected with {r:?} but handled");
            } else if all {
                check!(log, x.begin.len() == 1, "lost", "message {id} was accepted but never handled");
            }
            match r {
                Res::NotRunning(Some(j)) | Res::Full(Some(j)) => {
                    check!(log, j == id, "wrong-message-back", "message {id} failed and gave back message {j}")
                }
                Res::Timeout(Some(j)) if *j != u32::MAX => {
                    check!(log, j == id, "wrong-message-back", "message {id} failed and gave back message {j}")
                }
                Res::Val(v) => check!(log, *v == value_of(*id), "wrong-reply", "message {id} was answered with {v}"),
                Res::HErr(v) => check!(log, v == id, "wrong-reply", "message {id} was answered with error {v}"),
                _ => {}
            }
        }
        if let Some((_, r)) = &x.reply {
            match r {
                Res::Val(v) => check!(log, *v == value_of(*id), "wrong-reply", "message {id} was answered with {v}"),
                Res::HErr(v) => check!(log, v == id, "wrong-reply", "message {id} was answered with error {v}"),
                _ => {}
            }
        }
    }
    // order: accepted(a) before started(b)  =>  handled(a) before handled(b)
    let done: Vec<(&u32, &Msg)> = m.iter().filter(|(_, x)| !x.begin.is_empty()).collect();
    for (i, a) in &done {
        let Some((ea, _)) = a.end else { continue };
        for (j, b) in &done {
            // messages from the start hook go first
            let boot = **j >= 200_000 && **i < 200_000;
            if ea < b.start.unwrap() && a.begin[0] > b.begin[0] && !boot {
                check!(log, false, "order", "message {i} was accepted before {j} was sent, but handled after it");
            }
        }
    }
    overlap(log, &l)?;
    Ok(m)
}

/// Never two handlers (or hooks) of one actor in progress at once.
pub fn overlap(log: &Log, l: &[Entry]) -> Result<(), Fail> {
    let mut busy: HashMap<u32, u32> = HashMap::new();
    for e in l {
        match &e.ev {
            Ev::Begin(i) => {
                check!(log, !busy.contains_key(&e.who), "overlap", "message {i} begins while {:?} is being handled", busy.get(&e.who));
                busy.insert(e.who, *i);
            }
            Ev::Step(i) if *i != u32::MAX => {
                check!(log, busy.get(&e.who) == Some(i), "overlap", "message {i} makes progress while {:?} is being handled", busy.get(&e.who));
            }
            Ev::End(i) => {
                check!(log, busy.get(&e.who) == Some(i), "overlap", "message {i} ends while {:?} is being handled", busy.get(&e.who));
                busy.remove(&e.who);
            }
            Ev::PanicHook(_) | Ev::LinkHook(..) | Ev::StopBegin(..) => {
                busy.remove(&e.who);
            }
            _ => {}
        }
    }
    Ok(())
}

/// Lifecycle grammar of one actor's own events.
pub fn lifecycle(log: &Log, who: u32, ended: bool) -> Result<(), Fail> {
    let l = log.of(who);
    let (mut started, mut start_ok, mut stops, mut stopped) = (0, false, 0, false);
    for e in &l {
        match e {
            Ev::StartBegin => {
                started += 1;
                check!(log, started == 1, "start-twice", "actor {who} ran its start hook twice");
            }
            Ev::StartEnd(ok) => start_ok = *ok,
            Ev::Begin(i) => {
                check!(log, start_ok, "before-start", "actor {who} handled {i} before its start hook succeeded");
                check!(log, stops == 0, "after-stop", "actor {who} handled {i} after its stop hook began");
            }
            Ev::LinkHook(..) => {
                check!(log, stops == 0, "after-stop", "actor {who} ran its link hook after its stop hook began");
            }
            Ev::PanicHook(_) => {
                check!(log, stops == 0, "after-stop", "actor {who} ran its panic hook after its stop hook began");
            }
            Ev::Step(i) if *i != u32::MAX => {
                check!(log, stops == 0, "after-stop", "actor {who}: handler {i} made progress after the stop hook began");
            }
            Ev::StopBegin(..) => {
                stops += 1;
                check!(log, stops == 1, "stop-twice", "actor {who} ran its stop hook twice");
            }
            Ev::StopEnd => stopped = true,
            _ => {}
        }
    }
    if ended {
        check!(log, started == 1, "no-start", "actor {who} ended without running its start hook");
        check!(log, stopped, "no-stop", "actor {who} ended without completing its stop hook");
    }
    Ok(())
}

pub fn stop_reason(log: &Log, who: u32) -> Option<(String, u64)> {
    log.of(who).into_iter().find_map(|e| match e {
        Ev::StopBegin(r, s) => Some((r, s)),
        _ => None,
    })
}

pub fn hang(log: &Log, what: &str) -> Fail {
    Fail { sig: "hang".into(), msg: format!("{what}; history:{}", log.show()) }
}

/// Real time: waits until everything accepted has been handled and actor 0 is idle.
pub async fn at_rest(log: &Log, limit: Duration, also: impl Fn(&[Entry]) -> bool) -> bool {
    let t = std::time::Instant::now();
    let mut calm = 0;
    while t.elapsed() < limit {
        let l = log.get();
        let pending = messages(&l).values().any(|x| match &x.end {
            Some((_, r)) => r.accepted() && x.begin.is_empty(),
            None => x.start.is_some(),
        });
        let idle = l
            .iter()
            .rev()
            .find(|e| e.who == 0 && !matches!(e.ev, Ev::SendStart(..) | Ev::SendEnd(..) | Ev::Reply(..)))
            .map(|e| matches!(e.ev, Ev::End(_) | Ev::PanicHookEnd(_) | Ev::LinkHookEnd(_) | Ev::StartEnd(_)))
            .unwrap_or(false);
        calm = if !pending && idle && also(&l) { calm + 1 } else { 0 };
        if calm == 2 {
            return true;
        }
        tokio::time::sleep(Duration::from_millis(1)).await;
    }
    false
}

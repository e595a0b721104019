//! C23: actors which override the message hook and the receive hook. The log of what the receive hook returned is
//! replayed through a model, which predicts everything that happens after it.
use std::{
    any::Any,
    collections::{BTreeMap, VecDeque},
    ops::ControlFlow,
    sync::{Arc, Mutex},
    time::Duration,
};

use kameo::{
    actor::{ActorID, ActorRef, PreparedActor, WeakActorRef},
    error::{ActorStopReason, PanicError, SendError},
    mailbox::{MailboxReceiver, Signal},
    message::{BoxMessage, Context, Message},
    reply::{BoxReplySender, ReplyError},
    Actor,
};
use pbt::{boxed, ensure, fail, sim, CaseResult, Info, Session};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::lab::{desc, desc_err, mailbox, HookErr, JobErr};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Policy {
    Now,
    Defer,
    /// handle it, then everything deferred
    Flush,
    /// everything deferred, then it
    FlushFirst,
    Discard,
    HookErr,
    HookPanic,
    /// handle it, then return another error (its own is lost, if there is one)
    OtherErr,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Out {
    Ok,
    Err,
    Panic,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct Spec {
    id: u32,
    policy: Policy,
    out: Out,
    yields: u8,
}

/// Two types of message, with different replies.
#[derive(Clone, Copy, Debug)]
struct Num(Spec);
#[derive(Clone, Copy, Debug)]
struct Text(Spec);

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Inject {
    Msg { spec: Spec, text: bool, within: bool },
    Stop,
    End,
    Link { normal: bool },
    Panic,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct Item {
    pause: u8,
    ask: bool,
    text: bool,
    policy: Policy,
    out: Out,
    yields: u8,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Fin {
    Stop,
    Kill,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    cap: Option<u8>,
    prefill: u8,
    keep: bool,
    lifo: bool,
    start_yields: u8,
    senders: Vec<Vec<Item>>,
    /// (number of the call, what)
    inject: Vec<(u8, Inject)>,
    /// how many later signals overtake the one at hand, at these calls
    overtake: Vec<u8>,
    /// by which method of the receiver, at these calls
    ways: Vec<u8>,
    end: (u8, Fin),
}

#[derive(Clone, Debug, PartialEq)]
enum Sig {
    Started,
    Msg { id: u32, within: bool },
    Link(u64, String),
    Stop,
    End,
    Panic,
}

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Ret(Sig),
    Hook(u32, bool),
    Begin(u32),
    Done(u32),
    PanicHook(String),
    LinkHook(u64, String),
    Stopped(String),
}

type Log = Arc<Mutex<Vec<Ev>>>;

struct H {
    log: Log,
    keep: bool,
    lifo: bool,
    start_yields: u8,
    deferred: VecDeque<(BoxMessage<H>, ActorRef<H>, Option<BoxReplySender>)>,
    calls: usize,
    inject: BTreeMap<usize, Inject>,
    overtake: Vec<u8>,
    ways: Vec<u8>,
    stash: VecDeque<Signal<H>>,
    specs: Arc<Mutex<BTreeMap<u32, Spec>>>,
}

/// The message unboxed, and boxed again.
fn look(m: BoxMessage<H>) -> (Spec, BoxMessage<H>) {
    let any: Box<dyn Any> = m.as_any();
    match any.downcast::<Num>() {
        Ok(n) => (n.0, n),
        Err(any) => {
            let t = any.downcast::<Text>().expect("only two types of message are sent");
            (t.0, t)
        }
    }
}

impl H {
    fn push(&self, e: Ev) {
        self.log.lock().unwrap().push(e);
    }
    async fn flush(&mut self) -> Result<(), Box<dyn ReplyError>> {
        let mut res = Ok(());
        while let Some((m, a, tx)) = if self.lifo { self.deferred.pop_back() } else { self.deferred.pop_front() } {
            let r = m.handle_dyn(self, a, tx).await;
            if res.is_ok() {
                res = r;
            }
        }
        res
    }
    async fn work(&mut self, s: Spec) -> Result<u32, JobErr> {
        self.push(Ev::Begin(s.id));
        sim::yields(s.yields).await;
        self.push(Ev::Done(s.id));
        match s.out {
            Out::Ok => Ok(s.id * 3),
            Out::Err => Err(JobErr(s.id)),
            Out::Panic => panic!("{}", s.id),
        }
    }
    async fn recv(&mut self, rx: &mut MailboxReceiver<H>) -> Option<Signal<H>> {
        if let Some(s) = self.stash.pop_front() {
            return Some(s);
        }
        let way = self.ways.get((self.calls - 1) % self.ways.len().max(1)).copied().unwrap_or(0);
        let limit = way as usize / 5 + 1;
        let mut many = vec![];
        let n = match way % 5 {
            0 => return rx.recv().await,
            1 => rx.recv_many(&mut many, limit).await,
            2 => return std::future::poll_fn(|cx| rx.poll_recv(cx)).await,
            3 => std::future::poll_fn(|cx| rx.poll_recv_many(cx, &mut many, limit)).await,
            _ => {
                // given up, and tried again
                for _ in 0..limit {
                    tokio::select! {
                        biased;
                        s = rx.recv() => return s,
                        _ = sim::yields(1) => {}
                    }
                }
                return rx.recv().await;
            }
        };
        assert_eq!(n, many.len(), "the number of signals received");
        assert!(n <= limit, "more signals than the limit");
        self.stash.extend(many);
        self.stash.pop_front()
    }
}

impl Actor for H {
    type Error = HookErr;
    async fn on_start(&mut self, _: ActorRef<Self>) -> Result<(), HookErr> {
        sim::yields(self.start_yields).await;
        Ok(())
    }
    async fn on_message(&mut self, msg: BoxMessage<Self>, actor_ref: ActorRef<Self>, tx: Option<BoxReplySender>) -> Result<(), Box<dyn ReplyError>> {
        let (s, msg) = look(msg);
        self.push(Ev::Hook(s.id, tx.is_some()));
        match s.policy {
            Policy::Now => msg.handle_dyn(self, actor_ref, tx).await,
            Policy::Defer => {
                self.deferred.push_back((msg, actor_ref, tx));
                Ok(())
            }
            Policy::Flush => {
                let r = msg.handle_dyn(self, actor_ref, tx).await;
                let f = self.flush().await;
                r.and(f)
            }
            Policy::FlushFirst => {
                let f = self.flush().await;
                let r = msg.handle_dyn(self, actor_ref, tx).await;
                f.and(r)
            }
            Policy::Discard => Ok(()),
            Policy::HookErr => Err(Box::new(HookErr(s.id))),
            Policy::HookPanic => panic!("hook {}", s.id),
            Policy::OtherErr => {
                let _ = msg.handle_dyn(self, actor_ref, tx).await;
                Err(Box::new(HookErr(s.id)))
            }
        }
    }
    async fn on_panic(&mut self, _: WeakActorRef<Self>, err: PanicError) -> Result<ControlFlow<ActorStopReason>, HookErr> {
        self.push(Ev::PanicHook(desc_err(&err)));
        if self.keep {
            return Ok(ControlFlow::Continue(()));
        }
        Ok(ControlFlow::Break(ActorStopReason::Panicked(err)))
    }
    async fn on_link_died(&mut self, _: WeakActorRef<Self>, id: ActorID, reason: ActorStopReason) -> Result<ControlFlow<ActorStopReason>, HookErr> {
        self.push(Ev::LinkHook(id.sequence_id(), desc(&reason)));
        match &reason {
            ActorStopReason::Normal => Ok(ControlFlow::Continue(())),
            _ => Ok(ControlFlow::Break(ActorStopReason::LinkDied { id, reason: Box::new(reason) })),
        }
    }
    async fn on_stop(&mut self, _: WeakActorRef<Self>, reason: ActorStopReason) -> Result<(), HookErr> {
        self.push(Ev::Stopped(desc(&reason)));
        Ok(())
    }
    async fn next(&mut self, actor_ref: WeakActorRef<Self>, rx: &mut MailboxReceiver<Self>) -> Option<Signal<Self>> {
        let n = self.calls;
        self.calls += 1;
        let sig = match self.inject.get(&n).copied() {
            Some(Inject::Msg { spec, text, within }) => actor_ref.upgrade().map(|actor_ref| Signal::Message {
                message: if text { Box::new(Text(spec)) } else { Box::new(Num(spec)) },
                actor_ref,
                reply: None,
                sent_within_actor: within,
            }),
            Some(Inject::Stop) => Some(Signal::Stop),
            Some(Inject::End) => None,
            Some(Inject::Link { normal }) => Some(Signal::LinkDied { id: ActorID::new(n as u64 + 1_000_000), reason: if normal { ActorStopReason::Normal } else { ActorStopReason::Killed } }),
            Some(Inject::Panic) => {
                self.push(Ev::Ret(Sig::Panic));
                panic!("next {n}")
            }
            None => {
                let mut first = self.recv(rx).await;
                for _ in 0..self.overtake.get(n % self.overtake.len().max(1)).copied().unwrap_or(0) {
                    if let Ok(later) = rx.try_recv() {
                        self.stash.push_back(std::mem::replace(&mut first, Some(later)).unwrap());
                    }
                }
                first
            }
        };
        let sig = match sig {
            Some(Signal::Message { message, actor_ref, reply, sent_within_actor }) => {
                let (s, message) = look(message);
                self.specs.lock().unwrap().insert(s.id, s);
                self.push(Ev::Ret(Sig::Msg { id: s.id, within: sent_within_actor }));
                return Some(Signal::Message { message, actor_ref, reply, sent_within_actor });
            }
            s => s,
        };
        self.push(Ev::Ret(match &sig {
            Some(Signal::StartupFinished) => Sig::Started,
            Some(Signal::LinkDied { id, reason }) => Sig::Link(id.sequence_id(), desc(reason)),
            Some(Signal::Stop) => Sig::Stop,
            _ => Sig::End,
        }));
        sig
    }
}

impl Message<Num> for H {
    type Reply = Result<u32, JobErr>;
    async fn handle(&mut self, m: Num, _: &mut Context<Self, Self::Reply>) -> Self::Reply {
        self.work(m.0).await
    }
}

impl Message<Text> for H {
    type Reply = Result<String, JobErr>;
    async fn handle(&mut self, m: Text, _: &mut Context<Self, Self::Reply>) -> Self::Reply {
        self.work(m.0).await.map(|n| n.to_string())
    }
}

// ---------------------------------------------------------------- the model

struct Model<'a> {
    c: &'a Case,
    specs: BTreeMap<u32, Spec>,
    /// who asked
    asked: BTreeMap<u32, bool>,
    log: Vec<Ev>,
    deferred: VecDeque<u32>,
    buffer: VecDeque<u32>,
    started: bool,
    stopping: bool,
    dead: Option<String>,
    replies: BTreeMap<u32, String>,
}

impl Model<'_> {
    /// Err: what the message hook fails with
    fn handle(&mut self, id: u32) -> Result<(), (bool, String)> {
        let s = self.specs[&id];
        self.log.push(Ev::Begin(id));
        self.log.push(Ev::Done(id));
        let ask = self.asked[&id];
        match s.out {
            Out::Ok => {
                if ask {
                    self.replies.insert(id, format!("ok {}", id * 3));
                }
                Ok(())
            }
            Out::Err if ask => {
                self.replies.insert(id, format!("err {id}"));
                Ok(())
            }
            Out::Err => Err((false, format!("job:{id}"))),
            Out::Panic => {
                self.replies.insert(id, "lost".into());
                Err((true, format!("str:{id}")))
            }
        }
    }
    fn flush(&mut self) -> Result<(), (bool, String)> {
        let mut res = Ok(());
        while let Some(id) = if self.c.lifo { self.deferred.pop_back() } else { self.deferred.pop_front() } {
            match self.handle(id) {
                Err((true, p)) => return Err((true, p)),
                r if res.is_ok() => res = r,
                _ => {}
            }
        }
        res
    }
    fn hook(&mut self, id: u32) -> Result<(), (bool, String)> {
        let s = self.specs[&id];
        self.log.push(Ev::Hook(id, self.asked[&id]));
        let lost = |m: &mut Self| {
            m.replies.insert(id, "lost".into());
        };
        match s.policy {
            Policy::Now => self.handle(id),
            Policy::Defer => {
                self.deferred.push_back(id);
                Ok(())
            }
            Policy::Flush => match self.handle(id) {
                Err((true, p)) => Err((true, p)),
                r => match self.flush() {
                    Err((true, p)) => Err((true, p)),
                    f => r.and(f),
                },
            },
            Policy::FlushFirst => match self.flush() {
                Err((true, p)) => {
                    lost(self);
                    Err((true, p))
                }
                f => match self.handle(id) {
                    Err((true, p)) => Err((true, p)),
                    r => f.and(r),
                },
            },
            Policy::Discard => {
                lost(self);
                Ok(())
            }
            Policy::HookErr => {
                lost(self);
                Err((false, format!("hook:{id}")))
            }
            Policy::HookPanic => {
                lost(self);
                Err((true, format!("str:hook {id}")))
            }
            Policy::OtherErr => match self.handle(id) {
                Err((true, p)) => Err((true, p)),
                _ => Err((false, format!("hook:{id}"))),
            },
        }
    }
    fn fails(&mut self, err: String) {
        self.log.push(Ev::PanicHook(err.clone()));
        if !self.c.keep {
            self.dead = Some(format!("panicked({err})"));
        }
    }
    /// What was buffered during startup
    fn catch_up(&mut self) {
        while let Some(id) = self.buffer.pop_front() {
            if let Err((_, e)) = self.hook(id) {
                self.fails(e);
                if self.dead.is_some() {
                    return;
                }
            }
        }
    }
    fn step(&mut self, sig: &Sig) {
        self.log.push(Ev::Ret(sig.clone()));
        match sig {
            Sig::Started => {
                self.started = true;
                self.catch_up();
            }
            Sig::Msg { id, within } => {
                if !*within && !self.started {
                    self.buffer.push_back(*id);
                } else if let Err((_, e)) = self.hook(*id) {
                    self.fails(e);
                }
            }
            Sig::Link(id, reason) => {
                self.log.push(Ev::LinkHook(*id, reason.clone()));
                if reason != "normal" {
                    self.dead = Some(format!("link({id},{reason})"));
                }
            }
            Sig::Stop | Sig::End => {
                self.started = true;
                self.stopping = true;
                self.catch_up();
                if self.dead.is_none() {
                    self.dead = Some("normal".into());
                }
            }
            Sig::Panic => {
                let n = self.log.iter().filter(|e| matches!(e, Ev::Ret(_))).count() - 1;
                self.fails(format!("str:next {n}"));
            }
        }
        if let Some(r) = self.dead.clone() {
            self.log.push(Ev::Stopped(r));
        }
    }
}

// ---------------------------------------------------------------- a history

fn said<M>(r: Result<String, SendError<M, JobErr>>) -> String {
    match r {
        Ok(s) => format!("ok {s}"),
        Err(SendError::HandlerError(JobErr(n))) => format!("err {n}"),
        Err(SendError::ActorStopped) => "lost".into(),
        Err(SendError::ActorNotRunning(_)) => "not running".into(),
        Err(_) => "odd".into(),
    }
}

async fn pause(virt: bool, n: u8) {
    if !virt {
        for _ in 0..n {
            tokio::task::yield_now().await;
        }
        return;
    }
    if n < 4 {
        sim::yields(n).await
    } else {
        sim::sleep_ms(n as u64).await
    }
}

async fn body(c: &Case, virt: bool) -> CaseResult {
    let patience = if virt { Duration::from_secs(1_000_000) } else { Duration::from_secs(20) };
    let log = Log::default();
    let specs = Arc::new(Mutex::new(BTreeMap::new()));
    // (room for everything that may come before startup has finished)
    let cap = if c.prefill > 0 { c.cap.map(|_| 64) } else { c.cap };
    let p = PreparedActor::<H>::new(mailbox(cap));
    let a = p.actor_ref().clone();
    let inject: BTreeMap<usize, Inject> = c
        .inject
        .iter()
        .enumerate()
        .map(|(k, (n, i))| {
            let i = match *i {
                Inject::Msg { spec, text, within } => Inject::Msg { spec: Spec { id: 500_000 + k as u32, ..spec }, text, within },
                i => i,
            };
            (*n as usize, i)
        })
        .collect();
    let actor = H {
        log: log.clone(),
        keep: c.keep,
        lifo: c.lifo,
        start_yields: c.start_yields,
        deferred: VecDeque::new(),
        calls: 0,
        inject: inject.clone(),
        overtake: c.overtake.clone(),
        ways: c.ways.clone(),
        stash: VecDeque::new(),
        specs: specs.clone(),
    };
    async fn send(a: ActorRef<H>, id: u32, i: Item) -> Option<Option<tokio::task::JoinHandle<String>>> {
        let spec = Spec { id, policy: i.policy, out: i.out, yields: i.yields };
        if !i.ask {
            return match i.text {
                false => a.tell(Num(spec)).send().await.is_ok().then_some(None),
                true => a.tell(Text(spec)).send().await.is_ok().then_some(None),
            };
        }
        let (tx, accepted) = tokio::sync::oneshot::channel();
        let h = tokio::spawn(async move {
            match i.text {
                false => match a.ask(Num(spec)).enqueue().await {
                    Ok(p) => {
                        let _ = tx.send(());
                        said(p.await.map(|n| n.to_string()))
                    }
                    Err(_) => "refused".into(),
                },
                true => match a.ask(Text(spec)).enqueue().await {
                    Ok(p) => {
                        let _ = tx.send(());
                        said(p.await)
                    }
                    Err(_) => "refused".into(),
                },
            }
        });
        accepted.await.is_ok().then_some(Some(h))
    }
    // accepted messages, with the answers to come
    type Sent = Arc<Mutex<BTreeMap<u32, Option<tokio::task::JoinHandle<String>>>>>;
    let sent = Sent::default();
    let mut hs = vec![];
    for (t, items) in c.senders.iter().cloned().enumerate() {
        let (a, sent) = (a.clone(), sent.clone());
        let prefill = (c.prefill as usize).min(items.len()).min(10);
        let mut done = 0;
        for (k, i) in items[..prefill].iter().enumerate() {
            let id = t as u32 * 1000 + k as u32;
            if let Some(r) = send(a.clone(), id, *i).await {
                sent.lock().unwrap().insert(id, r);
            }
            done = k + 1;
        }
        hs.push(tokio::spawn(async move {
            for (k, i) in items.into_iter().enumerate().skip(done) {
                pause(virt, i.pause).await;
                let id = t as u32 * 1000 + k as u32;
                if let Some(r) = send(a.clone(), id, i).await {
                    sent.lock().unwrap().insert(id, r);
                }
            }
        }));
    }
    let join = p.spawn(actor);
    let (n, fin) = c.end;
    if fin == Fin::Kill {
        let a = a.clone();
        hs.push(tokio::spawn(async move {
            pause(virt, n).await;
            a.wait_for_startup().await;
            a.kill();
        }));
    }
    for h in hs {
        match tokio::time::timeout(patience, h).await {
            Ok(r) => r.map_err(|e| pbt::Fail { sig: "caller-panics".into(), msg: e.to_string() })?,
            Err(_) => return fail("hang", format!("a request is never accepted: {:?}", log.lock().unwrap())),
        }
    }
    // the last request: everything before has been received
    if !virt || n % 2 == 0 {
        let _ = tokio::time::timeout(patience, a.stop_gracefully()).await;
    } else {
        sim::sleep_ms(10_000).await;
    }
    let _ = a.stop_gracefully().await;
    let (actor, reason) = match tokio::time::timeout(patience, join).await {
        Ok(Ok(r)) => r,
        Ok(Err(e)) => return fail("task-dies", format!("the actor's task was torn down: {e}; {:?}", log.lock().unwrap())),
        Err(_) => return fail("hang", format!("the actor never stops: {:?}", log.lock().unwrap())),
    };
    let undelivered: Vec<u32> = actor.stash.iter().filter_map(|s| if let Signal::Message { .. } = s { Some(0) } else { None }).collect();
    drop(actor);
    let log = log.lock().unwrap().clone();
    // ------------------------------------------------ what was received
    let mut all: BTreeMap<u32, Spec> = specs.lock().unwrap().clone();
    for i in inject.values() {
        if let Inject::Msg { spec, .. } = i {
            all.insert(spec.id, *spec);
        }
    }
    let item = |id: u32| c.senders.get(id as usize / 1000).and_then(|s| s.get(id as usize % 1000));
    let asked = all.keys().map(|id| (*id, item(*id).is_some_and(|i| i.ask))).collect();
    let rets: Vec<&Sig> = log.iter().filter_map(|e| if let Ev::Ret(s) = e { Some(s) } else { None }).collect();
    let got: Vec<u32> = rets.iter().filter_map(|s| if let Sig::Msg { id, .. } = s { Some(*id) } else { None }).collect();
    for (i, id) in got.iter().enumerate() {
        ensure!(!got[..i].contains(id), "received-twice", "message {id} was received twice: {log:?}");
    }
    let reordered = c.overtake.iter().any(|n| *n > 0);
    if !reordered {
        for t in 0..c.senders.len() as u32 {
            let mine: Vec<u32> = got.iter().copied().filter(|id| *id < 500_000 && id / 1000 == t).collect();
            ensure!(mine.iter().enumerate().all(|(k, id)| *id == t * 1000 + k as u32), "received-order", "sender {t}'s messages were received as {mine:?}: {log:?}");
        }
    }
    // ------------------------------------------------ what should follow from it
    let mut m = Model { c, specs: all, asked, log: vec![], deferred: VecDeque::new(), buffer: VecDeque::new(), started: false, stopping: false, dead: None, replies: BTreeMap::new() };
    let killed = desc(&reason) == "killed";
    let signalled = rets.iter().any(|s| **s == Sig::Started) || cap.is_none_or(|n| n >= 64);
    for s in &rets {
        ensure!(m.dead.is_none(), "after-end", "{s:?} was received by an actor which has ended ({:?}): {log:?}", m.dead);
        m.step(s);
        // there may have been no room for the signal that startup has finished: then that's later, and of itself
        if !m.started && !signalled {
            if let (Some(Ev::Hook(next, _)), Some(first)) = (log.get(m.log.len()), m.buffer.front()) {
                if next == first {
                    m.started = true;
                    m.catch_up();
                    if let Some(r) = m.dead.clone() {
                        m.log.push(Ev::Stopped(r));
                    }
                }
            }
        }
    }
    if killed && m.dead.is_none() {
        ensure!(fin == Fin::Kill, "reason", "the actor was killed by nobody: {log:?}");
        let Some((Ev::Stopped(r), rest)) = log.split_last() else { return fail("no-stop-hook", format!("{log:?}")) };
        ensure!(r == "killed", "reason", "the stop hook got {r}: {log:?}");
        ensure!(m.log.len() >= rest.len() && m.log[..rest.len()] == *rest, "log", "{rest:?} happened instead of {:?}, or a beginning of it", m.log);
    } else if killed {
        let Some((Ev::Stopped(r), rest)) = log.split_last() else { return fail("no-stop-hook", format!("{log:?}")) };
        ensure!(fin == Fin::Kill && r == "killed", "reason", "the stop hook got {r} instead of {:?}: {log:?}", m.dead);
        ensure!(m.log.len() >= rest.len() && m.log[..rest.len()] == *rest, "log", "{rest:?} happened instead of {:?}, or a beginning of it", m.log);
    } else {
        let at = log.iter().zip(&m.log).position(|(a, b)| a != b).unwrap_or(log.len().min(m.log.len()));
        ensure!(log == m.log, "log", "event {at} is {:?} instead of {:?}; all: {log:?}", log.get(at), m.log.get(at));
        ensure!(Some(desc(&reason)) == m.dead, "reason", "the joined reason is {} instead of {:?}: {log:?}", desc(&reason), m.dead);
        // everything accepted before a graceful stop of a living actor is received
        let own_end = rets.iter().any(|s| matches!(s, Sig::End)) || inject.values().any(|i| matches!(i, Inject::Stop)) || desc(&reason) != "normal" || fin == Fin::Kill;
        if !own_end && undelivered.is_empty() {
            for id in sent.lock().unwrap().keys() {
                ensure!(got.contains(id), "lost", "message {id} was accepted and never received: {log:?}");
            }
        }
    }
    // ------------------------------------------------ replies
    let (mut answered, mut late) = (0, 0);
    let sent = std::mem::take(&mut *sent.lock().unwrap());
    for (id, h) in sent {
        let Some(h) = h else { continue };
        let r = match tokio::time::timeout(patience, h).await {
            Ok(Ok(r)) => r,
            Ok(Err(e)) => return fail("caller-panics", format!("the requester of {id} panicked: {e}")),
            Err(_) => return fail("unanswered", format!("the requester of {id} waits forever: {log:?}")),
        };
        answered += 1;
        late += m.specs.get(&id).is_some_and(|s| s.policy == Policy::Defer) as u32;
        let want = m.replies.get(&id).map(String::as_str).unwrap_or("lost");
        // (a killed actor's last message may not have got as far)
        ensure!(r == want || killed && r == "lost", "reply", "request {id} was answered {r:?} instead of {want:?}: {log:?}");
    }
    let hooks = log.iter().filter(|e| matches!(e, Ev::Hook(..))).count();
    Ok(Info::new(hooks > 2)
        .label(late > 0, "request deferred")
        .label(answered > 1, "requests answered")
        .label(log.iter().any(|e| matches!(e, Ev::PanicHook(_))), "message failed")
        .label(!inject.is_empty(), "signals injected")
        .label(reordered, "signals reordered")
        .label(!c.ways.is_empty(), "received in other ways")
        .label(!m.deferred.is_empty(), "stopped with deferred messages")
        .label(killed, "killed"))
}

fn sim_case(c: &Case) -> CaseResult {
    sim::run(body(c, true)).unwrap_or_else(|| fail("hang", "the system never comes to rest"))
}

fn mt_case(c: &Case) -> CaseResult {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_time().build().unwrap();
    let r = rt.block_on(body(c, false));
    rt.shutdown_background();
    r
}

fn case() -> BoxedStrategy<Case> {
    let policy = || {
        prop_oneof![
            5 => Just(Policy::Now),
            6 => Just(Policy::Defer),
            2 => Just(Policy::Flush),
            2 => Just(Policy::FlushFirst),
            1 => Just(Policy::Discard),
            1 => Just(Policy::HookErr),
            1 => Just(Policy::HookPanic),
            1 => Just(Policy::OtherErr),
        ]
    };
    let out = || prop_oneof![6 => Just(Out::Ok), 2 => Just(Out::Err), 1 => Just(Out::Panic)];
    let item = (0u8..8, any::<bool>(), any::<bool>(), policy(), out(), 0u8..3).prop_map(|(pause, ask, text, policy, out, yields)| Item { pause, ask, text, policy, out, yields });
    let msg = (policy(), out(), 0u8..3, any::<bool>(), any::<bool>())
        .prop_map(|(policy, out, yields, text, within)| Inject::Msg { spec: Spec { id: 0, policy, out, yields }, text, within });
    let inject = prop_oneof![8 => msg, 1 => Just(Inject::Stop), 1 => Just(Inject::End), 3 => prop::bool::weighted(0.8).prop_map(|normal| Inject::Link { normal }), 1 => Just(Inject::Panic)];
    let cap = prop_oneof![Just(None), (1u8..4).prop_map(Some), Just(Some(64u8))];
    (
        (cap, prop_oneof![2 => Just(0u8), 1 => 1u8..6], prop::bool::weighted(0.7), any::<bool>(), 0u8..3),
        prop::collection::vec(prop::collection::vec(item, 0..12), 1..4),
        prop_oneof![1 => Just(vec![]), 1 => prop::collection::vec((0u8..30, inject), 1..6)],
        (prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(0u8..4, 1..5)], prop_oneof![1 => Just(vec![]), 1 => prop::collection::vec(0u8..25, 1..6)]),
        (0u8..30, prop_oneof![3 => Just(Fin::Stop), 1 => Just(Fin::Kill)]),
    )
        .prop_map(|((cap, prefill, keep, lifo, start_yields), senders, inject, (overtake, ways), end)| Case { cap, prefill, keep, lifo, start_yields, senders, inject, overtake, ways, end })
        .boxed()
}

pub fn run(s: &mut Session) {
    let rule = "more than two messages went through the hook";
    s.prop("custom_hooks", rule, 60_000, 2_000_000, || boxed(case()), sim_case);
    s.prop_sharded("custom_hooks_on_threads", rule, 2_000, 60_000, 4, || boxed(case()), mt_case);
}

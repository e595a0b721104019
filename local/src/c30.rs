//! C30: blocking calls from ordinary threads, against a model of when each may return and with what; the async calls
//! are held to the same model. Several threads of calls on one actor, and threads which link and unlink.
use std::{
    collections::{BTreeMap, BTreeSet},
    ops::ControlFlow,
    sync::{
        atomic::{AtomicBool, Ordering},
        mpsc, Arc, Mutex,
    },
    time::{Duration, Instant},
};

use kameo::{
    actor::{ActorID, ActorRef, PreparedActor, Recipient, WeakActorRef},
    error::{ActorStopReason, PanicError, SendError},
    message::{Context, Message},
    reply::{DelegatedReply, ForwardedReply, ReplySender},
    Actor,
};
use pbt::{boxed, ensure, fail, CaseResult, Fail, Info, Session};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tokio::sync::Semaphore;

use crate::lab::{mailbox, HookErr, JobErr};

const PATIENCE: Duration = Duration::from_secs(25);

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Out {
    Ok,
    Err,
    Panic,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Kind {
    Tell,
    RecipientTell,
    Ask,
    Enqueue,
    Forward,
    Relay,
    Link,
    Unlink,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum St {
    Idle,
    Busy,
    NotRun,
    Starting,
    Stopping,
    InOnStop,
    Dead,
    /// busy, and what comes next is a kill
    ToBeKilled,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    cap: Option<u8>,
    state: St,
    calls: Vec<(Kind, Out)>,
    /// by threads, or by tasks
    threads: bool,
    wait_us: u16,
}

struct Act {
    start: Option<Arc<Semaphore>>,
    stop: Option<Arc<Semaphore>>,
    log: Arc<Mutex<Vec<u32>>>,
    stopping: Arc<AtomicBool>,
    yields: u8,
}

impl Actor for Act {
    type Error = HookErr;
    async fn on_start(&mut self, _: ActorRef<Self>) -> Result<(), HookErr> {
        if let Some(s) = &self.start {
            let _ = s.acquire().await;
        }
        Ok(())
    }
    async fn on_panic(&mut self, _: WeakActorRef<Self>, _: PanicError) -> Result<ControlFlow<ActorStopReason>, HookErr> {
        Ok(ControlFlow::Continue(()))
    }
    async fn on_stop(&mut self, _: WeakActorRef<Self>, _: ActorStopReason) -> Result<(), HookErr> {
        self.stopping.store(true, Ordering::SeqCst);
        if let Some(s) = &self.stop {
            let _ = s.acquire().await;
        }
        Ok(())
    }
}

#[derive(Debug)]
struct Job(u32, Out);
impl Message<Job> for Act {
    type Reply = Result<u32, JobErr>;
    async fn handle(&mut self, m: Job, _: &mut Context<Self, Self::Reply>) -> Self::Reply {
        self.log.lock().unwrap().push(m.0);
        for _ in 0..self.yields {
            tokio::task::yield_now().await;
        }
        match m.1 {
            Out::Ok => Ok(m.0 * 3),
            Out::Err => Err(JobErr(m.0)),
            Out::Panic => panic!("{}", m.0),
        }
    }
}

/// Occupies the actor.
struct Hold(Arc<Semaphore>, tokio::sync::oneshot::Sender<()>);
impl Message<Hold> for Act {
    type Reply = ();
    async fn handle(&mut self, m: Hold, _: &mut Context<Self, ()>) {
        let _ = m.1.send(());
        let _ = m.0.acquire().await;
    }
}
struct Rest;
impl Message<Rest> for Act {
    type Reply = ();
    async fn handle(&mut self, _: Rest, _: &mut Context<Self, ()>) {}
}

/// Gives its requesters' reply senders away.
struct Desk(mpsc::Sender<ReplySender<Result<u32, JobErr>>>);
impl Actor for Desk {
    type Error = HookErr;
}
struct Give;
impl Message<Give> for Desk {
    type Reply = DelegatedReply<Result<u32, JobErr>>;
    async fn handle(&mut self, _: Give, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        let (d, tx) = ctx.reply_sender();
        let _ = self.0.send(tx.unwrap());
        d
    }
}
/// Forwards, blockingly or not.
struct Relay {
    to: ActorRef<Act>,
    blocking: bool,
}
impl Actor for Relay {
    type Error = HookErr;
}
impl Message<Job> for Relay {
    type Reply = ForwardedReply<Job, Result<u32, JobErr>>;
    async fn handle(&mut self, m: Job, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        if self.blocking {
            tokio::task::block_in_place(|| ctx.blocking_forward(&self.to, m))
        } else {
            ctx.forward(&self.to, m).await
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Phase {
    Accept,
    Done,
}

fn said<M>(r: Result<u32, SendError<M, JobErr>>) -> String {
    match r {
        Ok(n) => format!("ok {n}"),
        Err(SendError::HandlerError(JobErr(n))) => format!("err {n}"),
        Err(SendError::ActorStopped) => "dead".into(),
        Err(SendError::ActorNotRunning(_)) => "refused".into(),
        Err(SendError::MailboxFull(_)) => "full".into(),
        Err(SendError::Timeout(_)) => "timeout".into(),
    }
}

fn told(id: u32, r: Result<(), SendError<Job>>) -> String {
    match r {
        Ok(()) => "ok".into(),
        Err(SendError::ActorNotRunning(m)) if m.0 == id => "refused".into(),
        Err(SendError::ActorNotRunning(m)) => format!("refused, returning {}", m.0),
        Err(SendError::MailboxFull(_)) => "full".into(),
        Err(e) => format!("{e}"),
    }
}

type Report = mpsc::Sender<(usize, Phase, String)>;

/// One call from a thread.
fn call_blocking(rt: &tokio::runtime::Handle, a: &ActorRef<Act>, other: &ActorRef<Act>, i: usize, kind: Kind, out: Out, report: &Report) {
    let id = i as u32 + 1;
    let say = |p: Phase, s: String| {
        let _ = report.send((i, p, s));
    };
    match kind {
        Kind::Tell => say(Phase::Accept, told(id, a.tell(Job(id, out)).blocking_send())),
        Kind::RecipientTell => {
            let r: Recipient<Job> = a.clone().recipient();
            say(Phase::Accept, told(id, r.tell(Job(id, out)).blocking_send()))
        }
        Kind::Ask => say(Phase::Done, said(a.ask(Job(id, out)).blocking_send())),
        Kind::Enqueue => match a.ask(Job(id, out)).blocking_enqueue() {
            Ok(p) => {
                say(Phase::Accept, "ok".into());
                say(Phase::Done, said(p.recv()));
            }
            Err(e) => say(Phase::Accept, if let SendError::ActorNotRunning(()) = e { "refused".into() } else { format!("{e}") }),
        },
        Kind::Forward => {
            let (tx, rx) = mpsc::channel();
            let desk = {
                let _g = rt.enter();
                kameo::spawn(Desk(tx))
            };
            let p = desk.ask(Give).blocking_enqueue().expect("the desk is open");
            let sender = rx.recv_timeout(PATIENCE).expect("the desk gives");
            let r = a.ask(Job(id, out)).blocking_forward(sender);
            let accepted = match &r {
                Ok(()) => "ok",
                Err(SendError::ActorNotRunning((m, _))) if m.0 == id => "refused",
                Err(_) => "odd",
            };
            // a refused call gives the sender back, and it would be answered by it
            drop(r);
            say(Phase::Accept, accepted.into());
            say(Phase::Done, said(p.recv()));
        }
        Kind::Relay => {
            let relay = {
                let _g = rt.enter();
                kameo::spawn(Relay { to: a.clone(), blocking: true })
            };
            let r = relay.ask(Job(id, out)).blocking_send();
            say(Phase::Done, relayed(r));
        }
        Kind::Link => {
            a.blocking_link(other);
            say(Phase::Accept, "ok".into());
        }
        Kind::Unlink => {
            a.blocking_unlink(other);
            say(Phase::Accept, "ok".into());
        }
    }
}

fn relayed(r: Result<u32, SendError<Job, SendError<Job, JobErr>>>) -> String {
    match r {
        Ok(n) => format!("ok {n}"),
        Err(SendError::HandlerError(e)) => said::<Job>(Err(e)),
        Err(SendError::ActorStopped) => "dead".into(),
        Err(e) => format!("outer {e:?}"),
    }
}

/// The same from a task.
async fn call_async(a: &ActorRef<Act>, other: &ActorRef<Act>, i: usize, kind: Kind, out: Out, report: &Report) {
    let id = i as u32 + 1;
    let say = |p: Phase, s: String| {
        let _ = report.send((i, p, s));
    };
    match kind {
        Kind::Tell => say(Phase::Accept, told(id, a.tell(Job(id, out)).send().await)),
        Kind::RecipientTell => {
            let r: Recipient<Job> = a.clone().recipient();
            say(Phase::Accept, told(id, r.tell(Job(id, out)).send().await))
        }
        Kind::Ask => say(Phase::Done, said(a.ask(Job(id, out)).send().await)),
        Kind::Enqueue => match a.ask(Job(id, out)).enqueue().await {
            Ok(p) => {
                say(Phase::Accept, "ok".into());
                say(Phase::Done, said(p.await));
            }
            Err(e) => say(Phase::Accept, if let SendError::ActorNotRunning(()) = e { "refused".into() } else { format!("{e}") }),
        },
        Kind::Forward => {
            let (tx, rx) = mpsc::channel();
            let desk = kameo::spawn(Desk(tx));
            let p = desk.ask(Give).enqueue().await.expect("the desk is open");
            let _ = desk.tell(Give2).await;
            let sender = tokio::task::spawn_blocking(move || rx.recv_timeout(PATIENCE)).await.unwrap().expect("the desk gives");
            let r = a.ask(Job(id, out)).forward(sender).await;
            let accepted = match &r {
                Ok(()) => "ok",
                Err(SendError::ActorNotRunning((m, _))) if m.0 == id => "refused",
                Err(_) => "odd",
            };
            // a refused call gives the sender back, and it would be answered by it
            drop(r);
            say(Phase::Accept, accepted.into());
            say(Phase::Done, said(p.await));
        }
        Kind::Relay => {
            let relay = kameo::spawn(Relay { to: a.clone(), blocking: false });
            let r = relay.ask(Job(id, out)).send().await;
            say(Phase::Done, relayed(r));
        }
        Kind::Link => {
            a.link(other).await;
            say(Phase::Accept, "ok".into());
        }
        Kind::Unlink => {
            a.unlink(other).await;
            say(Phase::Accept, "ok".into());
        }
    }
}
struct Give2;
impl Message<Give2> for Desk {
    type Reply = ();
    async fn handle(&mut self, _: Give2, _: &mut Context<Self, ()>) {}
}

/// What a call does: for each phase, whether it comes before the door is opened, and the possible values.
type Expect = BTreeMap<u8, (bool, Vec<String>)>;

fn expect(c: &Case) -> Vec<Expect> {
    let mut used = match c.state {
        St::Stopping => 1,
        _ => 0,
    };
    let mut all = vec![];
    for (i, (kind, out)) in c.calls.iter().enumerate() {
        let id = i as u32 + 1;
        let mut e = Expect::new();
        let outcome = match out {
            Out::Ok => format!("ok {}", id * 3),
            Out::Err => format!("err {id}"),
            Out::Panic => "dead".into(),
        };
        let refused_done = if *kind == Kind::Forward { "dead" } else { "refused" };
        let (has_accept, has_done) = match kind {
            Kind::Tell | Kind::RecipientTell => (true, false),
            Kind::Ask | Kind::Relay => (false, true),
            Kind::Enqueue | Kind::Forward => (true, true),
            Kind::Link | Kind::Unlink => {
                e.insert(0, (true, vec!["ok".into()]));
                all.push(e);
                continue;
            }
        };
        let (accept, done) = match c.state {
            St::Idle => ((true, vec!["ok".to_string()]), (true, vec![outcome])),
            St::Dead => ((true, vec!["refused".to_string()]), (true, vec![refused_done.to_string()])),
            st => {
                let room = c.cap.is_none_or(|n| used < n.max(1));
                used += room as u8;
                let dying = matches!(st, St::Stopping | St::InOnStop | St::ToBeKilled);
                match (room, dying) {
                    (_, false) => ((room, vec!["ok".to_string()]), (false, vec![outcome])),
                    // (not seen to be sent: maybe not before it dies)
                    (true, true) if !has_accept => ((true, vec![]), (false, vec!["dead".to_string(), "refused".into()])),
                    (true, true) => ((true, vec!["ok".to_string()]), (false, vec!["dead".to_string()])),
                    (false, true) => ((false, vec!["ok".into(), "refused".into()]), (false, vec!["dead".into(), refused_done.to_string()])),
                }
            }
        };
        if has_accept {
            e.insert(0, accept);
        }
        // (a refused enqueue has no second outcome)
        if has_done && !(c.state == St::Dead && *kind == Kind::Enqueue) {
            e.insert(1, done);
        }
        all.push(e);
    }
    all
}

fn state_case(c: &Case) -> CaseResult {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_time().build().unwrap();
    let r = in_state(c, &rt);
    rt.shutdown_background();
    r
}

fn in_state(c: &Case, rt: &tokio::runtime::Runtime) -> CaseResult {
    // an ask or a relayed request isn't seen to be accepted, so whoever comes after it can't tell if there's room
    let mut c = c.clone();
    if c.cap.is_some() && !matches!(c.state, St::Idle | St::Dead) {
        c.calls.sort_by_key(|(k, _)| matches!(k, Kind::Ask | Kind::Relay));
    }
    let c = &c;
    let gate = Arc::new(Semaphore::new(0));
    let log = Arc::new(Mutex::new(vec![]));
    let stopping = Arc::new(AtomicBool::new(false));
    let act = Act {
        start: (c.state == St::Starting).then(|| gate.clone()),
        stop: (c.state == St::InOnStop).then(|| gate.clone()),
        log: log.clone(),
        stopping: stopping.clone(),
        yields: 1,
    };
    let _g = rt.enter();
    let p = PreparedActor::<Act>::new(mailbox(c.cap));
    let a = p.actor_ref().clone();
    let other = kameo::spawn(Act { start: None, stop: None, log: Default::default(), stopping: Default::default(), yields: 0 });
    let mut p = Some((p, act));
    if c.state != St::NotRun {
        let (p, act) = p.take().unwrap();
        p.spawn(act);
    }
    if !matches!(c.state, St::NotRun | St::Starting) {
        rt.block_on(a.wait_for_startup());
        rt.block_on(async { a.ask(Rest).await }).expect("it runs");
    }
    match c.state {
        St::Busy | St::Stopping | St::ToBeKilled => {
            let (tx, begun) = tokio::sync::oneshot::channel();
            let held = gate.clone();
            rt.block_on(async { a.tell(Hold(held, tx)).await }).expect("it runs");
            rt.block_on(begun).expect("it runs");
            if c.state == St::Stopping {
                rt.block_on(a.stop_gracefully()).expect("it runs");
            }
        }
        St::InOnStop => {
            rt.block_on(a.stop_gracefully()).expect("it runs");
            let t = Instant::now();
            while !stopping.load(Ordering::SeqCst) {
                ensure!(t.elapsed() < PATIENCE, "hang", "the stop hook isn't called");
                std::thread::yield_now();
            }
        }
        St::Dead => {
            a.kill();
            rt.block_on(a.wait_for_shutdown());
            // (the mailbox is closed after that)
            let t = Instant::now();
            while a.is_alive() {
                ensure!(t.elapsed() < PATIENCE, "hang", "it never dies");
                std::thread::yield_now();
            }
        }
        _ => {}
    }
    let want = expect(c);
    let (report, reports) = mpsc::channel();
    let mut got: BTreeMap<(usize, u8), String> = BTreeMap::new();
    fn next(got: &mut BTreeMap<(usize, u8), String>, reports: &mpsc::Receiver<(usize, Phase, String)>, wait: Duration) -> Result<bool, Fail> {
        match reports.recv_timeout(wait) {
            Ok((i, p, s)) => {
                let k = (i, (p == Phase::Done) as u8);
                ensure!(got.insert(k, s).is_none(), "answered-twice", "call {i} has two outcomes");
                Ok(true)
            }
            Err(_) => Ok(false),
        }
    }
    // each call in a thread of its own, one after another as far as they needn't wait
    for (i, (kind, out)) in c.calls.iter().copied().enumerate() {
        let (a, other, report, h) = (a.clone(), other.clone(), report.clone(), rt.handle().clone());
        if c.threads {
            std::thread::spawn(move || call_blocking(&h, &a, &other, i, kind, out, &report));
        } else {
            rt.spawn(async move { call_async(&a, &other, i, kind, out, &report).await });
        }
        let t = Instant::now();
        for (ph, (now, _)) in &want[i] {
            while *now && !got.contains_key(&(i, *ph)) {
                ensure!(t.elapsed() < PATIENCE, "blocked", "call {i} ({kind:?}) has nothing to wait for, but doesn't return");
                next(&mut got, &reports, Duration::from_millis(100))?;
            }
        }
        if want[i].values().any(|(now, _)| !now) {
            std::thread::sleep(Duration::from_micros(c.wait_us as u64));
        }
    }
    while next(&mut got, &reports, Duration::ZERO)? {}
    for (k, v) in &got {
        let (now, vals) = &want[k.0][&k.1];
        ensure!(*now, "too-early", "call {} ({:?}) returns {v:?} while the actor is {:?}", k.0, c.calls[k.0].0, c.state);
        ensure!(vals.contains(v), "outcome", "call {} ({:?}) returns {v:?} instead of {vals:?}", k.0, c.calls[k.0].0);
    }
    // the door opens
    match c.state {
        St::NotRun => {
            let (p, act) = p.take().unwrap();
            p.spawn(act);
        }
        St::ToBeKilled => a.kill(),
        _ => gate.add_permits(1000),
    }
    let t = Instant::now();
    let total: usize = want.iter().zip(&c.calls).map(|(e, _)| e.len()).sum();
    // (a refused enqueue has no second outcome)
    let missing = |got: &BTreeMap<(usize, u8), String>| -> Vec<usize> {
        (0..want.len()).filter(|i| want[*i].keys().any(|p| !got.contains_key(&(*i, *p)) && !(*p == 1 && c.calls[*i].0 == Kind::Enqueue && got.get(&(*i, 0)).is_some_and(|s| s == "refused")))).collect()
    };
    while !missing(&got).is_empty() {
        if t.elapsed() > PATIENCE {
            return fail("hang", format!("calls {:?} never return; the others: {got:?}", missing(&got).iter().map(|i| (i, c.calls[*i].0)).collect::<Vec<_>>()));
        }
        next(&mut got, &reports, Duration::from_millis(100))?;
    }
    for (k, v) in &got {
        let (_, vals) = &want[k.0][&k.1];
        ensure!(vals.contains(v), "outcome", "call {} ({:?}) returns {v:?} instead of {vals:?}, the actor was {:?}", k.0, c.calls[k.0].0, c.state);
    }
    // what has been handled
    let log_now = || log.lock().unwrap().clone();
    if matches!(c.state, St::Idle | St::Busy | St::NotRun | St::Starting) {
        let _ = rt.block_on(async { a.ask(Rest).await });
        let l = log_now();
        let mine: BTreeSet<u32> = c.calls.iter().enumerate().filter(|(_, (k, _))| !matches!(k, Kind::Link | Kind::Unlink)).map(|(i, _)| i as u32 + 1).collect();
        ensure!(l.len() == mine.len() && l.iter().copied().collect::<BTreeSet<_>>() == mine, "handled", "{l:?} were handled instead of {mine:?}");
        // those which were accepted at once, in order
        let first: Vec<u32> = (0..want.len()).filter(|i| want[*i].get(&0).is_some_and(|(now, _)| *now)).map(|i| i as u32 + 1).filter(|i| mine.contains(i)).collect();
        let seen: Vec<u32> = l.iter().copied().filter(|i| first.contains(i)).collect();
        ensure!(seen == first, "order", "{l:?} were handled; {first:?} were sent one after another");
    } else {
        let l = log_now();
        ensure!(l.is_empty(), "handled", "{l:?} were handled by an actor which was {:?}", c.state);
    }
    let waits = want.iter().any(|e| e.values().any(|(now, _)| !now));
    Ok(Info::new(total > 1)
        .label(c.threads, "threads")
        .label(waits, "a call waits")
        .label(want.iter().any(|e| e.get(&0).is_some_and(|(now, _)| !now)), "a call waits for room")
        .label(matches!(c.state, St::Stopping | St::InOnStop | St::ToBeKilled), "the actor is dying")
        .label(c.state == St::Dead, "dead"))
}

// ---------------------------------------------------------------- several threads

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Many {
    cap: Option<u8>,
    yields: u8,
    threads: Vec<Vec<(Kind, Out)>>,
    /// after so many messages, it's ended
    end: Option<(u8, bool)>,
}

fn many_case(c: &Many) -> CaseResult {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_time().build().unwrap();
    let r = many(c, &rt);
    rt.shutdown_background();
    r
}

fn many(c: &Many, rt: &tokio::runtime::Runtime) -> CaseResult {
    let log = Arc::new(Mutex::new(vec![]));
    let act = |log| Act { start: None, stop: None, log, stopping: Default::default(), yields: c.yields };
    let _g = rt.enter();
    let a = kameo::actor::spawn_with_mailbox(act(log.clone()), mailbox(c.cap));
    let other = kameo::spawn(act(Default::default()));
    let (report, reports) = mpsc::channel();
    let n = c.threads.len();
    for (t, calls) in c.threads.iter().cloned().enumerate() {
        let (a, other, report, h) = (a.clone(), other.clone(), report.clone(), rt.handle().clone());
        std::thread::spawn(move || {
            for (k, (kind, out)) in calls.into_iter().enumerate() {
                // (a request enqueued is awaited before the next: that's what this function does)
                call_blocking(&h, &a, &other, t * 100 + k, kind, out, &report);
            }
            let _ = report.send((usize::MAX, Phase::Done, String::new()));
        });
    }
    if let Some((after, kill)) = c.end {
        let (a, log) = (a.clone(), log.clone());
        std::thread::spawn(move || {
            let t = Instant::now();
            while log.lock().unwrap().len() < after as usize && t.elapsed() < Duration::from_millis(20) {
                std::thread::yield_now();
            }
            if kill {
                a.kill();
            } else {
                let _ = futures::executor::block_on(a.stop_gracefully());
            }
        });
    }
    let mut got: BTreeMap<(usize, u8), String> = BTreeMap::new();
    let mut done = 0;
    while done < n {
        match reports.recv_timeout(PATIENCE) {
            Ok((usize::MAX, ..)) => done += 1,
            Ok((i, p, s)) => {
                got.insert((i, (p == Phase::Done) as u8), s);
            }
            Err(_) => return fail("hang", format!("{} threads never finish: {got:?}, handled {:?}", n - done, log.lock().unwrap())),
        }
    }
    if c.end.is_none() {
        let _ = rt.block_on(async { a.ask(Rest).await });
    } else {
        rt.block_on(a.wait_for_shutdown());
    }
    let l = log.lock().unwrap().clone();
    ensure!(l.iter().collect::<BTreeSet<_>>().len() == l.len(), "handled-twice", "{l:?}");
    let mut refused = false;
    for (t, calls) in c.threads.iter().enumerate() {
        let mine: Vec<u32> = l.iter().copied().filter(|id| (*id as usize - 1) / 100 == t).collect();
        ensure!(mine.windows(2).all(|w| w[0] < w[1]), "order", "thread {t}'s messages were handled as {mine:?}");
        for (k, (kind, out)) in calls.iter().enumerate() {
            let id = (t * 100 + k) as u32 + 1;
            let handled = mine.contains(&id);
            let get = |p| got.get(&(t * 100 + k, p)).map(String::as_str);
            if matches!(kind, Kind::Link | Kind::Unlink) {
                continue;
            }
            let want = match out {
                Out::Ok => format!("ok {}", id * 3),
                Out::Err => format!("err {id}"),
                Out::Panic => "dead".into(),
            };
            refused |= get(0) == Some("refused") || get(1) == Some("refused");
            if c.end.is_none() {
                ensure!(handled, "lost", "{kind:?} {id} was never handled; {got:?}");
                ensure!(get(0).is_none_or(|s| s == "ok"), "outcome", "{kind:?} {id} returned {:?}", get(0));
                ensure!(get(1).is_none_or(|s| s == want), "outcome", "{kind:?} {id} was answered {:?} instead of {want:?}", get(1));
            } else {
                ensure!(get(0).is_none_or(|s| s == "ok" || s == "refused"), "outcome", "{kind:?} {id} returned {:?}", get(0));
                ensure!(!(handled && get(0) == Some("refused")), "outcome", "{kind:?} {id} was refused and handled");
                if let Some(s) = get(1) {
                    // (killed while handling it)
                    let fits = if handled { s == want || s == "dead" } else { s == "dead" || s == "refused" };
                    ensure!(fits, "outcome", "{kind:?} {id} was answered {s:?} (handled: {handled})");
                }
            }
        }
    }
    Ok(Info::new(n > 1 && l.len() > 2).label(c.cap.is_some(), "bounded").label(refused, "refused").label(c.end.is_some(), "ended meanwhile"))
}

// ---------------------------------------------------------------- links

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Links {
    actors: u8,
    /// each thread owns the pairs it links; (pair, link or unlink, from the other side)
    threads: Vec<Vec<(u8, bool, bool)>>,
    /// which of the threads are tasks, using the async form
    tasks: u8,
    dies: u8,
}

struct Node {
    deaths: Arc<Mutex<Vec<(ActorID, ActorID)>>>,
    me: Option<ActorID>,
}
impl Actor for Node {
    type Error = HookErr;
    async fn on_start(&mut self, a: ActorRef<Self>) -> Result<(), HookErr> {
        self.me = Some(a.id());
        Ok(())
    }
    async fn on_link_died(&mut self, _: WeakActorRef<Self>, id: ActorID, _: ActorStopReason) -> Result<ControlFlow<ActorStopReason>, HookErr> {
        self.deaths.lock().unwrap().push((self.me.unwrap(), id));
        Ok(ControlFlow::Continue(()))
    }
}
impl Message<Rest> for Node {
    type Reply = ();
    async fn handle(&mut self, _: Rest, _: &mut Context<Self, ()>) {}
}

fn links_case(c: &Links) -> CaseResult {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_time().build().unwrap();
    let r = links(c, &rt);
    rt.shutdown_background();
    r
}

fn links(c: &Links, rt: &tokio::runtime::Runtime) -> CaseResult {
    let _g = rt.enter();
    let deaths = Arc::new(Mutex::new(vec![]));
    let n = c.actors.max(2) as usize;
    let nodes: Vec<ActorRef<Node>> = (0..n).map(|_| kameo::actor::spawn_with_mailbox(Node { deaths: deaths.clone(), me: None }, mailbox(None))).collect();
    let pairs: Vec<(usize, usize)> = (0..n).flat_map(|i| (i + 1..n).map(move |j| (i, j))).collect();
    let t_n = c.threads.len();
    let mut linked: BTreeMap<(usize, usize), bool> = BTreeMap::new();
    let (tx, rx) = mpsc::channel();
    for (t, ops) in c.threads.iter().enumerate() {
        let mine: Vec<(usize, usize)> = pairs.iter().copied().enumerate().filter(|(i, _)| i % t_n == t).map(|(_, p)| p).collect();
        let mut todo = vec![];
        if !mine.is_empty() {
            for (p, link, swap) in ops {
                let (i, j) = mine[*p as usize % mine.len()];
                linked.insert((i, j), *link);
                todo.push(if *swap { (j, i, *link) } else { (i, j, *link) });
            }
        }
        let (nodes, tx) = (nodes.clone(), tx.clone());
        if c.tasks >> t & 1 == 1 {
            rt.spawn(async move {
                for (i, j, link) in todo {
                    if link {
                        nodes[i].link(&nodes[j]).await
                    } else {
                        nodes[i].unlink(&nodes[j]).await
                    }
                }
                let _ = tx.send(());
            });
        } else {
            std::thread::spawn(move || {
                for (i, j, link) in todo {
                    if link {
                        nodes[i].blocking_link(&nodes[j])
                    } else {
                        nodes[i].blocking_unlink(&nodes[j])
                    }
                }
                let _ = tx.send(());
            });
        }
    }
    for _ in 0..t_n {
        if rx.recv_timeout(PATIENCE).is_err() {
            return fail("deadlock", "threads which link and unlink wait for each other");
        }
    }
    // one of them dies: those linked with it hear of it
    let d = c.dies as usize % n;
    nodes[d].kill();
    rt.block_on(nodes[d].wait_for_shutdown());
    for (i, node) in nodes.iter().enumerate() {
        if i != d {
            rt.block_on(async { node.ask(Rest).await }).map_err(|e| Fail { sig: "bystander".into(), msg: e.to_string() })?;
        }
    }
    let mut want: Vec<(ActorID, ActorID)> = linked.iter().filter(|((i, j), l)| **l && (*i == d || *j == d)).map(|((i, j), _)| (nodes[if *i == d { *j } else { *i }].id(), nodes[d].id())).collect();
    want.sort_by_key(|(a, _)| a.sequence_id());
    let mut got = deaths.lock().unwrap().clone();
    got.sort_by_key(|(a, _)| a.sequence_id());
    ensure!(got == want, "links", "{got:?} heard of the death instead of {want:?}");
    let back = linked.values().any(|l| !l);
    Ok(Info::new(!want.is_empty()).label(back, "unlinked").label(t_n > 1, "several threads"))
}

fn kind() -> impl Strategy<Value = Kind> {
    prop_oneof![
        3 => Just(Kind::Tell),
        1 => Just(Kind::RecipientTell),
        3 => Just(Kind::Ask),
        3 => Just(Kind::Enqueue),
        2 => Just(Kind::Forward),
        2 => Just(Kind::Relay),
        1 => Just(Kind::Link),
        1 => Just(Kind::Unlink),
    ]
}
fn out() -> impl Strategy<Value = Out> {
    prop_oneof![5 => Just(Out::Ok), 1 => Just(Out::Err), 1 => Just(Out::Panic)]
}

pub fn run(s: &mut Session) {
    let caps = || prop_oneof![1 => Just(None), 3 => (1u8..4).prop_map(Some)];
    let state = || {
        let st = prop_oneof![
            1 => Just(St::Idle),
            3 => Just(St::Busy),
            2 => Just(St::NotRun),
            2 => Just(St::Starting),
            1 => Just(St::Stopping),
            1 => Just(St::InOnStop),
            1 => Just(St::Dead),
            1 => Just(St::ToBeKilled),
        ];
        (caps(), st, prop::collection::vec((kind(), out()), 1..6), prop::bool::weighted(0.7), 0u16..1500)
            .prop_map(|(cap, state, calls, threads, wait_us)| Case { cap, state, calls, threads, wait_us })
    };
    s.prop("calls_in_every_state", "more than one outcome", 6_000, 200_000, || boxed(state()), state_case);
    let many = || {
        (caps(), 0u8..4, prop::collection::vec(prop::collection::vec((kind(), out()), 1..12), 1..5), prop::option::weighted(0.3, (0u8..20, any::<bool>())))
            .prop_map(|(cap, yields, threads, end)| Many { cap, yields, threads, end })
    };
    s.prop_sharded("threads_of_calls", "several threads, more than two messages handled", 2_000, 100_000, 4, || boxed(many()), many_case);
    let links = || {
        (2u8..6, prop::collection::vec(prop::collection::vec((0u8..8, prop::bool::weighted(0.7), any::<bool>()), 0..40), 1..5), 0u8..16, 0u8..6)
            .prop_map(|(actors, threads, tasks, dies)| Links { actors, threads, tasks, dies })
    };
    s.prop_sharded("links_by_threads", "the actor which dies is linked", 4_000, 150_000, 4, || boxed(links()), links_case);
}

//! C19: actor pools. Generated dispatches, broadcasts and worker deaths against counting and load oracles.
use std::{
    collections::{BTreeMap, BTreeSet},
    ops::ControlFlow,
    sync::{Arc, Mutex},
    time::Duration,
};

use futures::FutureExt;
use kameo::{
    actor::{spawn_with_mailbox, ActorRef, WeakActorRef},
    error::{ActorStopReason, Infallible, PanicError, SendError},
    message::{Context, Message},
    reply::DelegatedReply,
    Actor,
};
use kameo_actors::pool::{ActorPool, Broadcast, Dispatch};
use pbt::{boxed, ensure, fail, sim, CaseResult, Info, Session};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::lab::mailbox;

/// Operations start at distinct phases of this period, so that none coincides with the end of another.
const PERIOD: u64 = 64;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Out {
    Ok,
    Err,
    Panic,
    KillSelf,
    StopSelf,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum What {
    /// kind: fallible, infallible or delegated reply
    Dispatch { ask: bool, kind: u8, out: Out, timeout: Option<u8> },
    Broadcast { ask: bool, out: Out },
    Kill { which: u8, graceful: bool },
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct Op {
    at: u8,
    dur: u8,
    what: What,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    size: u8,
    cap: Option<u8>,
    pool_cap: Option<u8>,
    /// sync, async, async with a delay
    factory: u8,
    /// workers survive panics
    keep: bool,
    ops: Vec<Op>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ev {
    Made,
    Begin(u32),
    End(u32),
    Dead,
}

#[derive(Clone)]
struct Log {
    list: Arc<Mutex<Vec<(u64, usize, Ev)>>>,
    t0: tokio::time::Instant,
}

impl Log {
    fn now(&self) -> u64 {
        self.t0.elapsed().as_millis() as u64 / sim::scale()
    }
    fn push(&self, who: usize, ev: Ev) {
        let at = self.now();
        self.list.lock().unwrap().push((at, who, ev));
    }
    fn get(&self) -> Vec<(u64, usize, Ev)> {
        self.list.lock().unwrap().clone()
    }
}

struct W {
    no: usize,
    log: Log,
    keep: bool,
    virt: bool,
}

impl Actor for W {
    type Error = Infallible;
    async fn on_panic(&mut self, _: WeakActorRef<Self>, err: PanicError) -> Result<ControlFlow<ActorStopReason>, Infallible> {
        if self.keep {
            return Ok(ControlFlow::Continue(()));
        }
        Ok(ControlFlow::Break(ActorStopReason::Panicked(err)))
    }
}

impl Drop for W {
    fn drop(&mut self) {
        self.log.push(self.no, Ev::Dead);
    }
}

async fn nap(virt: bool, t: u64) {
    if virt {
        sim::sleep_ms(t).await
    } else if t > 0 {
        tokio::time::sleep(Duration::from_micros(t * 3)).await
    }
}

impl W {
    async fn work(&mut self, id: u32, t: u64, out: Out, me: ActorRef<W>) -> Result<u64, String> {
        self.log.push(self.no, Ev::Begin(id));
        nap(self.virt, t).await;
        match out {
            Out::KillSelf => {
                me.kill();
                tokio::task::yield_now().await;
            }
            Out::StopSelf => {
                let _ = tokio::spawn(async move { me.stop_gracefully().await });
            }
            _ => {}
        }
        self.log.push(self.no, Ev::End(id));
        match out {
            Out::Err => Err(format!("{id}@{}", self.no)),
            Out::Panic => panic!("worker"),
            _ => Ok((id as u64) << 16 | self.no as u64),
        }
    }
}

/// A message with a fallible, an infallible and a delegated reply.
#[derive(Clone, Copy, Debug)]
struct Job<const K: u8> {
    id: u32,
    t: u64,
    out: Out,
}

impl Message<Job<0>> for W {
    type Reply = Result<u64, String>;
    async fn handle(&mut self, m: Job<0>, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        self.work(m.id, m.t, m.out, ctx.actor_ref()).await
    }
}

impl Message<Job<1>> for W {
    type Reply = u64;
    async fn handle(&mut self, m: Job<1>, ctx: &mut Context<Self, u64>) -> u64 {
        self.work(m.id, m.t, m.out, ctx.actor_ref()).await.unwrap_or(0)
    }
}

impl Message<Job<2>> for W {
    type Reply = DelegatedReply<Result<u64, String>>;
    async fn handle(&mut self, m: Job<2>, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        let (d, tx) = ctx.reply_sender();
        let r = self.work(m.id, m.t, m.out, ctx.actor_ref()).await;
        if let Some(tx) = tx {
            tokio::spawn(async move {
                tokio::task::yield_now().await;
                tx.send(r)
            });
        }
        d
    }
}

/// What became of a dispatch.
#[derive(Clone, Debug, PartialEq)]
enum Res {
    Told,
    Val(u64),
    Err(String),
    Stopped,
    NotRunning(u32),
    Timeout,
    Odd(String),
    Cast(Vec<Result<(), Option<u32>>>),
}

fn res<M, E: std::fmt::Debug>(r: Result<u64, SendError<M, E>>, id: fn(M) -> u32, e: fn(E) -> String) -> Res {
    match r {
        Ok(v) => Res::Val(v),
        Err(SendError::HandlerError(x)) => Res::Err(e(x)),
        Err(SendError::ActorStopped) => Res::Stopped,
        Err(SendError::ActorNotRunning(m)) => Res::NotRunning(id(m)),
        Err(SendError::Timeout(None)) => Res::Timeout,
        Err(SendError::Timeout(Some(_))) => Res::Odd("mailbox timeout".into()),
        Err(SendError::MailboxFull(_)) => Res::Odd("mailbox full".into()),
    }
}

type Pool = ActorRef<ActorPool<W>>;

async fn dispatch(p: &Pool, i: usize, op: Op, virt: bool) -> Res {
    let t = op.dur as u64 * PERIOD;
    let (id, dl) = (i as u32, |x: u8| if virt { sim::ms(x as u64 * PERIOD + 1) } else { Duration::from_micros(x as u64 * PERIOD * 3) });
    match op.what {
        What::Dispatch { ask, kind, out, timeout } => {
            macro_rules! go {
                ($k:literal, $e:expr) => {{
                    let m = Dispatch(Job::<$k> { id, t, out });
                    match (ask, timeout) {
                        (false, _) => match p.tell(m).send().await {
                            Ok(()) => Res::Told,
                            Err(e) => Res::Odd(format!("tell: {e:?}")),
                        },
                        (true, None) => res(p.ask(m).send().await, |m| m.0.id, $e),
                        (true, Some(x)) => res(p.ask(m).reply_timeout(dl(x)).send().await, |m| m.0.id, $e),
                    }
                }};
            }
            match kind % 3 {
                0 => go!(0, |e| e),
                1 => go!(1, |e| format!("{e:?}")),
                _ => go!(2, |e| e),
            }
        }
        What::Broadcast { ask, out } => {
            let m = Broadcast(Job::<0> { id, t, out });
            if !ask {
                return match p.tell(m).send().await {
                    Ok(()) => Res::Told,
                    Err(e) => Res::Odd(format!("tell: {e:?}")),
                };
            }
            match p.ask(m).send().await {
                Ok(v) => Res::Cast(
                    v.into_iter()
                        .map(|r| match r {
                            Ok(()) => Ok(()),
                            Err(SendError::ActorNotRunning(m)) => Err(Some(m.id)),
                            Err(_) => Err(None),
                        })
                        .collect(),
                ),
                Err(e) => Res::Odd(format!("{e:?}")),
            }
        }
        What::Kill { .. } => unreachable!(),
    }
}

async fn body(c: &Case, virt: bool) -> CaseResult {
    let patience = if virt { Duration::from_secs(5_000_000) } else { Duration::from_secs(20) };
    let log = Log { list: Default::default(), t0: tokio::time::Instant::now() };
    let made: Arc<Mutex<Vec<WeakActorRef<W>>>> = Default::default();
    let size = c.size as usize;
    let make = {
        let (log, made, cap, keep) = (log.clone(), made.clone(), c.cap, c.keep);
        move || {
            let mut made = made.lock().unwrap();
            let no = made.len();
            log.push(no, Ev::Made);
            let a = spawn_with_mailbox(W { no, log: log.clone(), keep, virt }, mailbox(cap));
            made.push(a.downgrade());
            a
        }
    };
    let pool = match c.factory % 3 {
        0 => ActorPool::new(size, make),
        f => {
            ActorPool::new_async(size, move || {
                let a = make();
                async move {
                    if f == 2 {
                        nap(virt, 5).await;
                    }
                    a
                }
            })
            .await
        }
    };
    ensure!(made.lock().unwrap().len() == size, "size", "a pool of {size} made {} workers", made.lock().unwrap().len());
    let pool = spawn_with_mailbox(pool, mailbox(c.pool_cap));
    pool.wait_for_startup().await;
    let start = log.now();
    let mut hs = vec![];
    for (i, op) in c.ops.iter().cloned().enumerate() {
        let (pool, made, log) = (pool.clone(), made.clone(), log.clone());
        let at = (op.at as u64 + 1) * PERIOD + i as u64 + 1;
        hs.push(tokio::spawn(async move {
            nap(virt, at).await;
            match op.what {
                What::Kill { which, graceful } => {
                    let live: Vec<_> = made.lock().unwrap().iter().filter_map(|w| w.upgrade()).filter(|w| w.is_alive()).collect();
                    if let Some(w) = live.get(which as usize % live.len().max(1)) {
                        if graceful {
                            let _ = w.stop_gracefully().await;
                        } else {
                            w.kill();
                        }
                    }
                    (log.now(), None)
                }
                _ => {
                    let t = log.now();
                    let r = std::panic::AssertUnwindSafe(dispatch(&pool, i, op, virt)).catch_unwind().await;
                    (t, Some(r.unwrap_or(Res::Odd("the caller panicked".into()))))
                }
            }
        }));
    }
    let mut results = vec![];
    for (i, h) in hs.into_iter().enumerate() {
        match tokio::time::timeout(patience, h).await {
            Ok(Ok(r)) => results.push(r),
            Ok(Err(e)) => return fail("caller-panics", format!("operation {i} panicked: {e}")),
            Err(_) => return fail("hang", format!("operation {i} never completes: {:?}\n{:?}", c.ops[i], log.get())),
        }
    }
    // let everything come to rest, and the dead be replaced
    let live = || made.lock().unwrap().iter().enumerate().filter(|(_, w)| w.upgrade().is_some_and(|w| w.is_alive())).map(|(i, _)| i).collect::<BTreeSet<_>>();
    let idle = |l: &[(u64, usize, Ev)]| {
        l.iter().filter(|e| matches!(e.2, Ev::Begin(_))).all(|b| {
            let Ev::Begin(id) = b.2 else { return true };
            l.iter().any(|e| e.1 == b.1 && (e.2 == Ev::End(id) || e.2 == Ev::Dead))
        })
    };
    if virt {
        sim::sleep_ms(PERIOD * 10_000).await;
    } else {
        let t = std::time::Instant::now();
        let mut quiet = 0;
        let mut seen = 0;
        while quiet < 15 {
            let l = log.get();
            quiet = if idle(&l) && live().len() == size && l.len() == seen { quiet + 1 } else { 0 };
            seen = l.len();
            if t.elapsed() > Duration::from_secs(20) {
                break;
            }
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
    }
    let at_rest = log.get();
    let calm = live();
    let (deaths, begins): (Vec<_>, Vec<_>) = (
        at_rest.iter().filter(|e| e.2 == Ev::Dead).collect(),
        at_rest.iter().filter_map(|e| match e.2 {
            Ev::Begin(i) => Some((e.0, e.1, i)),
            _ => None,
        }).collect(),
    );
    // ------------------------------------------------ the pool still serves, at its size
    ensure!(pool.is_alive(), "pool-dies", "the pool stopped: {at_rest:?}");
    let mut shots = vec![];
    // (a death which is only noticed now may cost one round on threads, where rest cannot be told for certain)
    let rounds = if virt { 1 } else { 400 };
    for round in 0..rounds {
        let id = 1_000_000 + round;
        let m = Broadcast(Job::<0> { id, t: 0, out: Out::Ok });
        let r = match tokio::time::timeout(patience, pool.ask(m).send()).await {
            Ok(Ok(r)) => r,
            Ok(Err(e)) => return fail("pool-dies", format!("the last broadcast failed: {e:?}\n{at_rest:?}")),
            Err(_) => return fail("hang", format!("the last broadcast never completes: {at_rest:?}")),
        };
        ensure!(r.len() == size, "size", "a broadcast went to {} of {size} workers", r.len());
        if virt {
            sim::sleep_ms(PERIOD).await;
        } else {
            tokio::time::sleep(Duration::from_millis(5)).await;
        }
        let who: Vec<usize> = log.get().iter().filter(|e| e.2 == Ev::Begin(id)).map(|e| e.1).collect();
        shots = vec![(r.iter().filter(|r| r.is_ok()).count(), who.len(), who.iter().collect::<BTreeSet<_>>().len())];
        if shots[0] == (size, size, size) {
            break;
        }
    }
    ensure!(
        shots[0] == (size, size, size),
        "not-replaced",
        "after the history, a broadcast to the pool of {size} was accepted, handled, and handled by as many different workers as: {:?}; live workers {calm:?}; {at_rest:?}",
        shots[0]
    );
    ensure!(live().len() == size, "size", "{} workers live in a pool of {size}: {at_rest:?}", live().len());
    for id in 0..2 * size as u32 {
        let r = tokio::time::timeout(patience, pool.ask(Dispatch(Job::<0> { id: 2_000_000 + id, t: 0, out: Out::Ok })).send()).await;
        ensure!(matches!(r, Ok(Ok(_))), "not-serving", "after the history a dispatch gives {r:?}: {at_rest:?}");
    }
    // ------------------------------------------------ each message and its outcome
    let who_is = |id: usize| begins.iter().filter(|b| b.2 == id as u32).map(|b| b.1).collect::<Vec<_>>();
    // a wrapper dies too when a message nobody waits for fails, or its worker dies with it
    let harmful = |op: &Op| match op.what {
        What::Dispatch { ask, kind, out, .. } => match out {
            Out::Ok => false,
            Out::Err => !ask && kind % 3 != 1,
            _ => true,
        },
        What::Broadcast { out, .. } => out != Out::Ok,
        What::Kill { .. } => true,
    };
    let peaceful = !c.ops.iter().any(harmful);
    if peaceful {
        ensure!(deaths.is_empty() && made.lock().unwrap().len() == size, "spurious-death", "workers died although nothing ended them: {at_rest:?}");
    }
    for (i, (op, (_, r))) in c.ops.iter().zip(&results).enumerate() {
        let who = who_is(i);
        match op.what {
            What::Kill { .. } => {}
            What::Broadcast { .. } => {
                let r = r.as_ref().unwrap();
                let set: BTreeSet<_> = who.iter().collect();
                ensure!(set.len() == who.len(), "broadcast-twice", "broadcast {i} was handled by {who:?}: {at_rest:?}");
                ensure!(who.len() <= size, "broadcast-extra", "broadcast {i} was handled by {who:?} in a pool of {size}: {at_rest:?}");
                match r {
                    Res::Told => {}
                    Res::Cast(v) => {
                        ensure!(v.len() == size, "broadcast-results", "broadcast {i} gives {v:?} for {size} workers");
                        ensure!(v.iter().all(|r| matches!(r, Ok(())) || *r == Err(Some(i as u32))), "broadcast-results", "broadcast {i} gives {v:?}");
                        let ok = v.iter().filter(|r| r.is_ok()).count();
                        ensure!(who.len() <= ok, "broadcast-extra", "broadcast {i} was handled by {who:?} and gives {v:?}");
                        ensure!(!peaceful || ok == size, "broadcast-results", "broadcast {i} gives {v:?} although no worker died");
                    }
                    r => return fail("broadcast-results", format!("broadcast {i} gives {r:?}: {at_rest:?}")),
                }
                ensure!(!peaceful || who.len() == size, "broadcast-missed", "broadcast {i} was handled by {who:?} only, in a pool of {size} where no worker died: {at_rest:?}");
            }
            What::Dispatch { kind, out, timeout, .. } => {
                let r = r.as_ref().unwrap();
                ensure!(who.len() <= 1, "dispatched-twice", "dispatch {i} was handled by {who:?}: {at_rest:?}");
                ensure!(!peaceful || who.len() == 1, "dispatch-lost", "dispatch {i} was not handled although no worker died: {at_rest:?}");
                let end = who.first().map(|w| at_rest.iter().any(|e| e.1 == *w && e.2 == Ev::End(i as u32))).unwrap_or(false);
                let fine = match r {
                    Res::Told => true,
                    Res::Val(v) => end && *v == if out == Out::Err { 0 } else { (i as u64) << 16 | who[0] as u64 } && (out != Out::Err || kind % 3 == 1) && out != Out::Panic,
                    Res::Err(e) => end && out == Out::Err && kind % 3 != 1 && *e == format!("{i}@{}", who[0]),
                    Res::Timeout => timeout.is_some(),
                    // its worker died with it
                    Res::Stopped => !peaceful,
                    Res::NotRunning(m) => !peaceful && *m == i as u32 && who.is_empty(),
                    _ => false,
                };
                ensure!(fine, "result", "dispatch {i} ({:?}) handled by {who:?} gives {r:?}: {at_rest:?}", op.what);
            }
        }
    }
    // ------------------------------------------------ load: only where the pool handles each request at once
    let mut loads = 0;
    if virt && c.cap.is_none() && c.pool_cap.is_none() && c.factory % 3 != 2 && start == 0 {
        let sent: BTreeMap<u32, u64> = c.ops.iter().enumerate().filter(|(_, o)| !matches!(o.what, What::Kill { .. })).map(|(i, _)| (i as u32, results[i].0)).collect();
        let ended = |id: u32, w: usize| at_rest.iter().find(|e| e.1 == w && (e.2 == Ev::End(id) || e.2 == Ev::Dead)).map(|e| e.0).unwrap_or(u64::MAX);
        let dead_at = |w: usize| at_rest.iter().find(|e| e.1 == w && e.2 == Ev::Dead).map(|e| e.0);
        let made_at = |w: usize| at_rest.iter().find(|e| e.1 == w && e.2 == Ev::Made).map(|e| e.0).unwrap_or(u64::MAX);
        let busy = |w: usize, t: u64| begins.iter().filter(|b| b.1 == w && sent[&b.2] < t && ended(b.2, w) > t).count();
        for (i, op) in c.ops.iter().enumerate() {
            let (What::Dispatch { .. }, Some(w)) = (op.what, who_is(i).first().cloned()) else { continue };
            let t = results[i].0;
            let cast = c.ops.iter().enumerate().any(|(k, o)| matches!(o.what, What::Broadcast { .. }) && results[k].0 < t && who_is(k).iter().any(|w| ended(k as u32, *w) > t));
            if cast {
                continue;
            }
            for v in 0..made.lock().unwrap().len() {
                if v != w && dead_at(v).is_none() && made_at(v) + 2 < t {
                    loads += 1;
                    ensure!(busy(w, t) <= busy(v, t), "load", "dispatch {i} at {t} went to worker {w} with {} unfinished messages, while worker {v} had {}: {at_rest:?}", busy(w, t), busy(v, t));
                }
            }
        }
    }
    let asked = results.iter().filter(|r| matches!(r.1, Some(Res::Val(_) | Res::Err(_)))).count();
    Ok(Info::new(begins.len() > 2 && (asked > 0 || !deaths.is_empty()))
        .label(!deaths.is_empty(), "workers died")
        .label(deaths.len() > size, "more deaths than workers")
        .label(peaceful, "no death")
        .label(loads > 3, "load compared")
        .label(results.iter().any(|r| matches!(r.1, Some(Res::Stopped | Res::NotRunning(_)))), "request lost with its worker")
        .label(results.iter().any(|r| matches!(r.1, Some(Res::Cast(_)))), "broadcast"))
}

fn sim_case(c: &Case) -> CaseResult {
    sim::run(body(c, true)).unwrap_or_else(|| fail("hang", "the system never comes to rest"))
}

fn mt_case(c: &Case) -> CaseResult {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_time().build().unwrap();
    let r = rt.block_on(body(c, false));
    rt.shutdown_background();
    r
}

fn case() -> BoxedStrategy<Case> {
    let cap = || prop_oneof![3 => Just(None), 2 => (1u8..4).prop_map(Some), 1 => Just(Some(64))];
    (prop::bool::ANY, any::<u8>())
        .prop_flat_map(move |(violent, _)| {
            let out = if violent {
                prop_oneof![6 => Just(Out::Ok), 2 => Just(Out::Err), 1 => Just(Out::Panic), 1 => Just(Out::KillSelf), 1 => Just(Out::StopSelf)].boxed()
            } else {
                Just(Out::Ok).boxed()
            };
            let disp = (prop::bool::weighted(0.7), 0u8..3, out.clone(), prop::option::weighted(0.1, 0u8..4))
                .prop_map(move |(ask, kind, out, timeout)| What::Dispatch { ask, kind, out, timeout });
            let disp_err = (0u8..3).prop_map(|kind| What::Dispatch { ask: true, kind: kind * 2, out: Out::Err, timeout: None });
            let cast = (prop::bool::ANY, if violent { prop_oneof![8 => Just(Out::Ok), 1 => Just(Out::Err), 1 => Just(Out::Panic), 1 => Just(Out::KillSelf)].boxed() } else { Just(Out::Ok).boxed() })
                .prop_map(|(ask, out)| What::Broadcast { ask, out });
            let kill = (any::<u8>(), any::<bool>()).prop_map(|(which, graceful)| What::Kill { which, graceful });
            let what = if violent {
                prop_oneof![8 => disp, 1 => disp_err, 1 => cast, 2 => kill].boxed()
            } else {
                prop_oneof![8 => disp, 1 => disp_err, 1 => cast].boxed()
            };
            let op = (0u8..8, 0u8..5, what).prop_map(|(at, dur, what)| Op { at, dur, what });
            (1u8..5, cap(), cap(), 0u8..3, any::<bool>(), prop::collection::vec(op, 1..20))
                .prop_map(|(size, cap, pool_cap, factory, keep, ops)| Case { size, cap, pool_cap, factory, keep, ops })
        })
        .prop_map(|x| x)
        .boxed()
}

pub fn run(s: &mut Session) {
    let rule = "more than two messages handled, with a reply received or a worker's death";
    s.prop("pool_histories", rule, 20_000, 600_000, || boxed(case()), sim_case);
    s.prop_sharded("pool_on_threads", rule, 800, 25_000, 4, || boxed(case()), mt_case);
}

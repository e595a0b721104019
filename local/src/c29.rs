//! C29: the global error hook. Generated populations with failing hooks, against the list of failures that happened.
use std::{
    ops::ControlFlow,
    sync::{
        atomic::{AtomicBool, AtomicU32, Ordering},
        Arc, Mutex,
    },
    time::Duration,
};

use kameo::{
    actor::{ActorID, ActorRef, PreparedActor, WeakActorRef},
    error::{set_actor_error_hook, ActorStopReason, PanicError},
    message::{Context, Message},
    Actor,
};
use pbt::{boxed, ensure, fail, sim, CaseResult, Info, Session};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::lab::{desc_err, mailbox, HookErr};

const PERIOD: u64 = 64;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Out {
    Ok,
    Err,
    Panic,
    PanicAny,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum End {
    Not,
    Stop,
    Kill,
    /// a message panics / fails
    Bad,
    /// every reference is dropped
    Drop,
    /// its linked peer ends
    Peer,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct One {
    at: u8,
    start: (u8, Out),
    stop: (u8, Out),
    /// what its panic and link hooks do
    hooks: Out,
    end: (u8, End),
    /// someone waits for the results
    start_waiter: bool,
    stop_waiter: bool,
    bounded: bool,
    link: Option<u8>,
    /// spawned, or run inside another task (on real threads also: in a thread)
    run: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    pop: Vec<One>,
    /// the hook is replaced at these times
    sets: Vec<(u8, u8)>,
}

// ---------------------------------------------------------------- the hooks

static EPOCH: AtomicU32 = AtomicU32::new(0);
static CALLS: Mutex<Vec<(u8, String, Option<tokio::time::Instant>)>> = Mutex::new(vec![]);

fn record(k: u8, err: &PanicError) {
    let at = tokio::runtime::Handle::try_current().is_ok().then(tokio::time::Instant::now);
    CALLS.lock().unwrap().push((k, desc_err(err), at));
}
fn hook0(err: &PanicError) {
    record(0, err)
}
fn hook1(err: &PanicError) {
    record(1, err)
}
fn hook2(err: &PanicError) {
    record(2, err)
}
const HOOKS: [fn(&PanicError); 3] = [hook0, hook1, hook2];

// ---------------------------------------------------------------- actors

type Failures = Arc<Mutex<Vec<(tokio::time::Instant, String)>>>;

struct A {
    /// the first code of this case
    base: u32,
    no: u32,
    one: One,
    failed: Failures,
    stopped: Arc<AtomicBool>,
    virt: bool,
}

/// (a number for each place of each actor)
fn give(out: Out, code: u32) -> Result<(), HookErr> {
    match out {
        Out::Ok => Ok(()),
        Out::Err => Err(HookErr(code)),
        Out::Panic => panic!("{code}"),
        Out::PanicAny => std::panic::panic_any(code),
    }
}

fn said(out: Out, code: u32) -> String {
    match out {
        Out::Ok => unreachable!(),
        Out::Err => format!("hook:{code}"),
        Out::Panic => format!("str:{code}"),
        Out::PanicAny => format!("any:{code}"),
    }
}

impl A {
    fn hook(&self, out: Out, place: u32) -> Result<(), HookErr> {
        let code = self.base + self.no * 4 + place;
        if out != Out::Ok && place < 2 {
            self.failed.lock().unwrap().push((tokio::time::Instant::now(), said(out, code)));
        }
        if place == 1 {
            self.stopped.store(true, Ordering::SeqCst);
        }
        give(out, code)
    }
    async fn nap(&self, n: u8) {
        if self.virt {
            sim::sleep_ms(n as u64 * PERIOD).await
        } else if n > 0 {
            tokio::time::sleep(Duration::from_micros(n as u64 * 10)).await
        }
    }
}

impl Actor for A {
    type Error = HookErr;
    async fn on_start(&mut self, _: ActorRef<Self>) -> Result<(), HookErr> {
        self.nap(self.one.start.0).await;
        self.hook(self.one.start.1, 0)
    }
    async fn on_panic(&mut self, _: WeakActorRef<Self>, err: PanicError) -> Result<ControlFlow<ActorStopReason>, HookErr> {
        self.hook(self.one.hooks, 2)?;
        Ok(ControlFlow::Break(ActorStopReason::Panicked(err)))
    }
    async fn on_link_died(&mut self, _: WeakActorRef<Self>, id: ActorID, reason: ActorStopReason) -> Result<ControlFlow<ActorStopReason>, HookErr> {
        self.hook(self.one.hooks, 3)?;
        Ok(ControlFlow::Break(ActorStopReason::LinkDied { id, reason: Box::new(reason) }))
    }
    async fn on_stop(&mut self, _: WeakActorRef<Self>, _: ActorStopReason) -> Result<(), HookErr> {
        self.nap(self.one.stop.0).await;
        self.hook(self.one.stop.1, 1)
    }
}

struct Bad;
impl Message<Bad> for A {
    type Reply = Result<(), HookErr>;
    async fn handle(&mut self, _: Bad, _: &mut Context<Self, Self::Reply>) -> Self::Reply {
        give(if self.no % 2 == 0 { Out::Err } else { Out::Panic }, self.base + 999)
    }
}

async fn body(c: &Case, virt: bool) -> CaseResult {
    let patience = if virt { Duration::from_secs(2_000_000) } else { Duration::from_secs(20) };
    // (threads of earlier cases may still be winding down)
    let base = EPOCH.fetch_add(1000, Ordering::SeqCst);
    CALLS.lock().unwrap().clear();
    set_actor_error_hook(HOOKS[0]);
    let (failed, t0) = (Failures::default(), tokio::time::Instant::now());
    let sets: Arc<Mutex<Vec<(tokio::time::Instant, u8)>>> = Arc::new(Mutex::new(vec![(t0, 0)]));
    let nap = move |n: u64| async move {
        if virt {
            sim::sleep_ms(n).await
        } else {
            tokio::time::sleep(Duration::from_micros(n)).await
        }
    };
    // phases: a hook is never replaced at the instant of a failure
    let mut hs = vec![];
    for (i, (at, k)) in c.sets.iter().cloned().enumerate() {
        let sets = sets.clone();
        hs.push(tokio::spawn(async move {
            nap((at as u64 + 1) * PERIOD + 20 + i as u64).await;
            // (concurrent replacements happen in some order, which only the hook knows on real threads)
            let mut s = sets.lock().unwrap();
            set_actor_error_hook(HOOKS[k as usize % 3]);
            s.push((tokio::time::Instant::now(), k % 3));
        }));
    }
    let stopped: Vec<Arc<AtomicBool>> = c.pop.iter().map(|_| Default::default()).collect();
    let prepared: Vec<PreparedActor<A>> = c.pop.iter().map(|o| PreparedActor::new(mailbox(o.bounded.then_some(2)))).collect();
    let refs: Vec<ActorRef<A>> = prepared.iter().map(|p| p.actor_ref().clone()).collect();
    for (i, o) in c.pop.iter().enumerate() {
        if let Some(k) = o.link {
            let k = k as usize % refs.len();
            // a link to one which ends only with this one would keep both
            if k != i {
                refs[i].link(&refs[k]).await;
            }
        }
    }
    for (i, (p, o)) in prepared.into_iter().zip(&c.pop).enumerate() {
        let (o, a) = (*o, refs[i].clone());
        let actor = A { base, no: i as u32, one: o, failed: failed.clone(), stopped: stopped[i].clone(), virt };
        let peer = refs[(i + 1) % refs.len()].clone();
        hs.push(tokio::spawn(async move {
            nap(o.at as u64 * PERIOD + i as u64 + 1).await;
            match o.run % 3 {
                1 => {
                    tokio::spawn(async move {
                        p.run(actor).await;
                    });
                }
                2 if !virt => {
                    p.spawn_in_thread(actor);
                }
                _ => {
                    p.spawn(actor);
                }
            }
            if o.start_waiter {
                let a = a.clone();
                tokio::spawn(async move {
                    // a panicking hook has no result of the actor's error type
                    if !matches!(o.start.1, Out::Panic | Out::PanicAny) {
                        let _ = a.wait_for_startup_result().await;
                    } else {
                        a.wait_for_startup().await;
                    }
                });
            }
            if o.stop_waiter {
                let w = a.clone();
                tokio::spawn(async move {
                    if !matches!(o.stop.1, Out::Panic | Out::PanicAny) {
                        let _ = w.wait_for_shutdown_result().await;
                    } else {
                        w.wait_for_shutdown().await;
                    }
                });
            }
            nap((o.end.0 as u64 + 1) * PERIOD).await;
            match o.end.1 {
                End::Not | End::Drop => {}
                End::Stop => {
                    let _ = a.stop_gracefully().await;
                }
                End::Kill => a.kill(),
                End::Bad => {
                    let _ = a.tell(Bad).send().await;
                }
                End::Peer => peer.kill(),
            }
        }));
    }
    drop(refs);
    for h in hs {
        match tokio::time::timeout(patience, h).await {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return fail("caller-panics", format!("{e}")),
            Err(_) => return fail("hang", "the history never completes".to_string()),
        }
    }
    let mine = || -> Vec<(u8, String, Option<tokio::time::Instant>)> {
        let l = CALLS.lock().unwrap().clone();
        l.into_iter()
            .filter(|c| match c.1.split(':').nth(1).and_then(|n| n.parse::<u32>().ok()) {
                Some(n) => n / 1000 == base / 1000,
                None => !c.1.contains("Tokio"),
            })
            .collect()
    };
    let certain = |i: usize| matches!(c.pop[i].end.1, End::Stop | End::Kill | End::Bad | End::Drop) && !c.pop[i].stop_waiter || c.pop[i].start.1 != Out::Ok;
    if virt {
        sim::sleep_ms(PERIOD * 10_000).await;
    } else {
        // all those which surely end have called their stop hook, and the reports have arrived
        let t = std::time::Instant::now();
        let rest = |n: &mut usize| {
            let k = mine().len() + failed.lock().unwrap().len() * 1000;
            std::mem::replace(n, k) == k
        };
        let (mut quiet, mut n) = (0, 0);
        while quiet < 5 && t.elapsed() < Duration::from_secs(10) {
            tokio::time::sleep(Duration::from_millis(1)).await;
            let all = (0..c.pop.len()).all(|i| !certain(i) || stopped[i].load(Ordering::SeqCst));
            let equal = failed.lock().unwrap().len() == mine().len();
            quiet = if rest(&mut n) && all && equal { quiet + 1 } else { 0 };
        }
    }
    for i in 0..c.pop.len() {
        ensure!(!certain(i) || stopped[i].load(Ordering::SeqCst), "never-stops", "actor {i} never gets to its stop hook");
    }
    let calls = mine();
    let failed = failed.lock().unwrap().clone();
    let sets = sets.lock().unwrap().clone();
    let t = |x: tokio::time::Instant| (x - t0).as_millis() as u64 / sim::scale();
    let show = || {
        format!(
            "failures {:?}, calls {:?}, replaced {:?}",
            failed.iter().map(|f| (t(f.0), &f.1)).collect::<Vec<_>>(),
            calls.iter().map(|f| (f.2.map(t), f.0, &f.1)).collect::<Vec<_>>(),
            sets.iter().map(|s| (t(s.0), s.1)).collect::<Vec<_>>()
        )
    };
    for (at, what) in &failed {
        let mine: Vec<_> = calls.iter().filter(|c| c.1 == *what).collect();
        ensure!(mine.len() == 1, "once", "{what} failed at {} and was reported {} times: {}", t(*at), mine.len(), show());
        if virt {
            let hook = sets.iter().filter(|s| s.0 < *at).map(|s| s.1).next_back().unwrap();
            ensure!(mine[0].0 == hook, "which", "{what} failed at {} and was reported to hook {} instead of {hook}: {}", t(*at), mine[0].0, show());
        } else if let Some(now) = mine[0].2 {
            // a hook in force at some time between the failure and the report, or being set around it
            let slack = Duration::from_millis(2);
            let before = sets.iter().filter(|s| s.0 + slack < *at).map(|s| s.1).next_back();
            let during = sets.iter().filter(|s| s.0 + slack >= *at && s.0 <= now + slack).map(|s| s.1);
            ensure!(before.into_iter().chain(during).any(|k| k == mine[0].0), "which", "{what} was reported to hook {}: {}", mine[0].0, show());
        }
    }
    ensure!(calls.len() == failed.len(), "else", "the hook was called for something else: {}", show());
    Ok(Info::new(failed.len() > 1)
        .label(failed.len() > 1 && sets.len() > 1, "hook replaced")
        .label(failed.iter().any(|f| f.1.starts_with("any")), "panic with a value")
        .label(c.pop.iter().any(|o| o.hooks != Out::Ok && o.end.1 == End::Bad), "panic hook fails")
        .label(c.pop.iter().any(|o| o.end.1 == End::Drop && o.stop.1 != Out::Ok), "nobody holds it")
        .label(c.pop.iter().any(|o| o.start.1 != Out::Ok && o.stop.1 != Out::Ok), "both fail"))
}

fn sim_case(c: &Case) -> CaseResult {
    sim::run(body(c, true)).unwrap_or_else(|| fail("hang", "the system never comes to rest"))
}

fn mt_case(c: &Case) -> CaseResult {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_time().build().unwrap();
    let r = rt.block_on(body(c, false));
    rt.shutdown_background();
    r
}

fn case() -> BoxedStrategy<Case> {
    let out = || prop_oneof![3 => Just(Out::Ok), 2 => Just(Out::Err), 1 => Just(Out::Panic), 1 => Just(Out::PanicAny)];
    let end = prop_oneof![1 => Just(End::Not), 2 => Just(End::Stop), 2 => Just(End::Kill), 2 => Just(End::Bad), 2 => Just(End::Drop), 1 => Just(End::Peer)];
    let one = (
        (0u8..6, (0u8..3, out()), (0u8..3, out()), out(), (0u8..6, end)),
        (any::<bool>(), prop::bool::weighted(0.3), any::<bool>(), prop::option::weighted(0.25, any::<u8>()), 0u8..3),
    )
        .prop_map(|((at, start, stop, hooks, end), (start_waiter, stop_waiter, bounded, link, run))| One {
            at,
            start: if start.0 == 2 { start } else { (start.0, if end.1 == End::Drop || end.1 == End::Bad { Out::Ok } else { start.1 }) },
            stop,
            hooks,
            end,
            start_waiter,
            stop_waiter,
            bounded,
            link,
            run,
        });
    (prop::collection::vec(one, 1..9), prop::collection::vec((0u8..14, 0u8..3), 0..5)).prop_map(|(pop, sets)| Case { pop, sets }).boxed()
}

pub fn run(s: &mut Session) {
    // the hook is global: one case at a time
    s.prop_sharded("failing_hooks", "more than one failing start or stop hook", 20_000, 600_000, 1, || boxed(case()), sim_case);
    s.prop_sharded("failing_hooks_on_threads", "more than one failing start or stop hook", 1_500, 40_000, 1, || boxed(case()), mt_case);
}

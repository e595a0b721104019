//! C11: who hears of whose death.
use std::{
    sync::{Arc, Mutex},
};

use kameo::{
    actor::{ActorRef, PreparedActor, WeakActorRef},
    error::ActorStopReason,
    message::{Context, Message},
    Actor,
};
use pbt::{boxed, sim, CaseResult, Fail, Info, Session};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::lab::*;

/// An actor with the default panic and link hooks.
pub struct Plain {
    pub who: u32,
    pub log: Log,
    pub fail: bool,
}

impl Actor for Plain {
    type Error = HookErr;
    async fn on_start(&mut self, _: ActorRef<Self>) -> Result<(), HookErr> {
        self.log.push(self.who, Ev::StartBegin);
        self.log.push(self.who, Ev::StartEnd(!self.fail));
        if self.fail {
            return Err(HookErr(START_ERR));
        }
        Ok(())
    }
    async fn on_stop(&mut self, _: WeakActorRef<Self>, reason: ActorStopReason) -> Result<(), HookErr> {
        self.log.push(self.who, Ev::StopBegin(desc(&reason), 0));
        self.log.push(self.who, Ev::StopEnd);
        Ok(())
    }
}

impl Message<Job> for Plain {
    type Reply = Result<u64, JobErr>;
    async fn handle(&mut self, job: Job, _: &mut Context<Self, Self::Reply>) -> Self::Reply {
        self.log.push(self.who, Ev::Begin(job.id));
        pause_for(&job.steps).await;
        self.log.push(self.who, Ev::End(job.id));
        match job.out {
            Out::Err => Err(JobErr(job.id)),
            Out::PanicStr => panic!("static"),
            Out::PanicOwned => panic!("owned {}", job.id),
            Out::PanicAny => std::panic::panic_any(job.id),
            _ => Ok(value_of(job.id)),
        }
    }
}

pub enum AnyRef {
    Sub(ActorRef<Sub>),
    Plain(ActorRef<Plain>),
}

impl Clone for AnyRef {
    fn clone(&self) -> Self {
        match self {
            AnyRef::Sub(a) => AnyRef::Sub(a.clone()),
            AnyRef::Plain(a) => AnyRef::Plain(a.clone()),
        }
    }
}

macro_rules! each {
    ($a:expr, $x:ident => $e:expr) => {
        match $a {
            AnyRef::Sub($x) => $e,
            AnyRef::Plain($x) => $e,
        }
    };
}
pub(crate) use each;

impl AnyRef {
    pub async fn link(&self, o: &AnyRef) {
        each!(self, a => each!(o, b => a.link(b).await))
    }
    pub async fn unlink(&self, o: &AnyRef) {
        each!(self, a => each!(o, b => a.unlink(b).await))
    }
    pub fn blocking_link(&self, o: &AnyRef) {
        each!(self, a => each!(o, b => a.blocking_link(b)))
    }
    pub fn blocking_unlink(&self, o: &AnyRef) {
        each!(self, a => each!(o, b => a.blocking_unlink(b)))
    }
    pub fn id(&self) -> u64 {
        each!(self, a => a.id().sequence_id())
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum End {
    Stop,
    Kill,
    /// a message which fails like that
    Msg(Out),
    /// the last reference is dropped
    Drop,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Act {
    cap: Option<u8>,
    plain: bool,
    fail: bool,
    panic: Vec<(u8, Decide)>,
    link: Vec<(u8, Decide)>,
    stop: Vec<Step>,
    /// linked to these (earlier) actors before it is spawned
    to: Vec<u8>,
    /// to the first of them by spawn_link
    spawn_link: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Link(u8, u8),
    Unlink(u8, u8),
    Tell(u8, Vec<Step>, Out),
    End(u8, End),
    Spawn(Act),
    Pause(Step),
    /// until everything is at rest
    Settle,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    acts: Vec<Act>,
    tasks: Vec<Vec<Op>>,
}

/// a completed call: log positions, the pair, linked or unlinked
#[derive(Debug)]
struct Call {
    from: usize,
    to: usize,
    pair: (usize, usize),
    link: bool,
}

#[derive(Clone, Default)]
struct World {
    acts: Arc<Mutex<Vec<(u64, Option<AnyRef>)>>>,
    calls: Arc<Mutex<Vec<Call>>>,
    plain: Arc<Mutex<Vec<bool>>>,
}

const SETTLE: u64 = 5_000;

impl World {
    fn get(&self, i: u8) -> Option<(usize, AnyRef)> {
        let acts = self.acts.lock().unwrap();
        let i = i as usize % acts.len();
        acts[i].1.clone().map(|a| (i, a))
    }
    async fn call(&self, log: &Log, link: bool, (i, a): (usize, &AnyRef), (j, b): (usize, &AnyRef)) {
        let from = log.get().len();
        if link {
            a.link(b).await;
        } else {
            a.unlink(b).await;
        }
        self.calls.lock().unwrap().push(Call { from, to: log.get().len(), pair: (i.min(j), i.max(j)), link });
    }
    async fn spawn(&self, log: &Log, act: &Act) {
        let me = {
            let mut acts = self.acts.lock().unwrap();
            acts.push((0, None));
            self.plain.lock().unwrap().push(act.plain);
            acts.len() - 1
        };
        let to: Vec<(usize, AnyRef)> = match me {
            0 => vec![],
            _ => act.to.iter().filter_map(|t| self.get(*t % me as u8)).collect(),
        };
        let script = Script {
            panic: act.panic.clone(),
            link: act.link.clone(),
            stop: act.stop.clone(),
            start_out: if act.fail { Out::Err } else { Out::Ok },
            ..Default::default()
        };
        let done = {
            let log = log.clone();
            move || log.push(1000 + me as u32, Ev::Note("joined".into()))
        };
        macro_rules! go {
            ($actor:expr, $wrap:expr) => {{
                if act.spawn_link && to.len() == 1 {
                    let from = log.get().len();
                    let a = each!(&to[0].1, b => kameo::actor::spawn_link_with_mailbox(b, $actor, mailbox(act.cap)).await);
                    // it runs no earlier than this task suspends
                    let pair = (to[0].0.min(me), to[0].0.max(me));
                    self.calls.lock().unwrap().push(Call { from, to: log.get().len(), pair, link: true });
                    let w = a.clone();
                    let w2 = w.downgrade();
                    drop(w);
                    tokio::spawn(async move {
                        // no join handle
                        while w2.upgrade().map(|a| a.is_alive()).unwrap_or(false) {
                            sim::sleep_ms(1).await;
                        }
                        sim::sleep_ms(200).await;
                        done();
                    });
                    $wrap(a)
                } else {
                    let p = PreparedActor::new(mailbox(act.cap));
                    let a = p.actor_ref().clone();
                    for (i, t) in &to {
                        self.call(log, true, (*i, t), (me, &$wrap(a.clone()))).await;
                    }
                    let h = p.spawn($actor);
                    tokio::spawn(async move {
                        if h.await.is_ok() {
                            done()
                        }
                    });
                    $wrap(a)
                }
            }};
        }
        let who = me as u32;
        let a = if act.plain {
            go!(Plain { who, log: log.clone(), fail: act.fail }, AnyRef::Plain)
        } else {
            go!(Sub::new(who, log, &script), AnyRef::Sub)
        };
        self.acts.lock().unwrap()[me] = (a.id(), Some(a));
    }
    async fn op(&self, log: &Log, id: u32, op: &Op) {
        match op {
            Op::Link(i, j) | Op::Unlink(i, j) => {
                if let (Some((i, a)), Some((j, b))) = (self.get(*i), self.get(*j)) {
                    self.call(log, matches!(op, Op::Link(..)), (i, &a), (j, &b)).await;
                }
            }
            Op::Tell(i, steps, out) => {
                if let Some((_, a)) = self.get(*i) {
                    let job = Job { id, steps: steps.clone(), out: *out };
                    each!(a, a => drop(a.tell(job).send().await));
                }
            }
            Op::End(i, End::Drop) => {
                let mut acts = self.acts.lock().unwrap();
                let i = *i as usize % acts.len();
                acts[i].1 = None;
            }
            Op::End(i, e) => {
                if let Some((_, a)) = self.get(*i) {
                    match e {
                        End::Stop => each!(a, a => drop(a.stop_gracefully().await)),
                        End::Kill => each!(a, a => a.kill()),
                        End::Msg(out) => {
                            let job = Job { id, steps: vec![], out: *out };
                            each!(a, a => drop(a.tell(job).send().await));
                        }
                        End::Drop => {}
                    }
                }
            }
            Op::Spawn(act) => self.spawn(log, act).await,
            Op::Pause(s) => pause_for(std::slice::from_ref(s)).await,
            Op::Settle => sim::sleep_ms(SETTLE).await,
        }
    }
}

/// Whether the pair was linked at `[from, to]` of the log: known, or `None`.
fn linked(calls: &[Call], pair: (usize, usize), from: usize, to: usize) -> Option<bool> {
    let on: Vec<&Call> = calls.iter().filter(|c| c.pair == pair && c.from <= to).collect();
    if on.iter().any(|c| c.to > from) {
        return None;
    }
    let last: Vec<&&Call> = on.iter().filter(|c| !on.iter().any(|d| d.from > c.to)).collect();
    if last.is_empty() {
        return Some(false);
    }
    // calls made one after the other between two log entries are listed in order
    let kinds: Vec<bool> = last.iter().map(|c| c.link).collect();
    if kinds.iter().all(|k| *k == kinds[0]) {
        return Some(kinds[0]);
    }
    None
}

struct Out11 {
    log: Log,
    world: World,
    ids: Vec<u64>,
}

fn verdict(o: &Out11) -> CaseResult {
    let log = &o.log;
    let l = log.get();
    let calls = o.world.calls.lock().unwrap();
    let plain = o.world.plain.lock().unwrap();
    let n = o.ids.len();
    let rest = l.iter().position(|e| e.ev == Ev::Note("rest".into())).unwrap();
    let stop: Vec<Option<(usize, u64, String)>> = (0..n)
        .map(|w| {
            l.iter().take(rest).enumerate().find_map(|(t, e)| match &e.ev {
                Ev::StopBegin(r, _) if e.who == w as u32 => Some((t, e.at, r.clone())),
                _ => None,
            })
        })
        .collect();
    let joined = |w: usize| l.iter().position(|e| e.who == 1000 + w as u32).unwrap_or(l.len());
    let hooks = |y: usize, x: usize| -> Vec<(usize, String)> {
        l.iter()
            .enumerate()
            .filter_map(|(t, e)| match &e.ev {
                Ev::LinkHook(id, r) if e.who == y as u32 && *id == o.ids[x] => Some((t, r.clone())),
                _ => None,
            })
            .collect()
    };
    let (mut told, mut cascade, mut unsure, mut not) = (0, 0, 0, 0);
    for x in 0..n {
        lifecycle(log, x as u32, true)?;
        for y in 0..n {
            if x == y {
                check!(log, hooks(y, x).is_empty(), "self", "actor {x} was told of its own death");
                continue;
            }
            let h = if plain[y] { vec![] } else { hooks(y, x) };
            check!(log, h.len() <= 1, "twice", "actor {y} was told {} times that {x} died", h.len());
            let Some((s, at, reason)) = &stop[x] else {
                check!(log, h.iter().all(|(t, _)| *t > rest), "alive", "actor {y} was told that {x} died, but it lives");
                continue;
            };
            let j = joined(x);
            for (t, r) in &h {
                check!(log, t > s, "early", "actor {y} was told that {x} died before it stopped");
                check!(log, r == reason, "reason", "actor {x} stopped with {reason}, {y} was told {r}");
            }
            let is = linked(&calls, (x.min(y), x.max(y)), *s, j);
            // whether y certainly had the time to handle the notification
            let lived = match &stop[y] {
                None => true,
                Some((_, t, _)) => *t > at + 2_500,
            };
            let by_x = format!("link({},{reason})", o.ids[x]);
            match is {
                Some(true) if lived && !plain[y] => {
                    check!(log, h.len() == 1, "not-told", "actors {x} and {y} were linked when {x} died, but {y} was not told");
                    told += 1;
                }
                Some(true) if lived && reason != "normal" => {
                    check!(log, false, "default", "actor {x}, linked to {y}, stopped with {reason}, but {y} lived on");
                }
                Some(true) if plain[y] && reason == "normal" => {
                    let r = stop[y].as_ref().map(|s| s.2.clone());
                    check!(log, r.as_ref() != Some(&by_x), "default", "actor {x} stopped normally and {y} with it");
                }
                Some(false) => {
                    check!(log, h.is_empty(), "told-unlinked", "actors {x} and {y} were not linked when {x} died, but {y} was told");
                    if let Some((_, _, r)) = &stop[y] {
                        check!(log, *r != by_x, "told-unlinked", "actors {x} and {y} were not linked when {x} died, but {y} stopped with {r}");
                    }
                    not += 1;
                }
                None => unsure += 1,
                _ => {}
            }
            if let Some((t, _, r)) = &stop[y] {
                if *r == by_x {
                    check!(log, t > s, "early", "actor {y} stopped because of {x} before {x} stopped");
                    cascade += 1;
                }
            }
        }
        // the stop reason
        if let Some((_, _, r)) = &stop[x] {
            if let Some(id) = r.strip_prefix("link(") {
                let id: u64 = id.split(',').next().unwrap().parse().unwrap();
                let Some(y) = o.ids.iter().position(|i| *i == id) else {
                    check!(log, false, "reason", "actor {x} stopped with {r}, but there is no such actor");
                    unreachable!()
                };
                let Some((_, _, ry)) = &stop[y] else {
                    check!(log, false, "reason", "actor {x} stopped with {r}, but {y} is alive");
                    unreachable!()
                };
                check!(log, *r == format!("link({id},{ry})"), "reason", "actor {x} stopped with {r}, but {y} with {ry}");
            }
        }
        // the hook's decision is followed
        if !plain[x] {
            let mut end: Option<&String> = None;
            for e in l.iter().take(rest).filter(|e| e.who == x as u32) {
                if let Some(d) = end {
                    match &e.ev {
                        Ev::StopBegin(r, _) => check!(log, r == d, "decision", "the link hook of {x} decided {d}, the stop reason is {r}"),
                        Ev::SendStart(..) | Ev::SendEnd(..) | Ev::Reply(..) => continue,
                        ev => check!(log, false, "decision", "the link hook of {x} decided {d}, then came {ev:?}"),
                    }
                }
                end = match &e.ev {
                    Ev::LinkHookEnd(d) if d != "continue" && !d.starts_with("panicked(") => Some(d),
                    _ => None,
                };
            }
            check!(log, end.is_none(), "decision", "the link hook of {x} decided {end:?}, but it lives");
        }
    }
    let again = calls.iter().filter(|c| c.pair.0 == c.pair.1).count();
    Ok(Info::new(told + cascade > 0)
        .label(told > 0, "told")
        .label(not > 0, "not linked")
        .label(cascade > 0, "cascade")
        .label(unsure > 0, "racing call")
        .label(again > 0, "self link")
        .label(calls.iter().any(|c| !c.link), "unlink"))
}

fn case_check(c: &Case) -> CaseResult {
    let out = sim::run(async {
        let log = Log::new();
        let world = World::default();
        for a in &c.acts {
            world.spawn(&log, a).await;
        }
        let mut hs = vec![];
        for (t, ops) in c.tasks.iter().enumerate() {
            let (world, log, ops) = (world.clone(), log.clone(), ops.clone());
            hs.push(tokio::spawn(async move {
                for (i, op) in ops.iter().enumerate() {
                    world.op(&log, mid(t, i), op).await;
                }
            }));
        }
        for h in hs {
            if !matches!(tokio::time::timeout(std::time::Duration::from_secs(5_000_000), h).await, Ok(Ok(()))) {
                return Err(hang(&log, "a call hangs or panics"));
            }
        }
        sim::sleep_ms(2 * SETTLE).await;
        log.push(2000, Ev::Note("rest".into()));
        // end all of them
        let acts: Vec<(u64, Option<AnyRef>)> = world.acts.lock().unwrap().drain(..).collect();
        let ids = acts.iter().map(|(id, _)| *id).collect();
        for (_, a) in acts.into_iter() {
            if let Some(a) = a {
                each!(a, a => a.kill());
            }
        }
        sim::sleep_ms(2 * SETTLE).await;
        Ok(Out11 { log, world, ids })
    });
    match out {
        Some(Ok(o)) => verdict(&o),
        Some(Err(f)) => Err(f),
        None => Err(Fail { sig: "hang".into(), msg: "the system never comes to rest".into() }),
    }
}

pub fn end() -> impl Strategy<Value = End> {
    prop_oneof![
        3 => Just(End::Stop),
        3 => Just(End::Kill),
        1 => Just(End::Msg(Out::Err)),
        1 => Just(End::Msg(Out::PanicStr)),
        1 => Just(End::Msg(Out::PanicAny)),
        2 => Just(End::Drop),
    ]
}

fn decide() -> impl Strategy<Value = Decide> {
    prop_oneof![4 => Just(Decide::Default), 3 => Just(Decide::Continue), 1 => Just(Decide::Normal), 1 => Just(Decide::Custom), 1 => Just(Decide::Err)]
}

fn act() -> impl Strategy<Value = Act> {
    (
        cap(),
        prop::bool::weighted(0.3),
        prop::bool::weighted(0.1),
        prop::collection::vec((0u8..3, decide()), 0..2),
        prop::collection::vec((0u8..3, decide()), 0..3),
        pauses(2),
        prop::collection::vec(any::<u8>(), 0..3),
        any::<bool>(),
    )
        .prop_map(|(cap, plain, fail, panic, link, stop, to, spawn_link)| Act { cap, plain, fail, panic, link, stop, to, spawn_link })
}

fn op() -> impl Strategy<Value = Op> {
    prop_oneof![
        6 => (0u8..6, 0u8..6).prop_map(|(i, j)| Op::Link(i, j)),
        3 => (0u8..6, 0u8..6).prop_map(|(i, j)| Op::Unlink(i, j)),
        3 => (0u8..6, pauses(2), any_out()).prop_map(|(i, s, o)| Op::Tell(i, s, o)),
        3 => (0u8..6, end()).prop_map(|(i, e)| Op::End(i, e)),
        1 => act().prop_map(Op::Spawn),
        2 => pause().prop_map(Op::Pause),
        3 => Just(Op::Settle),
    ]
}

/// Actors which die at once, linked to a parent before they are spawned.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Race {
    /// per task: how its children die, and whether by spawn_link or prepared
    tasks: Vec<Vec<(End, bool, bool, u8)>>,
    cap: Option<u8>,
}

fn race(c: &Race) -> CaseResult {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_time().build().unwrap();
    let log = Log::new();
    let r = rt.block_on(async {
        let (parent, _j) = spawn(Sub::new(0, &log, &Script::resilient()), c.cap);
        let mut hs = vec![];
        for (t, kids) in c.tasks.iter().cloned().enumerate() {
            let (parent, log, cap) = (parent.clone(), log.clone(), c.cap);
            hs.push(tokio::spawn(async move {
                let mut ids = vec![];
                for (k, (end, fail, prepared, yields)) in kids.into_iter().enumerate() {
                    let who = 100 + (t * 100 + k) as u32;
                    let kid = Plain { who, log: log.clone(), fail };
                    let a = if prepared {
                        let p = PreparedActor::new(mailbox(cap));
                        let a = p.actor_ref().clone();
                        parent.link(&a).await;
                        p.spawn(kid);
                        a
                    } else {
                        kameo::actor::spawn_link_with_mailbox(&parent, kid, mailbox(cap)).await
                    };
                    sim::yields(yields).await;
                    match end {
                        End::Stop => drop(a.stop_gracefully().await),
                        End::Kill => a.kill(),
                        End::Msg(out) => drop(a.tell(Job { id: who, steps: vec![], out }).send().await),
                        End::Drop => {}
                    }
                    ids.push((who, a.id().sequence_id()));
                }
                ids
            }));
        }
        let mut all = vec![];
        for h in hs {
            match tokio::time::timeout(std::time::Duration::from_secs(20), h).await {
                Ok(Ok(ids)) => all.extend(ids),
                _ => return Err(hang(&log, "spawning or ending actors hangs")),
            }
        }
        // everyone told, and at most once
        let t = std::time::Instant::now();
        loop {
            let l = log.get();
            let told = |id: u64| l.iter().filter(|e| matches!(&e.ev, Ev::LinkHook(i, _) if *i == id)).count();
            if all.iter().all(|(_, id)| told(*id) >= 1) {
                check!(log, all.iter().all(|(_, id)| told(*id) == 1), "twice", "the parent was told twice");
                break;
            }
            if t.elapsed() > std::time::Duration::from_secs(10) {
                let (who, _) = all.iter().find(|(_, id)| told(*id) == 0).unwrap();
                check!(log, false, "not-told", "actor {who} was linked to its parent before it was spawned, it died, the parent was not told");
            }
            tokio::time::sleep(std::time::Duration::from_millis(1)).await;
        }
        for e in log.get() {
            if let Ev::LinkHook(id, r) = &e.ev {
                let who = all.iter().find(|(_, i)| i == id).unwrap().0;
                let s = stop_reason(&log, who).map(|(r, _)| r);
                check!(log, s.as_ref() == Some(r), "reason", "actor {who} stopped with {s:?}, the parent was told {r}");
            }
        }
        Ok(all.len())
    });
    rt.shutdown_background();
    let n = r?;
    Ok(Info::new(n > 0).label(c.tasks.len() > 1, "several tasks"))
}

pub fn run(s: &mut Session) {
    let rule = "a linked actor is told of a death, or stops because of it";
    s.prop("link_graphs", rule, 40_000, 1_000_000, || {
        boxed(
            (prop::collection::vec(act(), 2..7), prop::collection::vec(prop::collection::vec(op(), 1..14), 1..3))
                .prop_map(|(acts, tasks)| Case { acts, tasks }),
        )
    }, case_check);
    s.prop_sharded("dying_at_birth", "some actor dies", 1_000, 30_000, 4, || {
        let kid = (end(), prop::bool::weighted(0.4), prop::bool::weighted(0.3), 0u8..3);
        boxed((prop::collection::vec(prop::collection::vec(kid, 1..12), 1..5), cap()).prop_map(|(tasks, cap)| Race { tasks, cap }))
    }, race);
}

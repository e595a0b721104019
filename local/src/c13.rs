//! C13: strong and weak handles, and what keeps an actor alive.
use std::{
    sync::{
        atomic::{AtomicU32, Ordering},

    },
    time::{Duration, Instant},
};

use kameo::{
    actor::{ActorID, ActorRef, Recipient, WeakActorRef, WeakRecipient},
    mailbox::{MailboxSender, WeakMailboxSender},
    registry::ACTOR_REGISTRY,
};
use pbt::{boxed, fail, sim, CaseResult, Fail, Info, Session};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::lab::*;

enum H {
    Ref(ActorRef<Sub>),
    Rec(Recipient<Job>),
    Weak(WeakActorRef<Sub>),
    WeakRec(WeakRecipient<Job>),
    Mb(MailboxSender<Sub>),
    WeakMb(WeakMailboxSender<Sub>),
    /// in the registry
    Name(String),
}

impl H {
    fn strong(&self) -> bool {
        matches!(self, H::Ref(_) | H::Rec(_) | H::Mb(_) | H::Name(_))
    }
    fn id(&self) -> Option<ActorID> {
        match self {
            H::Ref(a) => Some(a.id()),
            H::Rec(a) => Some(a.id()),
            H::Weak(a) => Some(a.id()),
            H::WeakRec(a) => Some(a.id()),
            _ => None,
        }
    }
    fn counts(&self) -> Option<(usize, usize)> {
        match self {
            H::Ref(a) => Some((a.strong_count(), a.weak_count())),
            H::Rec(a) => Some((a.strong_count(), a.weak_count())),
            H::Weak(a) => Some((a.strong_count(), a.weak_count())),
            H::WeakRec(a) => Some((a.strong_count(), a.weak_count())),
            H::Mb(a) => Some((a.strong_count(), a.weak_count())),
            H::WeakMb(a) => Some((a.strong_count(), a.weak_count())),
            H::Name(_) => None,
        }
    }
    fn dup(&self) -> Option<H> {
        Some(match self {
            H::Ref(a) => H::Ref(a.clone()),
            H::Rec(a) => H::Rec(a.clone()),
            H::Weak(a) => H::Weak(a.clone()),
            H::WeakRec(a) => H::WeakRec(a.clone()),
            H::Mb(a) => H::Mb(a.clone()),
            H::WeakMb(a) => H::WeakMb(a.clone()),
            // a lookup
            H::Name(n) => H::Ref(ActorRef::lookup(n.as_str()).unwrap()?),
        })
    }
    fn down(&self) -> Option<H> {
        Some(match self {
            H::Ref(a) => H::Weak(a.downgrade()),
            H::Rec(a) => H::WeakRec(a.downgrade()),
            H::Mb(a) => H::WeakMb(a.downgrade()),
            _ => return None,
        })
    }
    /// `None` where it cannot be upgraded, otherwise what upgrading gives
    fn up(&self) -> Option<Option<H>> {
        Some(match self {
            H::Weak(a) => a.upgrade().map(H::Ref),
            H::WeakRec(a) => a.upgrade().map(H::Rec),
            H::WeakMb(a) => a.upgrade().map(H::Mb),
            _ => return None,
        })
    }
    fn kill(&self) -> bool {
        match self {
            H::Ref(a) => a.kill(),
            H::Rec(a) => a.kill(),
            _ => return false,
        }
        true
    }
    async fn stop(&self) -> bool {
        match self {
            H::Ref(a) => drop(a.stop_gracefully().await),
            H::Rec(a) => drop(a.stop_gracefully().await),
            _ => return false,
        }
        true
    }
    fn tell(&self, job: Job) -> Option<Res> {
        Some(match self {
            H::Ref(a) => Res::of_tell(a.tell(job).try_send()),
            H::Rec(a) => Res::of_tell(a.tell(job).try_send()),
            _ => return None,
        })
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Op {
    Dup(u8),
    Drop(u8),
    /// every strong handle
    DropStrong,
    Down(u8),
    Up(u8),
    /// to a recipient, consuming the actor ref or not
    Rec(u8, bool),
    Mb(u8),
    Register(u8),
    /// tell, or ask and await (or drop) the reply
    Send(u8, u8, Out),
    /// a task of its own sends by a clone of the handle, waiting for room
    Wait(u8, Out),
    Yield(u8),
    Settle,
    /// link with a companion
    Link(u8, bool),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Fin {
    Drop,
    Kill(u8),
    Stop(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    cap: Option<u8>,
    /// what the start hook does; the operations begin at once
    start: Option<Vec<Step>>,
    steps: Vec<Step>,
    ops: Vec<Op>,
    fin: Fin,
}

static NAMES: AtomicU32 = AtomicU32::new(0);

async fn body(c: &Case, log: &Log) -> CaseResult {
    let other = Log::new();
    let (companion, _cj) = spawn(Sub::new(50, &other, &Script::resilient()), None);
    let script = Script { start: c.start.clone().unwrap_or_default(), ..Script::resilient() };
    let (a, join) = spawn(Sub::new(0, log, &script), c.cap);
    let id = a.id();
    if c.start.is_none() {
        sim::sleep_ms(100).await;
    }
    let mut base = a.weak_count();
    let mut hs: Vec<H> = vec![H::Ref(a)];
    let (mut ups, mut refused, mut zero, mut linked) = (0, 0, false, false);
    let mut sent = 0u32;
    let mut ops = c.ops.clone();
    if c.fin == Fin::Drop {
        ops.push(Op::Settle);
    }
    for (k, op) in ops.into_iter().enumerate() {
        let strong = hs.iter().filter(|h| h.strong()).count();
        let pick = |i: u8, hs: &Vec<H>| if hs.is_empty() { None } else { Some(i as usize % hs.len()) };
        match op {
            Op::Dup(i) => {
                if let Some(i) = pick(i, &hs) {
                    let d = hs[i].dup();
                    check!(log, d.is_some(), "lookup", "op {k}: the registered actor is not found");
                    hs.extend(d);
                }
            }
            Op::Drop(i) => {
                if let Some(i) = pick(i, &hs) {
                    if let H::Name(n) = hs.swap_remove(i) {
                        ACTOR_REGISTRY.lock().unwrap().remove(n.as_str());
                    }
                }
            }
            Op::DropStrong => {
                for h in std::mem::take(&mut hs) {
                    match h {
                        H::Name(n) => drop(ACTOR_REGISTRY.lock().unwrap().remove(n.as_str())),
                        h if !h.strong() => hs.push(h),
                        _ => {}
                    }
                }
            }
            Op::Down(i) => {
                if let Some(i) = pick(i, &hs) {
                    let d = hs[i].down();
                    hs.extend(d);
                }
            }
            Op::Up(i) => {
                if let Some(i) = pick(i, &hs) {
                    if let Some(u) = hs[i].up() {
                        if strong > 0 {
                            check!(log, u.is_some(), "upgrade-fails", "op {k}: a weak handle does not upgrade although {strong} strong ones exist");
                        }
                        if zero {
                            check!(log, u.is_none(), "upgrade-gone", "op {k}: a weak handle upgrades although no strong one exists");
                            refused += 1;
                        }
                        if let Some(u) = u {
                            check!(log, u.id().map(|i| i == id).unwrap_or(true), "wrong-actor", "op {k}: upgraded to another actor");
                            hs.push(u);
                            ups += 1;
                        }
                    }
                }
            }
            Op::Rec(i, keep) => {
                if let Some(i) = pick(i, &hs) {
                    if let H::Ref(a) = &hs[i] {
                        if keep {
                            let r = a.clone().recipient();
                            hs.push(H::Rec(r));
                        } else if let H::Ref(a) = hs.swap_remove(i) {
                            hs.push(H::Rec(a.recipient()));
                        }
                    }
                }
            }
            Op::Mb(i) => {
                if let Some(i) = pick(i, &hs) {
                    if let H::Ref(a) = &hs[i] {
                        let m = a.mailbox_sender().clone();
                        hs.push(H::Mb(m));
                    }
                }
            }
            Op::Register(i) => {
                if let Some(i) = pick(i, &hs) {
                    if let H::Ref(a) = &hs[i] {
                        let n = format!("c13-{}", NAMES.fetch_add(1, Ordering::Relaxed));
                        check!(log, a.register(n.clone()).is_ok(), "register", "op {k}: registering fails");
                        hs.push(H::Name(n));
                    }
                }
            }
            Op::Send(i, how, out) => {
                if let Some(i) = pick(i, &hs) {
                    let job = Job { id: mid(1, sent as usize), steps: c.steps.clone(), out };
                    let id = job.id;
                    sent += 1;
                    match (&hs[i], how % 3) {
                        (H::Ref(a), 1) => {
                            tokio::spawn(send(a.clone(), log.clone(), 1, Kind::EnqTry, job));
                        }
                        (H::Ref(a), 2) => {
                            log.push(1, Ev::SendStart(id, a.is_alive()));
                            let r = Res::of_enq(a.ask(job).try_enqueue().map(drop));
                            log.push(1, Ev::SendEnd(id, r));
                        }
                        (h, _) => {
                            log.push(1, Ev::SendStart(id, true));
                            let r = h.tell(job);
                            log.push(1, Ev::SendEnd(id, r.unwrap_or(Res::Full(None))));
                        }
                    }
                }
            }
            Op::Wait(i, out) => {
                if let Some(i) = pick(i, &hs) {
                    if let H::Ref(a) = &hs[i] {
                        let job = Job { id: mid(2, k), steps: c.steps.clone(), out };
                        let a = a.clone();
                        tokio::spawn(send(a, log.clone(), 2, Kind::Tell, job));
                    }
                }
            }
            Op::Yield(n) => sim::yields(n).await,
            Op::Link(i, on) => {
                if let Some(i) = pick(i, &hs) {
                    if let H::Ref(a) = &hs[i] {
                        if on {
                            companion.link(a).await
                        } else {
                            a.unlink(&companion).await
                        }
                        linked = true;
                    }
                }
            }
            Op::Settle => {
                sim::sleep_ms(2_000).await;
                let strong = hs.iter().filter(|h| h.strong()).count();
                let weak = hs.iter().filter(|h| !h.strong()).count();
                zero = strong == 0;
                let stop = stop_reason(log, 0);
                if strong == 0 {
                    check!(log, stop.as_ref().map(|s| s.0.as_str()) == Some("normal"), "lives-on", "op {k}: no strong reference is left, the actor's stop is {stop:?}");
                    delivery(log, true)?;
                    // what it held internally is gone by now
                    base = 0;
                } else {
                    check!(log, stop.is_none(), "stops-early", "op {k}: the actor stopped with {strong} strong references left");
                }
                for h in &hs {
                    if let Some((s, w)) = h.counts() {
                        check!(log, s == strong, "strong-count", "op {k}: {strong} strong handles exist, the count is {s}");
                        if !linked && c.start.is_none() {
                            check!(log, w == weak + base, "weak-count", "op {k}: {weak} weak handles exist (and {base} internal ones), the count is {w}");
                        }
                    }
                    check!(log, h.id().map(|i| i == id).unwrap_or(true), "wrong-actor", "op {k}: a handle has another actor's id");
                    if let H::Ref(a) = h {
                        check!(log, a.is_alive(), "stops-early", "op {k}: the actor is not alive");
                    }
                    if let H::Rec(a) = h {
                        check!(log, a.is_alive(), "stops-early", "op {k}: the actor is not alive");
                    }
                }
            }
        }
        // at any time
        let strong = hs.iter().filter(|h| h.strong()).count();
        if strong > 0 {
            check!(log, stop_reason(log, 0).is_none(), "stops-early", "op {k}: the actor stopped with {strong} strong references left");
            for h in &hs {
                if let Some((s, _)) = h.counts() {
                    check!(log, s >= strong, "strong-count", "op {k}: {strong} strong handles exist, the count is {s}");
                }
            }
        } else {
            zero = zero || stop_reason(log, 0).is_some();
        }
    }
    // the end
    let mut expect = "normal";
    let by = |i: u8| if hs.is_empty() { None } else { hs.get(i as usize % hs.len()) };
    let (mut ended, mut stopped_up) = (false, false);
    match c.fin {
        Fin::Kill(i) => {
            if let Some(true) = by(i).map(|h| h.kill()) {
                (expect, ended) = ("killed", true);
            }
        }
        Fin::Stop(i) => {
            if let Some(h) = by(i) {
                ended = h.stop().await;
            }
        }
        Fin::Drop => {}
    }
    let mut waiters = vec![];
    if ended {
        for h in &hs {
            match h.dup() {
                Some(H::Ref(a)) => waiters.push(tokio::spawn(async move { a.wait_for_shutdown().await })),
                Some(H::Rec(a)) => waiters.push(tokio::spawn(async move { a.wait_for_shutdown().await })),
                _ => {}
            }
        }
        for (i, w) in waiters.into_iter().enumerate() {
            let r = tokio::time::timeout(Duration::from_secs(1_000_000), w).await;
            check!(log, matches!(r, Ok(Ok(()))), "other-handle", "ended by one handle, a wait by another ({i}) does not complete");
        }
        // handles of an actor which has stopped are handles still
        sim::sleep_ms(2_000).await;
        let strong = hs.iter().filter(|h| h.strong()).count();
        for h in &hs {
            if let Some((s, _)) = h.counts() {
                check!(log, s == strong, "strong-count", "stopped: {strong} strong handles exist, the count is {s}");
            }
            check!(log, h.id().map(|i| i == id).unwrap_or(true), "wrong-actor", "stopped: a handle has another actor's id");
            if let Some(u) = h.up() {
                check!(log, u.is_some() == (strong > 0), "upgrade-fails", "stopped: {strong} strong handles exist, a weak one upgrades: {}", u.is_some());
                check!(log, u.and_then(|u| u.id()).map(|i| i == id).unwrap_or(true), "wrong-actor", "stopped: upgraded to another actor");
                stopped_up = true;
            }
            if let Some(d) = h.down() {
                check!(log, d.up().flatten().is_some(), "upgrade-fails", "stopped: a downgraded handle does not upgrade again");
            }
        }
    }
    for h in hs.drain(..) {
        if let H::Name(n) = h {
            ACTOR_REGISTRY.lock().unwrap().remove(n.as_str());
        }
    }
    match tokio::time::timeout(Duration::from_secs(1_000_000), join).await {
        Ok(Ok((_, r))) => check!(log, desc(&r) == expect, "reason", "the actor stopped with {}, expected {expect}", desc(&r)),
        _ => check!(log, false, "lives-on", "no reference is left, but the actor does not stop"),
    }
    check!(log, companion.is_alive(), "companion", "a linked actor died with it");
    delivery(log, !ended)?;
    lifecycle(log, 0, true)?;
    Ok(Info::new(ups > 0 || refused > 0)
        .label(ups > 0, "upgraded")
        .label(refused > 0, "refused")
        .label(ended, "ended by a handle")
        .label(stopped_up, "upgraded after its stop")
        .label(sent > 0, "messages")
        .label(linked, "linked"))
}

fn case_check(c: &Case) -> CaseResult {
    let out = sim::run(async {
        let log = Log::new();
        body(c, &log).await
    });
    out.unwrap_or_else(|| fail("hang", "the system never comes to rest"))
}

// ---------------------------------------------------------------- real threads

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Race {
    cap: Option<u8>,
    threads: Vec<Vec<(u8, u8)>>,
    keep: bool,
}

fn race(c: &Race) -> CaseResult {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_time().build().unwrap();
    let log = Log::new();
    let (a, join) = rt.block_on(async {
        let (a, j) = spawn(Sub::new(0, &log, &Script::resilient()), c.cap);
        a.wait_for_startup().await;
        (a, j)
    });
    let w = a.downgrade();
    let mut ths = vec![];
    for (t, ops) in c.threads.iter().cloned().enumerate() {
        let (a, w, log) = (a.clone(), w.clone(), log.clone());
        ths.push(std::thread::spawn(move || -> Result<(Vec<H>, u32), Fail> {
            let mut hs = vec![H::Ref(a), H::Weak(w)];
            let mut late = 0;
            for (k, (op, i)) in ops.into_iter().enumerate() {
                let i = i as usize % hs.len();
                match op % 6 {
                    0 => hs.extend(hs[i].dup()),
                    1 | 2 => {
                        if hs.len() > 1 {
                            drop(hs.swap_remove(i));
                        }
                    }
                    3 => hs.extend(hs[i].down()),
                    4 => {
                        let own = hs.iter().any(|h| h.strong());
                        if let Some(u) = hs[i].up() {
                            if own && u.is_none() {
                                return Err(Fail { sig: "upgrade-fails".into(), msg: format!("thread {t}: an upgrade fails while the thread has a strong handle") });
                            }
                            if let (false, Some(_)) = (own, &u) {
                                late += 1;
                            }
                            hs.extend(u);
                        }
                    }
                    _ => {
                        let id = mid(t + 1, k);
                        log.push(t as u32 + 1, Ev::SendStart(id, true));
                        match hs[i].tell(Job::new(id)) {
                            Some(r) => {
                                log.push(t as u32 + 1, Ev::SendEnd(id, r.clone()));
                                if matches!(r, Res::NotRunning(_)) {
                                    return Err(Fail { sig: "stops-early".into(), msg: format!("thread {t}: a message is rejected with {r:?} although the handle is strong and nothing stops the actor") });
                                }
                            }
                            None => log.push(t as u32 + 1, Ev::SendEnd(id, Res::Full(None))),
                        }
                    }
                }
                if hs.is_empty() {
                    break;
                }
            }
            Ok((hs, late))
        }));
    }
    let keep = if c.keep { Some(a) } else { drop(a); None };
    let mut all = vec![];
    let mut late = 0;
    let mut bad = None;
    for t in ths {
        match t.join() {
            Ok(Ok((hs, l))) => {
                all.extend(hs);
                late += l;
            }
            Ok(Err(f)) => bad = Some(f),
            Err(_) => bad = Some(Fail { sig: "panic".into(), msg: "a thread panics".into() }),
        }
    }
    if let Some(f) = bad {
        rt.shutdown_background();
        return Err(f);
    }
    all.extend(keep.map(H::Ref));
    let strong = all.iter().filter(|h| h.strong()).count();
    // queued messages hold the actor too
    let t = Instant::now();
    let mut end = Ok(());
    loop {
        let wrong = all.iter().filter_map(|h| h.counts()).find(|(s, _)| *s != strong);
        if wrong.is_none() {
            break;
        }
        if t.elapsed() > Duration::from_secs(10) {
            end = Err(Fail { sig: "strong-count".into(), msg: format!("{strong} strong handles exist, the count is {}", wrong.unwrap().0) });
            break;
        }
        std::thread::sleep(Duration::from_micros(200));
    }
    if strong > 0 && end.is_ok() && log.get().iter().any(|e| matches!(e.ev, Ev::StopBegin(..))) {
        end = Err(Fail { sig: "stops-early".into(), msg: format!("the actor stopped with {strong} strong references left; history:{}", log.show()) });
    }
    let weak: Vec<H> = all.into_iter().filter(|h| !h.strong()).collect();
    let r = rt.block_on(async { tokio::time::timeout(Duration::from_secs(15), join).await });
    if end.is_ok() {
        end = match r {
            Ok(Ok((_, r))) if desc(&r) == "normal" => Ok(()),
            Ok(Ok((_, r))) => Err(Fail { sig: "reason".into(), msg: format!("all references were dropped, the reason is {}", desc(&r)) }),
            _ => Err(Fail { sig: "lives-on".into(), msg: "no reference is left, but the actor does not stop".into() }),
        };
    }
    if end.is_ok() && weak.iter().any(|h| h.up().unwrap().is_some()) {
        end = Err(Fail { sig: "upgrade-gone".into(), msg: "a weak handle upgrades after the actor stopped for lack of strong ones".into() });
    }
    rt.shutdown_background();
    end?;
    delivery(&log, true)?;
    Ok(Info::new(c.threads.len() > 1)
        .label(late > 0, "upgraded by a thread without a strong handle")
        .label(!c.keep, "no handle kept"))
}

pub fn run(s: &mut Session) {
    s.prop("handles", "a weak handle is upgraded, or refuses", 60_000, 1_500_000, || {
        let op = prop_oneof![
            6 => any::<u8>().prop_map(Op::Dup),
            5 => any::<u8>().prop_map(Op::Drop),
            1 => Just(Op::DropStrong),
            6 => any::<u8>().prop_map(Op::Down),
            6 => any::<u8>().prop_map(Op::Up),
            2 => (any::<u8>(), any::<bool>()).prop_map(|(i, k)| Op::Rec(i, k)),
            1 => any::<u8>().prop_map(Op::Mb),
            1 => any::<u8>().prop_map(Op::Register),
            3 => (any::<u8>(), any::<u8>(), any_out()).prop_map(|(i, h, o)| Op::Send(i, h, o)),
            1 => (any::<u8>(), any_out()).prop_map(|(i, o)| Op::Wait(i, o)),
            1 => (0u8..4).prop_map(Op::Yield),
            4 => Just(Op::Settle),
            1 => (any::<u8>(), any::<bool>()).prop_map(|(i, o)| Op::Link(i, o)),
        ];
        let fin = prop_oneof![2 => Just(Fin::Drop), 1 => any::<u8>().prop_map(Fin::Kill), 1 => any::<u8>().prop_map(Fin::Stop)];
        let start = prop::option::weighted(0.4, prop::collection::vec(
            prop_oneof![3 => pause(), 1 => (200_000u32..200_009).prop_map(Step::SelfTell)], 0..3));
        boxed((cap(), start, pauses(3), prop::collection::vec(op, 3..40), fin).prop_map(|(cap, start, steps, ops, fin)| {
            let mut start = start;
            // (ids are unique)
            for (k, s) in start.iter_mut().flatten().enumerate() {
                if let Step::SelfTell(id) = s {
                    *id = 200_000 + k as u32;
                }
            }
            Case { cap, start, steps, ops, fin }
        }))
    }, case_check);
    s.prop_sharded("handle_races", "two or more threads use handles", 2_500, 60_000, 4, || {
        boxed(
            (cap(), prop::collection::vec(prop::collection::vec((any::<u8>(), any::<u8>()), 1..40), 1..5), any::<bool>())
                .prop_map(|(cap, threads, keep)| Race { cap, threads, keep }),
        )
    }, race);
}

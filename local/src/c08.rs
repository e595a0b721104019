//! C08: startup ordering and buffering.
use std::time::Duration;

use kameo::actor::PreparedActor;
use pbt::{boxed, sim, CaseResult, Fail, Info, Session};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::lab::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum StartStep {
    Pause(Step),
    /// a message to oneself: as an ask, what its handler does, and whether it sends on to itself
    Own(bool, Vec<Step>, Out, bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    cap: Option<u8>,
    start: Vec<StartStep>,
    /// messages accepted before the actor is spawned
    queued: Vec<Item>,
    tasks: Vec<Vec<Item>>,
    panic_yields: u8,
    /// a linked actor dies before the start hook has finished
    peer_dies: bool,
}

/// The jobs the start hook sends to itself are fixed by their ids.
fn jobs(c: &Case) -> Vec<Job> {
    let mut v = vec![];
    for s in &c.start {
        if let StartStep::Own(_, steps, out, more) = s {
            let id = 200_000 + v.len() as u32;
            let mut steps = steps.clone();
            if *more {
                steps.push(Step::SelfTell(300_000 + v.len() as u32));
            }
            v.push(Job { id, steps, out: *out });
        }
    }
    v
}

async fn body(c: &Case, log: &Log, virt: bool) -> Result<(), Fail> {
    let patience = if virt { Duration::from_secs(1_000_000) } else { Duration::from_secs(20) };
    let mut start = vec![];
    let mut js = jobs(c).into_iter();
    for s in &c.start {
        match s {
            StartStep::Pause(p) => start.push(p.clone()),
            StartStep::Own(ask, ..) => start.push(Step::SelfJob(*ask, js.next().unwrap())),
        }
    }
    let script = Script { start, panic: vec![(c.panic_yields, Decide::Continue)], ..Script::resilient() };
    let p = PreparedActor::new(mailbox(c.cap));
    let a = p.actor_ref().clone();
    let mut peer = None;
    if c.peer_dies {
        let x = PreparedActor::new(mailbox(None));
        x.actor_ref().link(&a).await;
        let r = x.actor_ref().clone();
        peer = Some(x.spawn(Sub::new(20, &Log::new(), &Script::default())));
        r.kill();
    }
    for (i, it) in c.queued.iter().cloned().enumerate() {
        let kind = if it.kind.is_ask() { Kind::EnqTry } else { Kind::TellTry };
        let job = Job { id: mid(8, i), steps: it.steps, out: it.out };
        send(a.clone(), log.clone(), 8, kind, job).await;
    }
    let mut hs = vec![];
    for (t, items) in c.tasks.iter().cloned().enumerate() {
        hs.push(tokio::spawn(sender(a.clone(), log.clone(), t, items)));
    }
    let _join = p.spawn(Sub::new(0, log, &script));
    for h in hs {
        if !matches!(tokio::time::timeout(patience, h).await, Ok(Ok(()))) {
            return Err(hang(log, "a request hangs or panics"));
        }
    }
    if tokio::time::timeout(patience, a.wait_for_startup()).await.is_err() {
        return Err(hang(log, "the actor never starts"));
    }
    if virt {
        sim::sleep_ms(5_000).await;
    } else {
        let told = |l: &[Entry]| !c.peer_dies || l.iter().any(|e| matches!(e.ev, Ev::LinkHook(..)));
        at_rest(log, Duration::from_secs(10), told).await;
    }
    if let Some(p) = peer {
        let _ = p.await;
    }
    check!(log, a.is_alive(), "died", "the actor died");
    Ok(())
}

fn verdict(c: &Case, log: &Log) -> CaseResult {
    let m = delivery(log, true)?;
    lifecycle(log, 0, false)?;
    let l = log.get();
    let begun: Vec<u32> = l.iter().filter_map(|e| match e.ev { Ev::Begin(i) => Some(i), _ => None }).collect();
    let own: Vec<u32> = jobs(c).iter().map(|j| j.id).filter(|id| m.get(id).map(|x| matches!(&x.end, Some((_, r)) if r.accepted())).unwrap_or(false)).collect();
    let first: Vec<u32> = begun.iter().copied().filter(|i| (200_000..300_000).contains(i)).collect();
    check!(log, first == own, "start-order", "the start hook sent {own:?}, handled were {first:?}");
    let ext = begun.iter().position(|i| *i < 100_000).unwrap_or(begun.len());
    let late = begun[ext..].iter().find(|i| (200_000..300_000).contains(*i));
    check!(log, late.is_none(), "overtaken", "start message {late:?} was handled after message {} from outside", begun[ext]);
    let hooks: Vec<&Ev> = l.iter().filter(|e| e.who == 0).map(|e| &e.ev).collect();
    let linkd = hooks.iter().filter(|e| matches!(e, Ev::LinkHook(..))).count();
    check!(log, linkd == c.peer_dies as usize, "link", "{linkd} link notifications");
    let before = m.iter().filter(|(id, x)| **id < 100_000 && x.end.as_ref().map(|(t, r)| r.accepted() && l[..*t].iter().all(|e| e.ev != Ev::StartEnd(true))).unwrap_or(false)).count();
    let recovered = hooks.iter().any(|e| matches!(e, Ev::PanicHook(_)));
    let full = m.values().any(|x| matches!(x.end, Some((_, Res::Full(_)))));
    Ok(Info::new(!own.is_empty() && before > 0)
        .label(full, "mailbox full")
        .label(recovered, "recovered from a failing handler")
        .label(before > 0, "accepted before start was over"))
}

fn sim_case(c: &Case) -> CaseResult {
    let out = sim::run(async {
        let log = Log::new();
        body(c, &log, true).await?;
        Ok(log)
    });
    match out {
        Some(Ok(log)) => verdict(c, &log),
        Some(Err(f)) => Err(f),
        None => Err(Fail { sig: "hang".into(), msg: "the system never comes to rest".into() }),
    }
}

fn mt_case(c: &Case) -> CaseResult {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_time().build().unwrap();
    let log = Log::new();
    let r = rt.block_on(body(c, &log, false));
    rt.shutdown_background();
    r?;
    verdict(c, &log)
}

fn case(max: usize) -> BoxedStrategy<Case> {
    let step = || {
        let out = prop_oneof![4 => mild(), 1 => Just(Out::Err), 1 => Just(Out::PanicStr)];
        prop_oneof![
            2 => pause().prop_map(StartStep::Pause),
            3 => (any::<bool>(), pauses(2), out, any::<bool>()).prop_map(|(a, s, o, m)| StartStep::Own(a, s, o, m)),
        ]
    };
    let out = || prop_oneof![5 => mild(), 1 => Just(Out::Err), 1 => Just(Out::PanicOwned)];
    let cap = prop_oneof![2 => Just(None), 3 => Just(Some(1u8)), 3 => Just(Some(2)), 3 => Just(Some(3)), 2 => Just(Some(5)), 1 => Just(Some(64))];
    boxed(
        (
            cap,
            prop::collection::vec(step(), 0..6),
            prop::collection::vec(item(boxed(out())), 0..5),
            prop::collection::vec(prop::collection::vec(item(boxed(out())), 0..max), 0..4),
            0u8..3,
            prop::bool::weighted(0.2),
        )
            .prop_map(|(cap, start, queued, tasks, panic_yields, peer_dies)| Case { cap, start, queued, tasks, panic_yields, peer_dies }),
    )
}

pub fn run(s: &mut Session) {
    s.prop("virtual_schedules", "start messages, and messages from outside accepted before the start hook was over", 40_000, 800_000,
        || case(6), sim_case);
    s.prop_sharded("real_threads", "start messages, and messages from outside accepted before the start hook was over", 2_000, 40_000, 4,
        || case(10), mt_case);
}

//! C01: exactly once, in order, one at a time.
use pbt::{boxed, sim, CaseResult, Fail, Info, Session};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::lab::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    cap: Option<u8>,
    start: Vec<Step>,
    /// how many of the senders' tasks are started before the actor is spawned
    early: bool,
    tasks: Vec<Vec<Item>>,
    selfs: Vec<(u8, u8, u8)>,
}

fn prepare(c: &Case) -> Vec<Vec<Item>> {
    let mut tasks = c.tasks.clone();
    // self sends are steps of some messages
    for (k, (t, i, kind)) in c.selfs.iter().enumerate() {
        let n = tasks.len();
        let t = &mut tasks[*t as usize % n];
        if t.is_empty() {
            continue;
        }
        let len = t.len();
        let id = 100_000 + k as u32;
        t[*i as usize % len].steps.push(match kind {
            0 => Step::SelfAsk(id),
            1 | 2 => Step::SelfTell(id),
            // (waiting for room in its own mailbox, which nobody makes)
            ms => Step::SelfWait(id, *ms),
        });
    }
    tasks
}

fn verdict(c: &Case, log: &Log, ids: usize) -> CaseResult {
    let m = delivery(log, true)?;
    check!(log, m.values().filter(|x| x.end.is_some()).count() >= ids, "incomplete", "not every send completed");
    for (id, x) in &m {
        if let Some((_, Res::NotRunning(_) | Res::Timeout(Some(_)))) = &x.end {
            check!(log, false, "spurious-error", "message {id} failed with {:?} on a running actor", x.end);
        }
    }
    lifecycle(log, 0, false)?;
    let rejected = m.values().filter(|x| matches!(&x.end, Some((_, r)) if !r.accepted())).count();
    let l = log.get();
    // a send that started while a handler was suspended
    let mut busy = false;
    let mut during = 0;
    for e in &l {
        match e.ev {
            Ev::Begin(_) => busy = true,
            Ev::End(_) => busy = false,
            Ev::SendStart(..) if busy => during += 1,
            _ => {}
        }
    }
    Ok(Info::new(during > 0 && c.tasks.len() > 1)
        .label(rejected > 0, "mailbox full")
        .label(c.early, "sent before start")
        .label(!c.selfs.is_empty(), "self sends"))
}

fn sim_case(c: &Case) -> CaseResult {
    let tasks = prepare(c);
    let n: usize = tasks.iter().map(|t| t.len()).sum();
    let out = sim::run(async {
        let log = Log::new();
        let script = Script { start: c.start.clone(), ..Script::resilient() };
        let p = kameo::actor::PreparedActor::new(mailbox(c.cap));
        let a = p.actor_ref().clone();
        let sub = Sub::new(0, &log, &script);
        let mut hs = vec![];
        let mut p = Some((p, sub));
        if !c.early {
            let (p, sub) = p.take().unwrap();
            p.spawn(sub);
        }
        for (t, items) in tasks.into_iter().enumerate() {
            hs.push(tokio::spawn(sender(a.clone(), log.clone(), t, items)));
        }
        if let Some((p, sub)) = p.take() {
            sim::yields(3).await;
            p.spawn(sub);
        }
        for h in hs {
            if sim::settled(h).await.is_none() {
                return Err(hang(&log, "a sender never completes"));
            }
        }
        sim::sleep_ms(5_000).await;
        Ok(log)
    });
    match out {
        Some(Ok(log)) => verdict(c, &log, n),
        Some(Err(f)) => Err(f),
        None => Err(Fail { sig: "hang".into(), msg: "the system never comes to rest".into() }),
    }
}

/// The same histories on several worker threads: real races between senders and the actor.
fn mt_case(c: &Case) -> CaseResult {
    let tasks = prepare(c);
    let n: usize = tasks.iter().map(|t| t.len()).sum();
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_time().build().unwrap();
    let log = Log::new();
    let done = rt.block_on(async {
        let script = Script { start: c.start.clone(), ..Script::resilient() };
        let (a, _j) = spawn(Sub::new(0, &log, &script), c.cap);
        let mut hs = vec![];
        for (t, items) in tasks.into_iter().enumerate() {
            hs.push(tokio::spawn(sender(a.clone(), log.clone(), t, items)));
        }
        let all = async {
            for h in hs {
                let _ = h.await;
            }
            at_rest(&log, std::time::Duration::from_secs(60), |_| true).await;
        };
        tokio::time::timeout(std::time::Duration::from_secs(20), all).await.is_ok()
    });
    rt.shutdown_background();
    if !done {
        return match verdict(c, &log, n) {
            Err(f) => Err(f),
            Ok(_) => Err(hang(&log, "accepted messages are still unhandled after 20 s")),
        };
    }
    verdict(c, &log, n)
}

fn case(max: usize, early: bool) -> BoxedStrategy<Case> {
    boxed(
        (
            cap(),
            pauses(2),
            any::<bool>(),
            prop::collection::vec(prop::collection::vec(item(boxed(mild())), 0..max), 1..5),
            prop::collection::vec((any::<u8>(), any::<u8>(), 0u8..6), 0..5),
        )
            .prop_map(move |(cap, start, e, tasks, selfs)| Case { cap, start, early: e && early, tasks, selfs }),
    )
}

pub fn run(s: &mut Session) {
    s.prop("virtual_schedules", "several senders, one of them sending while a handler is suspended", 30_000, 600_000,
        || case(10, true), sim_case);
    s.prop_sharded("real_threads", "several senders, one of them sending while a handler is suspended", 600, 12_000, 2,
        || case(20, false), mt_case);
}

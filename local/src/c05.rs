//! C05: a graceful stop handles everything queued before it and nothing after.
use std::time::Duration;

use kameo::actor::{ActorRef, PreparedActor};
use pbt::{boxed, sim, CaseResult, Fail, Info, Session};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::lab::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum By {
    /// some task calls `stop_gracefully` on an actor ref or a recipient
    Ref,
    Rec,
    /// the actor's own handler has a task call it
    Within(u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct StopReq {
    at: u8,
    yields: u8,
    by: By,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    cap: Option<u8>,
    start: Vec<Step>,
    start_msgs: u8,
    spawn_after: bool,
    stop_hook: Vec<Step>,
    tasks: Vec<Vec<Item>>,
    stops: Vec<StopReq>,
    late: Vec<Item>,
}

pub fn stop_task(a: ActorRef<Sub>, log: Log, rec: bool) -> tokio::task::JoinHandle<()> {
    tokio::spawn(async move {
        log.push(98, Ev::StopReq);
        let r = if rec {
            let r: kameo::actor::Recipient<Job> = a.recipient();
            r.stop_gracefully().await
        } else {
            a.stop_gracefully().await
        };
        log.push(98, Ev::StopReqEnd(r.is_ok()));
    })
}

fn script(c: &Case) -> Script {
    let mut start = c.start.clone();
    for i in 0..c.start_msgs {
        start.push(if i % 2 == 0 { Step::SelfTell(200_000 + i as u32) } else { Step::SelfAsk(200_000 + i as u32) });
    }
    Script { start, stop: c.stop_hook.clone(), ..Script::resilient() }
}

fn tasks(c: &Case) -> Vec<Vec<Item>> {
    let mut tasks = c.tasks.clone();
    for s in &c.stops {
        if let By::Within(t, i) = s.by {
            let n = tasks.len();
            let t = &mut tasks[t as usize % n];
            if !t.is_empty() {
                let len = t.len();
                t[i as usize % len].steps.push(Step::SelfStop);
            }
        }
    }
    tasks
}

async fn body(c: &Case, log: &Log, virt: bool) -> Result<(), Fail> {
    let wait = move |ms: u64| async move {
        if virt {
            sim::sleep_ms(ms).await
        } else {
            tokio::time::sleep(Duration::from_micros(ms * 100)).await
        }
    };
    let patience = if virt { Duration::from_secs(1_000_000) } else { Duration::from_secs(20) };
    let p = PreparedActor::new(mailbox(c.cap));
    let a = p.actor_ref().clone();
    let sub = Sub::new(0, log, &script(c));
    let mut p = Some((p, sub));
    let mut join = None;
    if !c.spawn_after {
        let (p, s) = p.take().unwrap();
        join = Some(p.spawn(s));
    }
    let mut hs = vec![];
    for (t, items) in tasks(c).into_iter().enumerate() {
        hs.push(tokio::spawn(sender(a.clone(), log.clone(), t, items)));
    }
    for s in &c.stops {
        if let By::Within(..) = s.by {
            continue;
        }
        let (a, log, s) = (a.clone(), log.clone(), s.clone());
        hs.push(tokio::spawn(async move {
            wait(s.at as u64).await;
            sim::yields(s.yields).await;
            let _ = stop_task(a, log, matches!(s.by, By::Rec)).await;
        }));
    }
    if let Some((p, s)) = p.take() {
        wait(2).await;
        join = Some(p.spawn(s));
    }
    for h in hs {
        match tokio::time::timeout(patience, h).await {
            Err(_) => return Err(hang(log, "a request or a stop never completes")),
            Ok(Err(e)) => return Err(Fail { sig: "panic-in-caller".into(), msg: format!("{e}; history:{}", log.show()) }),
            _ => {}
        }
    }
    if !c.stops.iter().any(|s| !matches!(s.by, By::Within(..))) {
        // the handler asked to stop may have been rejected
        let h = stop_task(a.clone(), log.clone(), false);
        let _ = tokio::time::timeout(patience, h).await;
    }
    if tokio::time::timeout(patience, a.wait_for_shutdown()).await.is_err() {
        return Err(hang(log, "the actor never stops"));
    }
    let (sub, reason) = match tokio::time::timeout(patience, join.unwrap()).await {
        Ok(Ok(x)) => x,
        _ => return Err(hang(log, "the actor's task does not end in the orderly way")),
    };
    log.push(0, Ev::Note(format!("joined {} {}", desc(&reason), sub.state)));
    // once more, and requests after the end
    for rec in [false, true] {
        if tokio::time::timeout(patience, stop_task(a.clone(), log.clone(), rec)).await.map(|r| r.is_ok()) != Ok(true) {
            return Err(hang(log, "stopping a stopped actor hangs or panics"));
        }
    }
    let h = tokio::spawn(sender(a.clone(), log.clone(), 9, c.late.clone()));
    if !matches!(tokio::time::timeout(patience, h).await, Ok(Ok(()))) {
        return Err(hang(log, "a request to a stopped actor hangs or panics"));
    }
    if virt {
        sim::sleep_ms(1_000).await;
    } else {
        // replies of enqueued requests are logged by tasks of their own
        let t = std::time::Instant::now();
        loop {
            let m = messages(&log.get());
            let kinds = kinds(c);
            let pending = m.iter().any(|(id, x)| {
                kinds.get(id).map(|k| k.enq()).unwrap_or(false)
                    && matches!(&x.end, Some((_, r)) if r.accepted())
                    && x.reply.is_none()
            });
            if !pending || t.elapsed() > Duration::from_secs(10) {
                break;
            }
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
    }
    Ok(())
}

fn kinds(c: &Case) -> std::collections::BTreeMap<u32, Kind> {
    c.tasks
        .iter()
        .enumerate()
        .chain([(9usize, &c.late)])
        .flat_map(|(t, items)| items.iter().enumerate().map(move |(i, it)| (mid(t, i), it.kind)))
        .collect()
}

fn panics(c: &Case, id: u32) -> bool {
    let (t, i) = ((id / 1000) as usize, (id % 1000) as usize);
    c.tasks.get(t).and_then(|t| t.get(i)).map(|it| it.out.panics()).unwrap_or(false)
}

fn verdict(c: &Case, log: &Log) -> CaseResult {
    let m = delivery(log, false)?;
    lifecycle(log, 0, true)?;
    let l = log.get();
    let first_req = l.iter().position(|e| e.ev == Ev::StopReq).unwrap_or(l.len());
    let first_ok = l.iter().position(|e| e.ev == Ev::StopReqEnd(true)).unwrap_or(l.len());
    let (mut before, mut after, mut between) = (0, 0, 0);
    for (id, x) in &m {
        let (Some(s), Some((e, r))) = (x.start, &x.end) else {
            check!(log, false, "incomplete", "request {id} never completed");
            continue;
        };
        if r.accepted() && *e < first_req {
            before += 1;
            check!(log, x.begin.len() == 1 && (x.fin.len() == 1 || panics(c, *id)), "dropped", "message {id} was accepted before the stop was asked for, but not handled");
        }
        if s > first_ok {
            after += 1;
            check!(log, x.begin.is_empty(), "handled-after", "message {id} was sent after the stop was accepted, but handled");
        }
        if r.accepted() && x.begin.is_empty() {
            between += 1;
        }
    }
    for (id, k) in kinds(c) {
        let Some(x) = m.get(&id) else { continue };
        let Some((_, r)) = &x.end else { continue };
        let res = if k.enq() {
            if !r.accepted() {
                continue;
            }
            match &x.reply {
                Some((_, r)) => r.clone(),
                None => {
                    check!(log, false, "unanswered", "request {id} was left pending");
                    continue;
                }
            }
        } else {
            r.clone()
        };
        if k.is_ask() && x.begin.is_empty() {
            check!(log, matches!(res, Res::Stopped | Res::NotRunning(_) | Res::Full(_)), "left-behind", "unhandled request {id} resolved to {res:?}");
        }
    }
    let (reason, state) = stop_reason(log, 0).unwrap();
    check!(log, reason == "normal", "reason", "the stop reason is {reason}");
    check!(log, l.iter().any(|e| e.ev == Ev::Note(format!("joined normal {state}"))), "reason", "the actor returned another reason or state than its stop hook saw");
    // handled messages: completed before the stop hook
    let sb = l.iter().position(|e| matches!(e.ev, Ev::StopBegin(..))).unwrap();
    check!(log, !l[sb..].iter().any(|e| e.who == 0 && matches!(e.ev, Ev::Begin(_) | Ev::Step(_))), "after-stop", "the actor is active after its stop hook began");
    Ok(Info::new(before > 0 && (between > 0 || after > 0))
        .label(between > 0, "queued behind the stop")
        .label(c.stops.len() > 1, "several stops"))
}

fn sim_case(c: &Case) -> CaseResult {
    let out = sim::run(async {
        let log = Log::new();
        body(c, &log, true).await?;
        Ok(log)
    });
    match out {
        Some(Ok(log)) => verdict(c, &log),
        Some(Err(f)) => Err(f),
        None => Err(Fail { sig: "hang".into(), msg: "the system never comes to rest".into() }),
    }
}

fn mt_case(c: &Case) -> CaseResult {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_time().build().unwrap();
    let log = Log::new();
    let r = rt.block_on(body(c, &log, false));
    rt.shutdown_background();
    r?;
    verdict(c, &log)
}

fn case(max: usize) -> BoxedStrategy<Case> {
    let by = prop_oneof![4 => Just(By::Ref), 2 => Just(By::Rec), 2 => (any::<u8>(), any::<u8>()).prop_map(|(t, i)| By::Within(t, i))];
    let stop = (0u8..14, 0u8..6, by).prop_map(|(at, yields, by)| StopReq { at, yields, by });
    let out = prop_oneof![6 => mild(), 1 => Just(Out::Err), 1 => Just(Out::PanicOwned)];
    boxed(
        (
            (cap(), pauses(2), prop_oneof![2 => Just(0u8), 1 => 1u8..4], any::<bool>(), pauses(3)),
            prop::collection::vec(prop::collection::vec(item(boxed(out)), 0..max), 1..5),
            prop::collection::vec(stop, 1..4),
            prop::collection::vec(item(boxed(mild())), 0..4),
        )
            .prop_map(|((cap, start, start_msgs, spawn_after, stop_hook), tasks, stops, late)| Case {
                cap, start, start_msgs, spawn_after, stop_hook, tasks, stops, late,
            }),
    )
}

pub fn run(s: &mut Session) {
    s.prop("virtual_schedules", "messages accepted before the stop and others left behind or sent after it", 30_000, 600_000,
        || case(9), sim_case);
    s.prop_sharded("real_threads", "messages accepted before the stop and others left behind or sent after it", 1_600, 30_000, 4,
        || case(15), mt_case);
}

//! C06: a kill takes effect at once and still runs the stop hook.
use std::{sync::Arc, time::Duration};

use kameo::actor::{ActorRef, PreparedActor, Recipient};
use pbt::{boxed, sim, CaseResult, Fail, Info, Session};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tokio::sync::Semaphore;

use crate::{c05::stop_task, lab::*};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum When {
    /// before the actor is spawned
    Unspawned,
    /// by another task at that time
    At(u8, u8),
    /// by the start hook
    InStart,
    /// by a handler, before its last so many steps
    Within(u8, u8, u8),
    /// once the stop hook has begun
    InStop,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct KillReq {
    when: When,
    rec: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    cap: Option<u8>,
    start: Vec<Step>,
    start_out: Out,
    panic: Vec<(u8, Decide)>,
    stop_hook: Vec<Step>,
    stop_out: Out,
    tasks: Vec<Vec<Item>>,
    /// handlers which never end on their own
    stuck: Vec<(u8, u8)>,
    kills: Vec<KillReq>,
    stop_at: Option<u8>,
    late: Vec<Item>,
}

fn tasks(c: &Case) -> Vec<Vec<Item>> {
    let mut tasks = c.tasks.clone();
    let n = tasks.len();
    for (t, i) in &c.stuck {
        let t = &mut tasks[*t as usize % n];
        if !t.is_empty() {
            let len = t.len();
            t[*i as usize % len].steps.push(Step::Gate);
        }
    }
    for k in &c.kills {
        if let When::Within(t, i, back) = k.when {
            let t = &mut tasks[t as usize % n];
            if !t.is_empty() {
                let len = t.len();
                let st = &mut t[i as usize % len].steps;
                let pos = st.len() - (back as usize).min(st.len());
                st.insert(pos, Step::Kill);
            }
        }
    }
    tasks
}

fn kill(a: &ActorRef<Sub>, log: &Log, rec: bool) {
    log.push(50, Ev::Kill);
    if rec {
        let r: Recipient<Job> = a.clone().recipient();
        r.kill();
    } else {
        a.kill();
    }
}

async fn body(c: &Case, log: &Log, virt: bool) -> Result<(), Fail> {
    let patience = if virt { Duration::from_secs(1_000_000) } else { Duration::from_secs(20) };
    let wait = move |ms: u64| async move {
        if virt {
            sim::sleep_ms(ms).await
        } else {
            tokio::time::sleep(Duration::from_micros(ms * 100)).await
        }
    };
    let mut script = Script {
        start: c.start.clone(),
        start_out: c.start_out,
        panic: c.panic.clone(),
        stop: c.stop_hook.clone(),
        stop_out: c.stop_out,
        ..Script::resilient()
    };
    for k in &c.kills {
        if let When::InStart = k.when {
            script.start.insert(script.start.len() / 2, Step::Kill);
        }
    }
    let p = PreparedActor::new(mailbox(c.cap));
    let a = p.actor_ref().clone();
    let gate = Arc::new(Semaphore::new(0));
    let sub = Sub::new(0, log, &script).with_gate(&gate);
    let unspawned = c.kills.iter().filter(|k| matches!(k.when, When::Unspawned)).collect::<Vec<_>>();
    let mut hs = vec![];
    for (t, items) in tasks(c).into_iter().enumerate() {
        hs.push(tokio::spawn(sender(a.clone(), log.clone(), t, items)));
    }
    if !unspawned.is_empty() {
        wait(1).await;
        for k in unspawned {
            kill(&a, log, k.rec);
        }
        wait(1).await;
    }
    let join = p.spawn(sub);
    for k in &c.kills {
        let (a, log, k) = (a.clone(), log.clone(), k.clone());
        match k.when {
            When::At(ms, y) => hs.push(tokio::spawn(async move {
                wait(ms as u64).await;
                sim::yields(y).await;
                kill(&a, &log, k.rec);
            })),
            When::InStop => hs.push(tokio::spawn(async move {
                for _ in 0..400 {
                    if log.get().iter().any(|e| matches!(e.ev, Ev::StopBegin(..))) {
                        kill(&a, &log, k.rec);
                        break;
                    }
                    tokio::time::sleep(Duration::from_millis(1)).await;
                }
            })),
            _ => {}
        }
    }
    if let Some(at) = c.stop_at {
        let (a, log) = (a.clone(), log.clone());
        hs.push(tokio::spawn(async move {
            wait(at as u64).await;
            let _ = stop_task(a, log, false).await;
        }));
    }
    // a kill in any case
    let (a2, log2) = (a.clone(), log.clone());
    hs.push(tokio::spawn(async move {
        wait(60).await;
        kill(&a2, &log2, false);
    }));
    for h in hs {
        match tokio::time::timeout(patience, h).await {
            Err(_) => return Err(hang(log, "a request, stop or kill never completes")),
            Ok(Err(e)) => return Err(Fail { sig: "panic-in-caller".into(), msg: format!("{e}; history:{}", log.show()) }),
            _ => {}
        }
    }
    if tokio::time::timeout(patience, a.wait_for_shutdown()).await.is_err() {
        return Err(hang(log, "the killed actor never stops"));
    }
    let (sub, reason) = match tokio::time::timeout(patience, join).await {
        Ok(Ok(x)) => x,
        _ => return Err(hang(log, "the actor's task does not end in the orderly way")),
    };
    log.push(0, Ev::Note(format!("joined {} {}", desc(&reason), sub.state)));
    kill(&a, log, false);
    kill(&a, log, true);
    let h = tokio::spawn(sender(a.clone(), log.clone(), 9, c.late.clone()));
    if !matches!(tokio::time::timeout(patience, h).await, Ok(Ok(()))) {
        return Err(hang(log, "a request to a killed actor hangs or panics"));
    }
    if virt {
        sim::sleep_ms(1_000).await;
    } else {
        for _ in 0..3_000 {
            let m = messages(&log.get());
            let k = kinds(c);
            if !m.iter().any(|(id, x)| k.get(id).map(|k| k.enq()) == Some(true) && x.reply.is_none() && matches!(&x.end, Some((_, r)) if r.accepted())) {
                break;
            }
            tokio::time::sleep(Duration::from_millis(3)).await;
        }
    }
    Ok(())
}

fn kinds(c: &Case) -> std::collections::BTreeMap<u32, Kind> {
    c.tasks
        .iter()
        .enumerate()
        .chain([(9usize, &c.late)])
        .flat_map(|(t, items)| items.iter().enumerate().map(move |(i, it)| (mid(t, i), it.kind)))
        .collect()
}

fn verdict(c: &Case, log: &Log, virt: bool) -> CaseResult {
    let m = delivery(log, false)?;
    lifecycle(log, 0, true)?;
    let l = log.get();
    let sb = l.iter().position(|e| matches!(e.ev, Ev::StopBegin(..))).unwrap();
    let (reason, state) = stop_reason(log, 0).unwrap();
    check!(log, l.iter().any(|e| e.ev == Ev::Note(format!("joined {reason} {state}"))), "reason", "the actor returned another reason or state than its stop hook saw ({reason}, {state})");
    let steps = l.iter().filter(|e| e.who == 0 && matches!(e.ev, Ev::Step(_))).count() as u64;
    check!(log, state == steps, "state", "the stop hook saw state {state}, the handlers left {steps}");
    let outside = l[..sb].iter().position(|e| e.who == 50 && e.ev == Ev::Kill);
    let own = l[..sb].iter().position(|e| e.who == 0 && e.ev == Ev::Kill);
    let start_end = l.iter().position(|e| matches!(e.ev, Ev::StartEnd(_)));
    let started_ok = l.iter().any(|e| e.ev == Ev::StartEnd(true));
    // a failing start hook ends the actor with its own error
    let mut cut = false;
    if virt && started_ok {
        if let Some(k) = outside {
            // handlers are suspended while another task runs
            let busy = l[k..sb].iter().filter(|e| e.who == 0).find(|e| {
                matches!(e.ev, Ev::Begin(_) | Ev::End(_) | Ev::PanicHook(_) | Ev::PanicHookEnd(_) | Ev::LinkHook(..))
                    || matches!(e.ev, Ev::Step(i) if i != u32::MAX)
            });
            check!(log, busy.is_none(), "not-at-once", "{busy:?} happened after the kill");
            if own.is_none() {
                check!(log, reason == "killed", "reason", "killed, but the stop reason is {reason}");
            }
            cut = l[..k].iter().filter(|e| e.who == 0).rev().find(|e| !matches!(e.ev, Ev::Susp | Ev::Step(_) | Ev::Kill)).map(|e| matches!(e.ev, Ev::Begin(_) | Ev::PanicHook(_))).unwrap_or(false);
        }
        if let Some(k) = own {
            if start_end.unwrap() > k {
                check!(log, !l.iter().any(|e| matches!(e.ev, Ev::Begin(_))), "not-at-once", "killed by the start hook, yet a message was handled");
                check!(log, reason == "killed", "reason", "killed by the start hook, but the stop reason is {reason}");
            } else {
                let susp = l[k..sb].iter().position(|e| e.who == 0 && e.ev == Ev::Susp).map(|p| p + k);
                let other = l[k..sb].iter().find(|e| e.who != 0 && e.who != 99);
                check!(log, other.is_none(), "not-at-once", "{other:?} happened between the actor killing itself and its stop hook");
                if let Some(s) = susp {
                    cut = true;
                    let more = l[s + 1..sb].iter().find(|e| e.who == 0);
                    check!(log, more.is_none(), "not-at-once", "{more:?} happened although the handler killed the actor and suspended");
                    check!(log, reason == "killed", "reason", "killed by a handler which then suspended, but the stop reason is {reason}");
                }
            }
        }
    }
    if !virt && started_ok && reason != "killed" {
        // on several threads a kill may lose the race with another reason to stop
        let other = c.stop_at.is_some() || c.panic.iter().any(|(_, d)| *d != Decide::Continue);
        check!(log, other, "reason", "killed, but the stop reason is {reason}");
    }
    let mut pending = 0;
    for (id, x) in &m {
        let Some((_, r)) = &x.end else {
            check!(log, false, "incomplete", "request {id} never completed");
            continue;
        };
        let Some(k) = kinds(c).get(id).copied() else { continue };
        if !r.accepted() || !k.is_ask() {
            continue;
        }
        let res = if k.enq() {
            match &x.reply {
                Some((_, r)) => r.clone(),
                None => {
                    check!(log, false, "unanswered", "request {id} was left pending");
                    continue;
                }
            }
        } else {
            r.clone()
        };
        if x.fin.is_empty() {
            pending += 1;
            let early = !x.begin.is_empty() && matches!(res, Res::Val(_));
            check!(log, res == Res::Stopped || early, "pending-ask", "request {id}, never answered by its handler, resolved to {res:?}");
        }
    }
    let dropped = m.values().filter(|x| x.begin.is_empty() && matches!(&x.end, Some((_, r)) if r.accepted())).count();
    Ok(Info::new(cut || (dropped > 0 && reason == "killed"))
        .label(cut, "handler aborted")
        .label(own.is_some(), "killed from inside")
        .label(dropped > 0, "queued messages dropped")
        .label(pending > 0, "pending asks failed")
        .label(c.kills.iter().any(|k| matches!(k.when, When::InStop | When::Unspawned)), "killed before start or while stopping"))
}

fn sim_case(c: &Case) -> CaseResult {
    let out = sim::run(async {
        let log = Log::new();
        body(c, &log, true).await?;
        Ok(log)
    });
    match out {
        Some(Ok(log)) => verdict(c, &log, true),
        Some(Err(f)) => Err(f),
        None => Err(Fail { sig: "hang".into(), msg: "the system never comes to rest".into() }),
    }
}

fn mt_case(c: &Case) -> CaseResult {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_time().build().unwrap();
    let log = Log::new();
    let r = rt.block_on(body(c, &log, false));
    rt.shutdown_background();
    r?;
    verdict(c, &log, false)
}

fn case(max: usize) -> BoxedStrategy<Case> {
    let when = prop_oneof![
        1 => Just(When::Unspawned),
        6 => (0u8..16, 0u8..6).prop_map(|(a, b)| When::At(a, b)),
        1 => Just(When::InStart),
        3 => (any::<u8>(), any::<u8>(), 0u8..4).prop_map(|(a, b, c)| When::Within(a, b, c)),
        2 => Just(When::InStop),
    ];
    let kill = (when, any::<bool>()).prop_map(|(when, rec)| KillReq { when, rec });
    let start_out = prop_oneof![14 => Just(Out::Ok), 1 => Just(Out::Err), 1 => Just(Out::PanicAny)];
    let decide = prop_oneof![6 => Just(Decide::Continue), 1 => crate::c02::decide()];
    let stop_out = prop_oneof![8 => Just(Out::Ok), 1 => Just(Out::Err), 1 => Just(Out::PanicStr)];
    boxed(
        (
            (cap(), pauses(3), start_out, prop::collection::vec((0u8..3, decide), 1..3), pauses(3), stop_out),
            prop::collection::vec(prop::collection::vec(item(boxed(any_out())), 0..max), 1..4),
            prop::collection::vec((any::<u8>(), any::<u8>()), 0..2),
            prop::collection::vec(kill, 0..4),
            prop::option::weighted(0.3, 0u8..16),
            prop::collection::vec(item(boxed(mild())), 0..3),
        )
            .prop_map(|((cap, start, start_out, panic, stop_hook, stop_out), tasks, stuck, kills, stop_at, late)| Case {
                cap, start, start_out, panic, stop_hook, stop_out, tasks, stuck, kills, stop_at, late,
            }),
    )
}

pub fn run(s: &mut Session) {
    s.prop("virtual_schedules", "a handler is aborted or queued messages are dropped", 30_000, 600_000,
        || case(8), sim_case);
    s.prop_sharded("real_threads", "a handler is aborted or queued messages are dropped", 1_200, 30_000, 4,
        || case(12), mt_case);
}

//! C10: panics and unhandled errors reach the panic hook, once, and nobody else.
use std::{collections::BTreeMap, time::Duration};

use kameo::actor::PreparedActor;
use pbt::{boxed, sim, CaseResult, Fail, Info, Session};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::lab::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    cap: Option<u8>,
    panic: Vec<(u8, Decide)>,
    link: Vec<(u8, Decide)>,
    tasks: Vec<Vec<Item>>,
    /// self-sent jobs: attached to message (task, index), as an ask, with that outcome
    own: Vec<(u8, u8, bool, Out)>,
    by: Vec<Item>,
    /// a linked actor is killed at that time
    peer: Option<u8>,
    thread: bool,
}

fn tasks(c: &Case) -> Vec<Vec<Item>> {
    let mut tasks = c.tasks.clone();
    for (k, (t, i, ask, out)) in c.own.iter().enumerate() {
        let n = tasks.len();
        let t = &mut tasks[*t as usize % n];
        if !t.is_empty() {
            let len = t.len();
            let job = Job { id: 100_000 + k as u32, steps: vec![], out: *out };
            t[*i as usize % len].steps.push(Step::SelfJob(*ask, job));
        }
    }
    tasks
}

/// A hook has just decided to stop, or to go through the panic hook.
fn deciding(l: &[Entry]) -> bool {
    let last = l.iter().rev().find(|e| e.who == 0 && matches!(e.ev, Ev::PanicHookEnd(_) | Ev::LinkHookEnd(_) | Ev::Begin(_)));
    matches!(last.map(|e| &e.ev), Some(Ev::PanicHookEnd(d) | Ev::LinkHookEnd(d)) if d != "continue")
}

async fn body(c: &Case, log: &Log, by_log: &Log, virt: bool) -> Result<(), Fail> {
    let patience = if virt { Duration::from_secs(1_000_000) } else { Duration::from_secs(20) };
    let script = Script { panic: c.panic.clone(), link: c.link.clone(), ..Default::default() };
    let p = PreparedActor::new(mailbox(c.cap));
    let a = p.actor_ref().clone();
    let (b, _bj) = spawn(Sub::new(0, by_log, &Script::default()), c.cap);
    if let Some(at) = c.peer {
        let (x, _j) = spawn(Sub::new(20, &Log::new(), &Script { link: vec![(0, Decide::Continue)], ..Default::default() }), None);
        x.link(&a).await;
        tokio::spawn(async move {
            sim::sleep_ms(at as u64).await;
            x.kill();
        });
    }
    let sub = Sub::new(0, log, &script);
    let (tx, rx) = tokio::sync::oneshot::channel();
    if c.thread && !virt {
        let h = p.spawn_in_thread(sub);
        std::thread::spawn(move || {
            let _ = tx.send(h.join().map(|(_, r)| desc(&r)).map_err(|_| ()));
        });
    } else {
        let h = p.spawn(sub);
        tokio::spawn(async move {
            let _ = tx.send(h.await.map(|(_, r)| desc(&r)).map_err(|_| ()));
        });
    }
    let mut hs = vec![];
    for (t, items) in tasks(c).into_iter().enumerate() {
        hs.push(tokio::spawn(sender(a.clone(), log.clone(), t, items)));
    }
    hs.push(tokio::spawn(sender(b.clone(), by_log.clone(), 5, c.by.clone())));
    for h in hs {
        if !matches!(tokio::time::timeout(patience, h).await, Ok(Ok(()))) {
            return Err(hang(log, "a request hangs or panics"));
        }
    }
    if virt {
        sim::sleep_ms(3_000).await;
    } else if a.is_alive() {
        // at rest, or stopped by a decision
        let stopped = |l: &[Entry]| l.iter().any(|e| matches!(e.ev, Ev::StopEnd));
        for _ in 0..200 {
            if at_rest(log, Duration::from_millis(50), |l| !deciding(l)).await || stopped(&log.get()) {
                break;
            }
        }
    }
    let ended = log.get().iter().any(|e| matches!(e.ev, Ev::StopBegin(..)));
    log.push(0, Ev::Note(format!("rest alive={}", !ended)));
    a.kill();
    match tokio::time::timeout(patience, rx).await {
        Ok(Ok(Ok(r))) => log.push(0, Ev::Note(format!("joined {r}"))),
        _ => return Err(Fail { sig: "lost".into(), msg: format!("the actor's task died; history:{}", log.show()) }),
    }
    if !virt {
        at_rest(by_log, Duration::from_secs(10), |_| true).await;
    }
    check!(by_log, b.is_alive(), "bystander", "another actor died");
    let r = tokio::time::timeout(patience, b.ask(Job::new(99_999)).send()).await;
    check!(by_log, matches!(r, Ok(Ok(_))), "bystander", "another actor no longer answers: {r:?}");
    Ok(())
}

fn verdict(c: &Case, log: &Log, by_log: &Log) -> CaseResult {
    let l = log.get();
    // (on real threads a hook may still decide to stop after that note)
    let reason = stop_reason(log, 0).map(|(r, _)| r).unwrap_or_default();
    let decided = l.iter().any(|e| matches!(&e.ev, Ev::PanicHookEnd(d) | Ev::LinkHookEnd(d) if *d == reason));
    let rest = !decided && l.iter().any(|e| e.ev == Ev::Note("rest alive=true".into()));
    delivery(log, rest)?;
    lifecycle(log, 0, true)?;
    // the bystander
    let bm = messages(&by_log.get());
    for (id, x) in bm.iter().filter(|(id, _)| **id < 90_000) {
        if let Some((_, r)) = &x.end {
            check!(by_log, !r.accepted() || !x.fin.is_empty(), "bystander", "message {id} to another actor was not handled");
        }
    }
    // (it stops normally once the case ends and its last reference goes)
    let hooks = by_log.get().iter().filter(|e| matches!(&e.ev, Ev::PanicHook(_)) || matches!(&e.ev, Ev::StopBegin(r, _) if r != "normal")).count();
    check!(by_log, hooks == 0, "bystander", "another actor's hooks ran");
    // what each message does
    let mut jobs: BTreeMap<u32, (bool, Out)> = BTreeMap::new();
    for (t, items) in tasks(c).iter().enumerate() {
        for (i, it) in items.iter().enumerate() {
            jobs.insert(mid(t, i), (it.kind.is_ask(), it.out));
            for s in &it.steps {
                if let Step::SelfJob(ask, j) = s {
                    jobs.insert(j.id, (*ask, j.out));
                }
            }
        }
    }
    let own: Vec<&Ev> = l
        .iter()
        .filter(|e| e.who == 0 && !matches!(&e.ev, Ev::Note(n) if n.starts_with("rest")) && !matches!(e.ev, Ev::Susp | Ev::SendStart(..) | Ev::SendEnd(..) | Ev::Reply(..)))
        .map(|e| &e.ev)
        .collect();
    let (mut panics, mut tell_errs, mut ask_errs, mut cont) = (0, 0, 0, 0);
    let mut expected: Option<String> = None;
    let mut current: Option<u32> = None;
    let mut stop: Option<String> = None;
    for e in &own {
        if let (Some(d), false) = (&stop, matches!(e, Ev::StopBegin(..))) {
            check!(log, false, "after-break", "the panic or link hook decided {d}, then came {e:?}");
        }
        match e {
            Ev::Begin(id) => {
                if let (Some(w), Some(i)) = (&expected, current) {
                    check!(log, false, "hook-skipped", "message {i} failed with {w}, but the panic hook was not called before message {id}");
                }
                current = Some(*id);
                let (ask, out) = jobs[id];
                expected = if out.panics() || (out == Out::Err && !ask) { Some(desc_out(*id, out)) } else { None };
                if out == Out::Err && ask {
                    ask_errs += 1;
                } else if out == Out::Err {
                    tell_errs += 1;
                } else if out.panics() {
                    panics += 1;
                }
            }
            Ev::PanicHook(err) => {
                check!(log, expected.as_ref() == Some(err), "hook-error", "the panic hook was called with {err} after message {current:?}, expected {expected:?}");
                expected = None;
            }
            Ev::PanicHookEnd(d) if d == "continue" => cont += 1,
            Ev::PanicHookEnd(d) => stop = Some(d.clone()),
            Ev::LinkHookEnd(d) if d != "continue" => match d.strip_prefix("panicked(").and_then(|d| d.strip_suffix(')')) {
                Some(e) => expected = Some(e.into()),
                None => stop = Some(d.clone()),
            },
            Ev::StopBegin(r, s) => {
                if let Some(d) = &stop {
                    check!(log, r == d, "break-reason", "the hook decided {d}, the stop reason is {r}");
                } else {
                    check!(log, r == "killed" && rest, "unasked-stop", "stopped with {r} although no hook decided so");
                    check!(log, expected.is_none(), "hook-skipped", "message {current:?} failed with {expected:?}, but the panic hook was not called");
                }
                let steps = own.iter().take_while(|e| !matches!(e, Ev::StopBegin(..))).filter(|e| matches!(e, Ev::Step(_))).count() as u64;
                check!(log, *s == steps, "state", "the stop hook saw state {s}, the handlers left {steps}");
                let j = Ev::Note(format!("joined {r}"));
                check!(log, own.last() == Some(&&j), "reason-differs", "the stop reason is {r}, then {:?}", own.last());
                stop = None;
            }
            _ => {}
        }
    }
    Ok(Info::new(panics + tell_errs > 0)
        .label(panics > 0, "panic")
        .label(tell_errs > 0, "error to a tell")
        .label(ask_errs > 0, "error to an ask")
        .label(cont > 0, "went on")
        .label(!rest, "stopped"))
}

fn sim_case(c: &Case) -> CaseResult {
    let out = sim::run(async {
        let (log, by) = (Log::new(), Log::new());
        body(c, &log, &by, true).await?;
        Ok((log, by))
    });
    match out {
        Some(Ok((log, by))) => verdict(c, &log, &by),
        Some(Err(f)) => Err(f),
        None => Err(Fail { sig: "hang".into(), msg: "the system never comes to rest".into() }),
    }
}

fn mt_case(c: &Case) -> CaseResult {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_time().build().unwrap();
    let (log, by) = (Log::new(), Log::new());
    let r = rt.block_on(body(c, &log, &by, false));
    rt.shutdown_background();
    r?;
    verdict(c, &log, &by)
}

fn case(max: usize) -> BoxedStrategy<Case> {
    let decide = || prop_oneof![5 => Just(Decide::Continue), 1 => crate::c02::decide()];
    let bad = || prop_oneof![2 => Just(Out::Ok), 2 => Just(Out::Err), 1 => Just(Out::PanicStr), 1 => Just(Out::PanicOwned), 1 => Just(Out::PanicAny)];
    let out = prop_oneof![2 => mild(), 2 => bad()];
    boxed(
        (
            cap(),
            prop::collection::vec((0u8..3, decide()), 1..5),
            prop::collection::vec((0u8..3, decide()), 0..2),
            prop::collection::vec(prop::collection::vec(item(boxed(out)), 0..max), 1..4),
            prop::collection::vec((any::<u8>(), any::<u8>(), any::<bool>(), bad()), 0..3),
            prop::collection::vec(item(boxed(mild())), 0..4),
            prop::option::weighted(0.2, 0u8..10),
            any::<bool>(),
        )
            .prop_map(|(cap, panic, link, tasks, own, by, peer, thread)| Case { cap, panic, link, tasks, own, by, peer, thread }),
    )
}

pub fn run(s: &mut Session) {
    s.prop("virtual_schedules", "a handler panics or returns an error to a tell", 40_000, 800_000, || case(8), sim_case);
    s.prop_sharded("real_threads", "a handler panics or returns an error to a tell", 1_200, 30_000, 4, || case(10), mt_case);
    crate::forwards::run(s);
}

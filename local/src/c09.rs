//! C09: waiting for startup and shutdown.
use std::time::Duration;

use kameo::actor::{ActorRef, PreparedActor, Recipient};
use pbt::{boxed, fail, sim, CaseResult, Fail, Info, Session};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::lab::*;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum What {
    Start,
    StartResult,
    StartOld,
    StartResultOld,
    StartRec,
    Stop,
    StopResult,
    StopOld,
    StopRec,
}

impl What {
    fn startup(&self) -> bool {
        matches!(self, What::Start | What::StartResult | What::StartOld | What::StartResultOld | What::StartRec)
    }
    fn result(&self) -> bool {
        matches!(self, What::StartResult | What::StartResultOld | What::StopResult)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Waiter {
    what: What,
    at: u8,
    yields: u8,
    /// by an upgraded weak reference
    weak: bool,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum End {
    Stop,
    Kill,
    /// a message after which the panic hook breaks
    Panic,
    /// by the start hook's failure or kill before spawning
    Early,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    cap: Option<u8>,
    start: Vec<Step>,
    start_out: Out,
    stop: Vec<Step>,
    stop_out: Out,
    spawn_at: u8,
    end: End,
    end_at: u8,
    traffic: Vec<Item>,
    waiters: Vec<Waiter>,
    late: Vec<What>,
}

async fn wait(a: &ActorRef<Sub>, w: What) -> Option<Result<(), HookErr>> {
    #[allow(deprecated)]
    match w {
        What::Start => a.wait_for_startup().await,
        What::StartOld => a.wait_startup().await,
        What::StartResult => return Some(a.wait_for_startup_result().await),
        What::StartResultOld => return Some(a.wait_startup_result().await),
        What::Stop => a.wait_for_shutdown().await,
        What::StopOld => a.wait_for_stop().await,
        What::StopResult => return Some(a.wait_for_shutdown_result().await),
        What::StartRec => {
            let r: Recipient<Job> = a.clone().recipient();
            r.wait_for_startup().await
        }
        What::StopRec => {
            let r: Recipient<Job> = a.clone().recipient();
            r.wait_for_shutdown().await
        }
    }
    None
}

/// A waiter panicked: which oracle that concerns.
fn panicked(c: &Case, w: What) -> &'static str {
    let hook = if w.startup() { c.start_out } else { c.stop_out };
    if w.result() && hook.panics() {
        "result-of-panicked-hook"
    } else {
        "waiter-panics"
    }
}

struct Seen {
    what: What,
    at: u64,
    /// events logged when it began to wait
    from: usize,
    done: u64,
    /// events logged by then
    len: usize,
    result: Option<Result<(), HookErr>>,
}

async fn body(c: &Case, log: &Log, virt: bool) -> Result<Vec<Seen>, Fail> {
    let patience = if virt { Duration::from_secs(1_000_000) } else { Duration::from_secs(20) };
    let pause = move |ms: u64| async move {
        if virt {
            sim::sleep_ms(ms).await
        } else {
            tokio::time::sleep(Duration::from_micros(ms * 60)).await
        }
    };
    let script = Script {
        start: c.start.clone(),
        start_out: c.start_out,
        stop: c.stop.clone(),
        stop_out: c.stop_out,
        panic: vec![(0, Decide::Normal)],
        ..Default::default()
    };
    let p = PreparedActor::new(mailbox(c.cap));
    let a = p.actor_ref().clone();
    let mut ws = vec![];
    for w in &c.waiters {
        let (a, log, w) = (a.clone(), log.clone(), w.clone());
        ws.push((w.clone(), tokio::spawn(async move {
            let a = if w.weak {
                let weak = a.downgrade();
                let b = weak.upgrade().expect("strong");
                drop(a);
                b
            } else {
                a
            };
            pause(w.at as u64).await;
            sim::yields(w.yields).await;
            let (at, from) = (log.now(), log.get().len());
            let result = wait(&a, w.what).await;
            Seen { what: w.what, at, from, done: log.now(), len: log.get().len(), result }
        })));
    }
    let sub = Sub::new(0, log, &script);
    let (log2, at, a2, end) = (log.clone(), c.spawn_at, a.clone(), c.end);
    let join = tokio::spawn(async move {
        pause(at as u64).await;
        if end == End::Early {
            a2.kill();
        }
        drop((log2, a2));
        p.spawn(sub).await
    });
    let s = tokio::spawn(sender(a.clone(), log.clone(), 1, c.traffic.clone()));
    pause(c.end_at as u64).await;
    match c.end {
        End::Stop => {
            let _ = a.stop_gracefully().await;
        }
        End::Kill => a.kill(),
        End::Panic => {
            let _ = a.tell(Job { id: 500, steps: vec![], out: Out::PanicStr }).send().await;
        }
        End::Early => {}
    }
    match tokio::time::timeout(patience, join).await {
        Ok(Ok(Ok(_))) => {}
        _ => return Err(hang(log, "the actor never ends, or its task died")),
    }
    let mut seen = vec![];
    for (w, h) in ws {
        match tokio::time::timeout(patience, h).await {
            Err(_) => return Err(hang(log, &format!("{w:?} never completes"))),
            Ok(Err(e)) => return Err(Fail { sig: panicked(c, w.what).into(), msg: format!("{w:?}: {e}; history:{}", log.show()) }),
            Ok(Ok(s)) => seen.push(s),
        }
    }
    let _ = tokio::time::timeout(patience, s).await;
    for what in c.late.clone() {
        let (a, log2) = (a.clone(), log.clone());
        let h = tokio::spawn(async move {
            let (at, from) = (log2.now(), log2.get().len());
            let result = wait(&a, what).await;
            Seen { what, at, from, done: log2.now(), len: log2.get().len(), result }
        });
        match tokio::time::timeout(patience, h).await {
            Ok(Ok(s)) => seen.push(s),
            Ok(Err(e)) => return Err(Fail { sig: panicked(c, what).into(), msg: format!("{what:?} after the end: {e}") }),
            Err(_) => return Err(hang(log, &format!("{what:?} after the end never completes"))),
        }
    }
    Ok(seen)
}

fn verdict(c: &Case, log: &Log, seen: &[Seen], virt: bool) -> CaseResult {
    let l = log.get();
    let find = |f: &dyn Fn(&Ev) -> bool| l.iter().position(|e| e.who == 0 && f(&e.ev));
    let (Some(started), Some(stopped)) = (find(&|e| matches!(e, Ev::StartEnd(_))), find(&|e| *e == Ev::StopEnd)) else {
        check!(log, false, "hooks", "start or stop hook missing");
        unreachable!()
    };
    let (mut early, mut before) = (0, 0);
    for s in seen {
        let (idx, res, code) = if s.what.startup() { (started, c.start_out, START_ERR) } else { (stopped, c.stop_out, STOP_ERR) };
        check!(log, s.len > idx, "early", "{:?} completed (with {} events logged) before event {idx}", s.what, s.len);
        if virt {
            let want = s.at.max(l[idx].at);
            check!(log, s.done == want, "late", "{:?} registered at {} completed at {}, the event was at {}", s.what, s.at, s.done, l[idx].at);
        }
        if s.from <= idx {
            before += 1;
        } else {
            early += 1;
        }
        if s.what.result() {
            let want = if res == Out::Err { Err(HookErr(code)) } else { Ok(()) };
            check!(log, s.result == Some(want.clone()), "result", "{:?} returned {:?}, expected {want:?}", s.what, s.result);
        }
    }
    Ok(Info::new(before > 0 && early > 0)
        .label(c.start_out != Out::Ok, "start hook failed")
        .label(c.stop_out != Out::Ok, "stop hook failed")
        .label(before > 0, "registered before")
        .label(early > 0, "registered after"))
}

fn run_case(c: &Case, virt: bool) -> CaseResult {
    if virt {
        let out = sim::run(async {
            let log = Log::new();
            let seen = body(c, &log, true).await?;
            Ok((log, seen))
        });
        return match out {
            Some(Ok((log, seen))) => verdict(c, &log, &seen, true),
            Some(Err(f)) => Err(f),
            None => fail("hang", "the system never comes to rest"),
        };
    }
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_time().build().unwrap();
    let log = Log::new();
    let r = rt.block_on(body(c, &log, false));
    rt.shutdown_background();
    let seen = r?;
    verdict(c, &log, &seen, false)
}

fn case(outs: BoxedStrategy<Out>) -> BoxedStrategy<Case> {
    let what = || {
        prop::sample::select(vec![
            What::Start, What::StartResult, What::StartOld, What::StartResultOld, What::StartRec, What::Stop, What::StopResult, What::StopOld,
            What::StopRec, What::StopResult,
        ])
    };
    let waiter = (what(), 0u8..24, 0u8..5, any::<bool>()).prop_map(|(what, at, yields, weak)| Waiter { what, at, yields, weak });
    let long = || prop::collection::vec(prop_oneof![(0u8..4).prop_map(Step::Yield), (0u8..8).prop_map(Step::Sleep)], 0..3);
    let end = prop_oneof![2 => Just(End::Stop), 2 => Just(End::Kill), 1 => Just(End::Panic), 1 => Just(End::Early)];
    boxed(
        (
            (cap(), long(), outs.clone(), long(), outs, 0u8..5),
            (end, 0u8..20, prop::collection::vec(item(boxed(mild())), 0..4)),
            prop::collection::vec(waiter, 1..9),
            prop::collection::vec(what(), 0..3),
        )
            .prop_map(|((cap, start, start_out, stop, stop_out, spawn_at), (end, end_at, traffic), waiters, late)| Case {
                cap, start, start_out, stop, stop_out, spawn_at, end, end_at, traffic, waiters, late,
            }),
    )
}

/// Hooks which panic: everyone waiting without asking for the result.
fn plain(mut c: Case) -> Case {
    let fix = |w: &mut What| {
        if c.start_out.panics() && w.startup() && w.result() {
            *w = What::Start
        }
        if c.stop_out.panics() && !w.startup() && w.result() {
            *w = What::Stop
        }
    };
    c.waiters.iter_mut().for_each(|w| fix(&mut w.what));
    c.late.iter_mut().for_each(fix);
    c
}

pub fn run(s: &mut Session) {
    let outs = || boxed(prop_oneof![4 => Just(Out::Ok), 2 => Just(Out::Err), 1 => Just(Out::PanicOwned)]);
    s.prop("virtual_times", "waiters registered before and after the event", 40_000, 800_000,
        || boxed(case(outs()).prop_map(plain)), |c| run_case(c, true));
    s.prop_sharded("real_threads", "waiters registered before and after the event", 2_000, 40_000, 4,
        || boxed(case(outs()).prop_map(plain)), |c| run_case(c, false));
    // the result of a hook that panicked
    s.prop("result_of_panicked_hook", "a result is awaited from a hook that panicked", 400, 4_000,
        || {
            let w = prop::sample::select(vec![What::StartResult, What::StopResult]);
            boxed((case(boxed(Just(Out::PanicOwned))), w, 0u8..20).prop_map(|(c, what, at)| {
                let mut c = plain(c);
                c.waiters.push(Waiter { what, at, yields: 0, weak: false });
                c
            }))
        },
        |c| match run_case(c, true) {
            // any result other than a success is fine
            Err(f) if f.sig == "result" && !f.msg.contains("returned Some(Ok") => Ok(Info::new(true)),
            r => r,
        });
}

//! C02: every ask resolves exactly once, with its own outcome.
use pbt::{boxed, sim, CaseResult, Fail, Info, Session};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::lab::*;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Fault {
    None,
    Stop,
    Kill,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    cap: Option<u8>,
    start: Vec<Step>,
    start_out: Out,
    panic: Vec<(u8, Decide)>,
    tasks: Vec<Vec<Item>>,
    fault: Fault,
    at: u8,
    stop: Vec<Step>,
    late: Vec<Item>,
}

fn check(c: &Case) -> CaseResult {
    let total: usize = c.tasks.iter().map(|t| t.len()).sum::<usize>() + c.late.len();
    let out = sim::run(async {
        let log = Log::new();
        let script = Script {
            start: c.start.clone(),
            start_out: c.start_out,
            panic: c.panic.clone(),
            stop: c.stop.clone(),
            ..Default::default()
        };
        let (a, join) = spawn(Sub::new(0, &log, &script), c.cap);
        let mut hs = vec![];
        for (t, items) in c.tasks.clone().into_iter().enumerate() {
            hs.push(tokio::spawn(sender(a.clone(), log.clone(), t, items)));
        }
        let a2 = a.clone();
        let log2 = log.clone();
        let (fault, at) = (c.fault, c.at);
        tokio::spawn(async move {
            sim::sleep_ms(at as u64).await;
            match fault {
                Fault::Kill => {
                    log2.push(50, Ev::Kill);
                    a2.kill()
                }
                Fault::Stop => {
                    let _ = a2.stop_gracefully().await;
                }
                _ => {}
            }
        });
        for h in hs {
            match sim::settled(h).await {
                None => return Err(hang(&log, "a request never completes")),
                Some(Err(e)) => {
                    return Err(Fail { sig: "panic-in-caller".into(), msg: format!("a requester panicked: {e}; history:{}", log.show()) })
                }
                _ => {}
            }
        }
        if matches!(c.fault, Fault::Stop | Fault::Kill) || c.start_out != Out::Ok {
            if sim::settled(a.wait_for_shutdown()).await.is_none() {
                return Err(hang(&log, "the actor never stops"));
            }
            match sim::settled(join).await {
                Some(Ok(_)) => {}
                o => return Err(hang(&log, &format!("the actor's task ended with {:?}", o.map(|r| r.map(|_| ()))))),
            }
        } else {
            sim::sleep_ms(5_000).await;
        }
        // requests to an actor in its final state
        let gone = !a.is_alive();
        let h = tokio::spawn(sender(a.clone(), log.clone(), 9, c.late.clone()));
        match sim::settled(h).await {
            None => return Err(hang(&log, "a request to a stopped actor never completes")),
            Some(Err(e)) => {
                return Err(Fail { sig: "panic-in-caller".into(), msg: format!("a requester panicked: {e}; history:{}", log.show()) })
            }
            _ => {}
        }
        sim::sleep_ms(5_000).await;
        Ok((log, gone))
    });
    let (log, gone) = match out {
        Some(Ok(l)) => l,
        Some(Err(f)) => return Err(f),
        None => return Err(Fail { sig: "hang".into(), msg: "the system never comes to rest".into() }),
    };
    let m = delivery(&log, false)?;
    lifecycle(&log, 0, gone)?;
    let sent = m.values().filter(|x| x.end.is_some()).count();
    check!(log, sent >= total, "incomplete", "{sent} of {total} sends completed");
    let jobs: std::collections::BTreeMap<u32, (Kind, Out)> = c
        .tasks
        .iter()
        .enumerate()
        .chain([(9usize, &c.late)])
        .flat_map(|(t, items)| items.iter().enumerate().map(move |(i, it)| (mid(t, i), (it.kind, it.out))))
        .collect();
    let (mut dead_asks, mut pending_failed, mut herr) = (0, 0, 0);
    for (id, x) in &m {
        let Some((kind, o)) = jobs.get(id) else { continue };
        let (_, end) = x.end.clone().unwrap();
        let alive = x.alive;
        if !alive {
            dead_asks += 1;
            let want_msg = !kind.enq();
            check!(log, matches!(end, Res::NotRunning(m) if m.is_some() == want_msg), "dead-not-running",
                "{kind:?} {id} to a stopped actor gave {end:?}");
            continue;
        }
        if c.cap.is_none() {
            check!(log, end.accepted(), "alive-rejected", "{kind:?} {id} to a living actor with an unbounded mailbox gave {end:?}");
        }
        if !kind.is_ask() {
            check!(log, end == Res::Sent || !end.accepted(), "tell-result", "tell {id} gave {end:?}");
            continue;
        }
        // the ask's own resolution
        let res = match kind {
            k if k.enq() => {
                if !end.accepted() {
                    continue;
                }
                match &x.reply {
                    Some((_, r)) => r.clone(),
                    None => {
                        check!(log, false, "unanswered", "enqueued request {id} was never answered");
                        unreachable!()
                    }
                }
            }
            _ => end.clone(),
        };
        if !res.accepted() {
            continue;
        }
        let handled = !x.fin.is_empty();
        let want = match (handled, o) {
            (true, Out::Ok) => Some(Res::Val(value_of(*id))),
            (true, Out::Err) => Some(Res::HErr(*id)),
            (true, Out::DropReply) => Some(Res::Stopped),
            (true, Out::Early(_) | Out::Delegate(_)) => Some(Res::Val(value_of(*id))),
            (false, Out::Early(_)) if !x.begin.is_empty() => None, // killed before or after the early reply
            _ => Some(Res::Stopped),
        };
        match &res {
            Res::HErr(_) => herr += 1,
            Res::Stopped if *o != Out::DropReply => pending_failed += 1,
            _ => {}
        }
        if let Some(want) = want {
            check!(log, res == want, "ask-outcome", "{kind:?} {id} ({o:?}, handled: {handled}) resolved to {res:?}, expected {want:?}");
        } else {
            check!(log, matches!(res, Res::Val(_) | Res::Stopped), "ask-outcome", "{kind:?} {id} resolved to {res:?}");
        }
    }
    Ok(Info::new(pending_failed > 0 || dead_asks > 0 || herr > 0)
        .label(pending_failed > 0, "died before replying")
        .label(dead_asks > 0, "asked a dead actor")
        .label(herr > 0, "handler error returned"))
}

fn start_out() -> impl Strategy<Value = Out> {
    prop_oneof![12 => Just(Out::Ok), 1 => Just(Out::Err), 1 => Just(Out::PanicOwned)]
}

pub fn decide() -> impl Strategy<Value = Decide> {
    prop_oneof![
        8 => Just(Decide::Continue),
        1 => Just(Decide::Normal),
        1 => Just(Decide::Killed),
        1 => Just(Decide::Custom),
        2 => Just(Decide::Default),
        1 => Just(Decide::Err),
        1 => Just(Decide::Panic),
    ]
}

pub fn run(s: &mut Session) {
    s.prop("ask_outcomes", "a request meets a handler error, a dying or a dead actor", 40_000, 800_000,
        || {
            boxed((
                (cap(), pauses(2), start_out(), prop::collection::vec((0u8..2, decide()), 1..4)),
                prop::collection::vec(prop::collection::vec(item(boxed(any_out())), 1..7), 1..4),
                (prop_oneof![3 => Just(Fault::None), 2 => Just(Fault::Stop), 3 => Just(Fault::Kill)], 0u8..16),
                pauses(2),
                prop::collection::vec(item(boxed(mild())), 0..5),
            ).prop_map(|((cap, start, start_out, panic), tasks, (fault, at), stop, late)| Case {
                cap, start, start_out, panic, tasks, fault, at, stop, late,
            }))
        },
        check);
    run_race(s);
}

/// Askers on several threads while the actor dies: every request must come back.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Race {
    cap: Option<u8>,
    kinds: Vec<Kind>,
    rounds: u8,
    kill: bool,
    delay: u16,
    yields: u8,
}

fn race(c: &Race) -> CaseResult {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_time().build().unwrap();
    let r = rt.block_on(async {
        let (mut ok, mut failed) = (0u32, 0u32);
        for round in 0..c.rounds {
            let log = Log::new();
            let (a, join) = spawn(Sub::new(0, &log, &Script::resilient()), c.cap);
            let mut hs = vec![];
            for (t, k) in c.kinds.iter().enumerate() {
                let (a, k, y) = (a.clone(), *k, c.yields);
                hs.push(tokio::spawn(async move {
                    let (mut ok, mut failed) = (0u32, 0u32);
                    for i in 0..5_000 {
                        let id = mid(t, i);
                        let steps = if y > 0 { vec![Step::Yield(y)] } else { vec![] };
                        let job = Job { id, steps, out: Out::Ok };
                        let r = match k {
                            Kind::Enq => match a.ask(job).enqueue().await {
                                Ok(p) => Res::of_ask(p.await),
                                Err(e) => Res::of_enq(Err(e)),
                            },
                            Kind::EnqTry => match a.ask(job).try_enqueue() {
                                Ok(p) => Res::of_ask(p.await),
                                Err(e) => Res::of_enq(Err(e)),
                            },
                            Kind::AskTry => Res::of_ask(a.ask(job).try_send().await),
                            _ => Res::of_ask(a.ask(job).send().await),
                        };
                        match r {
                            Res::Val(v) if v == value_of(id) => ok += 1,
                            Res::Full(_) => tokio::task::yield_now().await,
                            Res::Stopped => failed += 1,
                            Res::NotRunning(_) => break,
                            r => return Err(format!("{k:?} {id} resolved to {r:?}")),
                        }
                    }
                    Ok((ok, failed))
                }));
            }
            let (a2, delay, kill) = (a.clone(), c.delay, c.kill);
            let ender = tokio::spawn(async move {
                for _ in 0..delay {
                    std::hint::spin_loop();
                }
                tokio::task::yield_now().await;
                if kill {
                    a2.kill();
                } else {
                    let _ = a2.stop_gracefully().await;
                }
            });
            let limit = std::time::Duration::from_secs(20);
            for (t, h) in hs.into_iter().enumerate() {
                match tokio::time::timeout(limit, h).await {
                    Err(_) => {
                        return Err(Fail { sig: "hang".into(), msg: format!("round {round}: {:?} of task {t} is still pending 20 s after the actor was stopped (kill: {kill})", c.kinds[t]) })
                    }
                    Ok(Err(e)) => return Err(Fail { sig: "panic-in-caller".into(), msg: e.to_string() }),
                    Ok(Ok(Err(m))) => return Err(Fail { sig: "ask-outcome".into(), msg: m }),
                    Ok(Ok(Ok((o, f)))) => {
                        ok += o;
                        failed += f;
                    }
                }
            }
            let _ = tokio::time::timeout(limit, ender).await;
            if tokio::time::timeout(limit, join).await.is_err() {
                return Err(Fail { sig: "hang".into(), msg: format!("round {round}: the actor never stops") });
            }
        }
        Ok(Info::new(failed > 0).label(ok > 0, "some answered").label(failed > 0, "some died with the actor"))
    });
    rt.shutdown_background();
    r
}

pub fn run_race(s: &mut Session) {
    s.prop_sharded("death_race", "a request was pending when the actor died", 3_000, 60_000, 4,
        || {
            let k = prop::sample::select(vec![Kind::Ask, Kind::Enq, Kind::EnqTry, Kind::AskTry]);
            boxed((cap(), prop::collection::vec(k, 2..6), any::<bool>(), 0u16..3_000, 0u8..2)
                .prop_map(|(cap, kinds, kill, delay, yields)| Race { cap, kinds, rounds: 25, kill, delay, yields }))
        },
        race);
}

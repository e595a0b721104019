//! C07: hooks run in order, at most once, and the stop reason is the true one everywhere.
use std::time::Duration;

use kameo::actor::PreparedActor;
use pbt::{boxed, sim, CaseResult, Fail, Info, Session};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::lab::*;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Cause {
    /// stopped gracefully, killed, or every reference dropped, at that time
    Stop,
    Kill,
    Drop,
    /// only the messages and links
    None,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Peer {
    Absent,
    Stops(u8),
    Killed(u8),
    Panics(u8),
    BadStart,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    cap: Option<u8>,
    script: Script,
    start_msgs: u8,
    items: Vec<Vec<Item>>,
    cause: Cause,
    at: u8,
    peers: Vec<Peer>,
    watchers: u8,
}

async fn body(c: &Case, log: &Log) -> Result<u64, Fail> {
    let patience = Duration::from_secs(1_000_000);
    let mut script = c.script.clone();
    for i in 0..c.start_msgs {
        script.start.push(Step::SelfTell(200_000 + i as u32));
    }
    let p = PreparedActor::new(mailbox(c.cap));
    let a = p.actor_ref().clone();
    let id = a.id().sequence_id();
    let mut keep = vec![];
    for w in 0..c.watchers {
        let (x, j) = spawn(Sub::new(10 + w as u32, log, &Script::resilient()), Some(4));
        a.link(&x).await;
        keep.push((x, j));
    }
    let mut peers = vec![];
    for (i, k) in c.peers.iter().enumerate() {
        if *k == Peer::Absent {
            continue;
        }
        let start_out = if *k == Peer::BadStart { Out::Err } else { Out::Ok };
        let script = Script { start_out, link: vec![(0, Decide::Continue)], ..Default::default() };
        let p = PreparedActor::new(mailbox(None));
        let x = p.actor_ref().clone();
        x.link(&a).await;
        let sub = Sub::new(20 + i as u32, &Log::new(), &script);
        peers.push((x.clone(), p.spawn(sub)));
        let k = *k;
        tokio::spawn(async move {
            match k {
                Peer::Stops(t) => {
                    sim::sleep_ms(t as u64).await;
                    let _ = x.stop_gracefully().await;
                }
                Peer::Killed(t) => {
                    sim::sleep_ms(t as u64).await;
                    x.kill();
                }
                Peer::Panics(t) => {
                    sim::sleep_ms(t as u64).await;
                    let _ = x.tell(Job { id: 77, steps: vec![], out: Out::PanicOwned }).try_send();
                }
                _ => {}
            }
        });
    }
    let join = p.spawn(Sub::new(0, log, &script));
    let mut hs = vec![];
    for (t, items) in c.items.iter().cloned().enumerate() {
        hs.push(tokio::spawn(sender(a.clone(), log.clone(), t, items)));
    }
    sim::sleep_ms(c.at as u64).await;
    match c.cause {
        Cause::Kill => {
            log.push(50, Ev::Kill);
            a.kill();
        }
        Cause::Stop => {
            crate::c05::stop_task(a.clone(), log.clone(), false);
        }
        _ => {}
    }
    for h in hs {
        if !matches!(tokio::time::timeout(patience, h).await, Ok(Ok(()))) {
            return Err(hang(log, "a request hangs or panics"));
        }
    }
    sim::sleep_ms(2_000).await;
    // end it one way or another
    log.push(60, Ev::Note("refs dropped".into()));
    let mut a = Some(a);
    if c.cause == Cause::Drop {
        a = None;
    } else if c.cause == Cause::None {
        log.push(50, Ev::Kill);
        a.as_ref().unwrap().kill();
    }
    let (sub, reason) = match tokio::time::timeout(patience, join).await {
        Err(_) => return Err(hang(log, "the actor never stops")),
        Ok(Err(e)) => return Err(Fail { sig: "lost".into(), msg: format!("the actor's task died: {e}; history:{}", log.show()) }),
        Ok(Ok(x)) => x,
    };
    log.push(0, Ev::Note(format!("joined {} {}", desc(&reason), sub.state)));
    drop(a);
    sim::sleep_ms(2_000).await;
    Ok(id)
}

fn verdict(c: &Case, log: &Log, id: u64) -> CaseResult {
    delivery(log, false)?;
    lifecycle(log, 0, true)?;
    let l = log.of(0);
    let (reason, state) = stop_reason(log, 0).unwrap();
    check!(log, l.last() == Some(&Ev::Note(format!("joined {reason} {state}"))), "reason-differs", "joining gave {:?}, the stop hook saw {reason} and state {state}", l.last());
    // linked actors
    for w in 0..c.watchers {
        let seen: Vec<Ev> = log.of(10 + w as u32).into_iter().filter(|e| matches!(e, Ev::LinkHook(..))).collect();
        check!(log, seen == vec![Ev::LinkHook(id, reason.clone())], "watcher", "watcher {w} was told {seen:?}, the stop reason is {reason}");
    }
    // the cause, replayed from the hooks' decisions
    let all = log.get();
    let sb = all.iter().position(|e| e.who == 0 && matches!(e.ev, Ev::StopBegin(..))).unwrap();
    let killed = all[..sb].iter().any(|e| e.ev == Ev::Kill);
    let asked = all[..sb].iter().any(|e| e.ev == Ev::StopReq) || (c.cause == Cause::Drop && all[..sb].iter().any(|e| e.ev == Ev::Note("refs dropped".into())));
    let own: Vec<&Ev> = all[..=sb].iter().filter(|e| e.who == 0 && !matches!(e.ev, Ev::Susp | Ev::Step(_) | Ev::SendStart(..) | Ev::SendEnd(..) | Ev::Reply(..))).map(|e| &e.ev).collect();
    let is_id = |s: &Ev| matches!(s, Ev::PanicHook(_));
    let mut panics = 0;
    for (i, e) in own.iter().enumerate() {
        let Some(next) = own.get(i + 1) else { break };
        match e {
            Ev::StartEnd(false) => {
                let want = match c.script.start_out {
                    Out::Err => format!("hook:{START_ERR}"),
                    Out::PanicStr => "str:static".into(),
                    Out::PanicOwned => format!("str:owned {START_ERR}"),
                    _ => format!("any:{START_ERR}"),
                };
                check!(log, **next == Ev::PanicHook(want.clone()), "start-failure", "after the start hook failed with {want} came {next:?}");
            }
            Ev::PanicHookEnd(d) if d != "continue" => {
                panics += 1;
                check!(log, matches!(next, Ev::StopBegin(r, _) if r == d), "panic-decision", "the panic hook decided {d}, then came {next:?}");
            }
            Ev::PanicHookEnd(_) => panics += 1,
            Ev::LinkHookEnd(d) if d != "continue" => {
                let ok = match d.strip_prefix("panicked(").and_then(|d| d.strip_suffix(')')) {
                    Some(err) => **next == Ev::PanicHook(err.into()),
                    None => matches!(next, Ev::StopBegin(r, _) if r == d),
                };
                check!(log, ok, "link-decision", "the link hook decided {d}, then came {next:?}");
            }
            _ => {}
        }
        if matches!(next, Ev::StopBegin(..)) {
            let failed_start = own.iter().any(|e| **e == Ev::StartEnd(false));
            match e {
                Ev::PanicHookEnd(d) if failed_start && d == "continue" => {
                    // going on is impossible: the start error stands
                    let err = own.iter().find(|e| is_id(e)).map(|e| match e { Ev::PanicHook(s) => s.clone(), _ => String::new() }).unwrap();
                    check!(log, reason == format!("panicked({err})"), "reason", "the start hook failed with {err}, the stop reason is {reason}");
                }
                Ev::PanicHookEnd(d) | Ev::LinkHookEnd(d) if d != "continue" => {}
                _ => {
                    let ok = (reason == "killed" && killed) || (reason == "normal" && asked);
                    check!(log, ok, "reason", "the stop reason is {reason} (killed: {killed}, stop asked for: {asked}, last event {e:?})");
                }
            }
        }
    }
    let linked = own.iter().any(|e| matches!(e, Ev::LinkHook(..)));
    let hookfail = c.script.stop_out != Out::Ok || !own.contains(&&Ev::StartEnd(true));
    Ok(Info::new(panics > 0 || linked || hookfail)
        .label(hookfail, "start or stop hook fails")
        .label(panics > 0, "panic hook ran")
        .label(reason.starts_with("link"), "died of a link")
        .label(reason == "normal", "normal")
        .label(reason == "killed", "killed")
        .label(reason.starts_with("panicked"), "panicked"))
}

fn check(c: &Case) -> CaseResult {
    let out = sim::run(async {
        let log = Log::new();
        let id = body(c, &log).await?;
        Ok((log, id))
    });
    match out {
        Some(Ok((log, id))) => verdict(c, &log, id),
        Some(Err(f)) => Err(f),
        None => Err(Fail { sig: "hang".into(), msg: "the system never comes to rest".into() }),
    }
}

pub fn hook_out() -> impl Strategy<Value = Out> {
    prop_oneof![6 => Just(Out::Ok), 1 => Just(Out::Err), 1 => Just(Out::PanicStr), 1 => Just(Out::PanicOwned), 1 => Just(Out::PanicAny)]
}

pub fn script() -> impl Strategy<Value = Script> {
    (
        pauses(3),
        prop_oneof![4 => Just(Out::Ok), 1 => hook_out()],
        prop::collection::vec((0u8..3, crate::c02::decide()), 0..4),
        prop::collection::vec((0u8..3, crate::c02::decide()), 0..3),
        pauses(3),
        hook_out(),
    )
        .prop_map(|(start, start_out, panic, link, stop, stop_out)| Script { start, start_out, panic, link, stop, stop_out, ..Default::default() })
}

pub fn run(s: &mut Session) {
    s.prop("reasons", "a panic or link hook ran, or a start or stop hook failed", 40_000, 800_000,
        || {
            let cause = prop_oneof![2 => Just(Cause::Stop), 2 => Just(Cause::Kill), 2 => Just(Cause::Drop), 1 => Just(Cause::None)];
            let peer = prop_oneof![
                3 => Just(Peer::Absent),
                1 => (0u8..12).prop_map(Peer::Stops),
                1 => (0u8..12).prop_map(Peer::Killed),
                1 => (0u8..12).prop_map(Peer::Panics),
                1 => Just(Peer::BadStart),
            ];
            boxed((
                cap(), script(), prop_oneof![3 => Just(0u8), 1 => 1u8..4],
                prop::collection::vec(prop::collection::vec(item(boxed(any_out())), 0..6), 0..3),
                cause, 0u8..14, prop::collection::vec(peer, 0..3), 0u8..3,
            ).prop_map(|(cap, script, start_msgs, items, cause, at, peers, watchers)| Case {
                cap, script, start_msgs, items, cause, at, peers, watchers,
            }))
        },
        check);
}

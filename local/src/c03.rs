//! C03: exact backpressure, against a model of the queue.
use std::{collections::VecDeque, sync::Arc};

use pbt::{boxed, sim, CaseResult, Fail, Info, Session};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tokio::sync::Semaphore;

use crate::lab::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// a non-waiting send
    Try(Kind),
    /// a waiting send in a task of its own
    Wait(Kind),
    /// a graceful stop in a task of its own
    Stop,
    /// let the handler in progress finish
    Release,
    /// drop the i-th waiting call
    Cancel(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    cap: Option<u8>,
    ops: Vec<Op>,
}

#[derive(Clone, Debug, PartialEq)]
enum Q {
    Msg(u32),
    Stop,
}

struct Model {
    cap: Option<usize>,
    busy: Option<u32>,
    queue: VecDeque<Q>,
    waiting: VecDeque<(usize, Q)>,
    accepted: Vec<u32>,
    handled: Vec<u32>,
    dead: bool,
}

impl Model {
    fn room(&self) -> bool {
        self.waiting.is_empty() && self.cap.map(|c| self.queue.len() < c).unwrap_or(true)
    }
    /// moves signals to their places until nothing changes
    fn settle(&mut self) {
        loop {
            if self.busy.is_none() && !self.dead {
                match self.queue.pop_front() {
                    Some(Q::Msg(i)) => {
                        self.busy = Some(i);
                        self.handled.push(i);
                    }
                    Some(Q::Stop) => {
                        self.dead = true;
                        self.queue.clear();
                        self.waiting.clear();
                        return;
                    }
                    None => {}
                }
            }
            let room = self.cap.map(|c| self.queue.len() < c).unwrap_or(true);
            if room && !self.dead {
                if let Some((_, q)) = self.waiting.pop_front() {
                    self.push(q);
                    continue;
                }
            }
            if self.busy.is_none() && !self.queue.is_empty() && !self.dead {
                continue;
            }
            return;
        }
    }
    fn push(&mut self, q: Q) {
        if let Q::Msg(i) = q {
            self.accepted.push(i);
        }
        self.queue.push_back(q);
    }
}

fn check(c: &Case) -> CaseResult {
    let out = sim::run(async {
        let log = Log::new();
        let gate = Arc::new(Semaphore::new(0));
        let (a, _join) = spawn(Sub::new(0, &log, &Script::resilient()).with_gate(&gate), c.cap);
        a.wait_for_startup().await;
        sim::settle().await;
        let mut m = Model {
            cap: c.cap.map(|c| c as usize),
            busy: None,
            queue: VecDeque::new(),
            waiting: VecDeque::new(),
            accepted: vec![],
            handled: vec![],
            dead: false,
        };
        let mut calls: Vec<(tokio::task::JoinHandle<Res>, Q)> = vec![];
        let (mut full, mut admitted, mut cancelled) = (0, 0, 0);
        for (i, op) in c.ops.iter().enumerate() {
            let id = i as u32;
            let job = Job { id, steps: vec![Step::Gate], out: Out::Ok };
            match op {
                Op::Try(k) => {
                    let (a2, log2, k) = (a.clone(), log.clone(), *k);
                    let h = tokio::spawn(send(a2, log2, 0, k, job));
                    let room = m.room();
                    let dead = m.dead;
                    if !dead && room {
                        m.push(Q::Msg(id));
                        m.settle();
                    }
                    sim::settle().await;
                    let end = messages(&log.get()).get(&id).and_then(|x| x.end.clone()).map(|e| e.1);
                    let by_value = !k.enq();
                    if dead {
                        check!(log, end == Some(Res::NotRunning(by_value.then_some(id))), "dead-try", "op {i}: {k:?} to a stopped actor gave {end:?}");
                    } else if room {
                        check!(log, end.is_none() && k.is_ask() && !k.enq() || end == Some(Res::Sent), "try-rejected",
                            "op {i}: {k:?} gave {end:?} with {} of {:?} places taken", m.queue.len(), c.cap);
                    } else {
                        full += 1;
                        check!(log, end == Some(Res::Full(by_value.then_some(id))), "try-accepted",
                            "op {i}: {k:?} gave {end:?} with {} of {:?} places taken and {} waiting", m.queue.len(), c.cap, m.waiting.len());
                    }
                    drop(h);
                }
                Op::Wait(k) => {
                    let h = tokio::spawn(send(a.clone(), log.clone(), 0, *k, job));
                    if !m.dead {
                        if m.room() {
                            m.push(Q::Msg(id));
                        } else {
                            m.waiting.push_back((calls.len(), Q::Msg(id)));
                        }
                        m.settle();
                    }
                    calls.push((h, Q::Msg(id)));
                    sim::settle().await;
                }
                Op::Stop => {
                    let a2 = a.clone();
                    let h = tokio::spawn(async move {
                        match a2.stop_gracefully().await {
                            Ok(()) => Res::Sent,
                            Err(e) => Res::of_enq(Err(e)),
                        }
                    });
                    if !m.dead {
                        if m.room() {
                            m.push(Q::Stop);
                        } else {
                            m.waiting.push_back((calls.len(), Q::Stop));
                        }
                        m.settle();
                    }
                    calls.push((h, Q::Stop));
                    sim::settle().await;
                }
                Op::Release => {
                    if m.busy.is_some() {
                        gate.add_permits(1);
                        m.busy = None;
                        let before = m.waiting.len();
                        m.settle();
                        admitted += before.saturating_sub(m.waiting.len());
                        sim::settle().await;
                    }
                }
                Op::Cancel(n) => {
                    // only calls which do not run in a task of their own can be cancelled from here
                    let cand: Vec<usize> = m.waiting.iter().enumerate()
                        .filter(|(_, (call, q))| {
                            matches!(q, Q::Stop) || matches!(q, Q::Msg(j) if !matches!(c.ops[*j as usize], Op::Wait(Kind::Enq | Kind::EnqTimed(..))) && !calls[*call].0.is_finished())
                        })
                        .map(|(x, _)| x)
                        .collect();
                    if !cand.is_empty() {
                        let x = cand[*n as usize % cand.len()];
                        let (call, _) = m.waiting.remove(x).unwrap();
                        calls[call].0.abort();
                        cancelled += 1;
                        sim::settle().await;
                    }
                }
            }
            // every message handled so far, in order
            let begun: Vec<u32> = log.get().iter().filter_map(|e| match e.ev { Ev::Begin(i) => Some(i), _ => None }).collect();
            check!(log, begun == m.handled, "handled", "op {i} {op:?}: handled {begun:?}, the model handled {:?} (queue {:?}, waiting {:?})", m.handled, m.queue, m.waiting);
            check!(log, a.is_alive() != m.dead, "alive", "op {i} {op:?}: alive is {}, the model says dead = {}", a.is_alive(), m.dead);
            // waiting calls: completed exactly when admitted
            for (n, (h, q)) in calls.iter().enumerate() {
                let waits = m.waiting.iter().any(|(x, _)| *x == n);
                if waits {
                    check!(log, !h.is_finished(), "admitted-early", "op {i} {op:?}: call {n} ({q:?}) completed although the mailbox is full (queue {:?}, waiting {:?})", m.queue, m.waiting);
                } else if let Q::Msg(j) = q {
                    let x = messages(&log.get()).get(j).cloned().unwrap_or_default();
                    let accept_only = match &c.ops[*j as usize] { Op::Wait(k) => k.accept_only(), _ => true };
                    if accept_only && !h.is_finished() {
                        check!(log, x.end.is_some(), "not-admitted", "op {i} {op:?}: call {n} ({q:?}) is still waiting although there is room (queue {:?}, waiting {:?})", m.queue, m.waiting);
                    }
                } else {
                    check!(log, h.is_finished(), "not-admitted", "op {i} {op:?}: call {n} ({q:?}) is still waiting although there is room");
                }
            }
        }
        // let everything run to its end
        gate.add_permits(10_000);
        m.busy = None;
        loop {
            m.settle();
            if m.busy.take().is_none() {
                break;
            }
        }
        sim::settle().await;
        sim::settle().await;
        let begun: Vec<u32> = log.get().iter().filter_map(|e| match e.ev { Ev::Begin(i) => Some(i), _ => None }).collect();
        check!(log, begun == m.handled, "handled", "finally handled {begun:?}, the model handled {:?}", m.handled);
        for (n, (h, q)) in calls.iter().enumerate() {
            check!(log, h.is_finished(), "never-admitted", "call {n} ({q:?}) never completes");
        }
        delivery(&log, false)?;
        let msgs = messages(&log.get());
        for id in &m.accepted {
            // behind a stop, a woken call may find the mailbox closed before it takes its place
            if m.dead && !m.handled.contains(id) {
                continue;
            }
            let r = msgs.get(id).and_then(|x| x.end.clone()).map(|e| e.1);
            check!(log, r.as_ref().map(|r| r.accepted()).unwrap_or(true), "accepted-failed", "message {id} was admitted but failed with {r:?}");
        }
        for (id, x) in &msgs {
            if let Some((_, r)) = &x.end {
                check!(log, !r.accepted() || m.accepted.contains(id), "rejected-accepted", "message {id} gave {r:?} but was never admitted by the model");
                // a rejected message comes back untouched (checked by delivery) and only for these reasons
                check!(log, r.accepted() || matches!(r, Res::Full(_) | Res::NotRunning(_)), "error-kind", "message {id} failed with {r:?}");
            }
        }
        Ok(Info::new(full > 0 && admitted > 0)
            .label(full > 0, "mailbox full")
            .label(admitted > 0, "waiter admitted")
            .label(cancelled > 0, "waiter cancelled")
            .label(m.dead, "stopped"))
    });
    match out {
        Some(r) => r,
        None => Err(Fail { sig: "hang".into(), msg: "the system never comes to rest".into() }),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Big {
    n: u16,
    kinds: Vec<Kind>,
    gated: bool,
}

/// An unbounded mailbox takes anything at once.
fn unbounded(b: &Big) -> CaseResult {
    let out = sim::run(async {
        let log = Log::new();
        let gate = Arc::new(Semaphore::new(0));
        let (a, _join) = spawn(Sub::new(0, &log, &Script::resilient()).with_gate(&gate), None);
        if b.gated {
            let _ = a.tell(Job { id: 999_999, steps: vec![Step::Gate], out: Out::Ok }).try_send();
            sim::settle().await;
        }
        let mut hs = vec![];
        let t0 = log.now();
        for i in 0..b.n as usize {
            let k = b.kinds[i % b.kinds.len()];
            let h = tokio::spawn(send(a.clone(), log.clone(), 0, k, Job::new(i as u32)));
            if k.accept_only() {
                let r = sim::settled(h).await;
                check!(log, matches!(&r, Some(Ok(Res::Sent))), "unbounded-rejects", "{k:?} {i} gave {r:?}");
            } else {
                hs.push((i, k, h));
            }
        }
        check!(log, log.now() == t0, "unbounded-delays", "sending took {} ms", log.now() - t0);
        gate.add_permits(10);
        for (i, k, h) in hs {
            let r = sim::settled(h).await;
            check!(log, matches!(&r, Some(Ok(Res::Val(v))) if *v == value_of(i as u32)), "unbounded-rejects", "{k:?} {i} gave {r:?}");
        }
        sim::settle().await;
        let begun = log.get().iter().filter(|e| matches!(e.ev, Ev::Begin(i) if i < 999_999)).count();
        check!(log, begun == b.n as usize, "lost", "{} of {} handled", begun, b.n);
        Ok(Info::new(b.gated && b.n > 64))
    });
    out.unwrap_or_else(|| Err(Fail { sig: "hang".into(), msg: "the system never comes to rest".into() }))
}

pub fn run(s: &mut Session) {
    let tk = || prop::sample::select(vec![Kind::TellTry, Kind::RecTry, Kind::AskTry, Kind::EnqTry]);
    let wk = || prop::sample::select(vec![Kind::Tell, Kind::Rec, Kind::Ask, Kind::Enq, Kind::TellMbox(60_000), Kind::RecMbox(60_000), Kind::AskTimed(60_000, 0)]);
    s.prop("queue_model", "a rejected non-waiting send and an admitted waiting one", 20_000, 400_000,
        || {
            let op = prop_oneof![
                6 => tk().prop_map(Op::Try),
                5 => wk().prop_map(Op::Wait),
                5 => Just(Op::Release),
                1 => any::<u8>().prop_map(Op::Cancel),
            ];
            let op2 = prop_oneof![30 => op, 1 => Just(Op::Stop)];
            let cap = prop_oneof![1 => Just(None), 3 => Just(Some(1)), 3 => Just(Some(2)), 2 => (3u8..6).prop_map(Some)];
            boxed((cap, prop::collection::vec(op2, 1..40)).prop_map(|(cap, ops)| Case { cap, ops }))
        },
        check);
    s.prop("unbounded", "more than 64 messages while the actor is busy", 300, 4_000,
        || {
            let k = prop::sample::select(vec![Kind::Tell, Kind::TellTry, Kind::Rec, Kind::RecTry, Kind::Enq, Kind::EnqTry, Kind::Ask, Kind::AskTry]);
            boxed((1u16..700, prop::collection::vec(k, 1..5), any::<bool>()).prop_map(|(n, kinds, gated)| Big { n, kinds, gated }))
        },
        unbounded);
}

//! C04: timeouts, against an exact model of queue and clock.
//!
//! Every event of the model (arrival, end of a handler, mailbox deadline, reply deadline) has its own
//! residue modulo the period, so no two events that could race ever fall on the same instant.
use std::collections::VecDeque;

use pbt::{boxed, sim, CaseResult, Fail, Info, Session};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::lab::*;

const UNIT: u64 = 4;
const PERIOD: u64 = 64 * UNIT;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Form {
    Tell,
    Rec,
    Ask,
    Enq,
    AskTry,
    EnqTry,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct One {
    /// arrival, mailbox timeout and reply timeout (0 = none, NIL = no time at all) and handling time, in periods
    at: u8,
    form: Form,
    mbox: u8,
    reply: u8,
    work: u8,
    out: Out,
    /// with a timeout far longer than anything here, or the longest there is, in place of none
    long: Option<bool>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    cap: Option<u8>,
    msgs: Vec<One>,
}

const NIL: u8 = 9;

fn periods(n: u8, plus: u64) -> Option<u64> {
    match n {
        0 => None,
        NIL => Some(0),
        n => Some((n as u64 - 1) * PERIOD + plus),
    }
}

impl One {
    fn mbox_ms(&self) -> Option<u64> {
        let has = matches!(self.form, Form::Tell | Form::Rec | Form::Ask | Form::Enq);
        periods(self.mbox, 16 * UNIT).filter(|_| has)
    }
    fn reply_ms(&self) -> Option<u64> {
        let has = !matches!(self.form, Form::Tell | Form::Rec);
        periods(self.reply, 32 * UNIT).filter(|_| has)
    }
    fn kind(&self) -> Kind {
        let t = |x: Option<u64>| match (x, self.long) {
            (None, None) => 0,
            (None, Some(false)) => 60_000,
            (None, Some(true)) => FOREVER,
            (Some(0), _) => ZERO,
            (Some(x), _) => x as u16,
        };
        let (m, r) = (t(self.mbox_ms()), t(self.reply_ms()));
        match self.form {
            Form::Tell if m == 0 => Kind::Tell,
            Form::Tell => Kind::TellMbox(m),
            Form::Rec if m == 0 => Kind::Rec,
            Form::Rec => Kind::RecMbox(m),
            Form::Ask => Kind::AskTimed(m, r),
            Form::Enq => Kind::EnqTimed(m, r),
            Form::AskTry if r == 0 => Kind::AskTry,
            Form::AskTry => Kind::AskTryTimed(r),
            Form::EnqTry if r == 0 => Kind::EnqTry,
            Form::EnqTry => Kind::EnqTryTimed(r),
        }
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
struct Want {
    accepted: Option<u64>,
    begun: Option<u64>,
    /// completion of the call and its result
    end: Option<(u64, Option<Res>)>,
    reply: Option<(u64, Res)>,
    /// the answer comes at the very instant at which there is no more time for it
    either: bool,
}

/// What must happen, and when.
fn model(c: &Case) -> Vec<Want> {
    let n = c.msgs.len();
    let mut w = vec![Want::default(); n];
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by_key(|i| c.msgs[*i].at as u64 * PERIOD + *i as u64 * UNIT);
    let mut arrivals: VecDeque<(u64, usize)> =
        order.iter().map(|i| (c.msgs[*i].at as u64 * PERIOD + *i as u64 * UNIT, *i)).collect();
    let mut queue: VecDeque<usize> = VecDeque::new();
    let mut waiting: VecDeque<usize> = VecDeque::new();
    let mut busy: Option<(u64, usize)> = None;
    let cap = c.cap.map(|c| c as usize).unwrap_or(usize::MAX);
    let mut finished: Vec<Option<u64>> = vec![None; n];
    loop {
        // the next event
        let deadline = waiting
            .iter()
            .filter_map(|i| Some((c.msgs[*i].at as u64 * PERIOD + *i as u64 * UNIT + c.msgs[*i].mbox_ms()?, 2, *i)))
            .min();
        let next = [
            busy.map(|(t, i)| (t, 1, i)),
            arrivals.front().map(|(t, i)| (*t, 0, *i)),
            deadline,
        ]
        .into_iter()
        .flatten()
        .min();
        let Some((now, what, i)) = next else { break };
        match what {
            0 => {
                arrivals.pop_front();
                if waiting.is_empty() && queue.len() < cap {
                    queue.push_back(i);
                    w[i].accepted = Some(now);
                } else if matches!(c.msgs[i].form, Form::AskTry | Form::EnqTry) {
                    let enq = c.msgs[i].form == Form::EnqTry;
                    w[i].end = Some((now, Some(Res::Full((!enq).then_some(i as u32)))));
                } else {
                    waiting.push_back(i);
                }
            }
            1 => {
                finished[i] = Some(now);
                busy = None;
            }
            _ => {
                waiting.retain(|x| *x != i);
                let enq = c.msgs[i].form == Form::Enq;
                w[i].end = Some((now, Some(Res::Timeout(Some(if enq { u32::MAX } else { i as u32 })))));
            }
        }
        loop {
            if busy.is_none() {
                if let Some(i) = queue.pop_front() {
                    w[i].begun = Some(now);
                    busy = Some((now + c.msgs[i].work as u64 * PERIOD, i));
                }
            }
            if queue.len() < cap {
                if let Some(i) = waiting.pop_front() {
                    queue.push_back(i);
                    w[i].accepted = Some(now);
                    continue;
                }
            }
            if busy.map(|(t, _)| t == now) == Some(true) {
                finished[busy.unwrap().1] = Some(now);
                busy = None;
                continue;
            }
            break;
        }
    }
    for i in 0..n {
        let m = &c.msgs[i];
        let Some(acc) = w[i].accepted else { continue };
        let extra = match m.out {
            Out::Delegate(p) => p as u64,
            _ => 0,
        };
        let done = finished[i].unwrap() + extra;
        let res = match m.out {
            Out::Err => Res::HErr(i as u32),
            Out::DropReply => Res::Stopped,
            _ => Res::Val(value_of(i as u32)),
        };
        w[i].either = m.reply_ms() == Some(0) && done == acc;
        let answer = match m.reply_ms() {
            Some(r) if acc + r < done => (acc + r, Res::Timeout(None)),
            _ => (done, res),
        };
        match m.form {
            Form::Tell | Form::Rec => w[i].end = Some((acc, Some(Res::Sent))),
            Form::Ask | Form::AskTry => w[i].end = Some((answer.0, Some(answer.1))),
            Form::Enq | Form::EnqTry => {
                w[i].end = Some((acc, Some(Res::Sent)));
                w[i].reply = Some(answer);
            }
        }
    }
    w
}

fn check(c: &Case) -> CaseResult {
    let out = sim::run(async {
        let script = Script::resilient();
        let setup = Log::new();
        let (a, _j) = spawn(Sub::new(0, &setup, &script), c.cap);
        a.wait_for_startup().await;
        sim::settle().await;
        drop(a);
        let log = Log::new();
        let (a, _join) = spawn(Sub::new(0, &log, &script), c.cap);
        a.wait_for_startup().await;
        sim::yields(20).await;
        let t0 = log.now();
        for (i, m) in c.msgs.iter().enumerate() {
            let (a, log, m) = (a.clone(), log.clone(), m.clone());
            tokio::spawn(async move {
                sim::sleep_ms(m.at as u64 * PERIOD + i as u64 * UNIT).await;
                let job = Job { id: i as u32, steps: vec![Step::Sleep(0); 1], out: m.out };
                let job = Job { steps: work(m.work), ..job };
                send(a, log, i as u32, m.kind(), job).await;
            });
        }
        sim::sleep_ms(200_000).await;
        Ok((log, t0, a.is_alive()))
    });
    let (log, t0, alive) = match out {
        Some(Ok(x)) => x,
        Some(Err(f)) => return Err(f),
        None => return Err(Fail { sig: "hang".into(), msg: "the system never comes to rest".into() }),
    };
    check!(log, t0 == 0, "clock", "startup took virtual time");
    check!(log, alive, "died", "the actor died");
    let m = delivery(&log, true)?;
    let l = log.get();
    let want = model(c);
    let (mut mt, mut rt, mut saved) = (0, 0, 0);
    for (i, w) in want.iter().enumerate() {
        let x = m.get(&(i as u32)).cloned().unwrap_or_default();
        let k = c.msgs[i].kind();
        let mut end = x.end.clone().map(|(t, r)| (l[t].at, Some(r)));
        if w.either && end == w.end.as_ref().map(|(t, _)| (*t, Some(Res::Timeout(None)))) {
            end = w.end.clone();
        }
        check!(log, end == w.end, "completion", "{k:?} {i}: completed (at, result) {end:?}, expected {:?}", w.end);
        let begun = x.begin.first().map(|t| l[*t].at);
        check!(log, begun == w.begun, "handling", "{k:?} {i}: handled at {begun:?}, expected {:?}", w.begun);
        let mut reply = x.reply.clone().map(|(t, r)| (l[t].at, r));
        if w.either && reply == w.reply.as_ref().map(|(t, _)| (*t, Res::Timeout(None))) {
            reply = w.reply.clone();
        }
        check!(log, reply == w.reply, "reply", "{k:?} {i}: reply (at, result) {reply:?}, expected {:?}", w.reply);
        match (&w.end, &w.reply) {
            (Some((_, Some(Res::Timeout(Some(_))))), _) => mt += 1,
            (Some((_, Some(Res::Timeout(None)))), _) | (_, Some((_, Res::Timeout(None)))) => rt += 1,
            _ => {
                if let Some(acc) = w.accepted {
                    if acc > c.msgs[i].at as u64 * PERIOD + i as u64 * UNIT && c.msgs[i].mbox_ms().is_some() {
                        saved += 1
                    }
                }
            }
        }
    }
    Ok(Info::new(mt + rt > 0)
        .label(mt > 0, "mailbox timeout")
        .label(rt > 0, "reply timeout")
        .label(c.msgs.iter().any(|m| m.mbox_ms() == Some(0) || m.reply_ms() == Some(0)), "no time at all")
        .label(saved > 0, "room made before the mailbox deadline"))
}

/// handling time in periods as steps
fn work(periods: u8) -> Vec<Step> {
    let mut v = vec![];
    for _ in 0..periods as u64 * PERIOD / 128 {
        v.push(Step::Sleep(128));
    }
    v
}

pub fn run(s: &mut Session) {
    s.prop("timed_queue", "a timeout fires", 40_000, 800_000,
        || {
            let form = prop::sample::select(vec![Form::Tell, Form::Rec, Form::Ask, Form::Ask, Form::Enq, Form::Enq, Form::AskTry, Form::EnqTry]);
            let out = prop_oneof![6 => Just(Out::Ok), 1 => Just(Out::Err), 1 => Just(Out::DropReply), 1 => (0u8..3).prop_map(Out::Delegate)];
            let one = (0u8..8, form, prop_oneof![2 => Just(0u8), 3 => 1u8..6, 1 => Just(NIL)], prop_oneof![2 => Just(0u8), 3 => 1u8..7, 1 => Just(NIL)], 0u8..5, out, any::<Option<bool>>())
                .prop_map(|(at, form, mbox, reply, work, out, long)| One {
                    at, form, mbox, reply, work, long,
                    // an error returned to a tell would be a panic
                    out: if matches!(form, Form::Tell | Form::Rec) { Out::Ok } else { out },
                });
            let cap = prop_oneof![1 => Just(None), 3 => Just(Some(1)), 3 => Just(Some(2)), 1 => Just(Some(4))];
            boxed((cap, prop::collection::vec(one, 1..14)).prop_map(|(cap, msgs)| Case { cap, msgs }))
        },
        check);
}

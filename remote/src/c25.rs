//! C25: requests to actors on other nodes. Sequences of requests against a model of what the same requests do locally,
//! concurrent histories with lost connections, and whatever bytes another peer may send as requests and responses.
use std::{
    collections::{BTreeMap, BTreeSet},
    time::{Duration, Instant},
};

use kameo::{
    actor::ActorID,
    error::{ActorStopReason, PanicError, RemoteSendError},
    remote::{SwarmRequest, SwarmResponse},
};
use pbt::{boxed, ensure, fail, CaseResult, Fail, Info, Session};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::{
    proto::*,
    puppet::{self, Answer},
    world::{self, fresh, Kind, Pending, World},
};

/// Nodes 0 (driven by hand) and 1.
pub const PAIR: Kind =
    Kind { manual: [Some(true), Some(false), None], max_records: 100_000, timeout_ms: 60_000, query_ms: 20_000, puppet: false, once: false };

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Act {
    node: u8,
    ty: Ty,
    cap: Option<u8>,
    resilient: bool,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Via {
    /// by the actor ref
    Local,
    /// by a remote ref on the actor's own node
    Own,
    /// by a remote ref on the other node
    Far,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct R {
    via: Via,
    ask: bool,
    try_: bool,
    mbt: bool,
    rt: bool,
    out: Out,
    len: u32,
    fuse: bool,
    sleep: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Probe {
    /// full if it is
    Try(Via, bool),
    /// times out
    Timeout(Via, bool),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Finish {
    Release,
    Kill,
    Stop,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Req(u8, R),
    /// the actor is kept busy while others send
    Hold { a: u8, gate: Via, fill: Vec<Via>, probes: Vec<Probe>, pend: Option<(Via, bool)>, finish: Finish },
    End(u8, How),
    Disconnect(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    acts: Vec<Act>,
    ops: Vec<Op>,
}

struct Live {
    n: u64,
    cap: Option<u8>,
    node: usize,
    resilient: bool,
    alive: bool,
    handled: Vec<u64>,
}

/// Spawns and registers an actor, and looks it up on each node; its number is also the slot.
pub fn place(w: &World, node: usize, ty: Ty, cap: Option<u8>, resilient: bool) -> Result<u64, Fail> {
    let n = fresh();
    w.nodes[node].call(Cmd::Spawn { a: n, ty, cap, resilient })?;
    let name = format!("actor-{n}");
    let until = Instant::now() + Duration::from_secs(20);
    loop {
        let r = w.nodes[node].call(Cmd::Register { a: n, name: name.clone() })?;
        let mut ok = r == Resp::Unit;
        for node in &w.nodes {
            if ok {
                ok = matches!(node.call(Cmd::Lookup { name: name.clone(), ty, slot: n })?, Resp::Found(Some(_)));
            }
        }
        if ok {
            return Ok(n);
        }
        if Instant::now() > until {
            return fail("lookup", format!("an actor of node {node} cannot be registered and found on every node"));
        }
        std::thread::sleep(Duration::from_millis(10));
        w.connect()?;
    }
}

const LONG: u64 = 30_000;
const SHORT: u64 = 40;

fn data(id: u64, len: u32) -> Vec<u8> {
    (0..len as u64).map(|i| (id.wrapping_mul(31).wrapping_add(i * 7) % 256) as u8).collect()
}

fn req(via: Via, n: u64, ask: bool, try_: bool, mbt: Option<u64>, rt: Option<u64>, job: Job) -> Cmd {
    Cmd::Req { local: (via == Via::Local).then_some(n), slot: n, ask, try_, mbt, rt, job }
}

fn from<'a>(w: &'a World, via: Via, node: usize) -> &'a world::Node {
    match via {
        Via::Local | Via::Own => &w.nodes[node],
        Via::Far => &w.nodes[1 - node],
    }
}

/// What the request gives when the actor handles it.
fn outcome(n: u64, via: Via, ask: bool, out: Out, id: u64, data: Vec<u8>) -> Res {
    if !ask {
        return Res::Ok(None);
    }
    let far = via != Via::Local;
    match out {
        Out::Ok | Out::Later(_) => Res::Ok(Some(Rep { extra: Extra::of(id), id, by: n, data, fuse: Fuse(false) })),
        Out::Err => Res::Handler(id, err_text(id)),
        Out::BadOk if far => Res::SerReply,
        // (the blown fuse is not transmitted to the driver)
        Out::BadOk => Res::Ok(Some(Rep { extra: Extra::of(id), id, by: n, data, fuse: Fuse(false) })),
        Out::BadErr if far => Res::SerErr,
        Out::BadErr => Res::Handler(id, err_text(id)),
        Out::Panic | Out::Dropped => Res::Stopped,
    }
}

fn sequence(c: &Case) -> CaseResult {
    world::with(PAIR, |w| {
        w.connect()?;
        let mut acts = vec![];
        for a in &c.acts {
            let node = a.node as usize % 2;
            let n = place(w, node, a.ty, a.cap, a.resilient)?;
            acts.push(Live { n, cap: a.cap, node, resilient: a.resilient, alive: true, handled: vec![] });
        }
        let (mut far, mut special, mut cut) = (0, false, false);
        for op in &c.ops {
            match op {
                Op::Req(a, r) => {
                    let a = &mut acts[*a as usize % c.acts.len()];
                    let id = fresh();
                    let job = Job {
                        extra: Extra::of(id),
                        id,
                        gate: false,
                        sleep: r.sleep,
                        out: r.out,
                        data: data(id, r.len),
                        fuse: Fuse(r.fuse && r.via != Via::Local),
                    };
                    let (mbt, rt) = (r.mbt.then_some(LONG), r.rt.then_some(LONG));
                    // the driver cannot send a blown fuse: the node blows it
                    let got = from(w, r.via, a.node).res(req(r.via, a.n, r.ask, r.try_, mbt, rt, job.clone().sendable()))?;
                    let want = if job.fuse.0 {
                        Res::Ser
                    } else if !a.alive {
                        Res::NotRunning
                    } else {
                        outcome(a.n, r.via, r.ask, r.out, id, job.data.clone())
                    };
                    ensure!(got == want, "outcome", "{r:?} gives {got:?} instead of {want:?}");
                    far += (r.via != Via::Local) as u32;
                    special |= !matches!(got, Res::Ok(_));
                    if want != Res::Ser && a.alive {
                        a.handled.push(id);
                        let dies = r.out == Out::Panic || !r.ask && matches!(r.out, Out::Err | Out::BadErr);
                        if dies && !a.resilient {
                            w.nodes[a.node].yes(Cmd::WaitStopped { a: a.n }, "the actor whose handler failed stops")?;
                            a.alive = false;
                        } else {
                            // keeps the mailbox empty for the next one
                            w.nodes[a.node].yes(Cmd::WaitEnd { a: a.n, id }, "a message is handled")?;
                        }
                    }
                }
                Op::Hold { a, gate, fill, probes, pend, finish } => {
                    let a = &mut acts[*a as usize % c.acts.len()];
                    if !a.alive {
                        continue;
                    }
                    special = true;
                    let g = fresh();
                    let mut job = Job::new(g, Out::Ok);
                    job.gate = true;
                    let r = from(w, *gate, a.node).res(req(*gate, a.n, false, false, None, None, job))?;
                    ensure!(r == Res::Ok(None), "outcome", "a tell ({gate:?}) to a running actor gives {r:?}");
                    w.nodes[a.node].yes(Cmd::WaitBegin { a: a.n, id: g }, "a told message is handled")?;
                    a.handled.push(g);
                    let mut queue: Vec<u64> = vec![];
                    let cap = a.cap.map(|c| c as usize).unwrap_or(usize::MAX);
                    for via in fill.iter().take(cap) {
                        let id = fresh();
                        let r = from(w, *via, a.node).res(req(*via, a.n, false, false, None, None, Job::new(id, Out::Ok)))?;
                        ensure!(r == Res::Ok(None), "outcome", "a tell ({via:?}) into a mailbox with room gives {r:?}");
                        queue.push(id);
                        far += (*via != Via::Local) as u32;
                    }
                    for p in probes {
                        let id = fresh();
                        let full = queue.len() >= cap;
                        match *p {
                            Probe::Try(via, ask) => {
                                if full {
                                    let r = from(w, via, a.node).res(req(via, a.n, ask, true, None, None, Job::new(id, Out::Ok)))?;
                                    ensure!(r == Res::Full, "full", "{p:?} on a full mailbox gives {r:?}");
                                } else {
                                    let r = from(w, via, a.node)
                                        .res(req(via, a.n, ask, true, None, ask.then_some(SHORT), Job::new(id, Out::Ok)))?;
                                    let want = if ask { Res::Timeout } else { Res::Ok(None) };
                                    ensure!(r == want, "timeout", "{p:?} to a busy actor gives {r:?} instead of {want:?}");
                                    queue.push(id);
                                }
                            }
                            Probe::Timeout(via, ask) => {
                                // room: the reply does not come in time, if there is to be one
                                let (mbt, rt) = if full { (Some(SHORT), None) } else { (None, ask.then_some(SHORT)) };
                                let t = Instant::now();
                                let r = from(w, via, a.node).res(req(via, a.n, ask, false, mbt, rt, Job::new(id, Out::Ok)))?;
                                let want = if full || ask { Res::Timeout } else { Res::Ok(None) };
                                ensure!(
                                    r == want,
                                    "timeout",
                                    "{p:?} to a busy actor{} gives {r:?} instead of {want:?}",
                                    if full { " with a full mailbox" } else { "" }
                                );
                                ensure!(
                                    want != Res::Timeout || t.elapsed() >= Duration::from_millis(SHORT - 1),
                                    "early",
                                    "{p:?} times out before the time is up"
                                );
                                if !full {
                                    queue.push(id);
                                }
                            }
                        }
                    }
                    let full = queue.len() >= cap;
                    let pend: Option<(Via, bool, u64, Pending)> = match pend {
                        Some((via, ask)) if *finish != Finish::Stop && (*ask || full) => {
                            let id = fresh();
                            let p = from(w, *via, a.node).start(req(*via, a.n, *ask, false, None, None, Job::new(id, Out::Ok)));
                            std::thread::sleep(Duration::from_millis(4));
                            if let Some(r) = p.done() {
                                return fail("early", format!("a request ({via:?}) to a busy actor gives {r:?} while it is busy"));
                            }
                            Some((*via, *ask, id, p))
                        }
                        _ => None,
                    };
                    let owner = &w.nodes[a.node];
                    match finish {
                        Finish::Release => {
                            owner.call(Cmd::Open { a: a.n, n: 1 })?;
                            a.handled.extend(&queue);
                            if let Some((via, ask, id, p)) = pend {
                                let r = p.wait()?;
                                let want = Resp::Res(outcome(a.n, via, ask, Out::Ok, id, vec![]));
                                ensure!(r == want, "outcome", "a waiting request ({via:?}) gives {r:?} instead of {want:?}");
                                a.handled.push(id);
                            }
                            let last = *a.handled.last().unwrap();
                            owner.yes(Cmd::WaitEnd { a: a.n, id: last }, "a queued message is handled")?;
                        }
                        Finish::Stop => {
                            let p = owner.start(Cmd::End { a: a.n, how: How::Stop });
                            std::thread::sleep(Duration::from_millis(4));
                            owner.call(Cmd::Open { a: a.n, n: 1 })?;
                            a.handled.extend(&queue);
                            p.wait()?;
                            owner.yes(Cmd::WaitStopped { a: a.n }, "the actor stops")?;
                            a.alive = false;
                        }
                        Finish::Kill => {
                            owner.call(Cmd::End { a: a.n, how: How::Kill })?;
                            owner.yes(Cmd::WaitStopped { a: a.n }, "the killed actor stops")?;
                            a.alive = false;
                            if let Some((via, ask, _, p)) = pend {
                                let r = p.wait()?;
                                // not yet in the mailbox, or in it
                                let ok = r == Resp::Res(Res::NotRunning) || ask && !full && r == Resp::Res(Res::Stopped);
                                ensure!(ok, "killed", "a waiting request ({via:?}, ask: {ask}) to an actor which is killed gives {r:?}");
                            }
                        }
                    }
                }
                Op::End(a, how) => {
                    let a = &mut acts[*a as usize % c.acts.len()];
                    w.nodes[a.node].call(Cmd::End { a: a.n, how: *how })?;
                    if a.alive && *how == How::Panic && a.resilient {
                        continue;
                    }
                    w.nodes[a.node].yes(Cmd::WaitStopped { a: a.n }, "the actor stops")?;
                    a.alive = false;
                }
                Op::Disconnect(by) => {
                    cut = true;
                    let by = *by as usize % 2;
                    w.nodes[by].call(Cmd::Disconnect { peer: w.nodes[1 - by].peer.clone() })?;
                    let until = Instant::now() + Duration::from_secs(20);
                    while w.nodes[0].conns(&w.nodes[1].peer)?.0 > 0 {
                        ensure!(Instant::now() < until, "disconnect", "the connection is never closed");
                        std::thread::sleep(Duration::from_millis(1));
                    }
                    // each actor can be reached again, once the nodes noticed
                    for a in acts.iter_mut() {
                        let until = Instant::now() + Duration::from_secs(20);
                        for via in [Via::Own, Via::Far] {
                            loop {
                                let id = fresh();
                                let r = from(w, via, a.node).res(req(via, a.n, true, false, None, None, Job::new(id, Out::Ok)))?;
                                let want = if a.alive { outcome(a.n, via, true, Out::Ok, id, vec![]) } else { Res::NotRunning };
                                if r == want {
                                    if a.alive {
                                        a.handled.push(id);
                                    }
                                    break;
                                }
                                ensure!(
                                    matches!(r, Res::Net(_)) && via == Via::Far && Instant::now() < until,
                                    "reconnect",
                                    "after a lost connection an ask ({via:?}) to a{} actor gives {r:?} instead of {want:?}",
                                    if a.alive { " running" } else { " stopped" }
                                );
                                std::thread::sleep(Duration::from_millis(2));
                            }
                        }
                    }
                }
            }
        }
        for (i, a) in acts.iter_mut().enumerate() {
            let owner = &w.nodes[a.node];
            if a.alive {
                let id = fresh();
                let r = owner.res(req(Via::Local, a.n, true, false, None, None, Job::new(id, Out::Ok)))?;
                ensure!(matches!(r, Res::Ok(Some(_))), "alive", "actor {i} is expected to be running: {r:?}");
                a.handled.push(id);
            }
            // but for the panics asked for by the driver
            let log: Vec<u64> =
                owner.log(a.n)?.iter().filter_map(|e| if let Ev::Begin(id) = e { Some(*id) } else { None }).filter(|x| *x != u64::MAX).collect();
            let base = a.handled.first().copied().unwrap_or(0);
            let rel = |v: &[u64]| v.iter().map(|x| *x as i64 - base as i64).collect::<Vec<_>>();
            ensure!(log == a.handled, "handled", "actor {i} handled {:?} instead of {:?}", rel(&log), rel(&a.handled));
        }
        Ok(Info::new(far > 1 && special).label(cut, "connection_lost").label(special, "not_just_replies"))
    })
}

impl Job {
    /// The blown fuse as the driver tells a node.
    fn sendable(mut self) -> Job {
        if self.fuse.0 {
            self.fuse = Fuse(false);
            self.sleep = FUSE;
        }
        self
    }
}

fn out() -> BoxedStrategy<Out> {
    boxed(prop_oneof![
        6 => Just(Out::Ok),
        3 => Just(Out::Err),
        1 => Just(Out::Panic),
        2 => (0u8..6).prop_map(Out::Later),
        1 => Just(Out::BadOk),
        1 => Just(Out::BadErr),
        1 => Just(Out::Dropped),
    ])
}

fn via() -> BoxedStrategy<Via> {
    boxed(prop_oneof![1 => Just(Via::Local), 2 => Just(Via::Own), 4 => Just(Via::Far)])
}

fn ty() -> BoxedStrategy<Ty> {
    boxed(prop_oneof![Just(Ty::A), Just(Ty::B)])
}

fn act() -> BoxedStrategy<Act> {
    boxed(
        (0u8..2, ty(), prop::option::weighted(0.7, 1u8..4), prop::bool::weighted(0.7))
            .prop_map(|(node, ty, cap, resilient)| Act { node, ty, cap, resilient }),
    )
}

fn how() -> BoxedStrategy<How> {
    boxed(prop_oneof![Just(How::Kill), Just(How::Stop), Just(How::Panic)])
}

fn case() -> impl Strategy<Value = Case> {
    let r = (
        (via(), any::<bool>(), prop::bool::weighted(0.3), any::<bool>(), any::<bool>()),
        out(),
        prop_oneof![8 => 0u32..40, 1 => 40u32..3_000, 1 => 3_000u32..60_000],
        prop::bool::weighted(0.05),
        prop_oneof![4 => Just(0u8), 1 => 1u8..4],
    )
        .prop_map(|((via, ask, try_, mbt, rt), out, len, fuse, sleep)| R { via, ask, try_, mbt, rt, out, len, fuse, sleep });
    let probe = prop_oneof![
        (via(), any::<bool>()).prop_map(|(v, a)| Probe::Try(v, a)),
        (via(), any::<bool>()).prop_map(|(v, a)| Probe::Timeout(v, a)),
    ];
    let hold = (
        0u8..3,
        via(),
        prop::collection::vec(via(), 0..4),
        prop::collection::vec(probe, 0..3),
        prop::option::of((via(), any::<bool>())),
        prop_oneof![4 => Just(Finish::Release), 1 => Just(Finish::Kill), 1 => Just(Finish::Stop)],
    )
        .prop_map(|(a, gate, fill, probes, pend, finish)| Op::Hold { a, gate, fill, probes, pend, finish });
    let op = prop_oneof![
        20 => (0u8..3, r).prop_map(|(a, r)| Op::Req(a, r)),
        5 => hold,
        1 => (0u8..3, how()).prop_map(|(a, h)| Op::End(a, h)),
        1 => (0u8..2).prop_map(Op::Disconnect),
    ];
    (prop::collection::vec(act(), 1..4), prop::collection::vec(op, 1..16)).prop_map(|(acts, ops)| Case { acts, ops })
}

// ---------------------------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hr {
    a: u8,
    ask: bool,
    try_: bool,
    mbt: Option<u8>,
    rt: Option<u8>,
    out: Out,
    sleep: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Requester {
    node: u8,
    reqs: Vec<Hr>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct History {
    acts: Vec<Act>,
    requesters: Vec<Requester>,
    /// after that many finished requests: what happens to the actor or the connection
    faults: Vec<(u8, Fault)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Fault {
    End(u8, How),
    Disconnect(u8),
    /// another connection
    Dial(u8),
}

fn history(c: &History) -> CaseResult {
    world::with(PAIR, |w| {
        w.connect()?;
        let mut acts = vec![];
        for a in &c.acts {
            let node = a.node as usize % 2;
            acts.push((place(w, node, a.ty, a.cap, a.resilient)?, node));
        }
        struct Done {
            id: u64,
            who: usize,
            a: usize,
            ask: bool,
            out: Out,
            res: Res,
        }
        let mut done: Vec<Done> = vec![];
        let mut next: Vec<usize> = vec![0; c.requesters.len()];
        let mut open: Vec<Option<(Pending, u64)>> = c.requesters.iter().map(|_| None).collect();
        let mut faults = c.faults.clone();
        faults.sort_by_key(|f| f.0);
        let mut faults = faults.into_iter().peekable();
        let (mut cut, mut ended) = (false, vec![false; acts.len()]);
        let until = Instant::now() + Duration::from_secs(40);
        loop {
            let mut busy = false;
            for (i, q) in c.requesters.iter().enumerate() {
                if let Some((p, id)) = &open[i] {
                    if let Some(r) = p.done() {
                        let h = &q.reqs[next[i] - 1];
                        let res = match r {
                            Resp::Res(r) => r,
                            Resp::Panicked(p) => return fail("panic", format!("{h:?} panics: {p}")),
                            r => return fail("harness", format!("{r:?}")),
                        };
                        done.push(Done { id: *id, who: i, a: h.a as usize % acts.len(), ask: h.ask, out: h.out, res });
                        open[i] = None;
                    }
                }
                if open[i].is_none() && next[i] < q.reqs.len() {
                    let h = &q.reqs[next[i]];
                    next[i] += 1;
                    let (n, _) = acts[h.a as usize % acts.len()];
                    let id = fresh();
                    let mut job = Job::new(id, h.out);
                    job.sleep = h.sleep;
                    let cmd = Cmd::Req {
                        local: None,
                        slot: n,
                        ask: h.ask,
                        try_: h.try_,
                        mbt: h.mbt.map(|x| x as u64),
                        rt: h.rt.map(|x| x as u64),
                        job,
                    };
                    open[i] = Some((w.nodes[q.node as usize % 2].start(cmd), id));
                }
                busy |= open[i].is_some();
            }
            while faults.peek().is_some_and(|f| f.0 as usize <= done.len()) {
                match faults.next().unwrap().1 {
                    Fault::End(a, how) => {
                        let a = a as usize % acts.len();
                        ended[a] = true;
                        w.nodes[acts[a].1].start(Cmd::End { a: acts[a].0, how });
                    }
                    Fault::Disconnect(by) => {
                        cut = true;
                        let by = by as usize % 2;
                        w.nodes[by].call(Cmd::Disconnect { peer: w.nodes[1 - by].peer.clone() })?;
                    }
                    Fault::Dial(by) => {
                        let by = by as usize % 2;
                        let o = &w.nodes[1 - by];
                        w.nodes[by].call(Cmd::Dial { peer: o.peer.clone(), addr: o.addr.clone() })?;
                    }
                }
            }
            if !busy {
                break;
            }
            ensure!(Instant::now() < until, "hang", "requests never complete: {} of them done", done.len());
            std::thread::sleep(Duration::from_micros(200));
        }
        // everything sent is handled by then
        let mut logs: Vec<Vec<u64>> = vec![];
        let mut alive = vec![];
        for (n, node) in &acts {
            let id = fresh();
            let r = w.nodes[*node].res(req(Via::Local, *n, true, false, None, None, Job::new(id, Out::Ok)))?;
            alive.push(matches!(r, Res::Ok(_)));
            let log = w.nodes[*node].log(*n)?;
            let log = log.iter().filter_map(|e| if let Ev::Begin(x) = e { Some(*x) } else { None });
            logs.push(log.filter(|x| *x != id && *x != u64::MAX).collect());
        }
        let kills = |a: usize| {
            // its own handlers may have ended it
            ended[a] || !c.acts[a].resilient
        };
        let mut seen: BTreeMap<u64, usize> = BTreeMap::new();
        for l in &logs {
            for id in l {
                *seen.entry(*id).or_default() += 1;
            }
        }
        for (id, n) in &seen {
            ensure!(*n == 1, "twice", "a message is handled {n} times");
            ensure!(done.iter().any(|d| d.id == *id), "invented", "a message nobody sent is handled");
        }
        let show = |d: &Done| format!("{:?} to actor {}", c.requesters[d.who].reqs.iter().find(|_| true).map(|_| d.out), d.a);
        for d in &done {
            let handled = logs[d.a].contains(&d.id);
            let elsewhere = seen.contains_key(&d.id) && !handled;
            ensure!(!elsewhere, "elsewhere", "a message to actor {} is handled by another", d.a);
            match &d.res {
                Res::Net(e) => ensure!(cut, "net", "{}: {e} without a lost connection", show(d)),
                Res::Full => {
                    ensure!(!handled, "full", "{}: refused since the mailbox is full, but handled", show(d));
                    ensure!(c.acts[d.a].cap.is_some(), "full", "{}: an unbounded mailbox is full", show(d));
                }
                Res::NotRunning => {
                    ensure!(!handled, "not-running", "{}: not running, but the message is handled", show(d));
                    ensure!(kills(d.a), "not-running", "{}: not running, but nothing stopped it", show(d));
                }
                Res::Timeout => ensure!(d.ask || !handled, "timeout", "{}: the tell timed out, but is handled", show(d)),
                Res::Stopped => {
                    let own = handled && matches!(d.out, Out::Panic | Out::Dropped);
                    ensure!(d.ask && (own || kills(d.a)), "stopped", "{}: stopped, but nothing stopped it", show(d));
                }
                Res::Ok(None) => {
                    ensure!(!d.ask, "outcome", "{}: no reply", show(d));
                    ensure!(handled || !alive[d.a], "lost", "{}: the tell succeeded, but is never handled", show(d));
                }
                r => {
                    ensure!(d.ask && handled, "lost", "{}: {r:?}, but the message was never handled", show(d));
                    let want = outcome(acts[d.a].0, Via::Far, true, d.out, d.id, vec![]);
                    ensure!(*r == want, "outcome", "{}: {r:?} instead of {want:?}", show(d));
                }
            }
        }
        // each requester's messages are handled in the order it sent them
        for who in 0..c.requesters.len() {
            for (a, log) in logs.iter().enumerate() {
                let pos: Vec<usize> = done
                    .iter()
                    .filter(|d| d.who == who && d.a == a && !matches!(d.res, Res::Net(_)))
                    .filter_map(|d| log.iter().position(|x| *x == d.id))
                    .collect();
                ensure!(pos.windows(2).all(|p| p[0] < p[1]), "order", "requester {who}'s messages to actor {a} are handled in the order {pos:?}");
            }
        }
        let kinds: BTreeSet<&str> = done
            .iter()
            .map(|d| match d.res {
                Res::Ok(_) => "ok",
                Res::Full => "full",
                Res::Timeout => "timeout",
                Res::NotRunning | Res::Stopped => "stopped",
                Res::Net(_) => "net",
                _ => "err",
            })
            .collect();
        Ok(Info::new(kinds.len() > 1)
            .label(kinds.contains("full"), "full")
            .label(kinds.contains("timeout"), "timeout")
            .label(kinds.contains("stopped"), "stopped")
            .label(kinds.contains("net"), "net")
            .label(cut, "connection_lost"))
    })
}

fn histories() -> impl Strategy<Value = History> {
    let hr = (0u8..2, any::<bool>(), prop::bool::weighted(0.3), prop::option::weighted(0.3, 2u8..30), prop::option::weighted(0.3, 2u8..30), out(), prop_oneof![2 => Just(0u8), 1 => 1u8..6])
        .prop_map(|(a, ask, try_, mbt, rt, out, sleep)| Hr { a, ask, try_, mbt, rt, out, sleep });
    let q = (0u8..2, prop::collection::vec(hr, 1..12)).prop_map(|(node, reqs)| Requester { node, reqs });
    let fault = prop_oneof![
        2 => (0u8..2, how()).prop_map(|(a, h)| Fault::End(a, h)),
        2 => (0u8..2).prop_map(Fault::Disconnect),
        1 => (0u8..2).prop_map(Fault::Dial),
    ];
    (
        prop::collection::vec(act(), 1..3),
        prop::collection::vec(q, 1..6),
        prop_oneof![2 => Just(vec![]), 3 => prop::collection::vec((0u8..40, fault), 1..3)],
    )
        .prop_map(|(acts, requesters, faults)| History { acts, requesters, faults })
}

// ---------------------------------------------------------------------------------------------------------------------

/// One node, driven by hand or not, and another peer.
pub const STRANGER: Kind =
    Kind { manual: [Some(false), None, None], max_records: 100_000, timeout_ms: 4_000, query_ms: 20_000, puppet: true, once: false };

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Peer {
    Own,
    None,
    Other,
    Puppet,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Id {
    /// one of the actors or any number
    of: Option<u8>,
    seq: u64,
    peer: Peer,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Name {
    A,
    B,
    Text(String),
}

impl Name {
    fn text(&self) -> String {
        match self {
            Name::A => type_id(Ty::A).into(),
            Name::B => type_id(Ty::B).into(),
            Name::Text(t) => t.clone(),
        }
    }
    fn ty(&self) -> Option<Ty> {
        match self.text().as_str() {
            "verif" => Some(Ty::A),
            "verif-b" => Some(Ty::B),
            _ => None,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Payload {
    Job(Out),
    /// the job's bytes changed
    Cut(u16),
    Bytes(Vec<u8>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Reason {
    Normal,
    Killed,
    Panicked(String),
    Peer,
    Link(Id, Box<Reason>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Msg {
    Request { ask: bool, id: Id, actor: Name, message: Option<String>, payload: Payload, mbt: Option<u64>, rt: Option<u64>, try_: bool },
    Link { id: Id, actor: Name, other: Id, other_actor: String },
    Unlink { id: Id, actor: Name, other: Id },
    Died { dead: Id, id: Id, actor: Name, reason: Reason },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Mutation {
    Flip(u16, u8),
    Truncate(u16),
    Insert(u16, Vec<u8>),
    Remove(u16, u8),
}

fn mutate(mut b: Vec<u8>, m: &[Mutation]) -> Vec<u8> {
    for m in m {
        let n = b.len().max(1);
        match m {
            Mutation::Flip(i, x) => {
                if let Some(b) = b.get_mut(*i as usize % n) {
                    *b ^= x;
                }
            }
            Mutation::Truncate(i) => b.truncate(*i as usize % n),
            Mutation::Insert(i, v) => {
                let i = *i as usize % n;
                let i = i.min(b.len());
                b.splice(i..i, v.iter().copied());
            }
            Mutation::Remove(i, k) => {
                let i = (*i as usize % n).min(b.len());
                let j = (i + *k as usize).min(b.len());
                b.drain(i..j);
            }
        }
    }
    b
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Sent {
    Msg(Msg),
    Mutated(Msg, Vec<Mutation>),
    Bytes(Vec<u8>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hostile {
    /// its type and whether it still runs
    acts: Vec<(Ty, bool)>,
    sent: Vec<Sent>,
}

struct Target {
    n: u64,
    seq: u64,
    ty: Ty,
    alive: bool,
}

struct Stage<'a> {
    w: &'a World,
    own: libp2p::PeerId,
    puppet: libp2p::PeerId,
    acts: Vec<Target>,
}

fn other_peer() -> libp2p::PeerId {
    libp2p::identity::Keypair::ed25519_from_bytes([77; 32]).unwrap().public().to_peer_id()
}

impl Stage<'_> {
    fn id(&self, i: &Id) -> ActorID {
        let seq = match i.of {
            Some(a) => self.acts[a as usize % self.acts.len()].seq,
            None => i.seq,
        };
        match i.peer {
            Peer::Own => ActorID::new_with_peer_id(seq, self.own),
            // (no swarm here, so this has no peer)
            Peer::None => ActorID::new(seq),
            Peer::Other => ActorID::new_with_peer_id(seq, other_peer()),
            Peer::Puppet => ActorID::new_with_peer_id(seq, self.puppet),
        }
    }
    fn target(&self, i: &Id) -> Option<&Target> {
        if matches!(i.peer, Peer::Other | Peer::Puppet) {
            return None;
        }
        match i.of {
            Some(a) => Some(&self.acts[a as usize % self.acts.len()]),
            None => self.acts.iter().find(|a| a.seq == i.seq),
        }
    }
    fn reason(&self, r: &Reason) -> ActorStopReason {
        match r {
            Reason::Normal => ActorStopReason::Normal,
            Reason::Killed => ActorStopReason::Killed,
            Reason::Panicked(t) => ActorStopReason::Panicked(PanicError::new(Box::new(t.clone()))),
            Reason::Peer => ActorStopReason::PeerDisconnected,
            Reason::Link(i, r) => ActorStopReason::LinkDied { id: self.id(i), reason: Box::new(self.reason(r)) },
        }
    }
    fn request(&self, m: &Msg, job: u64) -> SwarmRequest {
        match m {
            Msg::Request { ask, id, actor, message, payload, mbt, rt, try_ } => {
                let of = |p: &Payload| match p {
                    Payload::Job(out) => rmp_serde::to_vec_named(&Job::new(job, *out)).unwrap(),
                    Payload::Cut(n) => {
                        let mut b = rmp_serde::to_vec_named(&Job::new(job, Out::Ok)).unwrap();
                        let n = *n as usize % b.len();
                        b.truncate(n);
                        b
                    }
                    Payload::Bytes(b) => b.clone(),
                };
                let (actor_id, payload) = (self.id(id), of(payload));
                let mailbox_timeout = mbt.map(Duration::from_secs);
                let actor_remote_id = actor.text().into();
                let message_remote_id = message.clone().unwrap_or(JOB_ID.into()).into();
                if *ask {
                    SwarmRequest::Ask {
                        actor_id,
                        actor_remote_id,
                        message_remote_id,
                        payload,
                        mailbox_timeout,
                        reply_timeout: rt.map(Duration::from_secs),
                        immediate: *try_,
                    }
                } else {
                    SwarmRequest::Tell { actor_id, actor_remote_id, message_remote_id, payload, mailbox_timeout, immediate: *try_ }
                }
            }
            Msg::Link { id, actor, other, other_actor } => SwarmRequest::Link {
                actor_id: self.id(id),
                actor_remote_id: actor.text().into(),
                sibbling_id: self.id(other),
                sibbling_remote_id: other_actor.clone().into(),
            },
            Msg::Unlink { id, actor, other } => SwarmRequest::Unlink {
                actor_id: self.id(id),
                actor_remote_id: actor.text().into(),
                sibbling_id: self.id(other),
            },
            Msg::Died { dead, id, actor, reason } => SwarmRequest::SignalLinkDied {
                dead_actor_id: self.id(dead),
                notified_actor_id: self.id(id),
                notified_actor_remote_id: actor.text().into(),
                stop_reason: self.reason(reason),
            },
        }
    }

    /// The node serves its own actors and others'.
    fn works(&self) -> Result<(), Fail> {
        let (w, id) = (self.w, fresh());
        for a in self.acts.iter().filter(|a| a.alive) {
            let m = Msg::Request {
                ask: true,
                id: Id { of: None, seq: a.seq, peer: Peer::Own },
                actor: if a.ty == Ty::A { Name::A } else { Name::B },
                message: None,
                payload: Payload::Job(Out::Ok),
                mbt: None,
                rt: None,
                try_: false,
            };
            let until = Instant::now() + Duration::from_secs(20);
            loop {
                let r = w.puppet.as_ref().unwrap().send(self.own, puppet::encode(&self.request(&m, id)))?;
                if let Some(Ok(SwarmResponse::Ask(Ok(p)))) = r.map(|r| puppet::decode_response(&r).ok_or(())) {
                    let rep: Rep = rmp_serde::from_slice(&p).map_err(|e| Fail { sig: "reply".into(), msg: e.to_string() })?;
                    ensure!(rep.id == id && rep.by == a.n, "reply", "the reply of another message or actor: {rep:?}");
                    break;
                }
                ensure!(Instant::now() < until, "dead", "the node does not answer requests of others any more");
            }
        }
        Ok(())
    }
}

fn res_of<T>(r: Result<T, RemoteSendError<Vec<u8>>>) -> Result<T, (Res, Option<Vec<u8>>)> {
    let mut bytes = None;
    r.map_err(|e| {
        let r = crate::node::of_remote(e, |b| {
            bytes = Some(b);
            Res::Handler(0, String::new())
        });
        (r, bytes)
    })
}

fn plain(r: Result<(), RemoteSendError>) -> Res {
    match r {
        Ok(()) => Res::Ok(None),
        Err(e) => crate::node::of_remote(e, |e| match e {}),
    }
}

fn stage<'a>(w: &'a World, acts: &[(Ty, bool)]) -> Result<Stage<'a>, Fail> {
    let node = &w.nodes[0];
    let mut st = Stage { w, own: node.peer.parse().unwrap(), puppet: w.puppet.as_ref().unwrap().peer, acts: vec![] };
    for (ty, alive) in acts {
        let n = fresh();
        let Resp::Id(seq, _) = node.call(Cmd::Spawn { a: n, ty: *ty, cap: Some(8), resilient: true })? else { unreachable!() };
        let until = Instant::now() + Duration::from_secs(20);
        while node.call(Cmd::Register { a: n, name: format!("t-{n}") })? != Resp::Unit {
            ensure!(Instant::now() < until, "register", "an actor cannot be registered");
        }
        if !alive {
            node.call(Cmd::End { a: n, how: How::Kill })?;
            node.yes(Cmd::WaitStopped { a: n }, "the killed actor stops")?;
        }
        st.acts.push(Target { n, seq, ty: *ty, alive: *alive });
    }
    // the peers are connected
    let m = Msg::Unlink {
        id: Id { of: None, seq: 0, peer: Peer::Other },
        actor: Name::Text("nobody".into()),
        other: Id { of: None, seq: 0, peer: Peer::Other },
    };
    let until = Instant::now() + Duration::from_secs(20);
    while w.puppet.as_ref().unwrap().send(st.own, puppet::encode(&st.request(&m, 0)))?.is_none_or(|r| r.is_empty()) {
        ensure!(Instant::now() < until, "connect", "the node cannot be reached by another peer");
        std::thread::sleep(Duration::from_millis(2));
    }
    Ok(st)
}

fn hostile(c: &Hostile) -> CaseResult {
    world::with(STRANGER, |w| {
        let st = stage(w, &c.acts)?;
        let p = w.puppet.as_ref().unwrap();
        st.works()?;
        let (mut errs, mut raw) = (BTreeSet::new(), false);
        let mut links: BTreeMap<u64, usize> = BTreeMap::new();
        let (mut handled, mut not): (Vec<(u64, u64)>, Vec<u64>) = (vec![], vec![]);
        for s in &c.sent {
            let mut job = fresh();
            match s {
                Sent::Bytes(b) => {
                    raw = true;
                    p.send(st.own, b.clone())?;
                }
                Sent::Mutated(m, mu) => {
                    raw = true;
                    // only what cannot do anything: the rest is a request as any other
                    let b = mutate(puppet::encode(&st.request(m, job)), mu);
                    p.send(st.own, b)?;
                }
                Sent::Msg(m) => {
                    let mut r = p.send(st.own, puppet::encode(&st.request(m, job)))?;
                    // (an earlier malformed one may have cost the connection)
                    for _ in 0..50 {
                        if r.is_some() || !raw {
                            break;
                        }
                        std::thread::sleep(Duration::from_millis(5));
                        job = fresh();
                        r = p.send(st.own, puppet::encode(&st.request(m, job)))?;
                    }
                    let Some(r) = r else { return fail("no-answer", format!("{m:?} is not answered")) };
                    let Some(r) = puppet::decode_response(&r) else {
                        return fail("no-answer", format!("the answer to {m:?} cannot be decoded"));
                    };
                    let (id, actor) = match m {
                        Msg::Request { id, actor, .. } => (id, actor),
                        Msg::Link { id, actor, .. } => (id, actor),
                        Msg::Unlink { id, actor, .. } => (id, actor),
                        Msg::Died { id, actor, .. } => (id, actor),
                    };
                    let t = st.target(id);
                    // what is wrong with it, if anything; a stopped actor may or may not be known still
                    let mut want: Vec<Res> = vec![];
                    match m {
                        Msg::Request { message, .. } if actor.ty().is_none() || message.as_ref().is_some_and(|m| m != JOB_ID) => {
                            want.push(Res::UnknownMessage(actor.text(), message.clone().unwrap_or(JOB_ID.into())))
                        }
                        Msg::Request { .. } => {}
                        _ if actor.ty().is_none() => want.push(Res::UnknownActor(actor.text())),
                        _ => {}
                    }
                    if want.is_empty() {
                        match t {
                            None => want.push(Res::NotRunning),
                            Some(t) if Some(t.ty) != actor.ty() => {
                                want.push(Res::BadType);
                                if !t.alive {
                                    want.push(Res::NotRunning);
                                }
                            }
                            Some(t) if !t.alive => {
                                want.push(Res::NotRunning);
                                if let Msg::Request { payload: Payload::Cut(_) | Payload::Bytes(_), .. } = m {
                                    want.push(Res::De);
                                }
                                if let Msg::Link { .. } | Msg::Unlink { .. } = m {
                                    want.push(Res::Ok(None));
                                }
                            }
                            _ => {}
                        }
                    }
                    let good = want.is_empty();
                    let got = match (m, r) {
                        (Msg::Request { ask: true, payload, .. }, SwarmResponse::Ask(r)) => match res_of(r) {
                            Ok(b) => match rmp_serde::from_slice::<Rep>(&b) {
                                Ok(r) => Res::Ok(Some(r)),
                                Err(e) => return fail("reply", format!("the reply to {payload:?} cannot be decoded: {e}")),
                            },
                            Err((r, Some(b))) => match rmp_serde::from_slice::<JobErr>(&b) {
                                Ok(e) => Res::Handler(e.id, e.check()),
                                Err(e) => return fail("reply", format!("{r:?} ({payload:?}) cannot be decoded: {e}")),
                            },
                            Err((r, None)) => r,
                        },
                        (Msg::Request { ask: false, .. }, SwarmResponse::Tell(r)) => plain(r),
                        (Msg::Link { .. }, SwarmResponse::Link(r)) => plain(r),
                        (Msg::Unlink { .. }, SwarmResponse::Unlink(r)) => plain(r),
                        (Msg::Died { .. }, SwarmResponse::SignalLinkDied(r)) => plain(r),
                        (m, r) => return fail("variant", format!("{m:?} is answered with {r:?}")),
                    };
                    if good {
                        let t = t.unwrap();
                        match m {
                            Msg::Request { ask, payload, .. } => match payload {
                                Payload::Job(out) => {
                                    want.push(outcome(t.n, Via::Far, *ask, *out, job, vec![]));
                                    handled.push((t.n, job));
                                }
                                Payload::Cut(_) => want.push(Res::De),
                                Payload::Bytes(b) => match rmp_serde::from_slice::<Job>(b) {
                                    Ok(_) => continue,
                                    Err(_) => want.push(Res::De),
                                },
                            },
                            Msg::Died { .. } => {
                                want.push(Res::Ok(None));
                                *links.entry(t.n).or_default() += 1;
                            }
                            _ => want.push(Res::Ok(None)),
                        }
                    } else {
                        not.push(job);
                    }
                    ensure!(want.contains(&got), "error", "{m:?} is answered with {got:?}, not {want:?}");
                    errs.insert(format!("{:?}", std::mem::discriminant(&got)));
                }
            }
        }
        st.works()?;
        for a in st.acts.iter().filter(|a| a.alive) {
            let log = w.nodes[0].log(a.n)?;
            for (n, id) in handled.iter().filter(|(n, _)| *n == a.n) {
                let k = log.iter().filter(|e| **e == Ev::Begin(*id)).count();
                ensure!(k == 1, "handled", "a message of another peer to actor {n} is handled {k} times");
            }
            ensure!(!log.iter().any(|e| matches!(e, Ev::Begin(id) if not.contains(id))), "handled", "a refused message is handled");
            let k = log.iter().filter(|e| matches!(e, Ev::Link(..))).count();
            let n = links.get(&a.n).copied().unwrap_or(0);
            ensure!(raw && k >= n || k == n, "link-died", "{k} notifications of {n} dead actors");
        }
        Ok(Info::new(raw || errs.len() > 1).label(raw, "malformed").label(errs.len() > 2, "several_errors"))
    })
}

fn id() -> BoxedStrategy<Id> {
    boxed(
        (
            prop::option::weighted(0.8, 0u8..4),
            prop_oneof![0u64..100, any::<u64>()],
            prop_oneof![6 => Just(Peer::Own), 2 => Just(Peer::None), 1 => Just(Peer::Other), 1 => Just(Peer::Puppet)],
        )
            .prop_map(|(of, seq, peer)| Id { of, seq, peer }),
    )
}

fn name() -> BoxedStrategy<Name> {
    boxed(prop_oneof![5 => Just(Name::A), 5 => Just(Name::B), 1 => ".{0,12}".prop_map(Name::Text)])
}

fn reason() -> BoxedStrategy<Reason> {
    boxed(
        prop_oneof![
            Just(Reason::Normal),
            Just(Reason::Killed),
            Just(Reason::Peer),
            ".{0,12}".prop_map(Reason::Panicked),
        ]
        .prop_recursive(3, 4, 1, |r| (id(), r).prop_map(|(i, r)| Reason::Link(i, Box::new(r)))),
    )
}

fn msg() -> BoxedStrategy<Msg> {
    let payload = prop_oneof![
        6 => out().prop_map(Payload::Job),
        2 => any::<u16>().prop_map(Payload::Cut),
        2 => prop::collection::vec(any::<u8>(), 0..40).prop_map(Payload::Bytes),
    ];
    let secs = prop::option::weighted(0.4, prop_oneof![Just(20u64), Just(u64::MAX), any::<u64>().prop_map(|x| x | 1 << 20)]);
    boxed(prop_oneof![
        8 => ((any::<bool>(), id(), name()), prop::option::weighted(0.1, ".{0,12}"), payload, secs.clone(), secs, any::<bool>())
            .prop_map(|((ask, id, actor), message, payload, mbt, rt, try_)| Msg::Request { ask, id, actor, message, payload, mbt, rt, try_ }),
        2 => (id(), name(), id(), ".{0,12}").prop_map(|(id, actor, other, other_actor)| Msg::Link { id, actor, other, other_actor }),
        2 => (id(), name(), id()).prop_map(|(id, actor, other)| Msg::Unlink { id, actor, other }),
        2 => (id(), id(), name(), reason()).prop_map(|(dead, id, actor, reason)| Msg::Died { dead, id, actor, reason }),
    ])
}

fn mutations() -> BoxedStrategy<Vec<Mutation>> {
    boxed(prop::collection::vec(
        prop_oneof![
            4 => (any::<u16>(), any::<u8>()).prop_map(|(i, x)| Mutation::Flip(i, x)),
            1 => any::<u16>().prop_map(Mutation::Truncate),
            1 => (any::<u16>(), prop::collection::vec(any::<u8>(), 1..5)).prop_map(|(i, v)| Mutation::Insert(i, v)),
            1 => (any::<u16>(), 1u8..9).prop_map(|(i, k)| Mutation::Remove(i, k)),
        ],
        1..4,
    ))
}

fn hostiles() -> impl Strategy<Value = Hostile> {
    let sent = prop_oneof![
        6 => msg().prop_map(Sent::Msg),
        2 => (msg(), mutations()).prop_map(|(m, x)| Sent::Mutated(m, x)),
        1 => prop::collection::vec(any::<u8>(), 0..200).prop_map(Sent::Bytes),
    ];
    (prop::collection::vec((ty(), prop::bool::weighted(0.8)), 1..4), prop::collection::vec(sent, 1..14))
        .prop_map(|(acts, sent)| Hostile { acts, sent })
}

// ---------------------------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Err {
    NotRunning,
    Stopped,
    UnknownActor(String),
    UnknownMessage(String, String),
    BadType,
    Full,
    Timeout,
    Ser,
    De,
    SerReply,
    SerErr,
    DeErr,
    NoSwarm,
    Dial,
    NetTimeout,
    Closed,
    Unsupported,
}

fn send_error<E>(e: &Err) -> RemoteSendError<E> {
    let t = || "x".to_string();
    match e.clone() {
        Err::NotRunning => RemoteSendError::ActorNotRunning,
        Err::Stopped => RemoteSendError::ActorStopped,
        Err::UnknownActor(a) => RemoteSendError::UnknownActor { actor_remote_id: a.into() },
        Err::UnknownMessage(a, m) => RemoteSendError::UnknownMessage { actor_remote_id: a.into(), message_remote_id: m.into() },
        Err::BadType => RemoteSendError::BadActorType,
        Err::Full => RemoteSendError::MailboxFull,
        Err::Timeout => RemoteSendError::ReplyTimeout,
        Err::Ser => RemoteSendError::SerializeMessage(t()),
        Err::De => RemoteSendError::DeserializeMessage(t()),
        Err::SerReply => RemoteSendError::SerializeReply(t()),
        Err::SerErr => RemoteSendError::SerializeHandlerError(t()),
        Err::DeErr => RemoteSendError::DeserializeHandlerError(t()),
        Err::NoSwarm => RemoteSendError::SwarmNotBootstrapped,
        Err::Dial => RemoteSendError::DialFailure,
        Err::NetTimeout => RemoteSendError::NetworkTimeout,
        Err::Closed => RemoteSendError::ConnectionClosed,
        Err::Unsupported => RemoteSendError::UnsupportedProtocols,
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Ans {
    Reply(u8),
    Handler(u8),
    BadReply(Vec<u8>),
    BadHandler(Vec<u8>),
    Err(Err),
    /// a response to another kind of request
    Wrong(u8, Option<Err>),
    Failure(Err),
    Mutated(u8, Vec<Mutation>),
    Bytes(Vec<u8>),
    Drop,
    Cut,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum What {
    Req { ask: bool, try_: bool, mbt: Option<u16>, rt: Option<u16> },
    Link,
    Unlink,
    /// linked, then stopped: the other's node is told
    Died,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Answers {
    list: Vec<(What, Ans)>,
}

fn variant(k: u8, e: Option<&Err>) -> SwarmResponse {
    let r = |e: Option<&Err>| match e {
        Some(e) => Err(send_error(e)),
        None => Ok(()),
    };
    match k {
        0 => SwarmResponse::Ask(match e {
            Some(e) => Err(send_error(e)),
            None => Ok(vec![1]),
        }),
        1 => SwarmResponse::Tell(r(e)),
        2 => SwarmResponse::Link(r(e)),
        3 => SwarmResponse::Unlink(r(e)),
        _ => SwarmResponse::SignalLinkDied(r(e)),
    }
}

fn answers(c: &Answers) -> CaseResult {
    world::with(STRANGER, |w| {
        let st = stage(w, &[(Ty::A, true)])?;
        let (node, p) = (&w.nodes[0], w.puppet.as_ref().unwrap());
        st.works()?;
        let seq = fresh();
        let there = ActorID::new_with_peer_id(seq, p.peer);
        let rec = crate::c26::record(&there, type_id(Ty::A));
        let (slot, name) = (fresh(), format!("stranger-{seq}"));
        let until = Instant::now() + Duration::from_secs(20);
        loop {
            p.put(&name, rec.clone(), vec![st.own])?;
            if let Resp::Found(Some((s, pe))) = node.call(Cmd::Lookup { name: name.clone(), ty: Ty::A, slot })? {
                ensure!(s == seq && pe == Some(p.peer.to_string()), "found", "lookup finds {s} {pe:?} instead of {there}");
                break;
            }
            ensure!(Instant::now() < until, "lookup", "the record of another peer is never found");
        }
        let mut odd = false;
        for (what, ans) in &c.list {
            let job = Job::new(fresh(), Out::Ok);
            let (me, kind) = (&st.acts[0], match what {
                What::Req { ask: true, .. } => 0,
                What::Req { .. } => 1,
                What::Link => 2,
                What::Unlink => 3,
                What::Died => 4,
            });
            let rep = Rep { extra: Extra::of(job.id), id: job.id, by: 9, data: vec![3], fuse: Fuse(false) };
            let err = JobErr { extra: Extra::of(job.id), id: job.id, text: "no".into(), fuse: Fuse(false) };
            let good = |k: u8| if k == 0 {
                SwarmResponse::Ask(Ok(rmp_serde::to_vec_named(&rep).unwrap()))
            } else {
                variant(k, None)
            };
            let mut any = false;
            let (send, want): (Answer, Option<Res>) = match ans {
                Ans::Reply(_) => (
                    Answer::Bytes(puppet::encode_response(&good(kind))),
                    Some(Res::Ok((kind == 0).then(|| rep.clone()))),
                ),
                Ans::Handler(_) if kind == 0 => (
                    Answer::Bytes(puppet::encode_response(&SwarmResponse::Ask(Err(RemoteSendError::HandlerError(
                        rmp_serde::to_vec_named(&err).unwrap(),
                    ))))),
                    Some(Res::Handler(job.id, "no".into())),
                ),
                Ans::BadReply(b) if kind == 0 && rmp_serde::from_slice::<Rep>(b).is_err() => {
                    (Answer::Bytes(puppet::encode_response(&SwarmResponse::Ask(Ok(b.clone())))), Some(Res::De))
                }
                Ans::BadHandler(b) if kind == 0 && rmp_serde::from_slice::<JobErr>(b).is_err() => (
                    Answer::Bytes(puppet::encode_response(&SwarmResponse::Ask(Err(RemoteSendError::HandlerError(b.clone()))))),
                    Some(Res::DeErr),
                ),
                Ans::Handler(_) | Ans::BadReply(_) | Ans::BadHandler(_) => {
                    (Answer::Bytes(puppet::encode_response(&good(kind))), Some(Res::Ok(None)))
                }
                Ans::Err(e) => (
                    Answer::Bytes(puppet::encode_response(&variant(kind, Some(e)))),
                    Some(crate::node::of_remote(send_error::<()>(e), |_| unreachable!())),
                ),
                Ans::Failure(e) => (
                    Answer::Bytes(puppet::encode_response(&SwarmResponse::OutboundFailure(send_error(e)))),
                    None,
                ),
                Ans::Wrong(k, e) => (
                    Answer::Bytes(puppet::encode_response(&variant((kind + 1 + k % 4) % 5, e.as_ref()))),
                    None,
                ),
                Ans::Mutated(k, m) => {
                    any = true;
                    (Answer::Bytes(mutate(puppet::encode_response(&good(k % 5)), m)), None)
                }
                Ans::Bytes(b) => {
                    any = true;
                    (Answer::Bytes(b.clone()), None)
                }
                Ans::Drop => (Answer::Drop, None),
                Ans::Cut => (Answer::Cut, None),
            };
            odd |= want.is_none();
            let cmd = match *what {
                What::Req { ask, try_, mbt, rt } => Cmd::Req {
                    local: None,
                    slot,
                    ask,
                    try_,
                    mbt: mbt.map(|x| x as u64),
                    rt: rt.map(|x| x as u64),
                    job: job.clone(),
                },
                What::Link => Cmd::Link { on: true, a: me.n, slot },
                What::Unlink => Cmd::Link { on: false, a: me.n, slot },
                What::Died => {
                    // another actor, linked to the stranger
                    let o = fresh();
                    node.call(Cmd::Spawn { a: o, ty: Ty::B, cap: None, resilient: true })?;
                    p.answers.lock().unwrap().push_back(Answer::Bytes(puppet::encode_response(&variant(2, None))));
                    let until = Instant::now() + Duration::from_secs(20);
                    while node.res(Cmd::Link { on: true, a: o, slot })? != Res::Ok(None) {
                        ensure!(Instant::now() < until, "link", "an actor cannot be linked with another peer's");
                        p.answers.lock().unwrap().push_back(Answer::Bytes(puppet::encode_response(&variant(2, None))));
                    }
                    p.answers.lock().unwrap().clear();
                    p.asked.lock().unwrap().clear();
                    p.answers.lock().unwrap().push_back(send);
                    node.call(Cmd::End { a: o, how: How::Kill })?;
                    node.yes(Cmd::WaitStopped { a: o }, "an actor linked with another peer's stops")?;
                    let until = Instant::now() + Duration::from_secs(20);
                    while p.answers.lock().unwrap().len() > 0 {
                        // it is told at most once: not if the connection is being lost
                        if p.cut_lately() {
                            break;
                        }
                        ensure!(Instant::now() < until, "signal", "the other peer is never told that an actor died");
                        std::thread::sleep(Duration::from_micros(300));
                    }
                    st.works()?;
                    continue;
                }
            };
            // a connection lost before may make itself felt only now
            let mut tries = 0;
            let got = loop {
                p.asked.lock().unwrap().clear();
                p.answers.lock().unwrap().clear();
                p.answers.lock().unwrap().push_back(send.clone());
                let got = node.res(cmd.clone())?;
                tries += 1;
                if !odd || !p.asked.lock().unwrap().is_empty() || !matches!(got, Res::Net(_)) || tries > 50 {
                    break got;
                }
                std::thread::sleep(Duration::from_millis(5));
            };
            if let Some(want) = want {
                ensure!(got == want, "response", "{what:?} answered with {ans:?} gives {got:?} instead of {want:?}");
            } else if !any {
                ensure!(!matches!(got, Res::Ok(_)), "response", "{what:?} answered with {ans:?} gives {got:?}");
            }
            // what was asked
            let asked = p.asked.lock().unwrap().pop();
            let Some(asked) = asked else { return fail("asked", format!("{what:?} never reaches the peer: {got:?}")) };
            let asked: SwarmRequest = match cbor4ii::serde::from_slice(&asked) {
                Ok(a) => a,
                Err(e) => return fail("asked", format!("{what:?} arrives as something undecodable: {e}")),
            };
            let mine = ActorID::new_with_peer_id(me.seq, st.own);
            let ms = |x: Option<u16>| x.map(|x| Duration::from_millis(x as u64));
            let ok = match (what, &asked) {
                (
                    What::Req { ask: true, try_, mbt, rt },
                    SwarmRequest::Ask { actor_id, actor_remote_id, message_remote_id, payload, mailbox_timeout, reply_timeout, immediate },
                ) => {
                    *actor_id == there
                        && actor_remote_id == type_id(Ty::A)
                        && message_remote_id == JOB_ID
                        && rmp_serde::from_slice::<Job>(payload).is_ok_and(|j| j == job)
                        && (*try_ || *mailbox_timeout == ms(*mbt))
                        && *reply_timeout == ms(*rt)
                        && immediate == try_
                }
                (
                    What::Req { ask: false, try_, mbt, .. },
                    SwarmRequest::Tell { actor_id, actor_remote_id, message_remote_id, payload, mailbox_timeout, immediate },
                ) => {
                    *actor_id == there
                        && actor_remote_id == type_id(Ty::A)
                        && message_remote_id == JOB_ID
                        && rmp_serde::from_slice::<Job>(payload).is_ok_and(|j| j == job)
                        && (*try_ || *mailbox_timeout == ms(*mbt))
                        && immediate == try_
                }
                (What::Link, SwarmRequest::Link { actor_id, actor_remote_id, sibbling_id, sibbling_remote_id }) => {
                    *actor_id == there
                        && actor_remote_id == type_id(Ty::A)
                        && *sibbling_id == mine
                        && sibbling_remote_id == type_id(Ty::A)
                }
                (What::Unlink, SwarmRequest::Unlink { actor_id, actor_remote_id, sibbling_id }) => {
                    *actor_id == there && actor_remote_id == type_id(Ty::A) && *sibbling_id == mine
                }
                _ => false,
            };
            ensure!(ok, "asked", "{what:?} arrives as {asked:?}");
        }
        p.answers.lock().unwrap().clear();
        st.works()?;
        Ok(Info::new(odd))
    })
}

fn answer_lists() -> impl Strategy<Value = Answers> {
    let ms = || prop::option::of(1_000u16..20_000);
    let what = prop_oneof![
        6 => (any::<bool>(), any::<bool>(), ms(), ms()).prop_map(|(ask, try_, mbt, rt)| What::Req { ask, try_, mbt, rt }),
        1 => Just(What::Link),
        1 => Just(What::Unlink),
        1 => Just(What::Died),
    ];
    let err = || {
        prop_oneof![
            Just(Err::NotRunning),
            Just(Err::Stopped),
            ".{0,9}".prop_map(Err::UnknownActor),
            (".{0,9}", ".{0,9}").prop_map(|(a, b)| Err::UnknownMessage(a, b)),
            Just(Err::BadType),
            Just(Err::Full),
            Just(Err::Timeout),
            Just(Err::Ser),
            Just(Err::De),
            Just(Err::SerReply),
            Just(Err::SerErr),
            Just(Err::DeErr),
            Just(Err::NoSwarm),
            Just(Err::Dial),
            Just(Err::NetTimeout),
            Just(Err::Closed),
            Just(Err::Unsupported),
        ]
    };
    let bytes = || prop::collection::vec(any::<u8>(), 0..40);
    let ans = prop_oneof![
        3 => any::<u8>().prop_map(Ans::Reply),
        1 => any::<u8>().prop_map(Ans::Handler),
        1 => bytes().prop_map(Ans::BadReply),
        1 => bytes().prop_map(Ans::BadHandler),
        3 => err().prop_map(Ans::Err),
        2 => (0u8..4, prop::option::of(err())).prop_map(|(k, e)| Ans::Wrong(k, e)),
        1 => err().prop_map(Ans::Failure),
        2 => (0u8..5, mutations()).prop_map(|(k, m)| Ans::Mutated(k, m)),
        1 => bytes().prop_map(Ans::Bytes),
        1 => Just(Ans::Drop),
        1 => Just(Ans::Cut),
    ];
    prop::collection::vec((what, ans), 1..8).prop_map(|list| Answers { list })
}

pub fn run(s: &mut Session) {
    let n = crate::shards();
    s.prop_sharded("sequences", "more than one request by a remote reference, and an outcome other than a reply", 4_000, 60_000, n, || boxed(case()), sequence);
    s.prop_sharded("histories", "two kinds of outcome", 3_000, 45_000, n, || boxed(histories()), history);
    s.prop_sharded("requests_of_others", "something malformed, or two kinds of answers", 4_000, 80_000, n, || boxed(hostiles()), hostile);
    s.prop_sharded("answers_of_others", "an answer that is not one", 3_000, 60_000, n, || boxed(answer_lists()), answers);
}

//! C14: forwarded and delegated requests.
use std::{
    ops::ControlFlow,
    sync::{Arc, Mutex},
    time::Duration,
};

use kameo::{
    actor::{ActorRef, PreparedActor, WeakActorRef},
    error::{ActorStopReason, Infallible, PanicError, SendError},
    message::{Context, Message},
    reply::ForwardedReply,
    Actor,
};
use pbt::{boxed, fail, sim, CaseResult, Fail, Info, Session};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tokio::sync::Semaphore;

use crate::lab::{any_out, check, desc_out, hang, value_of, DelegatedOr, Ev, JobErr, Log, Out};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Mode {
    Wait,
    Try,
    /// with a mailbox timeout (delegated requests only)
    Timeout(u16),
}

/// One hop of a delegated request: where to, how, and where to if that fails.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
struct Leg {
    to: u8,
    mode: Mode,
    backup: Option<u8>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fw {
    id: u32,
    /// modes of the forwarders' hops, by forwarder
    modes: [Mode; 3],
    legs: Vec<Leg>,
    out: Out,
    /// reply from a plain thread
    thread: bool,
}

pub struct Wrapped(Fw);
struct Gate;
struct Filler;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fail14 {
    NotRunning,
    Full,
    Timeout,
}

/// What the requester gets.
#[derive(Clone, Debug, PartialEq)]
enum Got {
    Val(u64),
    HErr(u32),
    /// forwarding failed at that forwarder, giving back the message
    Fwd(u8, Fail14, u32),
    Stopped,
    Other(String),
}

fn code(k: Fail14) -> u64 {
    match k {
        Fail14::NotRunning => 1,
        Fail14::Full => 2,
        Fail14::Timeout => 3,
    }
}

/// the value a hop answers with when it cannot pass the request on
fn fallback(at: u8, k: Fail14, id: u32) -> u64 {
    9_000_000_000 + at as u64 * 1_000_000 + code(k) * 100_000 + id as u64
}

#[derive(Clone)]
struct Shared {
    log: Log,
    hops: Arc<Mutex<Vec<Option<ActorRef<Hop>>>>>,
}

pub struct Hop {
    me: u8,
    sh: Shared,
    gate: Arc<Semaphore>,
}

macro_rules! common {
    ($t:ident) => {
        impl Actor for $t {
            type Error = Infallible;
            async fn on_panic(&mut self, _: WeakActorRef<Self>, err: PanicError) -> Result<ControlFlow<ActorStopReason>, Infallible> {
                let d = describe(&err);
                self.sh.log.push(self.me as u32, Ev::PanicHook(d));
                Ok(ControlFlow::Continue(()))
            }
        }
        impl Message<Gate> for $t {
            type Reply = ();
            async fn handle(&mut self, _: Gate, _: &mut Context<Self, ()>) {
                self.gate.acquire().await.unwrap().forget();
            }
        }
        impl Message<Filler> for $t {
            type Reply = ();
            async fn handle(&mut self, _: Filler, _: &mut Context<Self, ()>) {}
        }
    };
}

type R1 = ForwardedReply<Fw, DelegatedOr>;
type E1 = SendError<Fw, JobErr>;
type R2 = ForwardedReply<Wrapped, R1>;
type E2 = SendError<Wrapped, E1>;
type R3 = ForwardedReply<Fw, R2>;
type E3 = SendError<Fw, E2>;

impl std::fmt::Debug for Wrapped {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}

fn kind<M, E>(e: &SendError<M, E>) -> Option<Fail14> {
    match e {
        SendError::ActorNotRunning(_) => Some(Fail14::NotRunning),
        SendError::MailboxFull(_) => Some(Fail14::Full),
        SendError::Timeout(_) => Some(Fail14::Timeout),
        _ => None,
    }
}

/// the message given back
fn back<M, E>(e: SendError<M, E>) -> M {
    match e {
        SendError::ActorNotRunning(m) | SendError::MailboxFull(m) | SendError::Timeout(Some(m)) => m,
        _ => panic!("no message given back"),
    }
}

fn got1(e: &E1) -> Got {
    match e {
        SendError::HandlerError(JobErr(id)) => Got::HErr(*id),
        SendError::ActorNotRunning(m) | SendError::MailboxFull(m) | SendError::Timeout(Some(m)) => Got::Fwd(0, kind(e).unwrap(), m.id),
        e => Got::Other(format!("{e:?}")),
    }
}
fn got2(e: &E2) -> Got {
    match e {
        SendError::HandlerError(e) => got1(e),
        SendError::ActorNotRunning(m) | SendError::MailboxFull(m) | SendError::Timeout(Some(m)) => Got::Fwd(1, kind(e).unwrap(), m.0.id),
        e => Got::Other(format!("{e:?}")),
    }
}
fn got3(e: &E3) -> Got {
    match e {
        SendError::HandlerError(e) => got2(e),
        SendError::ActorNotRunning(m) | SendError::MailboxFull(m) | SendError::Timeout(Some(m)) => Got::Fwd(2, kind(e).unwrap(), m.id),
        e => Got::Other(format!("{e:?}")),
    }
}

/// The result of the requester's own call: a handler error of that forwarder, or its own failure.
fn got<M, E>(r: Result<u64, SendError<M, E>>, inner: impl Fn(&E) -> Got) -> Got {
    match r {
        Ok(v) => Got::Val(v),
        Err(SendError::HandlerError(e)) => inner(&e),
        Err(SendError::ActorStopped) => Got::Stopped,
        Err(e) => Got::Other(format!("{:?}", kind(&e))),
    }
}

fn describe(err: &PanicError) -> String {
    if let Some(g) = err.with_downcast_ref(|e: &E3| got3(e)) {
        return format!("{g:?}");
    }
    if let Some(g) = err.with_downcast_ref(|e: &E2| got2(e)) {
        return format!("{g:?}");
    }
    if let Some(g) = err.with_downcast_ref(|e: &E1| got1(e)) {
        return format!("{g:?}");
    }
    crate::lab::desc_err(err)
}

common!(Hop);

impl Message<Fw> for Hop {
    type Reply = DelegatedOr;

    async fn handle(&mut self, mut fw: Fw, ctx: &mut Context<Self, Self::Reply>) -> DelegatedOr {
        let id = fw.id;
        self.sh.log.push(self.me as u32, Ev::Begin(id));
        if fw.legs.is_empty() {
            match fw.out {
                Out::Ok => return DelegatedOr::Now(Ok(value_of(id))),
                Out::Err => return DelegatedOr::Now(Err(JobErr(id))),
                Out::PanicStr => panic!("static"),
                Out::PanicOwned => panic!("owned {id}"),
                Out::PanicAny => std::panic::panic_any(id),
                Out::Early(ms) => {
                    let _ = ctx.reply(Ok(value_of(id)));
                    sim::sleep_ms(ms as u64).await;
                }
                Out::Delegate(ms) => {
                    let (_, tx) = ctx.reply_sender();
                    self.sh.log.push(self.me as u32, Ev::Note(format!("sender {id} {}", tx.is_some())));
                    if let Some(tx) = tx {
                        if fw.thread {
                            std::thread::spawn(move || tx.send(Ok(value_of(id)))).join().unwrap();
                        } else {
                            tokio::spawn(async move {
                                sim::sleep_ms(ms as u64).await;
                                tx.send(Ok(value_of(id)));
                            });
                        }
                    }
                }
                Out::DropReply => drop(ctx.reply_sender()),
            }
            return DelegatedOr::Later;
        }
        let leg = fw.legs.remove(0);
        let (_, tx) = ctx.reply_sender();
        self.sh.log.push(self.me as u32, Ev::Note(format!("sender {id} {}", tx.is_some())));
        let hop = |i: u8| {
            let h = self.sh.hops.lock().unwrap();
            h[i as usize % h.len()].clone().unwrap()
        };
        let mut targets = vec![hop(leg.to)];
        targets.extend(leg.backup.map(hop));
        let Some(mut tx) = tx else {
            // a tell is passed on as one
            let mut last = None;
            let mut msg = fw.clone();
            for t in targets {
                let r = match leg.mode {
                    Mode::Wait => t.tell(msg).send().await,
                    Mode::Try => t.tell(msg).try_send(),
                    Mode::Timeout(ms) => t.tell(msg).mailbox_timeout(sim::ms(ms as u64)).send().await,
                };
                match r {
                    Ok(()) => return DelegatedOr::Later,
                    Err(e) => {
                        last = kind(&e);
                        msg = back(e);
                        self.same(&msg, &fw);
                    }
                }
            }
            self.sh.log.push(self.me as u32, Ev::Note(format!("failed {id} {last:?}")));
            return DelegatedOr::Later;
        };
        let mut last = None;
        let mut msg = fw.clone();
        for t in targets {
            let r = match leg.mode {
                Mode::Wait => t.ask(msg).forward(tx).await,
                Mode::Try => t.ask(msg).try_forward(tx),
                Mode::Timeout(ms) => t.ask(msg).mailbox_timeout(sim::ms(ms as u64)).forward(tx).await,
            };
            match r {
                Ok(()) => return DelegatedOr::Later,
                Err(e) => {
                    last = kind(&e);
                    (msg, tx) = back(e);
                    self.same(&msg, &fw);
                }
            }
        }
        tx.send(Ok(fallback(self.me, last.unwrap(), id)));
        DelegatedOr::Later
    }
}

impl Hop {
    fn same(&self, a: &Fw, b: &Fw) {
        if a != b {
            self.sh.log.push(self.me as u32, Ev::Note(format!("altered {a:?}, was {b:?}")));
        }
    }
}

macro_rules! forwarder {
    ($t:ident, $next:ident, $in:ty, $reply:ty, $idx:expr, $open:expr, $wrap:expr) => {
        pub struct $t {
            me: u8,
            sh: Shared,
            gate: Arc<Semaphore>,
            next: ActorRef<$next>,
        }
        common!($t);
        impl Message<$in> for $t {
            type Reply = $reply;
            async fn handle(&mut self, fw: $in, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
                let fw: Fw = $open(fw);
                self.sh.log.push(self.me as u32, Ev::Begin(fw.id));
                match fw.modes[$idx] {
                    Mode::Try => ctx.try_forward(&self.next, $wrap(fw)),
                    Mode::Timeout(_) => {
                        let next = &self.next;
                        tokio::task::block_in_place(|| ctx.blocking_forward(next, $wrap(fw)))
                    }
                    Mode::Wait => ctx.forward(&self.next, $wrap(fw)).await,
                }
            }
        }
    };
}
forwarder!(F1, Hop, Wrapped, R1, 0, |w: Wrapped| w.0, |f| f);
forwarder!(F2, F1, Fw, R2, 1, |f| f, Wrapped);
forwarder!(F3, F2, Fw, R3, 2, |f| f, |f| f);

impl Message<Fw> for F1 {
    type Reply = R1;
    async fn handle(&mut self, fw: Fw, ctx: &mut Context<Self, Self::Reply>) -> R1 {
        Message::<Wrapped>::handle(self, Wrapped(fw), ctx).await
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Act {
    Kill(u8),
    Fill(u8),
    Open(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Req {
    before: Vec<Act>,
    /// 0..4 a hop, 4..7 a forwarder
    entry: u8,
    ask: u8,
    fw: Fw,
    /// at 50 ms
    during: Option<Act>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    caps: Vec<Option<u8>>,
    first: u8,
    reqs: Vec<Req>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum St {
    Alive,
    Dead,
    Full,
}

const EVENT: u64 = 50;
const OPEN: u64 = 100;

struct Model {
    st: [St; 7],
    bounded: [bool; 7],
    /// the first hop
    first: u8,
}

#[derive(Debug, PartialEq)]
struct Expect {
    got: Option<Got>,
    /// who handles it, in order
    path: Vec<u32>,
    /// panic hooks
    hooks: Vec<(u32, String)>,
    notes: Vec<(u32, String)>,
}

impl Model {
    /// State of `i` at time `t` after the request was made, not counting what this request does.
    fn at(&self, i: u8, t: u64, during: Option<Act>) -> St {
        let mut s = self.st[i as usize];
        if t >= EVENT {
            match during {
                Some(Act::Kill(k)) if k == i => s = St::Dead,
                Some(Act::Open(k)) if k == i && s == St::Full => s = St::Alive,
                _ => {}
            }
        }
        if t >= OPEN && s == St::Full {
            s = St::Alive;
        }
        s
    }
    /// Passing a message on at time `t`: when that call completes and how; `None` if it is aborted.
    fn pass(&self, from: u8, to: u8, t: u64, mode: Mode, during: Option<Act>) -> Option<(u64, Result<(), Fail14>)> {
        match self.at(to, t, during) {
            St::Dead => Some((t, Err(Fail14::NotRunning))),
            St::Alive => Some((t, Ok(()))),
            St::Full => {
                let limit = match mode {
                    Mode::Try => return Some((t, Err(Fail14::Full))),
                    Mode::Wait => u64::MAX,
                    Mode::Timeout(ms) => t + ms as u64,
                };
                for e in [EVENT, OPEN] {
                    if e <= t {
                        continue;
                    }
                    if limit < e {
                        return Some((limit, Err(Fail14::Timeout)));
                    }
                    if e == EVENT && during == Some(Act::Kill(from)) {
                        return None;
                    }
                    match self.at(to, e, during) {
                        St::Dead => return Some((e, Err(Fail14::NotRunning))),
                        St::Alive => return Some((e, Ok(()))),
                        St::Full => {}
                    }
                }
                unreachable!()
            }
        }
    }
    fn run(&self, r: &Req) -> Expect {
        let ask = r.ask < 3;
        let mut x = Expect { got: None, path: vec![], hooks: vec![], notes: vec![] };
        let id = r.fw.id;
        let (mut cur, mut t) = (r.entry, 0);
        // through the forwarders
        while cur >= 4 {
            x.path.push(cur as u32);
            let next = if cur == 4 { self.first } else { cur - 1 };
            match self.pass(cur, next, t, r.fw.modes[cur as usize - 4], r.during) {
                None => {
                    x.got = ask.then_some(Got::Stopped);
                    return x;
                }
                Some((_, Err(k))) => {
                    let g = Got::Fwd(cur - 4, k, id);
                    if ask {
                        x.got = Some(g);
                    } else {
                        x.hooks.push((cur as u32, format!("{g:?}")));
                    }
                    return x;
                }
                Some((at, Ok(()))) => (cur, t) = (next, at),
            }
        }
        for leg in &r.fw.legs {
            x.path.push(cur as u32);
            x.notes.push((cur as u32, format!("sender {id} {ask}")));
            let mut last = None;
            let mut passed = false;
            for to in [Some(leg.to), leg.backup].into_iter().flatten() {
                match self.pass(cur, to % 4, t, leg.mode, r.during) {
                    None => {
                        x.got = ask.then_some(Got::Stopped);
                        return x;
                    }
                    Some((at, Err(k))) => (t, last) = (at, Some(k)),
                    Some((at, Ok(()))) => {
                        (cur, t) = (to % 4, at);
                        passed = true;
                        break;
                    }
                }
            }
            if !passed {
                if ask {
                    x.got = Some(Got::Val(fallback(cur, last.unwrap(), id)));
                } else {
                    x.notes.push((cur as u32, format!("failed {id} {last:?}")));
                }
                return x;
            }
        }
        x.path.push(cur as u32);
        let out = r.fw.out;
        if let Out::Delegate(_) = out {
            x.notes.push((cur as u32, format!("sender {id} {ask}")));
        }
        if out.panics() || (out == Out::Err && !ask) {
            x.hooks.push((cur as u32, desc_out(id, out)));
        }
        x.got = ask.then_some(match out {
            Out::Err => Got::HErr(id),
            Out::DropReply => Got::Stopped,
            o if o.panics() => Got::Stopped,
            _ => Got::Val(value_of(id)),
        });
        x
    }
}

struct World {
    hops: Vec<ActorRef<Hop>>,
    f1: ActorRef<F1>,
    f2: ActorRef<F2>,
    f3: ActorRef<F3>,
    gates: Vec<Arc<Semaphore>>,
    caps: Vec<Option<u8>>,
}

macro_rules! on {
    ($w:expr, $i:expr, $a:ident => $e:expr) => {
        match $i {
            4 => {
                let $a = &$w.f1;
                $e
            }
            5 => {
                let $a = &$w.f2;
                $e
            }
            6 => {
                let $a = &$w.f3;
                $e
            }
            i => {
                let $a = &$w.hops[i as usize];
                $e
            }
        }
    };
}

impl World {
    fn new(log: &Log, caps: &[Option<u8>], first: u8) -> Self {
        let sh = Shared { log: log.clone(), hops: Default::default() };
        let gates: Vec<Arc<Semaphore>> = (0..7).map(|_| Arc::new(Semaphore::new(0))).collect();
        let mut hops = vec![];
        for i in 0..4u8 {
            let p = PreparedActor::new(crate::lab::mailbox(caps[i as usize]));
            hops.push(p.actor_ref().clone());
            p.spawn(Hop { me: i, sh: sh.clone(), gate: gates[i as usize].clone() });
        }
        *sh.hops.lock().unwrap() = hops.iter().cloned().map(Some).collect();
        macro_rules! fwd {
            ($t:ident, $i:expr, $next:expr) => {{
                let p = PreparedActor::new(crate::lab::mailbox(caps[$i]));
                let a = p.actor_ref().clone();
                p.spawn($t { me: $i as u8, sh: sh.clone(), gate: gates[$i].clone(), next: $next.clone() });
                a
            }};
        }
        let f1 = fwd!(F1, 4, hops[first as usize]);
        let f2 = fwd!(F2, 5, f1);
        let f3 = fwd!(F3, 6, f2);
        World { hops, f1, f2, f3, gates, caps: caps.to_vec() }
    }
    fn act(&self, m: &mut Model, a: Act) {
        match a {
            Act::Kill(i) => {
                on!(self, i, a => a.kill());
                m.st[i as usize] = St::Dead;
            }
            Act::Fill(i) => {
                if m.st[i as usize] == St::Alive && m.bounded[i as usize] {
                    on!(self, i, a => {
                        let a = a.clone();
                        let n = self.caps[i as usize].unwrap().max(1);
                        tokio::spawn(async move {
                            let _ = a.tell(Gate).send().await;
                            sim::sleep_ms(5).await;
                            for _ in 0..n {
                                let _ = a.tell(Filler).send().await;
                            }
                        });
                    });
                    m.st[i as usize] = St::Full;
                }
            }
            Act::Open(i) => {
                if m.st[i as usize] == St::Full {
                    self.gates[i as usize].add_permits(1);
                    m.st[i as usize] = St::Alive;
                }
            }
        }
    }
}

async fn body(c: &Case, log: &Log) -> CaseResult {
    let w = Arc::new(World::new(log, &c.caps, c.first));
    sim::sleep_ms(10).await;
    let bounded = std::array::from_fn(|i| c.caps[i].is_some());
    let mut m = Model { st: [St::Alive; 7], bounded, first: c.first };
    let (mut fwd, mut failed, mut waited, mut hops) = (0, 0, 0, 0);
    for r in &c.reqs {
        for a in &r.before {
            w.act(&mut m, *a);
        }
        sim::sleep_ms(100).await;
        if m.st[r.entry as usize] != St::Alive {
            continue;
        }
        // forwarding to oneself waits for oneself
        let before = log.get().len();
        let x = m.run(r);
        let (w2, r2) = (w.clone(), r.clone());
        let h = tokio::spawn(async move {
            let fw = r2.fw.clone();
            macro_rules! go {
                ($a:expr, $inner:expr) => {
                    match r2.ask {
                        0 => Some(got($a.ask(fw).send().await, $inner)),
                        1 => match $a.ask(fw).enqueue().await {
                            Ok(p) => Some(got(p.await, $inner)),
                            Err(e) => Some(Got::Other(format!("{e:?}"))),
                        },
                        2 => Some(got($a.ask(fw).reply_timeout(sim::ms(5000)).try_send().await, $inner)),
                        3 => {
                            $a.tell(fw).send().await.unwrap();
                            None
                        }
                        _ => {
                            $a.clone().recipient().tell(fw).try_send().unwrap();
                            None
                        }
                    }
                };
            }
            let hop = |e: &JobErr| Got::HErr(e.0);
            match r2.entry {
                4 => go!(w2.f1, got1),
                5 => go!(w2.f2, got2),
                6 => go!(w2.f3, got3),
                i => go!(w2.hops[i as usize], hop),
            }
        });
        sim::sleep_ms(EVENT).await;
        let full = m.st.iter().any(|s| *s == St::Full);
        if let Some(a) = r.during {
            if !matches!(a, Act::Fill(_)) {
                w.act(&mut m, a);
            }
        }
        sim::sleep_ms(OPEN - EVENT).await;
        for i in 0..7 {
            w.act(&mut m, Act::Open(i));
        }
        sim::sleep_ms(400).await;
        check!(log, h.is_finished(), "unanswered", "request {} to {} is never answered, expected {:?}", r.fw.id, r.entry, x.got);
        let g = match h.await {
            Ok(g) => g,
            Err(_) => return fail("panics", format!("request {}: the requester panics; history:{}", r.fw.id, log.show())),
        };
        check!(log, g == x.got, "wrong-answer", "request {} to {}: got {g:?}, expected {:?}", r.fw.id, r.entry, x.got);
        let new: Vec<_> = log.get().split_off(before);
        let path: Vec<u32> = new.iter().filter(|e| matches!(e.ev, Ev::Begin(_))).map(|e| e.who).collect();
        check!(log, path == x.path, "path", "request {} went through {path:?}, expected {:?}", r.fw.id, x.path);
        let hooks: Vec<(u32, String)> = new.iter().filter_map(|e| match &e.ev {
            Ev::PanicHook(d) => Some((e.who, d.clone())),
            _ => None,
        }).collect();
        check!(log, hooks == x.hooks, "hooks", "request {}: panic hooks {hooks:?}, expected {:?}", r.fw.id, x.hooks);
        let notes: Vec<(u32, String)> = new.iter().filter_map(|e| match &e.ev {
            Ev::Note(d) => Some((e.who, d.clone())),
            _ => None,
        }).collect();
        check!(log, notes == x.notes, "notes", "request {}: {notes:?}, expected {:?}", r.fw.id, x.notes);
        hops += x.path.len();
        fwd += usize::from(x.path.len() > 1);
        failed += usize::from(matches!(x.got, Some(Got::Fwd(..))) || x.notes.iter().any(|n| n.1.starts_with("failed")) || matches!(x.got, Some(Got::Val(v)) if v > 9_000_000_000));
        waited += usize::from(full);
    }
    // all the living are unharmed
    for i in 0..7u8 {
        let alive = on!(w, i, a => a.is_alive());
        check!(log, alive == (m.st[i as usize] != St::Dead), "died", "actor {i} is alive: {alive}");
    }
    Ok(Info::new(fwd > 0)
        .label(failed > 0, "a hop failed")
        .label(waited > 0, "full mailbox")
        .label(hops > 6, "many hops"))
}

fn case_check(c: &Case) -> CaseResult {
    let out = sim::run(async {
        let log = Log::new();
        body(c, &log).await
    });
    out.unwrap_or_else(|| fail("hang", "the system never comes to rest"))
}

fn mode() -> impl Strategy<Value = Mode> {
    prop_oneof![3 => Just(Mode::Wait), 3 => Just(Mode::Try), 1 => Just(Mode::Timeout(21)), 1 => Just(Mode::Timeout(76)), 1 => Just(Mode::Timeout(203))]
}

fn act() -> impl Strategy<Value = Act> {
    prop_oneof![2 => (0u8..7).prop_map(Act::Kill), 4 => (0u8..7).prop_map(Act::Fill), 1 => (0u8..7).prop_map(Act::Open)]
}

fn req() -> impl Strategy<Value = Req> {
    let fmode = || prop_oneof![Just(Mode::Wait), Just(Mode::Try)];
    let leg = (0u8..4, mode(), prop::option::weighted(0.4, 0u8..4)).prop_map(|(to, mode, backup)| Leg { to, mode, backup });
    (
        prop::collection::vec(act(), 0..3),
        prop_oneof![1 => 0u8..4, 2 => 4u8..7],
        0u8..5,
        [fmode(), fmode(), fmode()],
        prop::collection::vec(leg, 0..4),
        any_out(),
        any::<bool>(),
        prop::option::weighted(0.5, act()),
    )
        .prop_map(|(before, entry, ask, modes, legs, out, thread, during)| {
            Req { before, entry, ask, fw: Fw { id: 0, modes, legs, out, thread }, during }
        })
}

fn case() -> BoxedStrategy<Case> {
    boxed(
        (prop::collection::vec(prop_oneof![1 => Just(None), 3 => (1u8..4).prop_map(Some)], 7), 0u8..4, prop::collection::vec(req(), 1..5)).prop_map(
            |(caps, first, mut reqs)| {
                for (i, r) in reqs.iter_mut().enumerate() {
                    r.fw.id = i as u32 + 1;
                    // nothing waits for itself: at least not while it is full
                    if matches!(r.during, Some(Act::Fill(_))) {
                        r.during = None;
                    }
                }
                Case { caps, first, reqs }
            },
        ),
    )
}

// ---------------------------------------------------------------- real threads

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Load {
    caps: Vec<Option<u8>>,
    /// per task: requests (entry, ask, modes, legs, out)
    tasks: Vec<Vec<(u8, bool, [Mode; 3], Vec<Leg>, Out)>>,
    /// an actor which dies after that many microseconds
    kill: Option<(u8, u16)>,
}

fn load(c: &Load) -> CaseResult {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_time().build().unwrap();
    let log = Log::new();
    let r = rt.block_on(async {
        let w = Arc::new(World::new(&log, &c.caps, 0));
        let mut hs = vec![];
        let mut n = 0;
        for (t, reqs) in c.tasks.iter().cloned().enumerate() {
            let w = w.clone();
            n += reqs.len();
            hs.push(tokio::spawn(async move {
                let mut res = vec![];
                for (i, (entry, ask, modes, legs, out)) in reqs.into_iter().enumerate() {
                    let id = (t * 1000 + i) as u32;
                    let fw = Fw { id, modes, legs: legs.clone(), out, thread: i % 2 == 0 };
                    macro_rules! go {
                        ($a:expr, $inner:expr) => {
                            if ask {
                                Some(got($a.ask(fw).send().await, $inner))
                            } else {
                                let _ = $a.tell(fw).send().await;
                                None
                            }
                        };
                    }
                    let hop = |e: &JobErr| Got::HErr(e.0);
                    let g = match entry {
                        4 => go!(w.f1, got1),
                        5 => go!(w.f2, got2),
                        6 => go!(w.f3, got3),
                        i => go!(w.hops[i as usize], hop),
                    };
                    res.push((id, entry, out, legs, g));
                }
                res
            }));
        }
        if let Some((i, us)) = c.kill {
            tokio::time::sleep(Duration::from_micros(us as u64)).await;
            on!(w, i, a => a.kill());
        }
        let mut all = vec![];
        for h in hs {
            match tokio::time::timeout(Duration::from_secs(20), h).await {
                Ok(Ok(r)) => all.extend(r),
                Ok(Err(_)) => return Err(Fail { sig: "panics".into(), msg: format!("a requester panics; history:{}", log.show()) }),
                Err(_) => return Err(hang(&log, "a request is never answered")),
            }
        }
        Ok((all, n))
    });
    rt.shutdown_background();
    let (all, n) = r?;
    let mut through = 0;
    for (id, _, out, _, g) in all {
        let Some(g) = g else { continue };
        let ok = match &g {
            Got::Val(v) => *v == value_of(id) && !out.panics() && !matches!(out, Out::Err | Out::DropReply) || (*v > 9_000_000_000 && *v % 100_000 == id as u64),
            Got::HErr(i) => *i == id && out == Out::Err,
            Got::Fwd(_, k, i) => *i == id && (*k == Fail14::Full || c.kill.is_some()),
            Got::Stopped => out.panics() || out == Out::DropReply || c.kill.is_some(),
            Got::Other(e) => c.kill.is_some() && e == "Some(NotRunning)",
        };
        check!(&log, ok, "wrong-answer", "request {id} with outcome {out:?} was answered with {g:?}");
        through += usize::from(matches!(g, Got::Val(v) if v < 9_000_000_000));
    }
    // a forwarder's or hop's panic hook is called for genuine failures only
    for e in log.get() {
        if let Ev::PanicHook(d) = &e.ev {
            check!(&log, d.starts_with("str:static") || d.starts_with("str:owned") || d.starts_with("any:") || d.starts_with("job:") || d.starts_with("Fwd("), "hooks", "unexpected panic hook at {}: {d}", e.who);
        }
    }
    Ok(Info::new(n > 1).label(through > 0, "answered through the chain").label(c.kill.is_some(), "a hop dies"))
}

pub fn run(s: &mut Session) {
    s.prop("hops", "a request is passed on at least once", 40_000, 1_000_000, case, case_check);
    s.prop_sharded("hops_under_load", "several requests at once", 1_200, 30_000, 4, || {
        // (a cycle of waiting actors with full mailboxes would wait forever: legs go to later hops)
        let fmode = || prop_oneof![2 => Just(Mode::Wait), 2 => Just(Mode::Try), 1 => Just(Mode::Timeout(1))];
        let leg = (0u8..3, prop_oneof![Just(Mode::Wait), Just(Mode::Try), Just(Mode::Timeout(5))], prop::option::weighted(0.3, 0u8..4));
        let req = (prop_oneof![1 => 0u8..4, 2 => 4u8..7], any::<bool>(), [fmode(), fmode(), fmode()], prop::collection::vec(leg, 0..3), any_out()).prop_map(
            |(entry, ask, modes, legs, out)| {
                let mut at = if entry < 4 { entry } else { 0 };
                let mut out_legs = vec![];
                for (d, mode, b) in legs {
                    let to = at + 1 + d;
                    if to < 4 {
                        out_legs.push(Leg { to, mode, backup: b.map(|b| b.max(to)) });
                        at = b.map(|b| b.max(to)).unwrap_or(to).max(to);
                    }
                }
                (entry, ask, modes, out_legs, out)
            },
        );
        boxed(
            (
                prop::collection::vec(prop_oneof![1 => Just(None), 3 => (1u8..4).prop_map(Some)], 7),
                prop::collection::vec(prop::collection::vec(req, 1..10), 1..5),
                prop::option::weighted(0.4, (0u8..7, 0u16..500)),
            )
                .prop_map(|(caps, tasks, kill)| Load { caps, tasks, kill }),
        )
    }, load);
}

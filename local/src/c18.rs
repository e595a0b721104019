//! C18: error values.
use std::{
    any::Any,
    ops::ControlFlow,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{Arc, Mutex},
};

use kameo::{
    actor::{ActorID, ActorRef, PreparedActor, WeakActorRef},
    error::{ActorStopReason, BoxSendError, Infallible, PanicError, SendError},
    mailbox,
    message::{Context, Message},
    Actor,
};
use pbt::{boxed, ensure, sim, CaseResult, Fail, Info, Session};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum P {
    Unit,
    U(u32),
    S(String),
    V(Vec<u8>),
    T(u8, String),
}

fn payload() -> impl Strategy<Value = P> {
    prop_oneof![
        Just(P::Unit),
        any::<u32>().prop_map(P::U),
        ".{0,5}".prop_map(P::S),
        prop::collection::vec(any::<u8>(), 0..4).prop_map(P::V),
        (any::<u8>(), ".{0,3}").prop_map(|(a, b)| P::T(a, b)),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    variant: u8,
    msg: P,
    err: P,
}

type E0 = SendError<P, P>;

fn mk(c: &Case) -> E0 {
    build(c.variant, c.msg.clone(), c.err.clone())
}

fn build<M, E>(variant: u8, m: M, e: E) -> SendError<M, E> {
    match variant % 6 {
        0 => SendError::ActorNotRunning(m),
        1 => SendError::ActorStopped,
        2 => SendError::MailboxFull(m),
        3 => SendError::HandlerError(e),
        4 => SendError::Timeout(Some(m)),
        _ => SendError::Timeout(None),
    }
}

/// (carried message, carried error)
fn carried(c: &Case) -> (Option<P>, Option<P>) {
    match c.variant % 6 {
        0 | 2 | 4 => (Some(c.msg.clone()), None),
        3 => (None, Some(c.err.clone())),
        _ => (None, None),
    }
}

fn laws(c: &Case) -> CaseResult {
    let e = mk(c);
    let (cm, ce) = carried(c);
    ensure!(e.clone() == e, "clone", "{e:?}");
    // map
    let mut n = 0;
    let m = e.clone().map_msg(|m| {
        n += 1;
        (1u8, m)
    });
    ensure!(m == build(c.variant, (1u8, c.msg.clone()), c.err.clone()), "map-msg", "{c:?} became {m:?}");
    ensure!(n == cm.is_some() as u32, "map-msg-calls", "{c:?}: closure called {n} times");
    let mut n = 0;
    let m = e.clone().map_err(|m| {
        n += 1;
        (2u8, m)
    });
    ensure!(m == build(c.variant, c.msg.clone(), (2u8, c.err.clone())), "map-err", "{c:?} became {m:?}");
    ensure!(n == ce.is_some() as u32, "map-err-calls", "{c:?}: closure called {n} times");
    // unwrap
    let r = catch_unwind(AssertUnwindSafe(|| e.clone().unwrap_msg())).ok();
    ensure!(r == cm, "unwrap-msg", "{c:?}: unwrap_msg gave {r:?}");
    let r = catch_unwind(AssertUnwindSafe(|| e.clone().unwrap_err())).ok();
    ensure!(r == ce, "unwrap-err", "{c:?}: unwrap_err gave {r:?}");
    // box and downcast
    let r: E0 = e.clone().boxed().downcast();
    ensure!(r == e, "box-downcast", "{c:?} came back as {r:?}");
    let r = e.clone().boxed().try_downcast::<P, P>();
    ensure!(matches!(&r, Ok(r) if *r == e), "box-try-downcast", "{c:?}");
    // wrong types: the carried value decides
    let r: Result<SendError<u64, P>, BoxSendError> = e.clone().boxed().try_downcast();
    match (r, &cm) {
        (Ok(r), None) => {
            ensure!(r.clone().map_msg(|_| P::Unit) == e, "wrong-msg-type", "{c:?} became {r:?}")
        }
        (Err(b), Some(_)) => {
            let b: E0 = b.downcast();
            ensure!(b == e, "downcast-gives-back", "{c:?} given back as {b:?}");
        }
        (r, _) => return pbt::fail("wrong-msg-type", format!("{c:?}: downcast to a wrong message type gave ok={}", r.is_ok())),
    }
    let r: Result<SendError<P, u64>, BoxSendError> = e.clone().boxed().try_downcast();
    match (r, &ce) {
        (Ok(r), None) => {
            ensure!(r.clone().map_err(|_| P::Unit) == e, "wrong-err-type", "{c:?} became {r:?}")
        }
        (Err(b), Some(_)) => {
            let b: E0 = b.downcast();
            ensure!(b == e, "downcast-gives-back", "{c:?} given back as {b:?}");
        }
        (r, _) => return pbt::fail("wrong-err-type", format!("{c:?}: downcast to a wrong error type gave ok={}", r.is_ok())),
    }
    // a message type which looks like the error type must not be confused with it
    let swapped: Result<SendError<Vec<P>, P>, _> = build(c.variant, vec![c.msg.clone()], c.err.clone()).boxed().try_downcast();
    ensure!(swapped.is_ok(), "box-try-downcast", "{c:?}");
    // infallible errors
    if c.variant % 6 != 3 {
        let i: SendError<P, Infallible> = match e.clone() {
            SendError::ActorNotRunning(m) => SendError::ActorNotRunning(m),
            SendError::ActorStopped => SendError::ActorStopped,
            SendError::MailboxFull(m) => SendError::MailboxFull(m),
            SendError::Timeout(m) => SendError::Timeout(m),
            SendError::HandlerError(_) => unreachable!(),
        };
        let back: SendError<P, Infallible> = i.clone().boxed().downcast();
        ensure!(back == i, "box-downcast", "{c:?}");
    }
    // flatten
    let outer: SendError<P, E0> = build(c.variant, c.msg.clone(), SendError::ActorStopped);
    if c.variant % 6 != 3 {
        ensure!(outer.clone().flatten() == e, "flatten-outer", "{c:?} flattened to {:?}", outer.flatten());
    }
    let nested: SendError<P, E0> = SendError::HandlerError(e.clone());
    ensure!(nested.clone().flatten() == e, "flatten-inner", "{c:?} flattened to {:?}", nested.flatten());
    let deep: SendError<P, SendError<P, E0>> = SendError::HandlerError(SendError::HandlerError(e.clone()));
    ensure!(deep.flatten().flatten() == e, "flatten-deep", "{c:?}");
    // text
    let txt = e.clone().map_err(|_| "inner-error".to_string()).to_string();
    let has = txt.contains("inner-error");
    ensure!(has == ce.is_some() && !txt.is_empty(), "display", "{c:?} displays as {txt:?}");
    Ok(Info::new(cm.is_some() || ce.is_some()))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Payload {
    Static(u8),
    Owned(String),
    Num(u32),
    Custom(P),
}

const STATICS: [&str; 3] = ["", "boom", "päng {}"];

fn check_str(pe: &PanicError, want: Option<&str>) -> Result<(), Fail> {
    let s = pe.with_str(|s| s.to_string());
    ensure!(s.as_deref() == want, "with-str", "with_str gave {s:?}, expected {want:?}");
    let d = pe.to_string();
    if let Some(w) = want {
        ensure!(d.contains(w), "panic-display", "{w:?} displays as {d:?}");
        let g = format!("{pe:?}");
        ensure!(g.contains(&format!("{w:?}")), "panic-debug", "{w:?} debugs as {g:?}");
    }
    Ok(())
}

fn panic_values(p: &Payload) -> CaseResult {
    let pe = match p {
        Payload::Static(i) => PanicError::new(Box::new(STATICS[*i as usize % 3])),
        Payload::Owned(s) => PanicError::new(Box::new(s.clone())),
        Payload::Num(n) => PanicError::new(Box::new(*n)),
        Payload::Custom(p) => PanicError::new(Box::new(p.clone())),
    };
    for pe in [pe.clone(), pe] {
        let got_static = pe.with_downcast_ref(|s: &&'static str| s.to_string());
        let got_owned = pe.with_downcast_ref(|s: &String| s.clone());
        let got_num = pe.downcast::<u32>();
        let got_custom = pe.downcast::<P>();
        let other = pe.downcast::<u64>();
        ensure!(other.is_none(), "downcast-other", "{p:?} downcast to u64: {other:?}");
        let (mut s, mut o, mut n, mut c) = (None, None, None, None);
        match p {
            Payload::Static(i) => s = Some(STATICS[*i as usize % 3].to_string()),
            Payload::Owned(x) => o = Some(x.clone()),
            Payload::Num(x) => n = Some(*x),
            Payload::Custom(x) => c = Some(x.clone()),
        }
        check_str(&pe, s.as_deref().or(o.as_deref()))?;
        ensure!(got_static == s && got_owned == o && got_num == n && got_custom == c, "downcast",
            "{p:?}: static {got_static:?} owned {got_owned:?} num {got_num:?} custom {got_custom:?}");
        let (isn, isc) = pe.with(|e| (e.downcast_ref::<u32>().copied(), e.downcast_ref::<P>().cloned()));
        ensure!(isn == n && isc == c, "with", "{p:?}");
        // a panicking closure must not make the error unusable
        let _ = catch_unwind(AssertUnwindSafe(|| pe.with(|_| -> () { panic!("inside with") })));
        ensure!(pe.downcast::<u32>() == n && pe.downcast::<P>() == c, "after-poison", "{p:?} lost after a panic inside with()");
        check_str(&pe, s.as_deref().or(o.as_deref()))?;
        let poisoned = catch_unwind(AssertUnwindSafe(|| pe.with(|e| e.downcast_ref::<u32>().copied()))).ok();
        ensure!(poisoned == Some(n), "after-poison", "{p:?}: with() after poisoning gave {poisoned:?}");
    }
    Ok(Info::new(true))
}

/// The same payloads raised through a real actor.
struct A(Arc<Mutex<Vec<PanicError>>>);
impl Actor for A {
    type Error = P;
    async fn on_panic(&mut self, _: WeakActorRef<Self>, err: PanicError) -> Result<ControlFlow<ActorStopReason>, P> {
        self.0.lock().unwrap().push(err);
        Ok(ControlFlow::Continue(()))
    }
}
struct Raise(Payload, u8);
impl Message<Raise> for A {
    type Reply = Result<(), P>;
    async fn handle(&mut self, Raise(p, how): Raise, _: &mut Context<Self, Self::Reply>) -> Self::Reply {
        sim::yields(how / 3).await;
        match (p, how % 3) {
            (Payload::Static(0), _) => panic!(""),
            (Payload::Static(1), _) => panic!("boom"),
            (Payload::Static(i), _) => std::panic::panic_any(STATICS[i as usize % 3]),
            (Payload::Owned(s), 0) => std::panic::panic_any(s),
            (Payload::Owned(s), 1) => std::panic::resume_unwind(Box::new(s)),
            (Payload::Owned(s), _) => panic!("{}", s),
            (Payload::Num(n), 0) => std::panic::panic_any(n),
            (Payload::Num(n), _) => std::panic::resume_unwind(Box::new(n)),
            (Payload::Custom(c), _) => Err(c),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Raised(Vec<(Payload, u8)>);

fn raised(r: &Raised) -> CaseResult {
    let log: Arc<Mutex<Vec<PanicError>>> = Default::default();
    let done = sim::run(async {
        let p = PreparedActor::new(mailbox::unbounded());
        let a: ActorRef<A> = p.actor_ref().clone();
        p.spawn(A(log.clone()));
        for (p, how) in &r.0 {
            let _ = a.tell(Raise(p.clone(), *how)).await;
        }
        sim::settle().await;
        a.is_alive()
    });
    ensure!(done == Some(true), "raise-alive", "actor gone or hung: {done:?}");
    let log = log.lock().unwrap();
    ensure!(log.len() == r.0.len(), "raise-count", "{} panics raised, {} reported", r.0.len(), log.len());
    for ((p, _), pe) in r.0.iter().zip(log.iter()) {
        match p {
            Payload::Static(i) => check_str(pe, Some(STATICS[*i as usize % 3]))?,
            Payload::Owned(s) => check_str(pe, Some(s))?,
            Payload::Num(n) => {
                check_str(pe, None)?;
                let got = pe
                    .with_downcast_ref(|b: &Box<dyn Any + Send>| b.downcast_ref::<u32>().copied())
                    .flatten()
                    .or(pe.downcast::<u32>());
                ensure!(got == Some(*n), "raise-any", "panic_any({n}) is reported as {got:?}");
            }
            Payload::Custom(c) => {
                check_str(pe, None)?;
                ensure!(pe.downcast::<P>().as_ref() == Some(c), "raise-error", "{c:?} is reported as {pe:?}");
            }
        }
    }
    Ok(Info::new(r.0.len() > 1))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum R {
    Normal,
    Killed,
    Panicked(String),
    PanickedStatic,
    Link(u64, Box<R>),
}

fn reason() -> impl Strategy<Value = R> {
    let leaf = prop_oneof![Just(R::Normal), Just(R::Killed), ".{0,8}".prop_map(R::Panicked), Just(R::PanickedStatic)];
    leaf.prop_recursive(4, 8, 1, |i| (any::<u64>(), i).prop_map(|(n, r)| R::Link(n, Box::new(r))))
}

fn to_reason(r: &R) -> ActorStopReason {
    match r {
        R::Normal => ActorStopReason::Normal,
        R::Killed => ActorStopReason::Killed,
        R::Panicked(s) => ActorStopReason::Panicked(PanicError::new(Box::new(s.clone()))),
        R::PanickedStatic => ActorStopReason::Panicked(PanicError::new(Box::new("static"))),
        R::Link(n, r) => ActorStopReason::LinkDied { id: ActorID::new(*n), reason: Box::new(to_reason(r)) },
    }
}

fn same(r: &R, s: &ActorStopReason) -> bool {
    match (r, s) {
        (R::Normal, ActorStopReason::Normal) | (R::Killed, ActorStopReason::Killed) => true,
        (R::Panicked(t), ActorStopReason::Panicked(e)) => e.with_str(|s| s.contains(t.as_str())).unwrap_or(false),
        (R::PanickedStatic, ActorStopReason::Panicked(e)) => e.with_str(|s| s.contains("static")).unwrap_or(false),
        (R::Link(n, r), ActorStopReason::LinkDied { id, reason }) => *id == ActorID::new(*n) && same(r, reason),
        _ => false,
    }
}

fn serde_reason(r: &R) -> CaseResult {
    let s = to_reason(r);
    ensure!(same(r, &s.clone()), "clone-reason", "{s:?}");
    let js = serde_json::to_string(&s).map_err(|e| Fail { sig: "reason-encode".into(), msg: e.to_string() })?;
    let d: ActorStopReason = serde_json::from_str(&js).map_err(|e| Fail { sig: "reason-decode".into(), msg: format!("{js}: {e}") })?;
    ensure!(same(r, &d), "reason-json", "{r:?} -> {js} -> {d:?}");
    let b = rmp_serde::to_vec(&s).map_err(|e| Fail { sig: "reason-encode".into(), msg: e.to_string() })?;
    let d: ActorStopReason = rmp_serde::from_slice(&b).map_err(|e| Fail { sig: "reason-decode".into(), msg: e.to_string() })?;
    ensure!(same(r, &d), "reason-msgpack", "{r:?} -> {d:?}");
    let b = rmp_serde::to_vec_named(&s).map_err(|e| Fail { sig: "reason-encode".into(), msg: e.to_string() })?;
    let d: ActorStopReason = rmp_serde::from_slice(&b).map_err(|e| Fail { sig: "reason-decode".into(), msg: e.to_string() })?;
    ensure!(same(r, &d), "reason-msgpack", "{r:?} -> {d:?}");
    // and once more, as a reason that crosses several nodes does
    let b = rmp_serde::to_vec(&d).map_err(|e| Fail { sig: "reason-encode".into(), msg: e.to_string() })?;
    let d: ActorStopReason = rmp_serde::from_slice(&b).map_err(|e| Fail { sig: "reason-decode".into(), msg: e.to_string() })?;
    ensure!(same(r, &d), "reason-second-hop", "{r:?} -> {d:?}");
    Ok(Info::new(matches!(r, R::Link(..) | R::Panicked(_))))
}

pub fn run(s: &mut Session) {
    s.prop("send_error_laws", "the error carries a message or a handler error", 20_000, 400_000,
        || boxed((0u8..6, payload(), payload()).prop_map(|(variant, msg, err)| Case { variant, msg, err })), laws);
    let pl = || {
        prop_oneof![
            (0u8..3).prop_map(Payload::Static),
            ".{0,8}".prop_map(Payload::Owned),
            any::<u32>().prop_map(Payload::Num),
            payload().prop_map(Payload::Custom),
        ]
    };
    s.prop("panic_error_values", "always", 6_000, 100_000, move || boxed(pl()), panic_values);
    s.prop("raised_panics", "at least two failing messages", 1_500, 30_000,
        move || boxed(prop::collection::vec((pl(), 0u8..9), 1..8).prop_map(Raised)), raised);
    s.prop("stop_reason_serde", "a nested or panicked reason", 10_000, 200_000, || boxed(reason()), serde_reason);
}

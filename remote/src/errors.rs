//! The part of C18 about errors of remote requests, and stop reasons which cross nodes.
use kameo::{
    actor::ActorID,
    error::{ActorStopReason, PanicError, RemoteSendError, SendError},
};
use libp2p::PeerId;
use pbt::{boxed, ensure, CaseResult, Fail, Info, Session};
use proptest::prelude::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum P {
    Unit,
    U(u32),
    S(String),
    B(Vec<u8>),
    T { a: i64, b: Option<String> },
}

fn payload() -> impl Strategy<Value = P> {
    prop_oneof![
        Just(P::Unit),
        any::<u32>().prop_map(P::U),
        ".{0,5}".prop_map(P::S),
        prop::collection::vec(any::<u8>(), 0..4).prop_map(P::B),
        (any::<i64>(), prop::option::of(".{0,3}")).prop_map(|(a, b)| P::T { a, b }),
    ]
}

/// A variant and the texts and error it may carry.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct E {
    variant: u8,
    x: String,
    y: String,
    err: P,
}

fn build<T>(e: &E, err: T) -> RemoteSendError<T> {
    use RemoteSendError::*;
    let (x, y) = (e.x.clone(), e.y.clone());
    match e.variant % 20 {
        0 => ActorNotRunning,
        1 => ActorStopped,
        2 => UnknownActor { actor_remote_id: x.into() },
        3 => UnknownMessage { actor_remote_id: x.into(), message_remote_id: y.into() },
        4 => BadActorType,
        5 => MailboxFull,
        6 => ReplyTimeout,
        7 => SerializeMessage(x),
        8 => DeserializeMessage(x),
        9 => SerializeReply(x),
        10 => SerializeHandlerError(x),
        11 => DeserializeHandlerError(x),
        12 => SwarmNotBootstrapped,
        13 => DialFailure,
        14 => NetworkTimeout,
        15 => ConnectionClosed,
        16 => UnsupportedProtocols,
        17 => Io(None),
        18 => Io(Some(std::io::Error::new(std::io::ErrorKind::Other, x))),
        _ => HandlerError(err),
    }
}

fn show<T: std::fmt::Debug>(e: &RemoteSendError<T>) -> String {
    format!("{e:?}")
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    outer: E,
    inner: E,
}

fn laws(c: &Case) -> CaseResult {
    let (o, i) = (&c.outer, &c.inner);
    let carries = o.variant % 20 == 19;
    let mut n = 0;
    let m = build(o, o.err.clone()).map_err(|p| {
        n += 1;
        (1u8, p)
    });
    ensure!(show(&m) == show(&build(o, (1u8, o.err.clone()))), "map-err", "{o:?} became {m:?}");
    ensure!(n == carries as u32, "map-err-calls", "{o:?}: closure called {n} times");
    // an error within an error
    let f = build(o, build(i, i.err.clone())).flatten();
    let want = if carries { build(i, i.err.clone()) } else { build(o, i.err.clone()) };
    ensure!(show(&f) == show(&want), "flatten", "{c:?} became {f:?}");
    // encoded, unless it's the one which has no encoding
    if !matches!(o.variant % 20, 17 | 18) {
        for (how, d) in trips(&build(o, o.err.clone()))? {
            ensure!(show(&d) == show(&build(o, o.err.clone())), "roundtrip", "{how}: {o:?} became {d:?}");
        }
    } else {
        // it never takes the process down
        let _ = rmp_serde::to_vec(&build(o, o.err.clone()));
        let _ = cbor4ii::serde::to_vec(vec![], &build(o, o.err.clone()));
    }
    Ok(Info::new(carries).label(carries && i.variant % 20 == 19, "error in an error"))
}

fn trips<T: Serialize + DeserializeOwned>(v: &T) -> Result<Vec<(&'static str, T)>, Fail> {
    let err = |s: &str, m: String| Fail { sig: s.into(), msg: m };
    let js = serde_json::to_string(v).map_err(|e| err("json-encode", e.to_string()))?;
    let mut all = vec![("json", serde_json::from_str(&js).map_err(|e| err("json-decode", format!("{js}: {e}")))?)];
    for b in [rmp_serde::to_vec(v), rmp_serde::to_vec_named(v)] {
        let b = b.map_err(|e| err("msgpack-encode", e.to_string()))?;
        all.push(("msgpack", rmp_serde::from_slice(&b).map_err(|e| err("msgpack-decode", e.to_string()))?));
    }
    let b = cbor4ii::serde::to_vec(vec![], v).map_err(|e| err("cbor-encode", e.to_string()))?;
    all.push(("cbor", cbor4ii::serde::from_slice(&b).map_err(|e| err("cbor-decode", e.to_string()))?));
    all.push(("cbor reader", cbor4ii::serde::from_reader(&b[..]).map_err(|e| err("cbor-decode", e.to_string()))?));
    Ok(all)
}

/// From the error of a local request.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Local {
    variant: u8,
    err: P,
}

fn convert(l: &Local) -> CaseResult {
    let e: SendError<u8, P> = match l.variant % 5 {
        0 => SendError::ActorNotRunning(1),
        1 => SendError::ActorStopped,
        2 => SendError::MailboxFull(1),
        3 => SendError::HandlerError(l.err.clone()),
        _ => SendError::Timeout(if l.variant > 4 { Some(1) } else { None }),
    };
    let r = RemoteSendError::from(e);
    let ok = match (l.variant % 5, &r) {
        (0, RemoteSendError::ActorNotRunning) | (1, RemoteSendError::ActorStopped) | (2, RemoteSendError::MailboxFull) | (4, RemoteSendError::ReplyTimeout) => true,
        (3, RemoteSendError::HandlerError(p)) => *p == l.err,
        _ => false,
    };
    ensure!(ok, "from-local", "{l:?} became {r:?}");
    Ok(Info::new(l.variant % 5 == 3))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum R {
    Normal,
    Killed,
    Disconnected,
    Panicked(String),
    Link(u64, Option<u8>, Box<R>),
}

fn reason() -> impl Strategy<Value = R> {
    let leaf = prop_oneof![Just(R::Normal), Just(R::Killed), Just(R::Disconnected), ".{0,8}".prop_map(R::Panicked)];
    leaf.prop_recursive(4, 8, 1, |i| (any::<u64>(), prop::option::of(any::<u8>()), i).prop_map(|(n, p, r)| R::Link(n, p, Box::new(r))))
}

fn id(n: u64, p: Option<u8>) -> ActorID {
    match p {
        None => ActorID::new(n),
        Some(p) => {
            let mut b = vec![0x12, 32];
            b.extend([p; 32]);
            ActorID::new_with_peer_id(n, PeerId::from_bytes(&b).unwrap())
        }
    }
}

fn to_reason(r: &R) -> ActorStopReason {
    match r {
        R::Normal => ActorStopReason::Normal,
        R::Killed => ActorStopReason::Killed,
        R::Disconnected => ActorStopReason::PeerDisconnected,
        R::Panicked(s) => ActorStopReason::Panicked(PanicError::new(Box::new(s.clone()))),
        R::Link(n, p, r) => ActorStopReason::LinkDied { id: id(*n, *p), reason: Box::new(to_reason(r)) },
    }
}

fn same(r: &R, s: &ActorStopReason) -> bool {
    match (r, s) {
        (R::Normal, ActorStopReason::Normal) | (R::Killed, ActorStopReason::Killed) | (R::Disconnected, ActorStopReason::PeerDisconnected) => true,
        (R::Panicked(t), ActorStopReason::Panicked(e)) => e.with_str(|s| s.contains(t.as_str())).unwrap_or(false),
        (R::Link(n, p, r), ActorStopReason::LinkDied { id: i, reason }) => *i == id(*n, *p) && i.peer_id() == id(*n, *p).peer_id() && same(r, reason),
        _ => false,
    }
}

fn reasons(r: &R) -> CaseResult {
    let s = to_reason(r);
    ensure!(same(r, &s.clone()), "clone-reason", "{s:?}");
    for (how, d) in trips(&s)? {
        ensure!(same(r, &d), "reason-roundtrip", "{how}: {r:?} -> {d:?}");
        for (how, d) in trips(&d)? {
            ensure!(same(r, &d), "reason-second-hop", "{how}: {r:?} -> {d:?}");
        }
    }
    Ok(Info::new(matches!(r, R::Link(..) | R::Panicked(_))))
}

pub fn run(s: &mut Session) {
    let e = || (prop_oneof![2 => 0u8..19, 1 => Just(19u8)], ".{0,4}", ".{0,4}", payload()).prop_map(|(variant, x, y, err)| E { variant, x, y, err });
    s.prop("remote_error_laws", "the error carries a handler error", 20_000, 400_000, || boxed((e(), e()).prop_map(|(outer, inner)| Case { outer, inner })), laws);
    s.prop("remote_error_from_local", "the error carries a handler error", 2_000, 20_000,
        || boxed((0u8..10, payload()).prop_map(|(variant, err)| Local { variant, err })), convert);
    s.prop("remote_stop_reasons", "a nested or panicked reason", 10_000, 200_000, || boxed(reason()), reasons);
}

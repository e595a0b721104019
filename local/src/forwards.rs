//! A part of C10: what a handler gives back by forwarding, delegating or returning, as an error to a tell or to an ask.
use std::{
    ops::ControlFlow,
    sync::{Arc, Mutex},
};

use kameo::{
    actor::{ActorRef, WeakActorRef},
    error::{ActorStopReason, PanicError, SendError},
    mailbox,
    message::{Context, Message},
    reply::{DelegatedReply, ForwardedReply},
    Actor,
};
use pbt::{boxed, ensure, sim, CaseResult, Fail, Info, Session};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tokio::sync::Semaphore;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum State {
    Running,
    Full,
    Stopped,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Way {
    /// straight to the last actor
    Direct,
    /// forwarded by one actor, or by two
    Once(bool),
    Twice(bool, bool),
    /// delegated: the reply is sent by a task
    Delegated,
    /// a delegated reply whose handler fails before delegating
    Boxed,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum By {
    Tell,
    TellTry,
    Recipient,
    Ask,
    Enqueue,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct One {
    by: By,
    way: Way,
    state: State,
    fails: bool,
}

#[derive(Clone, Debug, PartialEq)]
struct Go {
    id: u32,
    state: State,
    fails: bool,
    way: Way,
}

#[derive(Clone, Debug, PartialEq, Eq)]
struct E(u32);

type Log = Arc<Mutex<Vec<(&'static str, String)>>>;

fn describe(e: &PanicError) -> String {
    let mut d = e.with_downcast_ref(|E(i)| format!("error {i}"));
    d = d.or_else(|| e.with_downcast_ref(|b: &Box<E>| format!("boxed {}", b.0)));
    d = d.or_else(|| e.with_downcast_ref(|e: &SendError<Go, E>| send("", e)));
    d = d.or_else(|| e.with_downcast_ref(|e: &SendError<Go, SendError<Go, E>>| send("outer ", e)));
    d.unwrap_or_else(|| format!("something else: {e:?}"))
}

fn send<X>(at: &str, e: &SendError<Go, X>) -> String {
    match e {
        SendError::ActorNotRunning(m) => format!("{at}not running {}", m.id),
        SendError::MailboxFull(m) => format!("{at}full {}", m.id),
        _ => format!("{at}other"),
    }
}

macro_rules! actor {
    ($t:ident, $name:expr) => {
        impl Actor for $t {
            type Error = E;
            async fn on_panic(&mut self, _: WeakActorRef<Self>, err: PanicError) -> Result<ControlFlow<ActorStopReason>, E> {
                self.log.lock().unwrap().push(($name, describe(&err)));
                Ok(ControlFlow::Continue(()))
            }
        }
    };
}

struct Last {
    log: Log,
    gate: Arc<Semaphore>,
}
struct Inner {
    log: Log,
    last: [ActorRef<Last>; 3],
}
struct Outer {
    log: Log,
    inner: ActorRef<Inner>,
}
struct Hold;
struct Boxed(Go);
struct Later(Go);
actor!(Last, "last");
actor!(Inner, "inner");
actor!(Outer, "outer");

impl Message<Hold> for Last {
    type Reply = ();
    async fn handle(&mut self, _: Hold, _: &mut Context<Self, ()>) {
        if let Ok(p) = self.gate.acquire().await {
            p.forget();
        }
    }
}
impl Message<Go> for Last {
    type Reply = Result<u32, E>;
    async fn handle(&mut self, go: Go, _: &mut Context<Self, Self::Reply>) -> Self::Reply {
        self.log.lock().unwrap().push(("handled", go.id.to_string()));
        if go.fails {
            Err(E(go.id))
        } else {
            Ok(go.id + 1)
        }
    }
}
impl Message<Boxed> for Last {
    type Reply = Result<u32, Box<E>>;
    async fn handle(&mut self, Boxed(go): Boxed, _: &mut Context<Self, Self::Reply>) -> Self::Reply {
        self.log.lock().unwrap().push(("handled", go.id.to_string()));
        if go.fails {
            Err(Box::new(E(go.id)))
        } else {
            Ok(go.id + 1)
        }
    }
}
impl Message<Later> for Last {
    type Reply = DelegatedReply<Result<u32, E>>;
    async fn handle(&mut self, Later(go): Later, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        self.log.lock().unwrap().push(("handled", go.id.to_string()));
        let (reply, tx) = ctx.reply_sender();
        if let Some(tx) = tx {
            tokio::spawn(async move { tx.send(if go.fails { Err(E(go.id)) } else { Ok(go.id + 1) }) });
        }
        reply
    }
}
impl Message<Go> for Inner {
    type Reply = ForwardedReply<Go, Result<u32, E>>;
    async fn handle(&mut self, go: Go, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        let to = &self.last[go.state as usize];
        let (Way::Once(wait) | Way::Twice(_, wait)) = go.way else { unreachable!() };
        // (a full mailbox is not waited for)
        if wait && go.state != State::Full {
            ctx.forward(to, go).await
        } else {
            ctx.try_forward(to, go)
        }
    }
}
impl Message<Go> for Outer {
    type Reply = ForwardedReply<Go, ForwardedReply<Go, Result<u32, E>>>;
    async fn handle(&mut self, go: Go, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        let Way::Twice(wait, _) = go.way else { unreachable!() };
        if wait {
            ctx.forward(&self.inner, go).await
        } else {
            ctx.try_forward(&self.inner, go)
        }
    }
}

/// What the requester gets, if it waits for an answer or for a place in the mailbox.
fn got<M, X: std::fmt::Debug>(r: Result<u32, SendError<M, X>>, f: impl Fn(X) -> String) -> String {
    match r {
        Ok(v) => format!("ok {v}"),
        Err(SendError::HandlerError(x)) => f(x),
        Err(SendError::ActorNotRunning(_)) => "refused not running".into(),
        Err(SendError::MailboxFull(_)) => "refused full".into(),
        Err(e) => format!("other {:?}", e.map_msg(|_| ())),
    }
}

macro_rules! request {
    ($a:expr, $m:expr, $by:expr, $f:expr) => {
        match $by {
            By::Tell => got($a.tell($m).send().await.map(|_| 0).map_err(|e| e.map_err(|_| E(0))), |_| String::new()),
            By::TellTry => got($a.tell($m).try_send().map(|_| 0).map_err(|e| e.map_err(|_| E(0))), |_| String::new()),
            By::Recipient => got($a.clone().recipient().tell($m).try_send().map(|_| 0).map_err(|e| e.map_err(|_| E(0))), |_| String::new()),
            By::Ask => got($a.ask($m).try_send().await, $f),
            By::Enqueue => match $a.ask($m).try_enqueue() {
                Ok(p) => got(p.await, $f),
                Err(e) => got(Err(e.map_err(|_| E(0))), |_: E| String::new()),
            },
        }
    };
}

async fn body(c: &[One]) -> Result<[usize; 3], Fail> {
    let log: Log = Default::default();
    let gate = Arc::new(Semaphore::new(0));
    let last = || Last { log: log.clone(), gate: gate.clone() };
    let lasts = [
        kameo::actor::spawn_with_mailbox(last(), mailbox::bounded(4)),
        kameo::actor::spawn_with_mailbox(last(), mailbox::bounded(1)),
        kameo::actor::spawn_with_mailbox(last(), mailbox::bounded(1)),
    ];
    // one handled, one in the mailbox
    for _ in 0..2 {
        let _ = lasts[State::Full as usize].tell(Hold).send().await;
    }
    let _ = lasts[State::Stopped as usize].stop_gracefully().await;
    lasts[State::Stopped as usize].wait_for_stop().await;
    let inner = kameo::spawn(Inner { log: log.clone(), last: lasts.clone() });
    let outer = kameo::spawn(Outer { log: log.clone(), inner: inner.clone() });
    let mut n = [0; 3];
    for (i, o) in c.iter().enumerate() {
        let id = i as u32 * 10;
        let go = Go { id, state: o.state, fails: o.fails, way: o.way };
        let to = &lasts[o.state as usize];
        let told = matches!(o.by, By::Tell | By::TellTry | By::Recipient);
        // waiting for a place in a full mailbox would take for ever
        let by = if o.by == By::Tell && o.state == State::Full { By::TellTry } else { o.by };
        let inner_err = |e: SendError<Go, E>| match e {
            SendError::HandlerError(E(i)) => format!("error {i}"),
            e => send("", &e),
        };
        let outer_err = |e: SendError<Go, SendError<Go, E>>| match e {
            SendError::HandlerError(e) => inner_err(e),
            e => send("outer ", &e),
        };
        let answer = match o.way {
            Way::Direct => request!(to, go, by, |E(i): E| format!("error {i}")),
            Way::Boxed => request!(to, Boxed(go), by, |e: Box<E>| format!("boxed {}", e.0)),
            Way::Delegated => request!(to, Later(go), by, |E(i): E| format!("error {i}")),
            Way::Once(_) => request!(inner, go, by, inner_err),
            Way::Twice(..) => request!(outer, go, by, outer_err),
        };
        sim::sleep_ms(10).await;
        let direct = matches!(o.way, Way::Direct | Way::Boxed | Way::Delegated);
        let refused = match o.state {
            State::Running => None,
            State::Full => Some("full"),
            State::Stopped => Some("not running"),
        };
        let error = if o.way == Way::Boxed { format!("boxed {id}") } else { format!("error {id}") };
        // who is asked to handle which error, and what the requester is told
        let (hook, want) = match (refused, o.fails) {
            (Some(why), _) if direct => (None, format!("refused {why}")),
            (Some(why), _) => {
                n[1] += 1;
                let e = format!("{why} {id}");
                (told.then(|| ("inner", e.clone())), if told { "ok 0".into() } else { e })
            }
            // (nobody gets to know about the error of a reply which nobody asked for)
            (None, true) if o.way == Way::Delegated && told => (None, "ok 0".into()),
            (None, true) => {
                n[0] += 1;
                (told.then(|| ("last", error.clone())), if told { "ok 0".into() } else { error })
            }
            (None, false) => (None, if told { "ok 0".into() } else { format!("ok {}", id + 1) }),
        };
        ensure!(answer == want, "answer", "request {i} {o:?} gives {answer:?}, not {want:?}");
        let l: Vec<_> = std::mem::take(&mut *log.lock().unwrap());
        let handled = l.iter().filter(|(w, x)| *w == "handled" && *x == id.to_string()).count();
        ensure!(handled == usize::from(refused.is_none()), "handled", "request {i} {o:?} is handled {handled} times");
        let hooks: Vec<_> = l.into_iter().filter(|(w, _)| *w != "handled").collect();
        ensure!(
            hooks == hook.clone().into_iter().collect::<Vec<_>>(),
            "hooks",
            "request {i} {o:?}: panic hooks {hooks:?} instead of {hook:?}"
        );
        n[2] += usize::from(hook.is_some());
        ensure!(
            inner.is_alive() && outer.is_alive() && lasts[0].is_alive() && lasts[1].is_alive(),
            "died",
            "an actor whose panic hook goes on has stopped at request {i} {o:?}"
        );
    }
    gate.close();
    Ok(n)
}

fn check(c: &Vec<One>) -> CaseResult {
    match sim::run(body(c)) {
        Some(Ok(n)) => Ok(Info::new(n[2] > 0).label(n[0] > 0, "handler error").label(n[1] > 0, "failed forward")),
        Some(Err(f)) => Err(f),
        None => Err(Fail { sig: "hang".into(), msg: "a request never completes".into() }),
    }
}

pub fn run(s: &mut Session) {
    s.prop("errors_by_reply", "an error is left to a panic hook", 20_000, 400_000,
        || {
            let way = prop_oneof![
                2 => Just(Way::Direct),
                3 => any::<bool>().prop_map(Way::Once),
                3 => any::<(bool, bool)>().prop_map(|(a, b)| Way::Twice(a, b)),
                1 => Just(Way::Delegated),
                1 => Just(Way::Boxed),
            ];
            let by = prop::sample::select(vec![By::Tell, By::TellTry, By::Recipient, By::Ask, By::Enqueue]);
            let state = prop_oneof![2 => Just(State::Running), 1 => Just(State::Full), 1 => Just(State::Stopped)];
            let one = (by, way, state, any::<bool>()).prop_map(|(by, way, state, fails)| One { by, way, state, fails });
            boxed(prop::collection::vec(one, 1..12))
        },
        check);
}

//! Part of C24: every type which can be a reply arrives unchanged, in every way of replying.
use std::{
    borrow::Cow,
    cell,
    collections::*,
    num::*,
    path::{Path, PathBuf},
    sync::{atomic::*, Arc, Mutex, Once, RwLock},
};

use kameo::{
    actor::ActorRef,
    error::{Infallible, SendError},
    message::{Context, Message},
    reply::{DelegatedReply, ForwardedReply, Reply},
    Actor,
};
use pbt::{boxed, ensure, CaseResult, Info, Session};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ty: u16,
    seed: u64,
    ways: Vec<u8>,
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let x = self.0 ^ (self.0 >> 29);
        x.wrapping_mul(0x94d049bb133111eb) ^ (x >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    fn text(&mut self) -> String {
        (0..self.below(6)).map(|_| ['a', '\0', 'ß', '中', '🦀'][self.below(5) as usize]).collect()
    }
    fn list(&mut self) -> Vec<u32> {
        (0..self.below(6)).map(|_| self.next() as u32).collect()
    }
}

#[derive(Actor)]
struct Echo {
    other: Option<ActorRef<Echo>>,
}

/// Replies with it
struct Plain<T>(T);
/// Delegates the reply, sent by the handler
struct Delegated<T>(T);
/// Delegates the reply, sent by a task later
struct Later<T>(T);
/// Forwards it to the other actor
struct Forwarded<T>(T);
/// Delegates to a reply sender and forwards
struct Hop<T>(T);

impl<T: Reply> Message<Plain<T>> for Echo {
    type Reply = T;
    async fn handle(&mut self, m: Plain<T>, _: &mut Context<Self, T>) -> T {
        m.0
    }
}
impl<T: Reply<Value = T>> Message<Delegated<T>> for Echo {
    type Reply = DelegatedReply<T>;
    async fn handle(&mut self, m: Delegated<T>, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        let (d, tx) = ctx.reply_sender();
        if let Some(tx) = tx {
            tx.send(m.0);
        }
        d
    }
}
impl<T: Reply<Value = T>> Message<Later<T>> for Echo {
    type Reply = DelegatedReply<T>;
    async fn handle(&mut self, m: Later<T>, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        let (d, tx) = ctx.reply_sender();
        tokio::spawn(async move {
            tokio::task::yield_now().await;
            if let Some(tx) = tx {
                tx.send(m.0);
            }
        });
        d
    }
}
impl<T: Reply> Message<Forwarded<T>> for Echo {
    type Reply = ForwardedReply<Plain<T>, T>;
    async fn handle(&mut self, m: Forwarded<T>, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        let o = self.other.clone().unwrap();
        ctx.forward(&o, Plain(m.0)).await
    }
}
impl<T: Reply<Value = T>> Message<Hop<T>> for Echo {
    type Reply = ForwardedReply<Later<T>, DelegatedReply<T>>;
    async fn handle(&mut self, m: Hop<T>, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        let o = self.other.clone().unwrap();
        ctx.forward(&o, Later(m.0)).await
    }
}

fn name<M, E: std::fmt::Debug>(e: SendError<M, E>) -> String {
    match e {
        SendError::HandlerError(e) => format!("handler error {e:?}"),
        SendError::ActorNotRunning(_) => "not running".into(),
        SendError::ActorStopped => "stopped".into(),
        SendError::MailboxFull(_) => "full".into(),
        SendError::Timeout(_) => "timeout".into(),
    }
}

/// An infallible reply: made from a seed, and described.
fn infallible<T>(c: &Case, make: impl Fn(&mut Rng) -> T, show: impl Fn(T) -> String) -> CaseResult
where
    T: Reply<Ok = T, Error = Infallible, Value = T>,
{
    let make = || make(&mut Rng(c.seed));
    let want = show(make());
    let got = match make().to_result() {
        Ok(v) => show(v),
        Err(e) => match e {},
    };
    ensure!(got == want, "to-result", "{want} becomes the result {got}");
    ensure!(make().into_any_err().is_none(), "invented-error", "{want} is an error");
    let got = show(make().into_value());
    ensure!(got == want, "into-value", "{want} becomes the value {got}");
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
    rt.block_on(async {
        let other = kameo::spawn(Echo { other: None });
        let a = kameo::spawn(Echo { other: Some(other) });
        for way in &c.ways {
            let r = match way % 8 {
                0 => a.ask(Plain(make())).await.map_err(name),
                1 => a.ask(Delegated(make())).await.map_err(name),
                2 => a.ask(Later(make())).await.map_err(name),
                3 => a.ask(Forwarded(make())).await.map_err(name),
                4 => a.ask(Hop(make())).await.map_err(name),
                5 => match a.clone().recipient::<Plain<T>>().tell(Plain(make())).await {
                    Ok(()) => Ok(make()),
                    Err(e) => Err(name(e)),
                },
                6 => match a.ask(Plain(make())).enqueue().await {
                    Ok(p) => p.await.map_err(name),
                    Err(e) => Err(name(e)),
                },
                // nobody's interested
                _ => match a.tell(Plain(make())).await {
                    Ok(()) => Ok(make()),
                    Err(e) => Err(name(e)),
                },
            };
            let got = match r {
                Ok(v) => show(v),
                Err(e) => e,
            };
            ensure!(got == want, "reply", "{want} arrives as {got} (way {})", way % 8);
        }
        Ok(())
    })?;
    Ok(Info::new(c.ways.len() > 1))
}

/// A `Result` of it
fn fallible(c: &Case) -> CaseResult {
    let make = || {
        let mut r = Rng(c.seed);
        if r.below(2) == 0 {
            Ok(r.text())
        } else {
            Err(r.list())
        }
    };
    let want: Result<String, Vec<u32>> = make();
    ensure!(Reply::to_result(make()) == want, "to-result", "{want:?}");
    ensure!(Reply::into_value(make()) == want, "into-value", "{want:?}");
    let e = Reply::into_any_err(make());
    let e = e.map(|e| e.downcast::<Vec<u32>>().map(|e| *e).ok());
    ensure!(e == want.clone().err().map(Some), "into-any-err", "{want:?} became {e:?}");
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
    rt.block_on(async {
        let other = kameo::spawn(Echo { other: None });
        let a = kameo::spawn(Echo { other: Some(other) });
        let txt = |r: &Result<String, Vec<u32>>| match r {
            Ok(s) => format!("ok {s}"),
            Err(e) => format!("handler error {e:?}"),
        };
        for way in &c.ways {
            let r = match way % 6 {
                0 => a.ask(Plain(make())).await.map_err(name),
                1 => a.ask(Delegated(make())).await.map_err(name),
                2 => a.ask(Later(make())).await.map_err(name),
                3 => a.ask(Forwarded(make())).await.map_err(|e| match e {
                    SendError::HandlerError(e) => name(e),
                    e => format!("outer {}", name(e)),
                }),
                4 => a.ask(Hop(make())).await.map_err(|e| match e {
                    SendError::HandlerError(e) => name(e),
                    e => format!("outer {}", name(e)),
                }),
                _ => match a.ask(Plain(make())).enqueue().await {
                    Ok(p) => p.await.map_err(name),
                    Err(e) => Err(name(e)),
                },
            };
            let got = match r {
                Ok(s) => format!("ok {s}"),
                Err(e) => e,
            };
            ensure!(got == txt(&want), "reply", "{:?} arrives as {got} (way {})", txt(&want), way % 6);
        }
        Ok(())
    })?;
    Ok(Info::new(c.ways.len() > 1))
}

fn dbg<T: std::fmt::Debug>(v: T) -> String {
    format!("{v:?}")
}

macro_rules! num_cases {
    ($c:expr, $k:expr; $($t:ty),*) => { num_cases!(@ $c, $k, 0u16; $($t,)*) };
    (@ $c:expr, $k:expr, $n:expr; $t:ty, $($rest:ty,)*) => {
        if $k == $n {
            return infallible::<$t>($c, |r| match r.below(4) { 0 => <$t>::MAX, 1 => <$t>::MIN, _ => r.next() as $t }, dbg);
        }
        num_cases!(@ $c, $k, $n + 1; $($rest,)*);
    };
    (@ $c:expr, $k:expr, $n:expr;) => {};
}
macro_rules! nonzero_cases {
    ($c:expr, $k:expr, $n:expr; $($t:ident : $i:ty),*) => { nonzero_cases!(@ $c, $k, $n; $($t : $i,)*) };
    (@ $c:expr, $k:expr, $n:expr; $t:ident : $i:ty, $($rest:tt)*) => {
        if $k == $n {
            return infallible::<$t>($c, |r| $t::new((r.next() as $i).max(1)).unwrap(), dbg);
        }
        nonzero_cases!(@ $c, $k, $n + 1; $($rest)*);
    };
    (@ $c:expr, $k:expr, $n:expr;) => {};
}
macro_rules! atomic_cases {
    ($c:expr, $k:expr, $n:expr; $($t:ident : $i:ty),*) => { atomic_cases!(@ $c, $k, $n; $($t : $i,)*) };
    (@ $c:expr, $k:expr, $n:expr; $t:ident : $i:ty, $($rest:tt)*) => {
        if $k == $n {
            return infallible::<$t>($c, |r| $t::new(r.next() as $i), |a| dbg(a.into_inner()));
        }
        atomic_cases!(@ $c, $k, $n + 1; $($rest)*);
    };
    (@ $c:expr, $k:expr, $n:expr;) => {};
}
macro_rules! tuple_cases {
    ($c:expr, $k:expr, $n:expr; [$($done:ident)*] $v:ident $($rest:ident)*) => {
        if $k == $n {
            return infallible(
                $c,
                |r| { $(let $done = r.next();)* let $v = r.next(); ($($done,)* $v,) },
                |t| { let ($($done,)* $v,) = t; dbg(vec![$($done,)* $v]) },
            );
        }
        tuple_cases!($c, $k, $n + 1; [$($done)* $v] $($rest)*);
    };
    ($c:expr, $k:expr, $n:expr; [$($done:ident)*]) => {};
}

const TYPES: u16 = 125;

fn leak<T>(v: T) -> &'static T {
    Box::leak(Box::new(v))
}

fn case(c: &Case) -> CaseResult {
    let k = c.ty % TYPES;
    num_cases!(c, k; usize, u8, u16, u32, u64, u128, isize, i8, i16, i32, i64, i128);
    nonzero_cases!(c, k, 12; NonZeroI8: i8, NonZeroI16: i16, NonZeroI32: i32, NonZeroI64: i64, NonZeroI128: i128, NonZeroIsize: isize,
        NonZeroU8: u8, NonZeroU16: u16, NonZeroU32: u32, NonZeroU64: u64, NonZeroU128: u128, NonZeroUsize: usize);
    atomic_cases!(c, k, 24; AtomicI8: i8, AtomicU8: u8, AtomicI16: i16, AtomicU16: u16, AtomicI32: i32, AtomicU32: u32, AtomicI64: i64, AtomicU64: u64, AtomicIsize: isize, AtomicUsize: usize);
    tuple_cases!(c, k, 40; [] a b c2 d e f g h i j k2 l m n o p q r2 s t u v w x y z);
    match k {
        70 => infallible(c, |r| f32::from_bits(r.next() as u32), |f| dbg(f.to_bits())),
        71 => infallible(c, |r| f64::from_bits(r.next()), |f| dbg(f.to_bits())),
        72 => infallible(c, |r| char::from_u32(r.next() as u32 % 0x110000).unwrap_or('x'), dbg),
        73 => infallible(c, |r| r.below(2) == 0, dbg),
        74 => infallible(c, |r| leak(r.text()).as_str(), dbg),
        75 => infallible(c, |r| r.text(), dbg),
        76 => infallible(c, |r| Path::new(leak(r.text()).as_str()), dbg),
        77 => infallible(c, |r| PathBuf::from(r.text()), dbg),
        78 => infallible(c, |r| (r.below(2) == 0).then(|| r.text()), dbg),
        79 => infallible(c, |r| Cow::<'static, str>::Owned(r.text()).into_owned(), dbg),
        80 => infallible(c, |r| Arc::new(r.list()), dbg),
        81 => infallible(c, |r| Mutex::new(r.list()), |m| dbg(m.into_inner().unwrap())),
        82 => infallible(c, |r| RwLock::new(r.list()), |m| dbg(m.into_inner().unwrap())),
        83 => infallible(c, |r| leak([r.next(), r.next()]), dbg),
        84 => infallible(c, |r| [r.text(), r.text(), r.text()], dbg),
        85 => infallible(c, |r| leak(r.list()).as_slice(), dbg),
        86 => infallible(c, |r| Box::leak(Box::new(r.list())), dbg),
        87 => infallible(c, |r| Box::new(r.text()), dbg),
        88 => infallible(c, |r| r.list(), dbg),
        89 => infallible(c, |r| r.list().into_iter().collect::<VecDeque<_>>(), dbg),
        90 => infallible(c, |r| r.list().into_iter().collect::<LinkedList<_>>(), dbg),
        91 => infallible(c, |r| r.list().into_iter().map(|n| (n, n / 2)).collect::<HashMap<_, _>>(), |m| dbg(m.into_iter().collect::<BTreeMap<_, _>>())),
        92 => infallible(c, |r| r.list().into_iter().map(|n| (n, n / 2)).collect::<BTreeMap<_, _>>(), dbg),
        93 => infallible(c, |r| r.list().into_iter().collect::<HashSet<_>>(), |m| dbg(m.into_iter().collect::<BTreeSet<_>>())),
        94 => infallible(c, |r| r.list().into_iter().collect::<BTreeSet<_>>(), dbg),
        95 => infallible(c, |r| r.list().into_iter().collect::<BinaryHeap<_>>(), |h| dbg(h.into_sorted_vec())),
        96 => infallible(c, |r| AtomicBool::new(r.below(2) == 0), |b| dbg(b.into_inner())),
        97 => infallible(c, |r| AtomicPtr::new(r.below(1000) as *mut u8), |p| dbg(p.into_inner() as usize)),
        98 => infallible(
            c,
            |r| {
                let o = Once::new();
                if r.below(2) == 0 {
                    o.call_once(|| {});
                }
                o
            },
            |o| dbg(o.is_completed()),
        ),
        99 => infallible(c, |_| std::thread::current(), |t| dbg(t.id())),
        100 => infallible(
            c,
            |r| {
                let o = cell::OnceCell::new();
                if r.below(2) == 0 {
                    let _ = o.set(r.text());
                }
                o
            },
            dbg,
        ),
        101 => infallible(
            c,
            |r| {
                let (tx, rx) = std::sync::mpsc::channel();
                r.list().into_iter().for_each(|n| tx.send(n).unwrap());
                rx
            },
            |rx| dbg(rx.try_iter().collect::<Vec<_>>()),
        ),
        102 => infallible(c, |_| std::sync::mpsc::channel::<u8>().0, |tx| dbg(tx.send(1).is_err())),
        103 => infallible(c, |r| tokio::sync::OnceCell::new_with(Some(r.text())), dbg),
        104 => infallible(c, |r| tokio::sync::Semaphore::new(r.below(100) as usize), |s| dbg(s.available_permits())),
        105 => infallible(
            c,
            |r| {
                let (tx, rx) = tokio::sync::mpsc::channel(8);
                r.list().into_iter().for_each(|n| tx.try_send(n).unwrap());
                rx
            },
            |mut rx| dbg(std::iter::from_fn(|| rx.try_recv().ok()).collect::<Vec<_>>()),
        ),
        106 => infallible(c, |r| tokio::sync::mpsc::channel::<u8>(r.below(9) as usize + 1).0, |tx| dbg(tx.max_capacity())),
        107 => infallible(
            c,
            |r| {
                let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
                r.list().into_iter().for_each(|n| tx.send(n).unwrap());
                rx
            },
            |mut rx| dbg(std::iter::from_fn(|| rx.try_recv().ok()).collect::<Vec<_>>()),
        ),
        108 => infallible(c, |_| tokio::sync::mpsc::unbounded_channel::<u8>().0, |tx| dbg(tx.send(1).is_err())),
        109 => infallible(c, |r| tokio::sync::watch::channel(r.next()).0, |w| dbg(*w.borrow())),
        110 => infallible(c, |r| tokio::sync::watch::channel(r.next()).1, |w| dbg(*w.borrow())),
        111 => infallible(c, |_| tokio::sync::broadcast::channel::<u8>(4).0, |b| dbg(b.receiver_count())),
        112 => infallible(
            c,
            |r| {
                let (tx, rx) = tokio::sync::broadcast::channel(8);
                r.list().into_iter().for_each(|n| {
                    tx.send(n).unwrap();
                });
                rx
            },
            |mut rx| dbg(std::iter::from_fn(|| rx.try_recv().ok()).collect::<Vec<_>>()),
        ),
        113 => infallible(c, |_| tokio::sync::oneshot::channel::<u8>().0, |tx| dbg(tx.is_closed())),
        114 => infallible(
            c,
            |r| {
                let (tx, rx) = tokio::sync::oneshot::channel();
                tx.send(r.next()).unwrap();
                rx
            },
            |mut rx| dbg(rx.try_recv()),
        ),
        115 => infallible(c, |r| tokio::sync::Mutex::new(r.list()), |m| dbg(m.into_inner())),
        116 => infallible(c, |r| tokio::sync::RwLock::new(r.list()), |m| dbg(m.into_inner())),
        117 => infallible(c, |_| (), dbg),
        118 => infallible(c, |_| tokio::sync::Notify::new(), |_| String::new()),
        119 => infallible(c, |r| r.list().into_iter().map(std::future::ready).collect::<futures::stream::FuturesOrdered<_>>(), |f| {
            dbg(futures::executor::block_on(futures::StreamExt::collect::<Vec<_>>(f)))
        }),
        120 => infallible(c, |r| (r.below(2) == 0).then(|| vec![Some(Box::new((r.text(), r.list())))]), dbg),
        121 => infallible(c, |r| [r.list(), vec![], r.list()].map(|l| (l.len(), l)), dbg),
        122 => infallible(c, |r| Cow::<'static, Pod>::Owned(Pod(r.next())), |p| dbg(p.into_owned().0)),
        _ => fallible(c),
    }
}

#[derive(Clone)]
struct Pod(u64);

pub fn run(s: &mut Session) {
    let strat = || (0..TYPES, any::<u64>(), prop::collection::vec(0u8..8, 1..6)).prop_map(|(ty, seed, ways)| Case { ty, seed, ways });
    s.prop("reply_types", "the value is sent more than once", 30_000, 500_000, || boxed(strat()), case);
}

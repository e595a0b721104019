//! C16: the local registry against a map.
use std::{
    collections::{BTreeMap, BTreeSet},
    sync::atomic::{AtomicU64, Ordering},
};

use kameo::{
    actor::{ActorRef, PreparedActor},
    error::RegistryError,
    mailbox,
    registry::{ActorRegistry, ACTOR_REGISTRY},
    Actor,
};
use pbt::{boxed, ensure, CaseResult, Info, Session};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Actor)]
struct X;
#[derive(Actor)]
struct Y;
#[derive(Actor)]
struct Z;

fn mk<A: Actor>() -> ActorRef<A> {
    PreparedActor::<A>::new(mailbox::unbounded()).actor_ref().clone()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Insert(u8, u8),
    Get(u8, u8),
    Contains(u8),
    Remove(u8),
    Clear,
    Reregister(u8, u8),
}

fn op() -> impl Strategy<Value = Op> {
    prop_oneof![
        6 => (0u8..6, 0u8..3).prop_map(|(n, t)| Op::Insert(n, t)),
        6 => (0u8..6, 0u8..3).prop_map(|(n, t)| Op::Get(n, t)),
        2 => (0u8..6).prop_map(Op::Contains),
        3 => (0u8..6).prop_map(Op::Remove),
        1 => Just(Op::Clear),
        2 => (0u8..6, 0u8..6).prop_map(|(n, m)| Op::Reregister(n, m)),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    names: Vec<String>,
    ops: Vec<Op>,
    owned: bool,
}

fn names() -> impl Strategy<Value = Vec<String>> {
    let name = prop_oneof![
        3 => prop::sample::select(vec!["", "a", "A", "a ", "aa", "a/b", "ä", "\u{0}"]).prop_map(String::from),
        1 => any::<String>(),
        1 => "[ab]{0,3}".prop_map(String::from),
    ];
    prop::collection::vec(name, 6)
}

/// Names may collide on purpose: the model is keyed by the name itself.
fn model_case(c: &Case, global: bool) -> CaseResult {
    static UNIQ: AtomicU64 = AtomicU64::new(0);
    let prefix = if global {
        format!("{}:", UNIQ.fetch_add(1, Ordering::Relaxed))
    } else {
        String::new()
    };
    let name = |i: u8| format!("{prefix}{}", c.names[i as usize % c.names.len()]);
    let mut reg = if c.owned { ActorRegistry::new() } else { ActorRegistry::with_capacity(2) };
    let mut model: BTreeMap<String, (u8, kameo::actor::ActorID)> = BTreeMap::new();
    let (mut bad, mut hits, mut replaced) = (0, 0, 0);
    macro_rules! with_reg {
        (|$r:ident| $e:expr) => {
            if global {
                let mut guard = ACTOR_REGISTRY.lock().unwrap();
                let $r = &mut *guard;
                $e
            } else {
                let $r = &mut reg;
                $e
            }
        };
    }
    for (step, o) in c.ops.iter().enumerate() {
        match o {
            Op::Insert(n, t) => {
                let n = name(*n);
                macro_rules! ins {
                    ($A:ty) => {{
                        let a = mk::<$A>();
                        let id = a.id();
                        let was = if global {
                            let was = model.contains_key(&n);
                            ensure!(a.register(n.clone()).is_ok(), "register-failed", "step {step}: registering {n:?} failed");
                            was
                        } else {
                            reg.insert(n.clone(), a)
                        };
                        ensure!(was == model.contains_key(&n), "insert-result",
                            "step {step}: insert({n:?}) says replaced={was}, model says {}", model.contains_key(&n));
                        if was { replaced += 1; }
                        model.insert(n, (*t, id));
                    }};
                }
                match t {
                    0 => ins!(X),
                    1 => ins!(Y),
                    _ => ins!(Z),
                }
            }
            Op::Get(n, t) => {
                let n = name(*n);
                macro_rules! get {
                    ($A:ty) => {{
                        let got = if global {
                            ActorRef::<$A>::lookup(n.as_str())
                        } else {
                            reg.get::<$A, str>(n.as_str())
                        };
                        let got = match got {
                            Ok(Some(a)) => Ok(Some(a.id())),
                            Ok(None) => Ok(None),
                            Err(RegistryError::BadActorType) => Err(()),
                        };
                        let want = match model.get(&n) {
                            None => Ok(None),
                            Some((mt, id)) if mt == t => Ok(Some(*id)),
                            Some(_) => Err(()),
                        };
                        match want { Err(()) => bad += 1, Ok(Some(_)) => hits += 1, _ => {} }
                        ensure!(got == want, "lookup", "step {step}: lookup({n:?} as type {t}) gave {got:?}, expected {want:?}");
                    }};
                }
                match t {
                    0 => get!(X),
                    1 => get!(Y),
                    _ => get!(Z),
                }
            }
            Op::Contains(n) => {
                let n = name(*n);
                let got = with_reg!(|r| r.contains_name(n.as_str()));
                ensure!(got == model.contains_key(&n), "contains", "step {step}: contains({n:?}) = {got}");
            }
            Op::Remove(n) => {
                let n = name(*n);
                let got = with_reg!(|r| r.remove(n.as_str()));
                let want = model.remove(&n).is_some();
                ensure!(got == want, "remove", "step {step}: remove({n:?}) = {got}, expected {want}");
            }
            Op::Clear => {
                if !global {
                    reg.clear();
                    model.clear();
                }
            }
            // the same actor under a second name
            Op::Reregister(n, m) => {
                let (n, m) = (name(*n), name(*m));
                if let Some((0, id)) = model.get(&n).copied() {
                    let a = with_reg!(|r| r.get::<X, str>(n.as_str()));
                    let Ok(Some(a)) = a else {
                        return pbt::fail("lookup", format!("step {step}: {n:?} lost"));
                    };
                    with_reg!(|r| r.insert(m.clone(), a));
                    model.insert(m, (0, id));
                }
            }
        }
        let got: BTreeSet<String> = with_reg!(|r| r
            .names()
            .filter(|n| n.starts_with(&prefix))
            .map(|n| n.to_string())
            .collect());
        let want: BTreeSet<String> = model.keys().cloned().collect();
        ensure!(got == want, "names", "step {step}: names are {got:?}, expected {want:?}");
        if !global {
            ensure!(reg.len() == model.len() && reg.is_empty() == model.is_empty(), "len",
                "step {step}: len {} is_empty {}, expected {}", reg.len(), reg.is_empty(), model.len());
        }
    }
    if global {
        let mut r = ACTOR_REGISTRY.lock().unwrap();
        for n in model.keys() {
            r.remove(n.as_str());
        }
    }
    Ok(Info::new(hits > 0 && replaced > 0)
        .label(bad > 0, "type mismatch")
        .label(hits > 0, "hit")
        .label(replaced > 0, "replaced"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum COp {
    Register(u8, bool),
    Lookup(u8),
    Remove(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CCase {
    threads: Vec<Vec<COp>>,
}

#[derive(Clone, Debug)]
struct Rec {
    start: u64,
    end: u64,
    name: u8,
    /// id written (`Some`), removal (`None`) or a read with its result
    write: Option<Option<u64>>,
    read: Option<u64>,
}

/// Concurrent registrations and lookups must look like writes and reads of one variable per name.
fn concurrent_case(c: &CCase) -> CaseResult {
    static UNIQ: AtomicU64 = AtomicU64::new(0);
    let prefix = format!("c{}:", UNIQ.fetch_add(1, Ordering::Relaxed));
    let clock = AtomicU64::new(1);
    let recs = std::sync::Mutex::new(Vec::<Rec>::new());
    let barrier = std::sync::Barrier::new(c.threads.len());
    let bad = std::sync::Mutex::new(None::<String>);
    std::thread::scope(|sc| {
        for ops in &c.threads {
            let (prefix, clock, recs, barrier, bad) = (&prefix, &clock, &recs, &barrier, &bad);
            sc.spawn(move || {
                barrier.wait();
                for o in ops {
                    match o {
                        COp::Register(n, direct) => {
                            let a = mk::<X>();
                            let id = a.id().sequence_id();
                            let start = clock.fetch_add(1, Ordering::SeqCst);
                            if *direct {
                                ACTOR_REGISTRY.lock().unwrap().insert(format!("{prefix}{n}"), a);
                            } else if a.register(format!("{prefix}{n}")).is_err() {
                                *bad.lock().unwrap() = Some("register failed".into());
                            }
                            let end = clock.fetch_add(1, Ordering::SeqCst);
                            recs.lock().unwrap().push(Rec { start, end, name: *n, write: Some(Some(id)), read: None });
                        }
                        COp::Lookup(n) => {
                            let start = clock.fetch_add(1, Ordering::SeqCst);
                            let got = ActorRef::<X>::lookup(format!("{prefix}{n}").as_str());
                            let end = clock.fetch_add(1, Ordering::SeqCst);
                            match got {
                                Ok(r) => recs.lock().unwrap().push(Rec {
                                    start, end, name: *n, write: None, read: r.map(|a| a.id().sequence_id()),
                                }),
                                Err(e) => *bad.lock().unwrap() = Some(format!("lookup failed: {e:?}")),
                            }
                        }
                        COp::Remove(n) => {
                            let start = clock.fetch_add(1, Ordering::SeqCst);
                            ACTOR_REGISTRY.lock().unwrap().remove(format!("{prefix}{n}").as_str());
                            let end = clock.fetch_add(1, Ordering::SeqCst);
                            recs.lock().unwrap().push(Rec { start, end, name: *n, write: Some(None), read: None });
                        }
                    }
                }
            });
        }
    });
    if let Some(b) = bad.into_inner().unwrap() {
        return pbt::fail("concurrent-error", b);
    }
    let recs = recs.into_inner().unwrap();
    let mut overlaps = 0;
    for r in recs.iter().filter(|r| r.write.is_none()) {
        let writes: Vec<&Rec> = recs.iter().filter(|w| w.name == r.name && w.write.is_some()).collect();
        overlaps += writes.iter().filter(|w| w.start < r.end && r.start < w.end).count();
        // a read may return any write that began before the read ended and was not certainly overwritten before it began
        let possible = |w: &Rec| {
            w.start < r.end && !writes.iter().any(|w2| w.end < w2.start && w2.end < r.start)
        };
        let ok = match r.read {
            Some(id) => writes.iter().any(|w| w.write == Some(Some(id)) && possible(w)),
            None => {
                !writes.iter().any(|w| w.end < r.start)
                    || writes.iter().any(|w| w.write == Some(None) && possible(w))
            }
        };
        ensure!(ok, "concurrent-lookup", "lookup {r:?} is not explained by {recs:?}");
    }
    let mut g = ACTOR_REGISTRY.lock().unwrap();
    for n in 0..3 {
        g.remove(format!("{prefix}{n}").as_str());
    }
    Ok(Info::new(overlaps > 0))
}

pub fn run(s: &mut Session) {
    let case = || {
        boxed((names(), prop::collection::vec(op(), 1..60), any::<bool>())
            .prop_map(|(names, ops, owned)| Case { names, ops, owned }))
    };
    s.prop("registry_map", "at least one successful lookup and one replaced name", 12_000, 200_000, case, |c| model_case(c, false));
    s.prop("global_registry_map", "at least one successful lookup and one replaced name", 4_000, 60_000, case, |c| model_case(c, true));
    s.prop_sharded("concurrent_registry", "a lookup overlaps a write of the same name", 1_500, 20_000, 4,
        || {
            let o = prop_oneof![
                3 => (0u8..3, any::<bool>()).prop_map(|(n, d)| COp::Register(n, d)),
                3 => (0u8..3).prop_map(COp::Lookup),
                1 => (0u8..3).prop_map(COp::Remove),
            ];
            boxed(prop::collection::vec(prop::collection::vec(o, 1..12), 2..4).prop_map(|threads| CCase { threads }))
        },
        concurrent_case,
    );
}

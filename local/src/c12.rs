//! C12: linking, unlinking and dying at the same time.
use std::{
    sync::{
        atomic::{AtomicUsize, Ordering},
        Arc, Barrier,
    },
    time::{Duration, Instant},
};

use kameo::actor::PreparedActor;
use pbt::{boxed, sim, CaseResult, Fail, Info, Session};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::{c11::*, lab::*};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Stress {
    actors: u8,
    cap: Option<u8>,
    /// per worker: on a thread of its own with blocking calls, and its calls
    workers: Vec<(bool, Vec<(u8, u8, bool)>)>,
    /// how often it repeats them
    times: u16,
    /// for each pair: the last call every worker makes on it
    last: Vec<bool>,
    /// the order in which actors die
    order: Vec<u8>,
    /// this actor dies in the middle of it
    dies: Option<(u8, u16)>,
}

fn pairs(n: usize) -> Vec<(usize, usize)> {
    (0..n).flat_map(|i| (i + 1..n).map(move |j| (i, j))).collect()
}

fn stress(c: &Stress) -> CaseResult {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(6).enable_time().build().unwrap();
    let n = c.actors as usize;
    let log = Log::new();
    let acts: Vec<AnyRef> = rt.block_on(async {
        (0..n).map(|i| AnyRef::Sub(spawn(Sub::new(i as u32, &log, &Script::resilient()), c.cap).0)).collect()
    });
    let barrier = Arc::new(Barrier::new(c.workers.len()));
    let done = Arc::new(AtomicUsize::new(0));
    let progress = Arc::new(AtomicUsize::new(0));
    let handle = rt.handle().clone();
    for (w, (blocking, ops)) in c.workers.iter().cloned().enumerate() {
        let (acts, barrier, done, progress, handle) = (acts.clone(), barrier.clone(), done.clone(), progress.clone(), handle.clone());
        let (times, last, dies) = (c.times, c.last.clone(), c.dies);
        std::thread::spawn(move || {
            barrier.wait();
            let mut calls: Vec<(usize, usize, bool)> = vec![];
            for _ in 0..times {
                calls.extend(ops.iter().map(|(i, j, l)| (*i as usize % n, *j as usize % n, *l)));
            }
            // (from alternating sides)
            calls.extend(pairs(n).iter().zip(&last).map(|((i, j), l)| if w % 2 == 0 { (*i, *j, *l) } else { (*j, *i, *l) }));
            let kill_at = dies.map(|(_, t)| t as usize % calls.len().max(1));
            let victim = dies.filter(|_| w == 0).map(|(i, _)| acts[i as usize % n].clone());
            let kill = move |at: usize| {
                if let (Some(v), true) = (&victim, Some(at) == kill_at) {
                    each!(v, a => a.kill());
                }
            };
            if blocking {
                for (at, (i, j, l)) in calls.into_iter().enumerate() {
                    kill(at);
                    if l {
                        acts[i].blocking_link(&acts[j])
                    } else {
                        acts[i].blocking_unlink(&acts[j])
                    }
                    progress.fetch_add(1, Ordering::Relaxed);
                }
            } else {
                let acts = acts.clone();
                let progress = progress.clone();
                handle.block_on(async move {
                    for (at, (i, j, l)) in calls.into_iter().enumerate() {
                        kill(at);
                        if l {
                            acts[i].link(&acts[j]).await
                        } else {
                            acts[i].unlink(&acts[j]).await
                        }
                        progress.fetch_add(1, Ordering::Relaxed);
                    }
                });
            }
            done.fetch_add(1, Ordering::SeqCst);
        });
    }
    // stuck: no call completes for a long time
    let mut seen = (0, Instant::now());
    while done.load(Ordering::SeqCst) < c.workers.len() {
        let p = progress.load(Ordering::Relaxed);
        if p != seen.0 {
            seen = (p, Instant::now());
        }
        if seen.1.elapsed() > Duration::from_secs(15) {
            rt.shutdown_background();
            return Err(Fail {
                sig: "deadlock".into(),
                msg: format!("{} of {} workers never complete their calls", c.workers.len() - done.load(Ordering::SeqCst), c.workers.len()),
            });
        }
        std::thread::sleep(Duration::from_micros(200));
    }
    // the links are as the last call on each pair left them
    let r = rt.block_on(async {
        let mut dead: Vec<usize> = c.dies.iter().map(|(i, _)| *i as usize % n).collect();
        let gone = |i: usize| {
            let a = acts[i].clone();
            async move {
                let w = async { each!(&a, a => a.wait_for_shutdown().await) };
                tokio::time::timeout(Duration::from_secs(15), w).await.is_ok()
            }
        };
        for i in &dead {
            check!(&log, gone(*i).await, "shutdown-hangs", "actor {i} never finishes stopping");
        }
        let mut want: Vec<(usize, usize)> = vec![];
        for i in c.order.iter().map(|i| *i as usize % n) {
            if dead.contains(&i) {
                continue;
            }
            each!(&acts[i], a => a.kill());
            check!(&log, gone(i).await, "shutdown-hangs", "actor {i} never finishes stopping");
            for ((a, b), l) in pairs(n).into_iter().zip(&c.last) {
                if *l && (a == i || b == i) {
                    let other = if a == i { b } else { a };
                    if !dead.contains(&other) {
                        want.push((other, i));
                    }
                }
            }
            dead.push(i);
            // let it be heard, so that the links of the dead are gone before the next death
            let t = Instant::now();
            loop {
                let l = log.get();
                let count = |(y, x): (usize, usize)| {
                    l.iter().filter(|e| e.who == y as u32 && matches!(&e.ev, Ev::LinkHookEnd(_))).count() > 0
                        && l.iter().filter(|e| e.who == y as u32 && matches!(&e.ev, Ev::LinkHook(id, _) if *id == acts[x].id())).count() > 0
                };
                if want.iter().all(|w| count(*w)) {
                    break;
                }
                if t.elapsed() > Duration::from_secs(10) {
                    let (y, x) = want.iter().find(|w| !count(**w)).unwrap();
                    check!(&log, false, "link-lost", "the last call of every worker linked {x} and {y}, but {y} was not told of the death of {x}");
                }
                tokio::time::sleep(Duration::from_micros(300)).await;
            }
        }
        let first: Vec<usize> = c.dies.iter().map(|(i, _)| *i as usize % n).collect();
        for (k, e) in log.get().iter().enumerate() {
            if let Ev::LinkHook(id, _) = &e.ev {
                let x = acts.iter().position(|a| a.id() == *id).unwrap();
                let y = e.who as usize;
                if !first.contains(&x) {
                    check!(&log, want.contains(&(y, x)), "link-left", "the last call of every worker unlinked {x} and {y}, but {y} was told of the death of {x} (#{k})");
                }
                let times = log.get().iter().filter(|f| f.who == e.who && matches!(&f.ev, Ev::LinkHook(i, _) if i == id)).count();
                check!(&log, times == 1, "twice", "{y} was told {times} times of the death of {x}");
            }
        }
        Ok(want.len())
    });
    rt.shutdown_background();
    let told = r?;
    Ok(Info::new(c.workers.len() > 1)
        .label(told > 0, "linked at the end")
        .label(c.workers.iter().any(|w| w.0) && c.workers.iter().any(|w| !w.0), "async and blocking")
        .label(c.dies.is_some(), "a death in the middle"))
}

fn stress_case() -> BoxedStrategy<Stress> {
    let worker = (any::<bool>(), prop::collection::vec((0u8..4, 0u8..4, any::<bool>()), 1..6));
    boxed(
        (
            2u8..5,
            cap(),
            prop::collection::vec(worker, 2..6),
            prop_oneof![1u16..5, 20u16..400],
            prop::collection::vec(any::<bool>(), 6),
            prop::collection::vec(0u8..4, 1..4),
            prop::option::weighted(0.3, (0u8..4, 0u16..300)),
        )
            .prop_map(|(actors, cap, workers, times, last, order, dies)| Stress { actors, cap, workers, times, last, order, dies }),
    )
}

// ---------------------------------------------------------------- dying at the same time

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mass {
    /// per actor: mailbox, what its handlers, its stop hook and its link hook do
    acts: Vec<(Option<u8>, Vec<Step>, Vec<Step>, Vec<Step>)>,
    links: Vec<(u8, u8)>,
    /// messages to each, filling the mailboxes
    fill: u8,
    /// who dies, how and when (time, yields)
    ends: Vec<(u8, bool, u8, u8)>,
    /// calls made meanwhile
    calls: Vec<(u8, u8, u8, bool)>,
    /// actors stop with the others
    follow: bool,
}

async fn mass_body(c: &Mass, log: &Log, virt: bool) -> Result<(usize, usize), Fail> {
    let patience = Duration::from_secs(if virt { 5_000_000 } else { 20 });
    let n = c.acts.len();
    let mut refs = vec![];
    let mut joins = vec![];
    let peers = Peers::default();
    for (i, (cap, _, stop, link_steps)) in c.acts.iter().enumerate() {
        let link = if c.follow { vec![] } else { vec![(1, Decide::Continue)] };
        let script = Script {
            panic: vec![(0, Decide::Continue)],
            link,
            link_steps: link_steps.clone(),
            stop: stop.clone(),
            ..Default::default()
        };
        let p = PreparedActor::new(mailbox(*cap));
        refs.push(p.actor_ref().clone());
        joins.push(p.spawn(Sub::new(i as u32, log, &script).with_peers(&peers)));
    }
    let _ = peers.set(refs.iter().map(|r| r.downgrade()).collect());
    for (i, j) in &c.links {
        let (a, b) = (&refs[*i as usize % n], &refs[*j as usize % n]);
        a.link(b).await;
    }
    let mut hs = vec![];
    for (i, (_, steps, ..)) in c.acts.iter().enumerate() {
        for k in 0..c.fill {
            // each from a task of its own: they wait for room
            let job = Job { id: mid(i, k as usize), steps: steps.clone(), out: Out::Ok };
            let (a, log) = (refs[i].clone(), log.clone());
            hs.push(tokio::spawn(async move {
                send(a, log, i as u32 + 100, Kind::Tell, job).await;
            }));
        }
    }
    for (i, kill, at, y) in c.ends.clone() {
        let a = refs[i as usize % n].clone();
        hs.push(tokio::spawn(async move {
            sim::sleep_ms(at as u64).await;
            sim::yields(y).await;
            if kill {
                a.kill()
            } else {
                let _ = a.stop_gracefully().await;
            }
        }));
    }
    for (at, i, j, l) in c.calls.clone() {
        let (a, b) = (refs[i as usize % n].clone(), refs[j as usize % n].clone());
        hs.push(tokio::spawn(async move {
            sim::sleep_ms(at as u64).await;
            if l {
                a.link(&b).await
            } else {
                a.unlink(&b).await
            }
        }));
    }
    for h in hs {
        if !matches!(tokio::time::timeout(patience, h).await, Ok(Ok(()))) {
            return Err(hang(log, "a call never completes"));
        }
    }
    // whoever was to die does
    let died: std::collections::BTreeSet<usize> = c.ends.iter().map(|e| e.0 as usize % n).collect();
    for i in &died {
        if tokio::time::timeout(patience, refs[*i].wait_for_shutdown()).await.is_err() {
            return Err(Fail { sig: "shutdown-hangs".into(), msg: format!("actor {i} never finishes stopping; history:{}", log.show()) });
        }
    }
    // and so does the rest
    if virt {
        sim::sleep_ms(5_000).await;
    }
    let cascade = refs.iter().filter(|r| !r.is_alive()).count() - died.len();
    for r in &refs {
        r.kill();
    }
    for (i, j) in joins.into_iter().enumerate() {
        if !matches!(tokio::time::timeout(patience, j).await, Ok(Ok(_))) {
            return Err(Fail { sig: "shutdown-hangs".into(), msg: format!("actor {i} never finishes stopping; history:{}", log.show()) });
        }
        lifecycle(log, i as u32, true)?;
    }
    Ok((died.len(), cascade))
}

fn links_peers(s: &[Step]) -> bool {
    s.iter().any(|s| matches!(s, Step::Link(..)))
}

/// Pauses, and linking and unlinking peers.
fn doings() -> impl Strategy<Value = Vec<Step>> {
    prop::collection::vec(prop_oneof![2 => pause(), 1 => (0u8..6, any::<bool>()).prop_map(|(i, l)| Step::Link(i, l))], 0..4)
}

fn info(c: &Mass, (died, cascade): (usize, usize)) -> CaseResult {
    Ok(Info::new(died > 1)
        .label(cascade > 0, "cascade")
        .label(c.acts.iter().any(|a| a.0 == Some(1)) && c.fill > 2, "full mailboxes")
        .label(!c.calls.is_empty(), "calls meanwhile")
        .label(c.acts.iter().any(|a| links_peers(&a.3)), "link hooks which link or unlink")
        .label(c.acts.iter().any(|a| links_peers(&a.1) || links_peers(&a.2)), "handlers or stop hooks which link or unlink"))
}

fn mass_sim(c: &Mass) -> CaseResult {
    let out = sim::run(async {
        let log = Log::new();
        mass_body(c, &log, true).await
    });
    match out {
        Some(Ok(r)) => info(c, r),
        Some(Err(f)) => Err(f),
        None => Err(Fail { sig: "hang".into(), msg: "the system never comes to rest".into() }),
    }
}

fn mass_mt(c: &Mass) -> CaseResult {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_time().build().unwrap();
    let log = Log::new();
    let r = rt.block_on(mass_body(c, &log, false));
    rt.shutdown_background();
    info(c, r?)
}

fn mass_case() -> BoxedStrategy<Mass> {
    boxed(
        (
            prop::collection::vec((cap(), doings(), doings(), doings()), 2..7),
            prop::collection::vec((0u8..6, 0u8..6), 1..16),
            0u8..6,
            prop::collection::vec((0u8..6, any::<bool>(), 0u8..4, 0u8..4), 1..7),
            prop::collection::vec((0u8..5, 0u8..6, 0u8..6, any::<bool>()), 0..4),
            any::<bool>(),
        )
            .prop_map(|(acts, links, fill, ends, calls, follow)| Mass { acts, links, fill, ends, calls, follow }),
    )
}

pub fn run(s: &mut Session) {
    s.prop("dying_together", "two or more actors are ended", 40_000, 1_000_000, mass_case, mass_sim);
    s.prop_sharded("dying_together_threads", "two or more actors are ended", 1_500, 40_000, 4, mass_case, mass_mt);
    s.prop_sharded("call_stress", "two or more workers link and unlink the same actors", 1_200, 30_000, 2, stress_case, stress);
}

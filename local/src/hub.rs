//! The broker and the message bus against one model: subscriptions by key, and exact mailbox timing.
use std::{
    collections::{BTreeMap, VecDeque},
    sync::{Arc, Mutex},
    time::Duration,
};

use glob::Pattern;
use kameo::{
    actor::{spawn_with_mailbox, ActorRef},
    error::Infallible,
    message::{Context, Message},
    Actor,
};
use kameo_actors::{
    broker::{self, Broker},
    message_bus::{self, MessageBus},
    pubsub::{self, PubSub},
    DeliveryStrategy,
};
use pbt::{boxed, ensure, fail, sim, CaseResult, Info, Session};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::lab::mailbox;

const P: u64 = 1024;
/// keys of the bus
const TYPES: usize = 4;
/// Keys of the pubsub are filters: these, then all (without a filter), then every second message it sees.
const FILTERS: [fn(&Note<0>) -> bool; 4] = [|m| m.0 % 2 == 0, |m| m.0 % 3 == 1, |_| false, |m| m.0 > 3];

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Strat {
    Guaranteed,
    BestEffort,
    Timed(u8),
    Spawned,
    SpawnedTimed(u8),
}

impl Strat {
    fn spawns(self) -> bool {
        matches!(self, Strat::Spawned | Strat::SpawnedTimed(_))
    }
    fn limit(self) -> Option<u64> {
        match self {
            Strat::Timed(d) | Strat::SpawnedTimed(d) => Some(d as u64 * P + 16),
            _ => None,
        }
    }
    fn real(self) -> DeliveryStrategy {
        let d = self.limit().map(sim::ms).unwrap_or_default();
        match self {
            Strat::Guaranteed => DeliveryStrategy::Guaranteed,
            Strat::BestEffort => DeliveryStrategy::BestEffort,
            Strat::Timed(_) => DeliveryStrategy::TimedDelivery(d),
            Strat::Spawned => DeliveryStrategy::Spawned,
            Strat::SpawnedTimed(_) => DeliveryStrategy::SpawnedWithTimeout(d),
        }
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct Rec {
    /// at most two recipients have bounded mailboxes, and those subscribe under the first key only
    cap: Option<u8>,
    work: u8,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum What {
    Sub { r: u8, key: u8 },
    Unsub { r: u8, key: Option<u8> },
    Publish { topic: u8, burst: u8, ask: bool },
    End { r: u8, graceful: bool },
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct Op {
    gap: u8,
    what: What,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Which {
    Broker,
    Bus,
    /// used as an actor, or directly
    PubSub(bool),
}

impl Which {
    fn pubsub(self) -> bool {
        matches!(self, Which::PubSub(_))
    }
    fn key_count(self) -> Option<u8> {
        match self {
            Which::Broker => None,
            Which::Bus => Some(TYPES as u8),
            Which::PubSub(false) => Some(FILTERS.len() as u8 + 1),
            Which::PubSub(true) => Some(FILTERS.len() as u8 + 2),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    which: Which,
    strat: Strat,
    recs: Vec<Rec>,
    /// patterns and topics of a broker
    keys: Vec<String>,
    topics: Vec<String>,
    ops: Vec<Op>,
}

// ---------------------------------------------------------------- the real thing

#[derive(Clone, Copy, Debug)]
struct Note<const K: usize>(u32);

type Seen = Arc<Mutex<Vec<(u64, u32, usize)>>>;

struct R {
    seen: Seen,
    t0: tokio::time::Instant,
    work: u64,
    virt: bool,
}

impl Actor for R {
    type Error = Infallible;
}

impl<const K: usize> Message<Note<K>> for R {
    type Reply = ();
    async fn handle(&mut self, m: Note<K>, _: &mut Context<Self, ()>) {
        self.seen.lock().unwrap().push((self.t0.elapsed().as_millis() as u64 / sim::scale(), m.0, K));
        if self.virt {
            sim::sleep_ms(self.work).await;
        } else if self.work > 0 {
            tokio::time::sleep(Duration::from_micros(self.work)).await;
        }
    }
}

#[derive(Clone)]
enum Hub {
    Broker(ActorRef<Broker<Note<0>>>),
    Bus(ActorRef<MessageBus>),
    PubSub(ActorRef<PubSub<Note<0>>>),
    Direct(Arc<tokio::sync::Mutex<PubSub<Note<0>>>>),
}

macro_rules! typed {
    ($k:expr, $t:ident => $e:expr) => {
        match $k % TYPES {
            0 => { type $t = Note<0>; $e }
            1 => { type $t = Note<1>; $e }
            2 => { type $t = Note<2>; $e }
            _ => { type $t = Note<3>; $e }
        }
    };
}

impl Hub {
    fn new(which: Which, s: DeliveryStrategy) -> Hub {
        match which {
            Which::Bus => Hub::Bus(spawn_with_mailbox(MessageBus::new(s), mailbox(None))),
            Which::Broker => Hub::Broker(spawn_with_mailbox(Broker::new(s), mailbox(None))),
            Which::PubSub(false) => Hub::PubSub(spawn_with_mailbox(PubSub::new(), mailbox(None))),
            Which::PubSub(true) => Hub::Direct(Arc::new(tokio::sync::Mutex::new(PubSub::new()))),
        }
    }
    async fn subscribe(&self, r: &ActorRef<R>, key: usize, keys: &[String]) -> bool {
        match self {
            Hub::Broker(b) => {
                let topic = Pattern::new(&keys[key]).unwrap();
                b.tell(broker::Subscribe { topic, recipient: r.clone().recipient::<Note<0>>() }).await.is_ok()
            }
            Hub::Bus(b) => typed!(key, T => b.tell(message_bus::Register(r.clone().recipient::<T>())).await.is_ok()),
            Hub::PubSub(b) => match FILTERS.get(key) {
                Some(f) => b.tell(pubsub::SubscribeFilter(r.clone(), *f)).await.is_ok(),
                None => b.tell(pubsub::Subscribe(r.clone())).await.is_ok(),
            },
            Hub::Direct(b) => {
                let mut b = b.lock().await;
                match FILTERS.get(key) {
                    Some(f) => b.subscribe_filter(r.clone(), *f),
                    None if key == FILTERS.len() => b.subscribe(r.clone()),
                    None => {
                        let mut n = 0;
                        b.subscribe_filter(r.clone(), move |_| {
                            n += 1;
                            n % 2 == 1
                        })
                    }
                }
                true
            }
        }
    }
    async fn unsubscribe(&self, r: &ActorRef<R>, key: Option<usize>, keys: &[String]) -> bool {
        match self {
            Hub::Broker(b) => {
                let topic = key.map(|k| Pattern::new(&keys[k]).unwrap());
                b.tell(broker::Unsubscribe { topic, actor_id: r.id() }).await.is_ok()
            }
            Hub::Bus(b) => typed!(key.unwrap_or(0), T => b.tell(message_bus::Unregister::<T>::new(r.id())).await.is_ok()),
            Hub::PubSub(_) | Hub::Direct(_) => true,
        }
    }
    async fn publish(&self, topic: usize, id: u32, ask: bool, topics: &[String]) -> bool {
        match self {
            Hub::Broker(b) => {
                let m = broker::Publish { topic: topics[topic].clone(), message: Note::<0>(id) };
                if ask {
                    b.ask(m).await.is_ok()
                } else {
                    b.tell(m).await.is_ok()
                }
            }
            Hub::Bus(b) => typed!(topic, T => {
                let m = message_bus::Publish::<T>(new_note(id));
                if ask {
                    b.ask(m).await.is_ok()
                } else {
                    b.tell(m).await.is_ok()
                }
            }),
            Hub::PubSub(b) => {
                let m = pubsub::Publish(Note::<0>(id));
                if ask {
                    b.ask(m).await.is_ok()
                } else {
                    b.tell(m).await.is_ok()
                }
            }
            Hub::Direct(b) => {
                b.lock().await.publish(Note(id)).await;
                true
            }
        }
    }
}

fn new_note<const K: usize>(id: u32) -> Note<K> {
    Note(id)
}

// ---------------------------------------------------------------- glob, by its documentation

pub fn glob_ref(p: &[char], t: &[char]) -> bool {
    match p {
        [] => t.is_empty(),
        // (the crate leaves out a separator which follows)
        ['*', '*'] | ['*', '*', '/'] => true,
        ['*', '*', '/', rest @ ..] => glob_ref(rest, t) || t.iter().enumerate().any(|(i, c)| *c == '/' && glob_ref(rest, &t[i + 1..])),

        ['*', rest @ ..] => glob_ref(rest, t) || (!t.is_empty() && t[0] != '/' && glob_ref(p, &t[1..])),
        ['?', rest @ ..] => !t.is_empty() && t[0] != '/' && glob_ref(rest, &t[1..]),
        ['[', ..] => {
            let end = p.iter().position(|c| *c == ']').unwrap();
            let (not, set) = if p[1] == '!' { (true, &p[2..end]) } else { (false, &p[1..end]) };
            !t.is_empty() && t[0] != '/' && set.contains(&t[0]) != not && glob_ref(&p[end + 1..], &t[1..])
        }
        [c, rest @ ..] => !t.is_empty() && t[0] == *c && glob_ref(rest, &t[1..]),
    }
}

fn matches(c: &Case, key: usize, topic: usize) -> bool {
    if c.which == Which::Bus {
        return key % TYPES == topic % TYPES;
    }
    let (p, t): (Vec<char>, Vec<char>) = (c.keys[key].chars().collect(), c.topics[topic].chars().collect());
    glob_ref(&p, &t)
}

/// Two key indices may name the same key.
fn canon(c: &Case, key: usize) -> usize {
    match c.which {
        Which::Bus => key % TYPES,
        Which::Broker => c.keys.iter().position(|k| *k == c.keys[key]).unwrap(),
        Which::PubSub(_) => key,
    }
}

// ---------------------------------------------------------------- the model

#[derive(Clone, Copy, Debug, PartialEq)]
enum Item {
    Note(u32, usize),
    Stop,
}

#[derive(Clone, Copy, Debug)]
struct Waiter {
    item: Item,
    by: Option<u64>,
    hub: bool,
}

#[derive(Default)]
struct MRec {
    cap: Option<usize>,
    work: u64,
    dead: bool,
    queue: VecDeque<Item>,
    waiters: VecDeque<Waiter>,
    busy: Option<u64>,
    log: Vec<(u64, u32, usize)>,
}

struct Model<'a> {
    c: &'a Case,
    now: u64,
    recs: Vec<MRec>,
    subs: BTreeMap<usize, Vec<usize>>,
    pending: VecDeque<(What, u32)>,
    /// deliveries the hub still has to make for the publication at hand
    todo: VecDeque<(usize, Item, usize)>,
    gone: Vec<(usize, usize)>,
    waiting: Vec<(usize, usize)>,
    /// publications each subscriber of a pubsub has seen under its present subscription
    shown: BTreeMap<usize, u32>,
    skipped: u32,
    waited: u32,
    lost: u32,
    tie: bool,
}

impl Model<'_> {
    fn room(&self, r: usize) -> bool {
        self.recs[r].waiters.is_empty() && self.recs[r].cap.is_none_or(|c| self.recs[r].queue.len() < c)
    }
    fn offer(&mut self, r: usize, item: Item, by: Option<u64>, hub: bool) -> bool {
        if self.room(r) {
            self.recs[r].queue.push_back(item);
            return true;
        }
        self.recs[r].waiters.push_back(Waiter { item, by, hub });
        false
    }
    fn die(&mut self, r: usize) {
        let rec = &mut self.recs[r];
        rec.dead = true;
        rec.busy = None;
        rec.queue.clear();
        let hub = rec.waiters.iter().any(|w| w.hub);
        rec.waiters.clear();
        if hub {
            let (here, rest) = std::mem::take(&mut self.waiting).into_iter().partition(|w| w.0 == r);
            self.waiting = rest;
            self.gone.extend::<Vec<_>>(here);
        }
    }
    fn hub_step(&mut self) -> bool {
        // a pubsub offers a message to all of them at once
        if !self.waiting.is_empty() && (!self.c.which.pubsub() || self.todo.is_empty()) {
            return false;
        }
        if let Some((r, item, key)) = self.todo.pop_front() {
            if self.recs[r].dead {
                self.gone.push((r, key));
                self.lost += 1;
                return true;
            }
            let s = self.c.strat;
            if s == Strat::BestEffort {
                if self.room(r) {
                    self.recs[r].queue.push_back(item);
                } else {
                    self.skipped += 1;
                }
            } else {
                let by = s.limit().map(|l| self.now + l);
                if !self.offer(r, item, by, !s.spawns()) {
                    self.waited += 1;
                    if !s.spawns() {
                        self.waiting.push((r, key));
                    }
                }
            }
            return true;
        }
        for (r, key) in std::mem::take(&mut self.gone) {
            if let Some(v) = self.subs.get_mut(&key) {
                v.retain(|x| *x != r);
            }
        }
        let Some((what, id)) = self.pending.pop_front() else { return false };
        match what {
            What::Sub { r, key } if self.c.which.pubsub() => {
                self.subs.values_mut().for_each(|v| v.retain(|x| *x != r as usize));
                self.subs.entry(key as usize).or_default().push(r as usize);
                self.shown.insert(r as usize, 0);
            }
            What::Unsub { .. } if self.c.which.pubsub() => {}
            What::Publish { .. } if self.c.which.pubsub() => {
                for (k, v) in &self.subs {
                    for r in v {
                        let n = self.shown.get_mut(r).unwrap();
                        *n += 1;
                        let accepts = match FILTERS.get(*k) {
                            Some(f) => f(&Note(id)),
                            None => *k == FILTERS.len() || *n % 2 == 1,
                        };
                        if accepts {
                            self.todo.push_back((*r, Item::Note(id, 0), *k));
                        }
                    }
                }
            }
            What::Sub { r, key } => self.subs.entry(canon(self.c, key as usize)).or_default().push(r as usize),
            What::Unsub { r, key } => {
                let bus = self.c.which == Which::Bus;
                let key = if bus { Some(key.unwrap_or(0)) } else { key };
                for (k, v) in &mut self.subs {
                    if key.is_none_or(|x| canon(self.c, x as usize) == *k) {
                        v.retain(|x| *x != r as usize);
                    }
                }
            }
            What::Publish { topic, .. } => {
                let t = topic as usize;
                for (k, v) in &self.subs {
                    if matches(self.c, *k, t) {
                        self.todo.extend(v.iter().map(|r| (*r, Item::Note(id, if self.c.which == Which::Bus { t % TYPES } else { 0 }), *k)));
                    }
                }
            }
            What::End { .. } => unreachable!(),
        }
        true
    }
    fn rec_step(&mut self, r: usize) -> bool {
        let now = self.now;
        let rec = &mut self.recs[r];
        if rec.dead || rec.busy.is_some() {
            return false;
        }
        let Some(item) = rec.queue.pop_front() else { return false };
        match item {
            Item::Stop => {
                self.die(r);
                return true;
            }
            Item::Note(id, k) => {
                rec.log.push((now, id, k));
                if rec.work > 0 {
                    rec.busy = Some(now + rec.work);
                }
            }
        }
        if let Some(w) = rec.waiters.pop_front() {
            rec.queue.push_back(w.item);
            if w.hub {
                self.waiting.retain(|w| w.0 != r);
            }
        }
        true
    }
    fn settle(&mut self) {
        loop {
            if self.hub_step() {
                continue;
            }
            if (0..self.recs.len()).any(|r| self.rec_step(r)) {
                continue;
            }
            return;
        }
    }
    fn run(&mut self, arrivals: &[(u64, What, u32)]) {
        let mut i = 0;
        loop {
            let mut times: Vec<(u64, u8)> = vec![];
            if i < arrivals.len() {
                times.push((arrivals[i].0, 0));
            }
            for rec in &self.recs {
                // a mailbox without a bound interacts with nothing
                times.extend(rec.busy.map(|b| (b, if rec.cap.is_some() { 1 } else { 3 })));
                times.extend(rec.waiters.iter().filter_map(|w| w.by).min().map(|b| (b, 2)));
            }
            let Some(t) = times.iter().map(|t| t.0).min() else { return };
            let at: Vec<u8> = times.iter().filter(|x| x.0 == t && x.1 != 3).map(|x| x.1).collect();
            if at.len() > 1 && at.iter().any(|k| *k != 2) {
                self.tie = true;
                return;
            }
            self.now = t;
            for r in 0..self.recs.len() {
                if self.recs[r].busy == Some(t) {
                    self.recs[r].busy = None;
                }
                let (late, rest): (Vec<_>, Vec<_>) = self.recs[r].waiters.drain(..).partition(|w| w.by == Some(t));
                self.recs[r].waiters = rest.into();
                for w in late {
                    self.skipped += 1;
                    if w.hub {
                        self.waiting.retain(|w| w.0 != r);
                    }
                }
            }
            while i < arrivals.len() && arrivals[i].0 == t {
                match arrivals[i].1 {
                    What::End { r, graceful } => {
                        let r = r as usize;
                        if !self.recs[r].dead {
                            if graceful {
                                self.offer(r, Item::Stop, None, false);
                            } else {
                                self.die(r);
                            }
                        }
                    }
                    w => self.pending.push_back((w, arrivals[i].2)),
                }
                i += 1;
            }
            self.settle();
        }
    }
}

// ---------------------------------------------------------------- a history, and what the model says

fn arrivals(c: &Case) -> Vec<(u64, What, u32)> {
    let mut v = vec![];
    let (mut t, mut id) = (0, 0);
    let tight = c.recs.iter().any(|r| r.cap.is_some());
    for (i, op) in c.ops.iter().enumerate() {
        t += op.gap as u64 * P;
        let at = t + i as u64 + 1;
        match op.what {
            What::Publish { topic, burst, ask } => {
                // where the order of simultaneous tasks would matter, one at a time
                let n = if c.which == Which::PubSub(true) || c.strat.spawns() || c.strat == Strat::BestEffort && tight { 1 } else { burst.max(1) };
                for _ in 0..n {
                    id += 1;
                    v.push((at, What::Publish { topic, burst, ask }, id));
                }
            }
            w => v.push((at, w, 0)),
        }
    }
    v
}

async fn history(c: &Case) -> CaseResult {
    let t0 = tokio::time::Instant::now();
    let hub = Hub::new(c.which, c.strat.real());
    let recs: Vec<(ActorRef<R>, Seen)> = c
        .recs
        .iter()
        .enumerate()
        .map(|(i, r)| {
            let seen = Seen::default();
            (spawn_with_mailbox(R { seen: seen.clone(), t0, work: work(i, r), virt: true }, mailbox(r.cap)), seen)
        })
        .collect();
    for (r, _) in &recs {
        r.wait_for_startup().await;
    }
    let mut list = arrivals(c);
    // operations which happen together are issued in a row by one task
    let mut hs = vec![];
    let mut k = 0;
    while k < list.len() {
        let n = list[k..].iter().take_while(|x| x.0 == list[k].0).count();
        let group: Vec<_> = list[k..k + n].to_vec();
        k += n;
        let (hub, recs, c) = (hub.clone(), recs.clone(), c.clone());
        hs.push(tokio::spawn(async move {
            sim::sleep_ms(group[0].0).await;
            for (j, (_, w, id)) in group.iter().enumerate() {
                match *w {
                    What::Sub { r, key } => assert!(hub.subscribe(&recs[r as usize].0, key as usize, &c.keys).await),
                    What::Unsub { r, key } => assert!(hub.unsubscribe(&recs[r as usize].0, key.map(usize::from), &c.keys).await),
                    What::Publish { topic, ask, .. } => assert!(hub.publish(topic as usize, *id, ask && j + 1 == group.len(), &c.topics).await),
                    What::End { r, graceful } => {
                        if graceful {
                            let _ = recs[r as usize].0.stop_gracefully().await;
                        } else {
                            recs[r as usize].0.kill();
                        }
                    }
                }
            }
        }));
    }
    for (i, h) in hs.into_iter().enumerate() {
        match sim::settled(h).await {
            Some(Ok(())) => {}
            Some(Err(e)) => return fail("hub-dies", format!("operation {i}: the hub stopped or panicked: {e}")),
            None => return fail("hang", format!("operation {i} never completes")),
        }
    }
    sim::sleep_ms(P * 2_000).await;
    // everything is published to again, which clears out the dead
    let n_topics = match c.which {
        Which::Broker => c.topics.len(),
        Which::Bus => TYPES,
        Which::PubSub(_) => 3,
    };
    for t in 0..n_topics {
        let (at, id) = (t0.elapsed().as_millis() as u64 / sim::scale(), 1_000_000 + t as u32);
        list.push((at, What::Publish { topic: t as u8, burst: 1, ask: true }, id));
        match sim::settled(hub.publish(t, id, true, &c.topics)).await {
            Some(true) => {}
            Some(false) => return fail("hub-dies", format!("the hub does not answer the last publication: {list:?}")),
            None => return fail("hang", format!("the last publication never completes: {list:?}")),
        }
        sim::sleep_ms(P * 200).await;
    }
    let mut m = Model {
        c,
        now: 0,
        recs: c.recs.iter().enumerate().map(|(i, r)| MRec { cap: r.cap.map(|c| c.max(1) as usize), work: work(i, r), ..Default::default() }).collect(),
        subs: BTreeMap::new(),
        pending: VecDeque::new(),
        todo: VecDeque::new(),
        gone: vec![],
        waiting: vec![],
        shown: BTreeMap::new(),
        skipped: 0,
        waited: 0,
        lost: 0,
        tie: false,
    };
    m.run(&list);
    if m.tie {
        return Ok(Info::new(false).label(true, "tie (not compared)"));
    }
    let show = || format!("{:?}", list);
    for (i, (a, seen)) in recs.iter().enumerate() {
        let seen = seen.lock().unwrap().clone();
        let want = &m.recs[i].log;
        // a broker goes through the matching patterns in any order, which shows when it has to wait in one of them
        let blurred = c.which == Which::Broker && !c.strat.spawns() && m.waited > 0 && m.recs[i].cap.is_none();
        if blurred && m.recs[i].dead {
            continue;
        }
        if seen != *want {
            let ids = |l: &[(u64, u32, usize)]| l.iter().map(|e| (e.1, e.2)).collect::<Vec<_>>();
            let mut a = ids(&seen);
            let mut b = ids(want);
            let sig = if a == b {
                if blurred {
                    continue;
                }
                "when"
            } else {
                a.sort();
                b.sort();
                if a == b { "order" } else { "delivered" }
            };
            return fail(sig, format!("recipient {i} handled (at, id, type) {seen:?} instead of {want:?}; {}", show()));
        }
        ensure!(a.is_alive() != m.recs[i].dead, "recipient", "recipient {i} is alive: {} instead of {}", a.is_alive(), !m.recs[i].dead);
    }
    // nobody is held on to for nothing
    for (i, (a, _)) in recs.iter().enumerate() {
        let held: usize = m.subs.values().map(|v| v.iter().filter(|r| **r == i).count()).sum();
        let refs = a.strong_count() as i64 - 1; // its own handle in the harness
        ensure!(refs == 0 || held > 0, "bookkeeping", "recipient {i} (dead: {}) is still held by {refs} references without a subscription after the last publications: {}", m.recs[i].dead, show());
    }
    let total: usize = m.recs.iter().map(|r| r.log.len()).sum();
    let keys = c.ops.iter().filter(|o| matches!(o.what, What::Sub { .. })).count();
    Ok(Info::new(total > 1 && keys > 1)
        .label(m.skipped > 0, "skipped or timed out")
        .label(m.waited > 0, "waited for room")
        .label(m.lost > 0, "recipient dead")
        .label(c.ops.iter().any(|o| matches!(o.what, What::Unsub { .. })), "unsubscribed")
        .label(m.recs.iter().any(|r| r.log.windows(2).any(|w| w[0].1 == w[1].1)), "duplicate subscription"))
}

fn work(i: usize, r: &Rec) -> u64 {
    if r.work == 0 {
        0
    } else {
        r.work as u64 * P + [128, 500][i % 2]
    }
}

fn case(which: Which) -> BoxedStrategy<Case> {
    let strat = prop_oneof![
        Just(Strat::Guaranteed),
        Just(Strat::BestEffort),
        (1u8..4).prop_map(Strat::Timed),
        Just(Strat::Spawned),
        (1u8..4).prop_map(Strat::SpawnedTimed),
    ];
    let part = prop::sample::select(vec!["a", "b", "A", "ab", "*", "?", "a*", "*b", "[ab]", "[!a]", "?*", ".a", "**", "*", ""]);
    let pattern = prop::collection::vec(part, 1..4).prop_map(|v| v.join("/"));
    let word = prop::sample::select(vec!["a", "b", "A", "ab", "bb", "aab", ".a", "c", "", "*", "[a]"]);
    let topic = prop::collection::vec(word, 1..4).prop_map(|v| v.join("/"));
    let tight = (1u8..4, 1u8..5).prop_map(|(c, work)| Rec { cap: Some(c), work });
    let wide = prop_oneof![3 => Just(0u8), 1 => 1u8..4].prop_map(|work| Rec { cap: None, work });
    let recs = (prop::collection::vec(tight, 0..3), prop::collection::vec(wide, 1..4)).prop_map(|(mut a, b)| {
        a.extend(b);
        a
    });
    let strat = if which.pubsub() { Just(Strat::Guaranteed).boxed() } else { strat.boxed() };
    let which = if which.pubsub() { any::<bool>().prop_map(Which::PubSub).boxed() } else { Just(which).boxed() };
    (which, strat, recs, prop::collection::vec(pattern, 1..5), prop::collection::vec(topic, 1..5))
        .prop_flat_map(move |(which, strat, recs, keys, mut topics)| {
            let keys: Vec<String> = keys.into_iter().filter(|k| Pattern::new(k).is_ok()).collect();
            let keys = if keys.is_empty() { vec!["*".to_string()] } else { keys };
            // topics which match, or nearly
            for (i, k) in keys.iter().enumerate() {
                let t = k.replace("[!a]", "b").replace("[ab]", ["a", "b"][i % 2]).replace("**", ["a/b", "a"][i % 2]).replace('*', ["", "b", "ab"][i % 3]).replace('?', "b");
                topics.push(t);
            }
            let (nr, nk, nt) = (recs.len() as u8, which.key_count().unwrap_or(keys.len() as u8), if which == Which::Broker { topics.len() } else { TYPES } as u8);
            let tight: Vec<bool> = recs.iter().map(|r| r.cap.is_some() && !which.pubsub()).collect();
            let sub = (0..nr, 0..nk).prop_map(move |(r, k)| What::Sub { r, key: if tight[r as usize] { 0 } else { k } });
            let unsub = (0..nr, prop::option::weighted(0.7, 0..nk)).prop_map(|(r, key)| What::Unsub { r, key });
            let publish = (0..nt, 1u8..4, any::<bool>()).prop_map(|(topic, burst, ask)| What::Publish { topic, burst, ask });
            let end = (0..nr, any::<bool>()).prop_map(|(r, graceful)| What::End { r, graceful });
            let what = prop_oneof![6 => sub.clone(), 2 => unsub, 8 => publish, 1 => end];
            let op = (prop_oneof![3 => Just(0u8), 2 => 1u8..4], what).prop_map(|(gap, what)| Op { gap, what });
            let first = prop::collection::vec(sub.prop_map(|what| Op { gap: 0, what }), 0..5);
            (first, prop::collection::vec(op, 1..15)).prop_map(move |(mut a, b)| {
                a.extend(b);
                Case { which, strat, recs: recs.clone(), keys: keys.clone(), topics: topics.clone(), ops: a }
            })
        })
        .boxed()
}

// ---------------------------------------------------------------- real threads

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Race {
    which: Which,
    strat: u8,
    /// recipients: mailbox bound, work in microseconds, subscriptions, and when it dies (per cent of the publications)
    recs: Vec<(Option<u8>, u8, u8, Option<u8>)>,
    publishers: u8,
    each: u8,
    churn: u8,
}

async fn race(c: &Race) -> CaseResult {
    let patience = Duration::from_secs(20);
    let strat = match c.strat % 4 {
        0 => DeliveryStrategy::Guaranteed,
        1 => DeliveryStrategy::TimedDelivery(patience),
        2 => DeliveryStrategy::Spawned,
        _ => DeliveryStrategy::SpawnedWithTimeout(patience),
    };
    let spawns = c.strat % 4 > 1 && !c.which.pubsub();
    let hub = Hub::new(c.which, strat);
    let t0 = tokio::time::Instant::now();
    let (keys, topics) = (vec!["t/*".to_string(), "*".to_string()], vec!["t/x".to_string()]);
    let mk = |cap: Option<u8>, work: u8| {
        let seen = Seen::default();
        (spawn_with_mailbox(R { seen: seen.clone(), t0, work: work as u64, virt: false }, mailbox(cap)), seen)
    };
    let recs: Vec<_> = c.recs.iter().map(|r| mk(r.0, r.1)).collect();
    // for a pubsub, a subscription replaces the one before
    let pubsub = c.which.pubsub();
    let (yes, no) = if pubsub { (FILTERS.len(), 2) } else { (0, 1) };
    let times = |r: &(Option<u8>, u8, u8, Option<u8>)| if pubsub { r.2.min(1) } else { r.2 };
    for ((a, _), r) in recs.iter().zip(&c.recs) {
        // first under a key that nothing is published to
        hub.subscribe(a, no, &keys).await;
        for _ in 0..r.2 {
            hub.subscribe(a, yes, &keys).await;
        }
    }
    let total = c.publishers as usize * c.each as usize;
    let sent = Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let mut hs = vec![];
    for p in 0..c.publishers as u32 {
        let (hub, topics, each, sent) = (hub.clone(), topics.clone(), c.each as u32, sent.clone());
        hs.push(tokio::spawn(async move {
            for i in 0..each {
                assert!(hub.publish(0, p * 1000 + i, i % 3 == 0, &topics).await, "the hub is gone");
                sent.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            }
        }));
    }
    for ((a, _), r) in recs.iter().zip(&c.recs) {
        if let Some(when) = r.3 {
            let (a, sent) = (a.clone(), sent.clone());
            let graceful = when % 2 == 0;
            hs.push(tokio::spawn(async move {
                while sent.load(std::sync::atomic::Ordering::SeqCst) * 100 < total * when as usize {
                    tokio::task::yield_now().await;
                }
                if graceful {
                    let _ = a.stop_gracefully().await;
                } else {
                    a.kill();
                }
            }));
        }
    }
    for k in 0..c.churn {
        // others come and go
        let (hub, keys) = (hub.clone(), keys.clone());
        let (a, _) = mk(None, 0);
        hs.push(tokio::spawn(async move {
            for _ in 0..4 {
                hub.subscribe(&a, yes, &keys).await;
                tokio::task::yield_now().await;
                hub.unsubscribe(&a, if k % 2 == 0 { Some(yes) } else { None }, &keys).await;
            }
            hub.subscribe(&a, yes, &keys).await;
            a.kill();
        }));
    }
    for h in hs {
        match tokio::time::timeout(patience, h).await {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return fail("hub-dies", format!("{e}")),
            Err(_) => return fail("hang", "publishing never completes".to_string()),
        }
    }
    let t = std::time::Instant::now();
    for (i, ((a, seen), r)) in recs.iter().zip(&c.recs).enumerate() {
        if r.3.is_some() {
            tokio::time::timeout(patience, a.wait_for_shutdown()).await.ok();
        } else {
            while seen.lock().unwrap().len() < total * times(r) as usize {
                if t.elapsed() > patience {
                    return fail("delivered", format!("recipient {i} got {} of {} messages", seen.lock().unwrap().len(), total * times(r) as usize));
                }
                tokio::time::sleep(Duration::from_micros(300)).await;
            }
        }
        let seen = seen.lock().unwrap().clone();
        let mut n: BTreeMap<u32, u8> = BTreeMap::new();
        for (_, id, _) in &seen {
            *n.entry(*id).or_default() += 1;
        }
        ensure!(n.values().all(|x| *x <= times(r)), "delivered", "recipient {i} with {} subscriptions got a message more often: {n:?}", r.2);
        ensure!(r.3.is_some() || n.len() == total || r.2 == 0, "delivered", "recipient {i} got {} different messages of {total}", n.len());
        if !spawns {
            for p in 0..c.publishers as u32 {
                let mine: Vec<u32> = seen.iter().map(|e| e.1).filter(|x| x / 1000 == p).collect();
                ensure!(mine.windows(2).all(|w| w[0] <= w[1]), "order", "recipient {i} got the messages of publisher {p} as {mine:?}");
            }
        }
    }
    // a little longer, in case a message arrives once too often
    tokio::time::sleep(Duration::from_millis(1)).await;
    for (i, ((_, seen), r)) in recs.iter().zip(&c.recs).enumerate() {
        let n = seen.lock().unwrap().len();
        ensure!(n <= total * times(r) as usize, "delivered", "recipient {i} got {n} messages instead of {}", total * times(r) as usize);
    }
    Ok(Info::new(total > 3 && recs.len() > 1)
        .label(c.recs.iter().any(|r| r.3.is_some()), "recipient dies")
        .label(c.recs.iter().any(|r| r.0.is_some()), "bounded mailbox")
        .label(c.publishers > 1, "several publishers"))
}

fn race_case(which: Which) -> BoxedStrategy<Race> {
    let rec = (prop::option::of(1u8..5), 0u8..60, 0u8..3, prop::option::weighted(0.3, 0u8..100));
    let which = if which.pubsub() { any::<bool>().prop_map(Which::PubSub).boxed() } else { Just(which).boxed() };
    (which, 0u8..4, prop::collection::vec(rec, 1..5), 1u8..4, 1u8..25, 0u8..3)
        .prop_map(move |(which, strat, recs, publishers, each, churn)| Race { which, strat, recs, publishers, each, churn })
        .boxed()
}

fn sim_case(c: &Case) -> CaseResult {
    sim::run(history(c)).unwrap_or_else(|| fail("hang", "the system never comes to rest"))
}

fn mt_case(c: &Race) -> CaseResult {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_time().build().unwrap();
    let r = rt.block_on(race(c));
    rt.shutdown_background();
    r
}

pub fn run(s: &mut Session, which: Which) {
    s.prop("hub_histories", "several subscriptions and more than one delivery, no two events at one instant", 120_000, 3_000_000, move || boxed(case(which)), sim_case);
    s.prop_sharded("hub_on_threads", "several recipients and more than three publications", 1_500, 40_000, 4, move || boxed(race_case(which)), mt_case);
}

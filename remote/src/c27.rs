//! C27: links across nodes. Histories of links, unlinks, deaths and lost connections against the graph of links, and
//! links with actors of a peer which is not a kameo node.
use std::{
    collections::{BTreeMap, BTreeSet},
    time::{Duration, Instant},
};

use kameo::{
    actor::ActorID,
    error::{ActorStopReason, PanicError},
    remote::{SwarmRequest, SwarmResponse},
};
use pbt::{boxed, ensure, fail, CaseResult, Fail, Info, Session};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::{
    c25::{place, PAIR, STRANGER},
    node,
    proto::*,
    puppet::{self, Answer},
    world::{self, fresh, Kind, World},
};

const TWO: Kind = Kind {
    manual: [Some(true), Some(true), None],
    max_records: 100_000,
    timeout_ms: 60_000, query_ms: 20_000,
    puppet: false,
    once: false,
};
const THREE: Kind = Kind { manual: [Some(true); 3], ..TWO };

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum By {
    /// `ActorRef::link_remote` of the first
    First,
    Second,
    /// `RemoteActorRef::link_remote` on that node
    Refs(u8),
    /// `ActorRef::link`, if they are on the same node
    Local,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Link { on: bool, x: u8, y: u8, by: By },
    End(u8, How),
    /// closes all connections between two nodes
    Cut { i: u8, j: u8 },
    /// closes one of them
    One { i: u8, j: u8, n: u8 },
    /// makes another one
    More { i: u8, j: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Act {
    node: u8,
    ty: Ty,
    cap: Option<u8>,
    resilient: bool,
    /// or known by links only
    registered: bool,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Nodes {
    Pair,
    Two,
    Three,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    nodes: Nodes,
    acts: Vec<Act>,
    ops: Vec<Op>,
}

struct Live {
    n: u64,
    node: usize,
    resilient: bool,
    registered: bool,
    seq: u64,
    alive: bool,
    /// how many events were seen
    seen: usize,
}

/// Links as each actor has them.
struct Model<'a> {
    w: &'a World,
    acts: Vec<Live>,
    links: Vec<BTreeSet<usize>>,
    /// notifications which may still come
    late: Vec<Vec<(u64, String)>>,
}

fn events(log: Vec<Ev>) -> Vec<Ev> {
    log.into_iter().filter(|e| matches!(e, Ev::Link(..) | Ev::Stop(_))).collect()
}

const PEER: &str = "peer";

impl Model<'_> {
    fn who(&self, x: usize) -> String {
        format!("actor {x} (node {}{})", self.acts[x].node, if self.acts[x].resilient { ", resilient" } else { "" })
    }

    /// Something happened: `root` ends by that reason, and the connections from the first node of each pair in `lost` to the
    /// second are lost. Everybody who is to be notified is, by what they are to be.
    fn happens(&mut self, root: Option<(usize, &str)>, lost: &[(usize, usize)]) -> Result<(), Fail> {
        let k = self.acts.len();
        let cut = |m: &Self, z: usize, x: usize| lost.contains(&(m.acts[z].node, m.acts[x].node));
        let mut dead = vec![false; k];
        // those whose deaths stop others
        let mut spreading = vec![];
        if let Some((r, reason)) = root {
            dead[r] = true;
            if reason != "normal" {
                spreading.push(r);
            }
        }
        for z in 0..k {
            if self.acts[z].alive && !self.acts[z].resilient && self.links[z].iter().any(|x| cut(self, z, *x)) {
                dead[z] = true;
                spreading.push(z);
            }
        }
        while let Some(x) = spreading.pop() {
            for &z in &self.links[x] {
                if self.acts[z].alive && !self.acts[z].resilient && !dead[z] {
                    dead[z] = true;
                    spreading.push(z);
                }
            }
        }
        // wait for what must happen
        let mut logs = vec![vec![]; k];
        let mut reason = vec![String::new(); k];
        for z in (0..k).filter(|z| dead[*z]) {
            let a = &self.acts[z];
            let what = format!("the end of {}", self.who(z));
            self.w.nodes[a.node].yes(Cmd::WaitStopped { a: a.n }, &what)?;
            logs[z] = events(self.w.nodes[a.node].log(a.n)?)[a.seen..].to_vec();
            let Some(Ev::Stop(r)) = logs[z].last() else {
                return fail("stop", format!("{} stops without on_stop: {:?}", self.who(z), logs[z]));
            };
            reason[z] = r.clone();
        }
        let expected = |m: &Self, z: usize| m.links[z].iter().filter(|x| cut(m, z, **x) || dead[**x]).count();
        for z in (0..k).filter(|z| self.acts[*z].alive && !dead[*z]) {
            let (a, n) = (&self.acts[z], expected(self, z));
            let node = &self.w.nodes[a.node];
            // a late one may be there already
            let late = self.late[z].len();
            if n > 0 {
                let r = node.call(Cmd::WaitEvents { a: a.n, n: a.seen + n, ms: 15_000 })?;
                if r != Resp::Bool(true) {
                    let log = node.log(a.n)?;
                    return fail(
                        "not-notified",
                        format!("{} is notified of {} instead of {n} linked actors: {log:?}", self.who(z), log.len() - a.seen),
                    );
                }
            }
            // what came is done with
            let job = Job::new(fresh(), Out::Ok);
            let r = node.res(Cmd::Req { local: Some(a.n), slot: 0, ask: true, try_: false, mbt: None, rt: None, job })?;
            ensure!(matches!(r, Res::Ok(_)), "alive", "{} should be running: {r:?}", self.who(z));
            logs[z] = events(node.log(a.n)?)[a.seen..].to_vec();
            let _ = late;
        }
        // compare
        for z in (0..k).filter(|z| self.acts[*z].alive) {
            let mut got: Vec<(u64, String)> = vec![];
            for e in &logs[z] {
                if let Ev::Link(seq, peer, r) = e {
                    let known = self.acts.iter().find(|x| x.seq == *seq && self.w.nodes[x.node].peer == *peer);
                    ensure!(known.is_some(), "id", "{} is notified of the death of {seq} of {peer}", self.who(z));
                    got.push((known.unwrap().n, r.clone()));
                }
            }
            let show = format!("{}: {:?}", self.who(z), logs[z]);
            if dead[z] {
                if root.is_some_and(|(r, _)| r == z) {
                    ensure!(reason[z] == root.unwrap().1, "reason", "an actor ended by {root:?} stopped by {:?}", reason[z]);
                    self.late[z].retain(|l| !got.contains(l));
                    continue;
                }
                // by the first of those which it must not survive
                ensure!(got.len() == 1, "notified", "notified {} times before stopping: {show}", got.len());
                let (n, r) = &got[0];
                let x = self.acts.iter().position(|a| a.n == *n).unwrap();
                let ok = self.links[z].contains(&x) && (cut(self, z, x) && r == PEER || dead[x] && *r == reason[x]);
                ensure!(ok, "cause", "notified of {} which did not happen: {show}", self.who(x));
                let want = format!("link({},{r})", self.acts[x].seq);
                ensure!(reason[z] == want, "reason", "stopped by {:?} instead of {want:?}: {show}", reason[z]);
                continue;
            }
            let mut late = std::mem::take(&mut self.late[z]);
            for x in 0..k {
                let mut of: Vec<&str> = got.iter().filter(|g| g.0 == self.acts[x].n).map(|g| g.1.as_str()).collect();
                if let Some(i) = late.iter().position(|l| l.0 == self.acts[x].n && of.contains(&l.1.as_str())) {
                    let (_, r) = late.remove(i);
                    let j = of.iter().position(|g| **g == r).unwrap();
                    of.remove(j);
                }
                let linked = self.links[z].contains(&x);
                let (gone, died) = (linked && cut(self, z, x), linked && dead[x]);
                let ok = match (gone, died) {
                    (false, false) => of.is_empty(),
                    (true, false) => of == [PEER],
                    (false, true) => of == [reason[x].as_str()],
                    // it may learn of both
                    (true, true) => {
                        of == [PEER] || of == [reason[x].as_str()] || of.len() == 2 && of[0] != of[1] && {
                            of.iter().all(|r| *r == PEER || *r == reason[x])
                        }
                    }
                };
                ensure!(
                    ok,
                    "notified",
                    "notified by {of:?} of {} (connection lost: {gone}, dead: {died}{}): {show}",
                    self.who(x),
                    if linked { "" } else { ", not linked" }
                );
                if gone && died && !of.contains(&reason[x].as_str()) {
                    late.push((self.acts[x].n, reason[x].clone()));
                }
            }
            self.late[z] = late;
        }
        // what is left
        for z in 0..k {
            if self.acts[z].alive {
                self.acts[z].seen += logs[z].len();
            }
            if dead[z] {
                self.acts[z].alive = false;
                self.links[z].clear();
            } else {
                let keep = self.links[z].iter().copied().filter(|x| !(cut(self, z, *x) || dead[*x])).collect();
                self.links[z] = keep;
            }
        }
        Ok(())
    }

    /// How often node `i` lost its last connection to `j`; the same number for nodes which don't tell.
    fn lost(&self, i: usize, j: usize) -> Result<u64, Fail> {
        let n = &self.w.nodes[i];
        if n.manual { Ok(n.conns(&self.w.nodes[j].peer)?.1) } else { Ok(0) }
    }
}

/// Every node has a connection to every other one, as far as they know.
fn ready(w: &World, ping: u64) -> Result<bool, Fail> {
    let until = Instant::now() + Duration::from_secs(10);
    loop {
        w.connect()?;
        let mut ok = true;
        for (i, a) in w.nodes.iter().enumerate() {
            for b in w.nodes.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, b)| b) {
                ok &= if a.manual {
                    a.conns(&b.peer)?.0 > 0
                } else {
                    let job = Job::new(fresh(), Out::Ok);
                    let r = a.res(Cmd::Req { local: None, slot: ping, ask: true, try_: false, mbt: None, rt: None, job })?;
                    matches!(r, Res::Ok(_))
                };
            }
        }
        if ok || Instant::now() > until {
            return Ok(ok);
        }
        std::thread::sleep(Duration::from_millis(1));
    }
}

fn history(c: &Case) -> CaseResult {
    let kind = match c.nodes {
        Nodes::Pair => PAIR,
        Nodes::Two => TWO,
        Nodes::Three => THREE,
    };
    world::with(kind, |w| {
        let k = w.nodes.len();
        w.connect()?;
        let mut m = Model { w, acts: vec![], links: vec![BTreeSet::new(); c.acts.len()], late: vec![vec![]; c.acts.len()] };
        for a in &c.acts {
            let node = a.node as usize % k;
            let n = if a.registered {
                place(w, node, a.ty, a.cap, a.resilient)?
            } else {
                let n = fresh();
                w.nodes[node].call(Cmd::Spawn { a: n, ty: a.ty, cap: a.cap, resilient: a.resilient })?;
                n
            };
            let Resp::Id(seq, _) = w.nodes[node].call(Cmd::IdOf { a: n })? else { unreachable!() };
            m.acts.push(Live { n, node, resilient: a.resilient, registered: a.registered, seq, alive: true, seen: 0 });
        }
        let mut lost: BTreeMap<(usize, usize), u64> = BTreeMap::new();
        for i in 0..k {
            for j in (0..k).filter(|j| *j != i) {
                lost.insert((i, j), m.lost(i, j)?);
            }
        }
        let (mut notified, mut cuts, mut kept, mut unlinked, mut by_refs) = (0, 0, 0, false, false);
        let ping = if c.nodes == Nodes::Pair { place(w, 0, Ty::A, None, true)? } else { 0 };
        for op in &c.ops {
            if !ready(w, ping)? {
                return Ok(Info::new(false));
            }
            match op {
                Op::Link { on, x, y, by } => {
                    let (x, y) = (*x as usize % c.acts.len(), *y as usize % c.acts.len());
                    let (a, b) = (&m.acts[x], &m.acts[y]);
                    if !a.alive || !b.alive {
                        continue;
                    }
                    let (on, same) = (*on, a.node == b.node);
                    let (na, nb) = (&w.nodes[a.node], &w.nodes[b.node]);
                    let cmd = match by {
                        By::First if b.registered => (na, Cmd::Link { on, a: a.n, slot: b.n }),
                        By::Second if a.registered => (nb, Cmd::Link { on, a: b.n, slot: a.n }),
                        By::Refs(n) if a.registered && b.registered => {
                            by_refs = true;
                            (&w.nodes[*n as usize % k], Cmd::Link2 { on, slot: a.n, slot2: b.n })
                        }
                        By::Local if same => (na, Cmd::LinkLocal { on, a: a.n, b: b.n }),
                        _ => continue,
                    };
                    // who is not registered is not known before being linked
                    if !on && !(a.registered && b.registered) && !m.links[x].contains(&y) {
                        continue;
                    }
                    let local = matches!(cmd.1, Cmd::LinkLocal { .. });
                    let until = Instant::now() + Duration::from_secs(20);
                    let mut r = cmd.0.call(cmd.1.clone())?;
                    while matches!(r, Resp::Res(Res::Net(_))) && cuts + kept > 0 && Instant::now() < until {
                        std::thread::sleep(Duration::from_millis(2));
                        r = cmd.0.call(cmd.1.clone())?;
                    }
                    let want = if local { Resp::Unit } else { Resp::Res(Res::Ok(None)) };
                    ensure!(r == want, "link", "{op:?} of {} and {} gives {r:?}", m.who(x), m.who(y));
                    if x == y {
                        continue;
                    }
                    if on {
                        m.links[x].insert(y);
                        m.links[y].insert(x);
                    } else {
                        unlinked |= m.links[x].contains(&y);
                        m.links[x].remove(&y);
                        m.links[y].remove(&x);
                    }
                }
                Op::End(x, how) => {
                    let x = *x as usize % c.acts.len();
                    let a = &m.acts[x];
                    if !a.alive || *how == How::Panic && a.resilient {
                        continue;
                    }
                    notified += m.links[x].iter().filter(|y| m.acts[**y].node != a.node).count();
                    w.nodes[a.node].call(Cmd::End { a: a.n, how: *how })?;
                    let reason = match how {
                        How::Kill => "killed",
                        How::Stop => "normal",
                        How::Panic => "panicked",
                    };
                    m.happens(Some((x, reason)), &[])?;
                }
                Op::Cut { i, j } | Op::One { i, j, .. } | Op::More { i, j } => {
                    let (i, j) = (*i as usize % k, *j as usize % k);
                    if i == j {
                        continue;
                    }
                    let crossing: Vec<usize> = (0..m.acts.len())
                        .filter(|x| m.links[*x].iter().any(|y| [(i, j), (j, i)].contains(&(m.acts[*x].node, m.acts[*y].node))))
                        .collect();
                    // a node which is on its own does not tell what it noticed before others reconnected
                    let own = !w.nodes[i].manual || !w.nodes[j].manual;
                    let (watch, other) = if w.nodes[i].manual { (i, j) } else { (j, i) };
                    let (node, peer) = (&w.nodes[watch], &w.nodes[other].peer);
                    let before = node.conns(peer)?;
                    match op {
                        Op::More { .. } => {
                            if before.0 > 3 {
                                continue;
                            }
                            node.call(Cmd::Dial { peer: peer.clone(), addr: w.nodes[other].addr.clone() })?;
                            let until = Instant::now() + Duration::from_secs(5);
                            while node.conns(peer)?.0 <= before.0 && Instant::now() < until {
                                std::thread::sleep(Duration::from_micros(500));
                            }
                            m.happens(None, &[])?;
                        }
                        Op::One { n, .. } if before.0 > 1 => {
                            node.call(Cmd::Close { peer: peer.clone(), n: *n as usize })?;
                            let until = Instant::now() + Duration::from_secs(5);
                            while node.conns(peer)?.0 >= before.0 && Instant::now() < until {
                                std::thread::sleep(Duration::from_micros(500));
                            }
                            // so that the other node notices too
                            std::thread::sleep(Duration::from_millis(4));
                            kept += !crossing.is_empty() as usize;
                            m.happens(None, &[])?;
                        }
                        _ => {
                            if own && crossing.iter().any(|x| !m.acts[*x].resilient) {
                                continue;
                            }
                            // by either side, all at once or one after another
                            let one_by_one = matches!(op, Op::One { .. });
                            let until = Instant::now() + Duration::from_secs(10);
                            if one_by_one {
                                node.call(Cmd::Close { peer: peer.clone(), n: 0 })?;
                            } else {
                                w.nodes[i].call(Cmd::Disconnect { peer: w.nodes[j].peer.clone() })?;
                            }
                            let mut ok = true;
                            for (i, j) in [(i, j), (j, i)] {
                                while w.nodes[i].manual && m.lost(i, j)? == lost[&(i, j)] {
                                    if Instant::now() > until {
                                        ok = false;
                                        break;
                                    }
                                    std::thread::sleep(Duration::from_micros(500));
                                }
                            }
                            if !ok {
                                // reconnected before it was noticed
                                return Ok(Info::new(false));
                            }
                            cuts += !crossing.is_empty() as usize;
                            m.happens(None, &[(i, j), (j, i)])?;
                            for (i, j) in [(i, j), (j, i)] {
                                *lost.get_mut(&(i, j)).unwrap() += w.nodes[i].manual as u64;
                            }
                        }
                    }
                }
            }
            for (k, v) in &lost {
                if m.lost(k.0, k.1)? != *v {
                    // lost for another reason
                    return Ok(Info::new(false));
                }
            }
        }
        m.happens(None, &[])?;
        Ok(Info::new(notified + cuts > 0)
            .label(notified > 0, "notified_across_nodes")
            .label(cuts > 0, "connection_lost")
            .label(kept > 0, "connection_kept")
            .label(unlinked, "unlinked")
            .label(by_refs, "by_remote_refs")
            .label(c.nodes == Nodes::Three, "three_nodes"))
    })
}

fn case() -> impl Strategy<Value = Case> {
    let ty = || prop_oneof![Just(Ty::A), Just(Ty::B)];
    let act = (0u8..3, ty(), prop::option::weighted(0.5, 1u8..4), prop::bool::weighted(0.55), prop::bool::weighted(0.85))
        .prop_map(|(node, ty, cap, resilient, registered)| Act { node, ty, cap, resilient, registered });
    let by = || prop_oneof![
        4 => Just(By::First),
        2 => Just(By::Second),
        3 => (0u8..3).prop_map(By::Refs),
        1 => Just(By::Local),
    ];
    let op = prop_oneof![
        10 => (prop::bool::weighted(0.75), 0u8..6, 0u8..6, by()).prop_map(|(on, x, y, by)| Op::Link { on, x, y, by }),
        4 => (0u8..6, prop_oneof![Just(How::Kill), Just(How::Stop), Just(How::Panic)]).prop_map(|(x, h)| Op::End(x, h)),
        2 => (0u8..3, 0u8..3).prop_map(|(i, j)| Op::Cut { i, j }),
        2 => (0u8..3, 0u8..3, 0u8..4).prop_map(|(i, j, n)| Op::One { i, j, n }),
        2 => (0u8..3, 0u8..3).prop_map(|(i, j)| Op::More { i, j }),
    ];
    (
        prop_oneof![2 => Just(Nodes::Pair), 3 => Just(Nodes::Two), 2 => Just(Nodes::Three)],
        prop::collection::vec(act, 2..7),
        prop::collection::vec((0u8..6, 0u8..6, by()), 1..8),
        prop::collection::vec(op, 2..18),
    )
        .prop_map(|(nodes, acts, first, ops)| {
            let first = first.into_iter().map(|(x, y, by)| Op::Link { on: true, x, y, by });
            Case { nodes, acts, ops: first.chain(ops).collect() }
        })
}

// ---------------------------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Why {
    Normal,
    Killed,
    Panicked(String),
    Peer,
    Link(u64, bool, Box<Why>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum FOp {
    /// the peer links the node's actor with one of its own
    Link { a: u8, f: u64 },
    Unlink { a: u8, f: u64 },
    /// the peer's actor dies, and the node's is told
    Died { a: u8, f: u64, why: Why },
    End(u8, How),
    /// the peer closes its connections
    Cut,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Foreign {
    acts: Vec<(Ty, bool)>,
    ops: Vec<FOp>,
}

fn foreign_type(f: u64) -> String {
    format!("foreign-{}", f % 3)
}

fn foreign(c: &Foreign) -> CaseResult {
    world::with(STRANGER, |w| {
        let (node, p) = (&w.nodes[0], w.puppet.as_ref().unwrap());
        let own: libp2p::PeerId = node.peer.parse().unwrap();
        struct T {
            n: u64,
            ty: Ty,
            id: ActorID,
            resilient: bool,
            alive: bool,
            links: BTreeSet<u64>,
            want: Vec<Ev>,
        }
        let mut acts = vec![];
        for (ty, resilient) in &c.acts {
            let n = fresh();
            let Resp::Id(seq, _) = node.call(Cmd::Spawn { a: n, ty: *ty, cap: None, resilient: *resilient })? else {
                unreachable!()
            };
            let until = Instant::now() + Duration::from_secs(20);
            while node.call(Cmd::Register { a: n, name: format!("f-{n}") })? != Resp::Unit {
                ensure!(Instant::now() < until, "register", "an actor cannot be registered");
            }
            let id = ActorID::new_with_peer_id(seq, own);
            acts.push(T { n, ty: *ty, id, resilient: *resilient, alive: true, links: BTreeSet::new(), want: vec![] });
        }
        p.answers.lock().unwrap().clear();
        p.asked.lock().unwrap().clear();
        // (a connection may have to be made)
        let send = |r: &SwarmRequest| -> Result<SwarmResponse, Fail> {
            let until = Instant::now() + Duration::from_secs(20);
            loop {
                if let Some(r) = p.send(own, puppet::encode(r))?.and_then(|r| puppet::decode_response(&r)) {
                    return Ok(r);
                }
                ensure!(Instant::now() < until, "no-answer", "{r:?} is never answered");
                std::thread::sleep(Duration::from_millis(2));
            }
        };
        fn reason(w: &Why, own: libp2p::PeerId, other: libp2p::PeerId) -> ActorStopReason {
            match w {
                Why::Normal => ActorStopReason::Normal,
                Why::Killed => ActorStopReason::Killed,
                Why::Panicked(t) => ActorStopReason::Panicked(PanicError::new(Box::new(t.clone()))),
                Why::Peer => ActorStopReason::PeerDisconnected,
                Why::Link(s, o, r) => ActorStopReason::LinkDied {
                    id: ActorID::new_with_peer_id(*s, if *o { own } else { other }),
                    reason: Box::new(reason(r, own, other)),
                },
            }
        }
        // connects, so that nothing is missing later
        let nothing = SwarmRequest::Unlink {
            actor_id: ActorID::new_with_peer_id(0, own),
            actor_remote_id: "nobody".into(),
            sibbling_id: ActorID::new_with_peer_id(0, p.peer),
        };
        let (mut told, mut cut, mut deaths) = (0, false, 0);
        for op in &c.ops {
            send(&nothing)?;
            match op {
                FOp::Link { a, f } | FOp::Unlink { a, f } => {
                    let a = *a as usize % acts.len();
                    let t = &mut acts[a];
                    if !t.alive {
                        continue;
                    }
                    let on = matches!(op, FOp::Link { .. });
                    let (actor_id, actor_remote_id) = (t.id, type_id(t.ty).into());
                    let sibbling_id = ActorID::new_with_peer_id(*f, p.peer);
                    let r = if on {
                        t.links.insert(*f);
                        send(&SwarmRequest::Link {
                            actor_id,
                            actor_remote_id,
                            sibbling_id,
                            sibbling_remote_id: foreign_type(*f).into(),
                        })?
                    } else {
                        t.links.remove(f);
                        send(&SwarmRequest::Unlink { actor_id, actor_remote_id, sibbling_id })?
                    };
                    let ok = match r {
                        SwarmResponse::Link(Ok(())) => on,
                        SwarmResponse::Unlink(Ok(())) => !on,
                        _ => false,
                    };
                    ensure!(ok, "link", "{op:?} is answered with {r:?}");
                }
                FOp::Died { a, f, why } => {
                    let a = *a as usize % acts.len();
                    let t = &mut acts[a];
                    // (whether linked or not is not for it to know)
                    if !t.alive || !t.links.remove(f) {
                        continue;
                    }
                    told += 1;
                    let stop_reason = reason(why, own, p.peer);
                    let d = node::desc(&stop_reason);
                    let r = send(&SwarmRequest::SignalLinkDied {
                        dead_actor_id: ActorID::new_with_peer_id(*f, p.peer),
                        notified_actor_id: t.id,
                        notified_actor_remote_id: type_id(t.ty).into(),
                        stop_reason,
                    })?;
                    ensure!(matches!(r, SwarmResponse::SignalLinkDied(Ok(()))), "died", "{op:?} is answered with {r:?}");
                    // texts of panics get longer on the way
                    t.want.push(Ev::Link(*f, p.peer.to_string(), d));
                    if !t.resilient && !matches!(why, Why::Normal) {
                        gone(node, p, &mut t.links, t.n, t.id, None)?;
                        t.alive = false;
                        deaths += 1;
                    } else {
                        settle(node, t.n, t.want.len())?;
                    }
                }
                FOp::End(a, how) => {
                    let a = *a as usize % acts.len();
                    let t = &mut acts[a];
                    if !t.alive || *how == How::Panic && t.resilient {
                        continue;
                    }
                    deaths += t.links.len();
                    node.call(Cmd::End { a: t.n, how: *how })?;
                    let want = match how {
                        How::Kill => "killed",
                        How::Stop => "normal",
                        How::Panic => "panicked",
                    };
                    gone(node, p, &mut t.links, t.n, t.id, Some(want))?;
                    t.alive = false;
                }
                FOp::Cut => {
                    // others would redial while this is going on
                    if acts.iter().any(|t| t.alive && !t.resilient && !t.links.is_empty()) {
                        continue;
                    }
                    cut = true;
                    p.disconnect(own)?;
                    for t in acts.iter_mut().filter(|t| t.alive) {
                        for f in std::mem::take(&mut t.links) {
                            t.want.push(Ev::Link(f, p.peer.to_string(), PEER.into()));
                        }
                        settle(node, t.n, t.want.len())?;
                    }
                }
            }
        }
        send(&nothing)?;
        ensure!(p.asked.lock().unwrap().is_empty(), "notified", "the peer is asked for more: {:?}", asked(p));
        for t in &mut acts {
            let mut log: Vec<Ev> = node.log(t.n)?.into_iter().filter(|e| matches!(e, Ev::Link(..))).collect();
            // those of one loss in any order; the texts of panics in whatever form
            let key = |e: &Ev| match e {
                Ev::Link(f, p, r) => Ev::Link(*f, p.clone(), r.split("panicked(").next().unwrap().into()),
                e => e.clone(),
            };
            let sort = |l: &mut Vec<Ev>| {
                *l = l.iter().map(key).collect();
                for g in l.chunk_by_mut(|a, b| matches!((a, b), (Ev::Link(_, _, x), Ev::Link(_, _, y)) if x == PEER && y == PEER)) {
                    g.sort_by_key(|e| if let Ev::Link(f, ..) = e { *f } else { 0 });
                }
            };
            sort(&mut log);
            sort(&mut t.want);
            ensure!(log == t.want, "notified", "an actor is notified by {log:?} instead of {:?}", t.want);
        }
        Ok(Info::new(told + deaths > 0).label(cut, "connection_lost").label(deaths > 0, "died").label(told > 0, "told"))
    })
}

fn asked(p: &puppet::Puppet) -> Vec<Option<SwarmRequest>> {
    p.asked.lock().unwrap().iter().map(|b| puppet::decode_request(b)).collect()
}

/// The actor got that many notifications, and is done with them.
fn settle(node: &world::Node, n: u64, events: usize) -> Result<(), Fail> {
    node.yes(Cmd::WaitEvents { a: n, n: events, ms: 15_000 }, "the notification of an actor")?;
    let job = Job::new(fresh(), Out::Ok);
    let r = node.res(Cmd::Req { local: Some(n), slot: 0, ask: true, try_: false, mbt: None, rt: None, job })?;
    ensure!(matches!(r, Res::Ok(_)), "alive", "an actor is expected to be running: {r:?}");
    Ok(())
}

/// The actor stops, and each of the peer's actors linked with it is told once.
fn gone(
    node: &world::Node,
    p: &puppet::Puppet,
    links: &mut BTreeSet<u64>,
    n: u64,
    id: ActorID,
    reason: Option<&str>,
) -> Result<(), Fail> {
    let ok = puppet::encode_response(&SwarmResponse::SignalLinkDied(Ok(())));
    *p.answers.lock().unwrap() = links.iter().map(|_| Answer::Bytes(ok.clone())).collect();
    node.yes(Cmd::WaitStopped { a: n }, "the end of an actor")?;
    let until = Instant::now() + Duration::from_secs(10);
    while p.asked.lock().unwrap().len() < links.len() && Instant::now() < until {
        std::thread::sleep(Duration::from_micros(200));
    }
    let log = node.log(n)?;
    let Some(Ev::Stop(why)) = log.last() else { return fail("stop", format!("an actor stops without on_stop: {log:?}")) };
    ensure!(reason.is_none_or(|r| r == why), "reason", "an actor stopped by {why:?} instead of {reason:?}");
    let mut left = std::mem::take(links);
    for r in asked(p) {
        let Some(SwarmRequest::SignalLinkDied { dead_actor_id, notified_actor_id, notified_actor_remote_id, stop_reason }) = r
        else {
            return fail("wire", format!("the peer is asked {r:?}"));
        };
        let f = notified_actor_id.sequence_id();
        let same = |a: ActorID, peer: &libp2p::PeerId| a.peer_id() == Some(peer);
        let ok = dead_actor_id.sequence_id() == id.sequence_id()
            && same(dead_actor_id, id.peer_id().unwrap())
            && same(notified_actor_id, &p.peer)
            && notified_actor_remote_id == foreign_type(f);
        ensure!(ok, "wire", "{f} ({notified_actor_remote_id}) is told of the death of {dead_actor_id} instead of {id}");
        let d = node::desc(&stop_reason);
        let cut = |s: &str| s.split("panicked(").next().unwrap().to_string();
        ensure!(cut(&d) == cut(why), "reason", "the peer is told {d:?} instead of {why:?}");
        ensure!(left.remove(&f), "notified", "the peer's actor {f} is told though it is not linked, or twice");
    }
    ensure!(left.is_empty(), "not-notified", "the peer's actors {left:?} are not told");
    p.asked.lock().unwrap().clear();
    Ok(())
}

fn foreigns() -> impl Strategy<Value = Foreign> {
    let why = prop_oneof![
        Just(Why::Normal),
        Just(Why::Killed),
        "[a-z ]{0,12}".prop_map(Why::Panicked),
        Just(Why::Peer)
    ]
    .prop_recursive(3, 4, 1, |r| (any::<u64>(), any::<bool>(), r).prop_map(|(s, o, r)| Why::Link(s, o, Box::new(r))));
    let f = || prop_oneof![4 => 0u64..5, 1 => any::<u64>()];
    let how = prop_oneof![Just(How::Kill), Just(How::Stop), Just(How::Panic)];
    let op = prop_oneof![
        8 => (0u8..3, f()).prop_map(|(a, f)| FOp::Link { a, f }),
        2 => (0u8..3, f()).prop_map(|(a, f)| FOp::Unlink { a, f }),
        3 => (0u8..3, f(), why).prop_map(|(a, f, why)| FOp::Died { a, f, why }),
        2 => (0u8..3, how).prop_map(|(a, h)| FOp::End(a, h)),
        1 => Just(FOp::Cut),
    ];
    (
        prop::collection::vec((prop_oneof![Just(Ty::A), Just(Ty::B)], prop::bool::weighted(0.6)), 1..4),
        prop::collection::vec(op, 2..20),
    )
        .prop_map(|(acts, ops)| Foreign { acts, ops })
}

// ---------------------------------------------------------------------------------------------------------------------

/// Actors which are busy, most of them with full mailboxes, while those they are linked with end or are cut off.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Busy {
    /// their nodes, types and mailboxes, how many messages are queued, and with which others they are linked
    watchers: Vec<(u8, Ty, Option<u8>, u8, u8)>,
    others: Vec<(u8, Ty, How)>,
    /// the connection is lost, instead of the others ending
    cut: bool,
    ms: u16,
}

fn busy(c: &Busy) -> CaseResult {
    world::with(TWO, |w| {
        if !ready(w, 0)? {
            return Ok(Info::new(false));
        }
        let (mut watchers, mut others) = (vec![], vec![]);
        for (node, ty, _) in &c.others {
            let node = *node as usize % 2;
            let n = place(w, node, *ty, None, true)?;
            let Resp::Id(seq, _) = w.nodes[node].call(Cmd::IdOf { a: n })? else { unreachable!() };
            others.push((n, node, seq));
        }
        let (mut full, mut far) = (false, false);
        for (node, ty, cap, fill, links) in &c.watchers {
            let node = *node as usize % 2;
            let n = place(w, node, *ty, *cap, true)?;
            let mut linked = vec![];
            for (k, o) in others.iter().enumerate().filter(|(k, _)| links >> k & 1 == 1) {
                let until = Instant::now() + Duration::from_secs(10);
                let mut r = w.nodes[node].call(Cmd::Link { on: true, a: n, slot: o.0 })?;
                // (an earlier case's cut may be noticed late)
                while matches!(r, Resp::Res(Res::Net(_))) && Instant::now() < until {
                    std::thread::sleep(Duration::from_millis(2));
                    r = w.nodes[node].call(Cmd::Link { on: true, a: n, slot: o.0 })?;
                }
                ensure!(r == Resp::Res(Res::Ok(None)), "link", "linking gives {r:?}");
                linked.push(k);
            }
            let job = |id, gate| {
                let mut job = Job::new(id, Out::Ok);
                job.gate = gate;
                Cmd::Req { local: Some(n), slot: 0, ask: false, try_: false, mbt: None, rt: None, job }
            };
            let g = fresh();
            w.nodes[node].res(job(g, true))?;
            w.nodes[node].yes(Cmd::WaitBegin { a: n, id: g }, "a told message is handled")?;
            let fill = cap.map_or(*fill, |cap| cap.min(*fill));
            for _ in 0..fill {
                w.nodes[node].res(job(fresh(), false))?;
            }
            full |= *cap == Some(fill) && !linked.is_empty();
            far |= linked.iter().any(|k| others[*k].1 != node);
            watchers.push((n, node, linked));
        }
        let before: Vec<u64> = (0..2).map(|i| Ok(w.nodes[i].conns(&w.nodes[1 - i].peer)?.1)).collect::<Result<_, Fail>>()?;
        if c.cut {
            w.nodes[0].call(Cmd::Disconnect { peer: w.nodes[1].peer.clone() })?;
            let until = Instant::now() + Duration::from_secs(10);
            for i in 0..2 {
                while w.nodes[i].conns(&w.nodes[1 - i].peer)?.1 == before[i] {
                    if Instant::now() > until {
                        return Ok(Info::new(false));
                    }
                    std::thread::sleep(Duration::from_micros(500));
                }
            }
        } else {
            for ((n, node, _), (_, _, how)) in others.iter().zip(&c.others) {
                w.nodes[*node].call(Cmd::End { a: *n, how: *how })?;
            }
        }
        std::thread::sleep(Duration::from_millis(c.ms as u64));
        for (n, node, _) in &watchers {
            w.nodes[*node].call(Cmd::Open { a: *n, n: 1 })?;
        }
        for (n, node, linked) in &watchers {
            let mut want: Vec<(u64, String, String)> = linked
                .iter()
                .filter(|k| !c.cut || others[**k].1 != *node)
                .map(|k| {
                    let (_, at, seq) = &others[*k];
                    let r = match c.others[*k].2 {
                        _ if c.cut => PEER,
                        How::Stop => "normal",
                        _ => "killed",
                    };
                    (*seq, w.nodes[*at].peer.clone(), r.to_string())
                })
                .collect();
            let r = w.nodes[*node].call(Cmd::WaitEvents { a: *n, n: want.len(), ms: 15_000 })?;
            if r != Resp::Bool(true) {
                let log = events(w.nodes[*node].log(*n)?);
                if !c.cut && (0..2).any(|i| w.nodes[i].conns(&w.nodes[1 - i].peer).is_ok_and(|x| x.1 != before[i])) {
                    // lost for another reason
                    return Ok(Info::new(false));
                }
                return fail("not-notified", format!("a busy actor is notified by {log:?} instead of {want:?}"));
            }
            settle(&w.nodes[*node], *n, want.len())?;
            let mut got: Vec<(u64, String, String)> = events(w.nodes[*node].log(*n)?)
                .into_iter()
                .filter_map(|e| if let Ev::Link(seq, peer, r) = e { Some((seq, peer, r)) } else { None })
                .collect();
            want.sort();
            got.sort();
            ensure!(got == want, "notified", "a busy actor is notified by {got:?} instead of {want:?}");
        }
        if !c.cut {
            for (n, node, _) in &others {
                w.nodes[*node].yes(Cmd::WaitStopped { a: *n }, "the end of an actor")?;
            }
        }
        Ok(Info::new(full && far)
            .label(full && far, "mailbox full")
            .label(c.cut, "connection lost")
            .label(c.ms >= 1_500, "for long"))
    })
}

fn busies() -> impl Strategy<Value = Busy> {
    let ty = || prop_oneof![Just(Ty::A), Just(Ty::B)];
    let watcher = (0u8..2, ty(), prop_oneof![1 => Just(None), 5 => (1u8..4).prop_map(Some)], prop_oneof![1 => 0u8..3, 3 => Just(3u8)], 1u8..8);
    (
        prop::collection::vec(watcher, 1..4),
        prop::collection::vec((0u8..2, ty(), prop_oneof![Just(How::Kill), Just(How::Stop)]), 1..4),
        prop::bool::weighted(0.3),
        prop_oneof![75 => 0u16..100, 20 => 1_500u16..2_500, 5 => 5_500u16..6_500],
    )
        .prop_map(|(watchers, others, cut, ms)| Busy { watchers, others, cut, ms })
}

pub fn run(s: &mut Session) {
    let n = crate::shards();
    s.prop_sharded("links", "a notification across nodes", 2_000, 40_000, n, || boxed(case()), history);
    s.prop_sharded("links_of_others", "an actor told of a death, or whose death another peer is told", 2_000, 40_000, n, || boxed(foreigns()), foreign);
    s.prop_sharded("busy_watchers", "a linked actor of the other node ends or is cut off while the mailbox is full", 240, 4_000, n, || boxed(busies()), busy);
}

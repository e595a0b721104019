//! C26: registration and lookup across nodes: histories against a table of names, whatever bytes another peer may store
//! as a record against a reference decoder, and record stores which are full.
use std::{
    collections::BTreeSet,
    time::{Duration, Instant},
};

use kameo::actor::ActorID;
use pbt::{boxed, ensure, fail, CaseResult, Fail, Info, Session};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::{
    c25::{PAIR, STRANGER},
    proto::*,
    world::{self, fresh, Kind, Node, World},
};

pub const THREE: Kind = Kind {
    manual: [Some(true), Some(false), Some(false)],
    max_records: 100_000,
    timeout_ms: 60_000, query_ms: 20_000,
    puppet: false,
    once: false,
};

/// A registration record.
pub fn record(id: &ActorID, ty: &str) -> Vec<u8> {
    let b = id.to_bytes();
    let mut r = vec![(b.len() - 8) as u8];
    r.extend(&b);
    r.extend(ty.as_bytes());
    r
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Register { a: u8, name: u8 },
    Unregister { node: u8, name: u8 },
    Lookup { node: u8, name: u8, ty: Ty },
    LookupLocal { node: u8, name: u8, ty: Ty },
    End(u8),
    /// registers an actor under a new name while the nodes have no connection, then connects them
    Apart { a: u8, text: String },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    three: bool,
    acts: Vec<(u8, Ty)>,
    names: Vec<String>,
    ops: Vec<Op>,
}

struct Act {
    n: u64,
    node: usize,
    ty: Ty,
    seq: u64,
    peer: String,
    alive: bool,
}

fn unconnected(w: &World) -> Result<(), Fail> {
    for (i, n) in w.nodes.iter().enumerate() {
        for m in &w.nodes[i + 1..] {
            n.call(Cmd::Disconnect { peer: m.peer.clone() })?;
        }
    }
    let until = Instant::now() + Duration::from_secs(20);
    let mut tries = 0;
    for m in &w.nodes[1..] {
        while w.nodes[0].conns(&m.peer)?.0 > 0 {
            ensure!(Instant::now() < until, "disconnect", "the connection is never closed");
            std::thread::sleep(Duration::from_millis(1));
            tries += 1;
            if tries % 50 == 0 {
                // there was another on its way
                m.call(Cmd::Disconnect { peer: w.nodes[0].peer.clone() })?;
                w.nodes[0].call(Cmd::Disconnect { peer: m.peer.clone() })?;
            }
        }
    }
    Ok(())
}

/// Looks the name up until it finds what it should.
fn lookup(node: &Node, name: &str, ty: Ty, want: &Resp, slot: u64) -> Result<(), Fail> {
    let until = Instant::now() + Duration::from_secs(20);
    loop {
        let got = node.call(Cmd::Lookup { name: name.into(), ty, slot })?;
        if got == *want {
            return Ok(());
        }
        if Instant::now() > until {
            return fail("lookup", format!("looking up {name:?} as {ty:?} gives {got:?} instead of {want:?}"));
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

fn reaches(node: &Node, slot: u64, a: &Act) -> Result<(), Fail> {
    let job = Job::new(fresh(), Out::Ok);
    let id = job.id;
    let got = node.res(Cmd::Req { local: None, slot, ask: true, try_: false, mbt: None, rt: None, job })?;
    let want =
        if a.alive { Res::Ok(Some(Rep { extra: Extra::of(id), id, by: a.n, data: vec![], fuse: Fuse(false) })) } else { Res::NotRunning };
    ensure!(got == want, "reaches", "the reference found gives {got:?} instead of {want:?}");
    Ok(())
}

fn registrations(c: &Case) -> CaseResult {
    let kind = if c.three { THREE } else { PAIR };
    world::with(kind, |w| {
        let k = w.nodes.len();
        w.connect()?;
        let mut acts = vec![];
        for (node, ty) in &c.acts {
            let (n, node) = (fresh(), *node as usize % k);
            let Resp::Id(seq, peer) = w.nodes[node].call(Cmd::Spawn { a: n, ty: *ty, cap: None, resilient: false })? else {
                unreachable!()
            };
            let peer = peer.unwrap_or_default();
            ensure!(peer == w.nodes[node].peer, "peer", "the id of an actor has the peer {peer:?}");
            acts.push(Act { n, node, ty: *ty, seq, peer, alive: true });
        }
        let tag = fresh();
        let mut names: Vec<String> = c.names.iter().enumerate().map(|(i, t)| format!("{tag}.{i}{t}")).collect();
        // what each stands for, and what it ever was
        let mut table: Vec<(Option<usize>, BTreeSet<Option<usize>>)> = vec![Default::default(); names.len()];
        let (mut other, mut mismatch, mut unknown, mut again) = (false, false, false, false);
        for op in &c.ops {
            match op {
                Op::Register { a, name } => {
                    let (a, i) = (*a as usize % acts.len(), *name as usize % names.len());
                    let r = w.nodes[acts[a].node].call(Cmd::Register { a: acts[a].n, name: names[i].clone() })?;
                    ensure!(r == Resp::Unit, "register", "registering an actor of node {} gives {r:?}", acts[a].node);
                    again |= table[i].0.is_some_and(|x| x != a);
                    let old = table[i].0.replace(a);
                    table[i].1.insert(old);
                }
                Op::Unregister { node, name } => {
                    let i = *name as usize % names.len();
                    let r = w.nodes[*node as usize % k].call(Cmd::Unregister { name: names[i].clone() })?;
                    ensure!(r == Resp::Unit, "unregister", "unregistering a name gives {r:?}");
                    let old = table[i].0.take();
                    table[i].1.insert(old);
                }
                Op::Lookup { node, name, ty } => {
                    let (node, i) = (*node as usize % k, *name as usize % names.len());
                    let slot = fresh();
                    let found = |a: Option<usize>| match a.map(|a| &acts[a]) {
                        None => Resp::Found(None),
                        Some(a) if a.ty != *ty => Resp::Registry("type".into()),
                        Some(a) => Resp::Found(Some((a.seq, Some(a.peer.clone())))),
                    };
                    let mut a = table[i].0;
                    let got = w.nodes[node].call(Cmd::Lookup { name: names[i].clone(), ty: *ty, slot })?;
                    if got != found(a) {
                        // with more than two nodes, one may still have what the name stood for before
                        let before = table[i].1.iter().find(|b| k > 2 && found(**b) == got);
                        let Some(b) = before else {
                            let want = found(a);
                            return fail("lookup", format!("looking up {:?} as {ty:?} gives {got:?} instead of {want:?}", names[i]));
                        };
                        a = *b;
                    }
                    match a.map(|a| &acts[a]) {
                        Some(a) if a.ty == *ty => {
                            reaches(&w.nodes[node], slot, a)?;
                            other |= a.node != node;
                        }
                        Some(_) => mismatch = true,
                        None => unknown = true,
                    }
                }
                Op::LookupLocal { node, name, ty } => {
                    let (node, i) = (*node as usize % k, *name as usize % names.len());
                    let (a, changed) = (table[i].0, !table[i].1.is_empty());
                    let got = w.nodes[node].call(Cmd::LookupLocal { name: names[i].clone(), ty: *ty })?;
                    if changed && k > 2 {
                        continue;
                    }
                    let want = match a.map(|a| &acts[a]) {
                        // others' actors are not local ones, whatever their type
                        Some(a) if a.node != node => {
                            let ok = got == Resp::Found(None) || a.ty != *ty && got == Resp::Registry("type".into());
                            ensure!(ok, "lookup-local", "looking up another node's actor locally gives {got:?}");
                            continue;
                        }
                        None => Resp::Found(None),
                        Some(a) if a.ty != *ty => Resp::Registry("type".into()),
                        Some(a) => Resp::Found(Some((a.seq, Some(a.peer.clone())))),
                    };
                    // a stopped actor has nothing to refer to
                    let gone = a.is_some_and(|a| !acts[a].alive) && got == Resp::Found(None);
                    ensure!(gone || got == want, "lookup-local", "looking up {:?} as {ty:?} locally gives {got:?} instead of {want:?}", names[i]);
                }
                Op::End(a) => {
                    let a = *a as usize % acts.len();
                    let a = &mut acts[a];
                    w.nodes[a.node].call(Cmd::End { a: a.n, how: How::Kill })?;
                    w.nodes[a.node].yes(Cmd::WaitStopped { a: a.n }, "the killed actor stops")?;
                    a.alive = false;
                }
                Op::Apart { a, text } => {
                    let a = *a as usize % acts.len();
                    unconnected(w)?;
                    let name = format!("{tag}.{}{text}", names.len());
                    let until = Instant::now() + Duration::from_secs(20);
                    loop {
                        let r = w.nodes[acts[a].node].call(Cmd::Register { a: acts[a].n, name: name.clone() })?;
                        if r == Resp::Unit {
                            break;
                        }
                        ensure!(Instant::now() < until, "register", "registering an actor of a node without connections gives {r:?}");
                    }
                    w.connect()?;
                    names.push(name.clone());
                    table.push((Some(a), BTreeSet::new()));
                    for node in 0..k {
                        let slot = fresh();
                        let want = Resp::Found(Some((acts[a].seq, Some(acts[a].peer.clone()))));
                        lookup(&w.nodes[node], &name, acts[a].ty, &want, slot)?;
                        let until = Instant::now() + Duration::from_secs(20);
                        while let Err(e) = reaches(&w.nodes[node], slot, &acts[a]) {
                            // connections are being made and closed
                            if !e.msg.contains("Net") || Instant::now() > until {
                                return Err(e);
                            }
                        }
                        other |= node != acts[a].node;
                    }
                }
            }
        }
        Ok(Info::new(other)
            .label(mismatch, "type_mismatch")
            .label(unknown, "unknown_name")
            .label(again, "registered_again")
            .label(c.three, "three_nodes"))
    })
}

fn ty() -> BoxedStrategy<Ty> {
    boxed(prop_oneof![Just(Ty::A), Just(Ty::B)])
}

fn case() -> impl Strategy<Value = Case> {
    let text = || prop_oneof![4 => "[a-z]{0,6}", 2 => ".{0,20}", 1 => ".{200,300}"];
    let op = prop_oneof![
        5 => (0u8..4, 0u8..3).prop_map(|(a, name)| Op::Register { a, name }),
        1 => (0u8..3, 0u8..3).prop_map(|(node, name)| Op::Unregister { node, name }),
        8 => (0u8..3, 0u8..3, ty()).prop_map(|(node, name, ty)| Op::Lookup { node, name, ty }),
        3 => (0u8..3, 0u8..3, ty()).prop_map(|(node, name, ty)| Op::LookupLocal { node, name, ty }),
        1 => (0u8..4).prop_map(Op::End),
        1 => (0u8..4, text()).prop_map(|(a, text)| Op::Apart { a, text }),
    ];
    (
        prop::bool::weighted(0.25),
        prop::collection::vec((0u8..3, ty()), 1..5),
        prop::collection::vec(text(), 1..4),
        prop::collection::vec(op, 1..20),
    )
        .prop_map(|(three, acts, names, ops)| Case { three, acts, names, ops })
}

// ---------------------------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Who {
    Own,
    Puppet,
    Other([u8; 32]),
    None,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Bytes {
    Record { seq: u64, who: Who, ty: String },
    /// with bytes changed
    Flip { seq: u64, who: Who, ty: String, at: u8, x: u8 },
    Truncate { seq: u64, who: Who, ty: String, at: u8 },
    Any(Vec<u8>),
    /// what a node stores for an actor of its own
    Node { ty: Ty, text: String },
}

fn decode(b: &[u8]) -> Option<(u64, Option<libp2p::PeerId>, String)> {
    let n = *b.first()? as usize;
    let seq = u64::from_le_bytes(b.get(1..9)?.try_into().ok()?);
    let peer = b.get(9..9 + n)?;
    let peer = if n == 0 { None } else { Some(libp2p::PeerId::from_bytes(peer).ok()?) };
    Some((seq, peer, std::str::from_utf8(&b[9 + n..]).ok()?.into()))
}

fn records(c: &Vec<Bytes>) -> CaseResult {
    world::with(STRANGER, |w| {
        let (node, p) = (&w.nodes[0], w.puppet.as_ref().unwrap());
        let own: libp2p::PeerId = node.peer.parse().unwrap();
        let mut bad = false;
        for b in c {
            let id = |seq: u64, who: &Who| match who {
                Who::Own => ActorID::new_with_peer_id(seq, own),
                Who::Puppet => ActorID::new_with_peer_id(seq, p.peer),
                Who::Other(s) => ActorID::new_with_peer_id(seq, world::key(*s).public().to_peer_id()),
                Who::None => ActorID::new(seq),
            };
            let bytes = match b {
                Bytes::Record { seq, who, ty } => record(&id(*seq, who), ty),
                Bytes::Flip { seq, who, ty, at, x } => {
                    let mut r = record(&id(*seq, who), ty);
                    let n = r.len();
                    r[*at as usize % n] ^= x;
                    r
                }
                Bytes::Truncate { seq, who, ty, at } => {
                    let mut r = record(&id(*seq, who), ty);
                    let n = r.len();
                    r.truncate(*at as usize % n);
                    r
                }
                Bytes::Any(b) => b.clone(),
                Bytes::Node { ty, text } => {
                    let n = fresh();
                    let name = format!("own-{n}{text}");
                    let Resp::Id(seq, _) = node.call(Cmd::Spawn { a: n, ty: *ty, cap: None, resilient: false })? else {
                        unreachable!()
                    };
                    let until = Instant::now() + Duration::from_secs(20);
                    let got = loop {
                        node.call(Cmd::Register { a: n, name: name.clone() })?;
                        if let Some(r) = p.get(&name)? {
                            break r;
                        }
                        ensure!(Instant::now() < until, "record", "another peer never finds the record of a registered actor");
                        std::thread::sleep(Duration::from_millis(5));
                    };
                    let want = record(&ActorID::new_with_peer_id(seq, own), type_id(*ty));
                    ensure!(got == want, "record", "the record of a registered actor is {got:?} instead of {want:?}");
                    let d = decode(&got);
                    ensure!(d == Some((seq, Some(own), type_id(*ty).into())), "record", "a record is decoded as {d:?}");
                    continue;
                }
            };
            let name = format!("foreign-{}", fresh());
            let until = Instant::now() + Duration::from_secs(20);
            while !p.put(&name, bytes.clone(), vec![own])? {
                ensure!(Instant::now() < until, "put", "another peer can never store a record");
                std::thread::sleep(Duration::from_millis(5));
            }
            let dec = decode(&bytes);
            bad |= dec.is_none();
            for ty in [Ty::A, Ty::B] {
                let got = node.call(Cmd::Lookup { name: name.clone(), ty, slot: fresh() })?;
                let ok = match &dec {
                    None => matches!(got, Resp::Found(None) | Resp::Registry(_)),
                    Some((_, _, t)) if t != type_id(ty) => got == Resp::Registry("type".into()),
                    Some((seq, peer, _)) => got == Resp::Found(Some((*seq, Some(peer.unwrap_or(own).to_string())))),
                };
                ensure!(ok, "lookup", "looking up the record {b:?} as {ty:?} gives {got:?}");
                let got = node.call(Cmd::LookupLocal { name: name.clone(), ty })?;
                let ok = match &dec {
                    None => matches!(got, Resp::Found(None) | Resp::Registry(_)),
                    Some((_, _, t)) if t != type_id(ty) => matches!(got, Resp::Found(None)) || got == Resp::Registry("type".into()),
                    // (an actor with that id may be registered here)
                    Some(_) => true,
                };
                ensure!(ok, "lookup-local", "looking up the record {b:?} locally as {ty:?} gives {got:?}");
            }
        }
        // the node still serves
        let n = fresh();
        let name = format!("after-{n}");
        node.call(Cmd::Spawn { a: n, ty: Ty::A, cap: None, resilient: false })?;
        let r = node.call(Cmd::Register { a: n, name: name.clone() })?;
        ensure!(r == Resp::Unit, "register", "registering an actor afterwards gives {r:?}");
        let r = node.call(Cmd::Lookup { name, ty: Ty::A, slot: n })?;
        ensure!(matches!(r, Resp::Found(Some(_))), "lookup", "looking up an actor afterwards gives {r:?}");
        Ok(Info::new(bad))
    })
}

fn byte_lists() -> impl Strategy<Value = Vec<Bytes>> {
    let who = || prop_oneof![Just(Who::Own), Just(Who::Puppet), any::<[u8; 32]>().prop_map(Who::Other), Just(Who::None)];
    let name = || prop_oneof![3 => Just("verif".to_string()), 3 => Just("verif-b".to_string()), 1 => ".{0,20}", 1 => "verif[-abV]{0,2}"];
    let seq = || prop_oneof![0u64..50, any::<u64>()];
    prop::collection::vec(
        prop_oneof![
            2 => (seq(), who(), name()).prop_map(|(seq, who, ty)| Bytes::Record { seq, who, ty }),
            3 => (seq(), who(), name(), any::<u8>(), 1u8..).prop_map(|(seq, who, ty, at, x)| Bytes::Flip { seq, who, ty, at, x }),
            3 => (seq(), who(), name(), any::<u8>()).prop_map(|(seq, who, ty, at)| Bytes::Truncate { seq, who, ty, at }),
            2 => prop::collection::vec(any::<u8>(), 0..60).prop_map(Bytes::Any),
            1 => (ty(), ".{0,8}").prop_map(|(ty, text)| Bytes::Node { ty, text }),
        ],
        1..8,
    )
}

// ---------------------------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Full {
    nodes: u8,
    room: u8,
    /// registers under or unregisters that name
    ops: Vec<(u8, bool, u8)>,
}

fn full(c: &Full) -> CaseResult {
    let two = c.nodes > 1;
    let kind = Kind {
        manual: [Some(true), two.then_some(false), None],
        max_records: c.room as usize,
        timeout_ms: 60_000, query_ms: 2_000,
        puppet: false,
        once: true,
    };
    world::with(kind, |w| {
        if two {
            // a connection without anything registered
            let until = Instant::now() + Duration::from_secs(20);
            let o = &w.nodes[1];
            while w.nodes[0].conns(&o.peer)?.0 == 0 {
                ensure!(Instant::now() < until, "connect", "nodes cannot be connected");
                w.nodes[0].call(Cmd::Dial { peer: o.peer.clone(), addr: o.addr.clone() })?;
                std::thread::sleep(Duration::from_millis(10));
            }
        }
        let mut refused = 0;
        // those for which it did not work: others may have got the record before it failed
        let mut refused_ids = vec![];
        // the actors which were registered under each name, with the last for which it worked
        let mut table: Vec<(Vec<(u64, usize)>, Option<u64>)> = vec![(vec![], None); 12];
        // the names which each node may have a record of
        let mut held = vec![std::collections::BTreeSet::new(); w.nodes.len()];
        let mut freed = false;
        for (node, on, name) in &c.ops {
            let (node, i) = (*node as usize % w.nodes.len(), *name as usize % 12);
            let name = format!("n{i}");
            if !on {
                let r = w.nodes[node].call(Cmd::Unregister { name })?;
                for h in &mut held {
                    h.insert(i);
                }
                if r == Resp::Unit {
                    table[i].1 = None;
                    // (the others are told that there is none)
                    held[node].remove(&i);
                    freed = true;
                }
                continue;
            }
            let room = held.iter().all(|h| h.contains(&i) && h.len() <= c.room as usize || h.len() < c.room as usize);
            held.iter_mut().for_each(|h| _ = h.insert(i));
            let n = fresh();
            let id = w.nodes[node].call(Cmd::Spawn { a: n, ty: Ty::A, cap: None, resilient: false })?;
            let mut r = w.nodes[node].call(Cmd::Register { a: n, name: name.clone() })?;
            // (what fails for want of time may work again)
            for _ in 0..5 {
                if room && matches!(r, Resp::Registry(_)) {
                    std::thread::sleep(Duration::from_millis(200));
                    r = w.nodes[node].call(Cmd::Register { a: n, name: name.clone() })?;
                }
            }
            ensure!(
                !room || r == Resp::Unit,
                "register",
                "registering an actor as {name} fails though there is room: {r:?}, {held:?}"
            );
            table[i].0.push((n, node));
            match r {
                Resp::Unit => table[i].1 = Some(n),
                Resp::Registry(_) => {
                    refused += 1;
                    refused_ids.push(id);
                    // whatever it was
                    table[i].1 = None;
                }
                r => return fail("register", format!("registering gives {r:?}")),
            }
        }
        for (i, (all, last)) in table.iter().enumerate() {
            for (at, node) in w.nodes.iter().enumerate() {
                let (name, slot) = (format!("n{i}"), fresh());
                let r = node.call(Cmd::Lookup { name, ty: Ty::A, slot })?;
                let by = match &r {
                    Resp::Found(None) => None,
                    Resp::Found(Some((seq, peer))) => {
                        let id = Resp::Id(*seq, peer.clone());
                        let job = Job::new(fresh(), Out::Ok);
                        match node.res(Cmd::Req { local: None, slot, ask: true, try_: false, mbt: None, rt: None, job })? {
                            Res::Ok(Some(rep)) => Some(rep.by),
                            Res::NotRunning if refused_ids.contains(&id) => None,
                            r => return fail("reaches", format!("the reference found gives {r:?}")),
                        }
                    }
                    r => return fail("lookup", format!("looking up gives {r:?}")),
                };
                ensure!(
                    by.is_none() || all.iter().any(|(n, _)| Some(*n) == by),
                    "elsewhere",
                    "the name of an actor finds another"
                );
                // if nothing else ever was registered by that name
                if let (Some(n), [(m, _)]) = (last, &all[..]) {
                    ensure!(n != m || by == Some(*n), "lookup", "node {at} does not find a registered actor: {r:?}");
                }
            }
        }
        Ok(Info::new(refused > 0).label(two, "two_nodes").label(freed, "freed").label(refused > 0, "refused"))
    })
}

fn fulls() -> impl Strategy<Value = Full> {
    // (a peer without room is waited for 10 s)
    (prop_oneof![2 => Just(1u8), 1 => Just(2)], 1u8..8, prop::collection::vec((0u8..2, prop::bool::weighted(0.7), 0u8..12), 1..16))
        .prop_map(|(nodes, room, ops)| Full { nodes, room, ops })
}

// ---------------------------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Solo {
    Register { a: u8, name: u8 },
    Unregister { name: u8 },
    Lookup { name: u8, ty: Ty, local: bool },
    End(u8),
}

/// A node which never is connected to another: everything about its names is known.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Alone {
    manual: bool,
    room: u8,
    acts: Vec<Ty>,
    names: Vec<String>,
    ops: Vec<Solo>,
}

fn alone(c: &Alone) -> CaseResult {
    let kind = Kind {
        manual: [Some(c.manual), None, None],
        max_records: c.room as usize,
        timeout_ms: 60_000, query_ms: 20_000,
        puppet: false,
        once: false,
    };
    world::with(kind, |w| {
        let node = &w.nodes[0];
        let mut acts = vec![];
        for ty in &c.acts {
            let n = fresh();
            let Resp::Id(seq, peer) = node.call(Cmd::Spawn { a: n, ty: *ty, cap: None, resilient: false })? else {
                unreachable!()
            };
            acts.push(Act { n, node: 0, ty: *ty, seq, peer: peer.unwrap_or_default(), alive: true });
        }
        let tag = fresh();
        let names: Vec<String> = c.names.iter().enumerate().map(|(i, t)| format!("{t}{tag}.{i}")).collect();
        let mut table: Vec<Option<usize>> = vec![None; names.len()];
        let (mut again, mut refused, mut freed) = (false, false, false);
        let check = |table: &[Option<usize>], acts: &[Act], i: usize, ty: Ty, local: bool| -> Result<(), Fail> {
            let (name, slot) = (names[i].clone(), fresh());
            let a = table[i].map(|a| &acts[a]);
            let want = match a {
                None => Resp::Found(None),
                Some(a) if a.ty != ty => Resp::Registry("type".into()),
                Some(a) => Resp::Found(Some((a.seq, Some(a.peer.clone())))),
            };
            if local {
                let got = node.call(Cmd::LookupLocal { name, ty })?;
                let gone = a.is_some_and(|a| !a.alive) && got == Resp::Found(None);
                ensure!(gone || got == want, "lookup-local", "looking up {:?} as {ty:?} locally gives {got:?} instead of {want:?}", names[i]);
                return Ok(());
            }
            let got = node.call(Cmd::Lookup { name, ty, slot })?;
            ensure!(got == want, "lookup", "looking up {:?} as {ty:?} gives {got:?} instead of {want:?}", names[i]);
            match a {
                Some(a) if a.ty == ty => reaches(node, slot, a),
                _ => Ok(()),
            }
        };
        for op in &c.ops {
            match op {
                Solo::Register { a, name } => {
                    let (a, i) = (*a as usize % acts.len(), *name as usize % names.len());
                    let room = table[i].is_some() || table.iter().flatten().count() < c.room as usize;
                    let r = node.call(Cmd::Register { a: acts[a].n, name: names[i].clone() })?;
                    if room {
                        ensure!(r == Resp::Unit, "register", "registering an actor as {:?} gives {r:?}: {table:?}", names[i]);
                        again |= table[i].is_some_and(|b| b != a);
                        table[i] = Some(a);
                    } else {
                        ensure!(matches!(r, Resp::Registry(_)), "register", "registering without room gives {r:?}");
                        refused = true;
                    }
                }
                Solo::Unregister { name } => {
                    let i = *name as usize % names.len();
                    let r = node.call(Cmd::Unregister { name: names[i].clone() })?;
                    ensure!(r == Resp::Unit, "unregister", "unregistering a name gives {r:?}");
                    freed |= table[i].take().is_some();
                }
                Solo::Lookup { name, ty, local } => check(&table, &acts, *name as usize % names.len(), *ty, *local)?,
                Solo::End(a) => {
                    let a = *a as usize % acts.len();
                    node.call(Cmd::End { a: acts[a].n, how: How::Kill })?;
                    node.yes(Cmd::WaitStopped { a: acts[a].n }, "the killed actor stops")?;
                    acts[a].alive = false;
                }
            }
        }
        for (i, a) in table.iter().enumerate() {
            let ty = a.map_or(Ty::A, |a| acts[a].ty);
            check(&table, &acts, i, ty, false)?;
            check(&table, &acts, i, ty, true)?;
        }
        // the next case has all the room
        for (i, name) in names.iter().enumerate() {
            let r = node.call(Cmd::Unregister { name: name.clone() })?;
            ensure!(r == Resp::Unit, "unregister", "unregistering a name gives {r:?}");
            table[i] = None;
            check(&table, &acts, i, Ty::A, i % 2 == 0)?;
        }
        Ok(Info::new(freed || refused || again)
            .label(freed, "unregistered")
            .label(refused, "refused")
            .label(again, "registered_again"))
    })
}

fn alones() -> impl Strategy<Value = Alone> {
    let op = prop_oneof![
        6 => (0u8..4, 0u8..6).prop_map(|(a, name)| Solo::Register { a, name }),
        3 => (0u8..6).prop_map(|name| Solo::Unregister { name }),
        5 => (0u8..6, ty(), any::<bool>()).prop_map(|(name, ty, local)| Solo::Lookup { name, ty, local }),
        1 => (0u8..4).prop_map(Solo::End),
    ];
    let text = prop_oneof![4 => "[a-z]{0,6}", 2 => ".{0,20}", 1 => ".{200,300}"];
    (
        any::<bool>(),
        prop::sample::select(vec![1u8, 3, 100]),
        prop::collection::vec(ty(), 1..5),
        prop::collection::vec(text, 1..7),
        prop::collection::vec(op, 1..25),
    )
        .prop_map(|(manual, room, acts, names, ops)| Alone { manual, room, acts, names, ops })
}

pub fn run(s: &mut Session) {
    let n = crate::shards();
    s.prop_sharded("alone", "a name given up, refused or registered for another actor", 2_000, 40_000, n, || boxed(alones()), alone);
    s.prop_sharded("registrations", "a name registered on another node is looked up", 2_000, 40_000, n, || boxed(case()), registrations);
    s.prop_sharded("records", "a record which is none", 2_000, 40_000, n, || boxed(byte_lists()), records);
    s.prop_sharded("full_store", "a registration is refused", 120, 2_400, n, || boxed(fulls()), full);
}

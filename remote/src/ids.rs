//! The part of C17 about ids which name a node: laws and round trips before this process is a node, and as one.
use std::{
    collections::{HashMap, HashSet},
    hash::{Hash, Hasher},
    sync::{
        atomic::{AtomicBool, Ordering::Relaxed},
        Once,
    },
};

use kameo::{actor::ActorID, remote::ActorSwarm};
use libp2p::PeerId;
use pbt::{boxed, ensure, CaseResult, Fail, Info, Session};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// The shapes of peer ids there are: a hash of a key, or a short key itself.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Peer {
    Hash([u8; 4]),
    Inline(Vec<u8>),
    /// an ed25519 key as everybody has it
    Key([u8; 4]),
    /// this node
    Own,
}

fn own() -> PeerId {
    peer(&Peer::Key([9, 9, 9, 9]))
}

fn peer(p: &Peer) -> PeerId {
    let mut b = vec![];
    match p {
        Peer::Hash(x) => {
            b.extend([0x12, 32]);
            b.extend(x.iter().cycle().take(32));
        }
        Peer::Inline(v) => {
            b.extend([0, v.len() as u8]);
            b.extend(v);
        }
        Peer::Key(x) => {
            b.extend([0, 36, 8, 1, 18, 32]);
            b.extend(x.iter().cycle().take(32));
        }
        Peer::Own => return own(),
    }
    PeerId::from_bytes(&b).expect("a peer id")
}

/// (sequence id, peer; none: of the own node)
type Id = (u64, Option<Peer>);

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pair {
    a: Id,
    b: Id,
}

fn mk((n, p): &Id) -> ActorID {
    match p {
        None => ActorID::new(*n),
        Some(p) => ActorID::new_with_peer_id(*n, peer(p)),
    }
}

static NODE: AtomicBool = AtomicBool::new(false);
static BOOT: Once = Once::new();

fn boot() {
    BOOT.call_once(|| {
        let (swarm, handler) = ActorSwarm::bootstrap_manual(own()).expect("the first bootstrap");
        assert_eq!(*swarm.local_peer_id(), own());
        std::mem::forget(handler);
        NODE.store(true, Relaxed);
    });
}

/// What the id's peer is to be.
fn peer_of((_, p): &Id) -> Option<PeerId> {
    match p {
        None => NODE.load(Relaxed).then(own),
        Some(p) => Some(peer(p)),
    }
}

fn hash(id: &ActorID) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    id.hash(&mut h);
    h.finish()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Wrapped {
    before: u32,
    id: ActorID,
    after: Option<Vec<ActorID>>,
}

fn trips(w: &Wrapped) -> Result<Vec<(&'static str, Wrapped)>, Fail> {
    fn e(sig: &str) -> impl Fn(String) -> Fail + '_ {
        move |m| Fail { sig: sig.into(), msg: m }
    }
    let s = |x: &dyn std::fmt::Display| x.to_string();
    let js = serde_json::to_string(w).map_err(|x| e("json-encode")(s(&x)))?;
    let mut all = vec![("json", serde_json::from_str(&js).map_err(|x| e("json-decode")(s(&x)))?)];
    let v = serde_json::to_value(w).map_err(|x| e("json-encode")(s(&x)))?;
    all.push(("json value", serde_json::from_value(v).map_err(|x| e("json-value-decode")(s(&x)))?));
    for b in [rmp_serde::to_vec(w), rmp_serde::to_vec_named(w)] {
        let b = b.map_err(|x| e("msgpack-encode")(s(&x)))?;
        all.push(("msgpack", rmp_serde::from_slice(&b).map_err(|x| e("msgpack-decode")(s(&x)))?));
        all.push(("msgpack reader", rmp_serde::from_read(&b[..]).map_err(|x| e("msgpack-read-decode")(s(&x)))?));
    }
    let b = cbor4ii::serde::to_vec(vec![], w).map_err(|x| e("cbor-encode")(s(&x)))?;
    all.push(("cbor", cbor4ii::serde::from_slice(&b).map_err(|x| e("cbor-decode")(s(&x)))?));
    all.push(("cbor reader", cbor4ii::serde::from_reader(&b[..]).map_err(|x| e("cbor-read-decode")(s(&x)))?));
    Ok(all)
}

fn laws(p: &Pair) -> CaseResult {
    let (a, b) = (mk(&p.a), mk(&p.b));
    let parts = |i: &Id| (i.0, peer_of(i));
    let same = parts(&p.a) == parts(&p.b);
    for (id, i) in [(a, &p.a), (b, &p.b)] {
        ensure!(id.sequence_id() == i.0, "sequence-id", "{i:?} has sequence id {}", id.sequence_id());
        ensure!(id.peer_id().copied() == peer_of(i), "peer-id", "{i:?} has peer id {:?}", id.peer_id());
    }
    ensure!((a == b) == same && (b == a) == same, "eq", "{a:?} == {b:?} is {}", a == b);
    ensure!(!same || hash(&a) == hash(&b), "hash", "equal ids {a:?} and {b:?} hash differently");
    let set: HashSet<ActorID> = [a, b, mk(&p.a)].into_iter().collect();
    ensure!(set.len() == 2 - same as usize, "hash-set", "{set:?} of {a:?} and {b:?}");
    let map: HashMap<ActorID, u8> = [(a, 1)].into_iter().collect();
    ensure!(map.contains_key(&b) == same, "hash-map", "{b:?} found where {a:?} is");
    ensure!((a.to_bytes() == b.to_bytes()) == same, "injective", "{a:?} and {b:?} encode to {:?} and {:?}", a.to_bytes(), b.to_bytes());
    ensure!((a.to_string() == b.to_string()) == same, "display", "{a} and {b}");
    for (id, i) in [(a, &p.a), (b, &p.b)] {
        let d = ActorID::from_bytes(&id.to_bytes());
        ensure!(matches!(&d, Ok(d) if *d == id && d.sequence_id() == i.0 && d.peer_id().copied() == peer_of(i) && hash(d) == hash(&id)),
            "bytes-roundtrip", "{id:?} -> {:?} -> {d:?}", id.to_bytes());
        let w = Wrapped { before: 7, id, after: Some(vec![a, b]) };
        for (how, d) in trips(&w)? {
            ensure!(d == w, "roundtrip", "{how}: {w:?} -> {d:?}");
            ensure!(d.id.peer_id().copied() == peer_of(i) && d.id.sequence_id() == i.0, "roundtrip-parts", "{how}: {w:?} -> {d:?}");
        }
    }
    Ok(Info::new(p.a.1.is_some() || p.b.1.is_some()).label(same, "equal pair").label(same && p.a != p.b, "equal, written differently"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bytes(Vec<u8>);

fn decode(b: &Bytes) -> CaseResult {
    let mut ok = 0;
    let mut bad = 0;
    let mut check = |how: &str, r: Result<ActorID, String>, raw: bool| -> Result<(), Fail> {
        let Ok(id) = r else {
            bad += 1;
            return Ok(());
        };
        ok += 1;
        let again = ActorID::from_bytes(&id.to_bytes());
        ensure!(matches!(&again, Ok(i) if *i == id && i.peer_id() == id.peer_id()), "decode-encode", "{how}: {:?} -> {id:?} -> {again:?}", b.0);
        if raw {
            let want = u64::from_le_bytes(b.0[..8].try_into().unwrap());
            let peer = if b.0.len() > 8 { PeerId::from_bytes(&b.0[8..]).ok() } else { NODE.load(Relaxed).then(own) };
            ensure!(id.sequence_id() == want && id.peer_id().copied() == peer, "decode-value", "{how}: {:?} decoded to {id:?}", b.0);
        }
        Ok(())
    };
    let raw = ActorID::from_bytes(&b.0);
    let valid = b.0.len() == 8 || b.0.len() > 8 && PeerId::from_bytes(&b.0[8..]).is_ok();
    ensure!(raw.is_ok() == valid, "accepts", "{:?} decoded to {raw:?}", b.0);
    check("bytes", raw.map_err(|e| e.to_string()), true)?;
    check("json", serde_json::from_slice(&b.0).map_err(|e| e.to_string()), false)?;
    check("json array", serde_json::from_value(serde_json::json!(b.0)).map_err(|e| e.to_string()), true)?;
    check("msgpack", rmp_serde::from_slice(&b.0).map_err(|e| e.to_string()), false)?;
    check("cbor", cbor4ii::serde::from_slice(&b.0).map_err(|e| e.to_string()), false)?;
    Ok(Info::new(bad > 0).label(ok > 0, "decodes").label(valid && b.0.len() > 8, "with a peer"))
}

fn id() -> impl Strategy<Value = Id> {
    let n = prop_oneof![3 => any::<u64>(), 3 => 0u64..4, 1 => prop::sample::select(vec![255, 256, u32::MAX as u64, u64::MAX])];
    let x = || prop::array::uniform4(0u8..4);
    let p = prop_oneof![
        2 => Just(None),
        2 => Just(Some(Peer::Own)),
        2 => x().prop_map(|x| Some(Peer::Hash(x))),
        2 => prop::collection::vec(any::<u8>(), 0..=42).prop_map(|v| Some(Peer::Inline(v))),
        2 => x().prop_map(|x| Some(Peer::Key(x))),
    ];
    (n, p)
}

fn pair() -> BoxedStrategy<Pair> {
    (id(), id(), 0u8..5)
        .prop_map(|(a, b, same)| {
            let b = match same {
                0 => a.clone(),
                1 => (a.0, b.1),
                2 => (b.0, a.1.clone()),
                _ => b,
            };
            Pair { a, b }
        })
        .boxed()
}

fn bytes() -> BoxedStrategy<Bytes> {
    let enc = (id(), 0u8..4, prop::collection::vec((any::<u8>(), any::<u8>()), 0..3)).prop_map(|(i, k, junk)| {
        let id = mk(&i);
        let mut b = match k {
            0 => serde_json::to_vec(&id).unwrap(),
            1 => cbor4ii::serde::to_vec(vec![], &id).unwrap(),
            2 => rmp_serde::to_vec(&id).unwrap(),
            _ => id.to_bytes(),
        };
        for (at, j) in junk {
            let at = at as usize % (b.len() + 1);
            match j % 3 {
                0 => b.truncate(at),
                1 => b.insert(at, j),
                _ if at < b.len() => b[at] ^= 1 << (j % 8),
                _ => {}
            }
        }
        Bytes(b)
    });
    boxed(prop_oneof![1 => prop::collection::vec(any::<u8>(), 0..64).prop_map(Bytes), 3 => enc])
}

pub fn run(s: &mut Session) {
    // in this order: a process can't stop being a node
    s.prop("peer_ids", "an id of another node", 12_000, 300_000, || boxed(pair()), laws);
    s.prop("peer_ids_decode", "at least one decoder rejects the bytes", 20_000, 600_000, bytes, decode);
    s.prop("peer_ids_of_a_node", "an id of another node", 12_000, 300_000, || boxed(pair()), |p: &Pair| {
        boot();
        laws(p)
    });
    s.prop("peer_ids_decode_on_a_node", "at least one decoder rejects the bytes", 20_000, 600_000, bytes, |b: &Bytes| {
        boot();
        decode(b)
    });
}

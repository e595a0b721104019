//! C17: actor ids.
use std::{
    collections::{BTreeSet, HashSet},
    hash::{BuildHasher, Hash, Hasher},
    sync::Mutex,
};

use kameo::{
    actor::{ActorID, PreparedActor},
    mailbox,
    message::{Context, Message},
    Actor,
};
use pbt::{boxed, ensure, CaseResult, Info, Session};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Actor)]
struct X;
struct Ping;
impl Message<Ping> for X {
    type Reply = u64;
    async fn handle(&mut self, _: Ping, ctx: &mut Context<Self, u64>) -> u64 {
        ctx.actor_ref().id().sequence_id()
    }
}

fn hash(id: &ActorID) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    id.hash(&mut h);
    h.finish()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Wrapped {
    before: u32,
    id: ActorID,
    after: Option<Vec<ActorID>>,
}

fn seq() -> impl Strategy<Value = u64> {
    prop_oneof![
        4 => any::<u64>(),
        2 => 0u64..300,
        1 => prop::sample::select(vec![0, 255, 256, 65_535, u32::MAX as u64, 1 << 32, i64::MAX as u64, u64::MAX]),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pair {
    a: u64,
    b: u64,
}

fn laws(p: &Pair) -> CaseResult {
    let (a, b) = (ActorID::new(p.a), ActorID::new(p.b));
    ensure!(a.sequence_id() == p.a, "sequence-id", "new({}) has sequence id {}", p.a, a.sequence_id());
    ensure!((a == b) == (p.a == p.b), "eq", "{a:?} == {b:?} is {}", a == b);
    if a == b {
        ensure!(hash(&a) == hash(&b), "hash", "equal ids hash differently");
    }
    let rs = std::collections::hash_map::RandomState::new();
    ensure!(rs.hash_one(a) == rs.hash_one(ActorID::new(p.a)), "hash", "same id hashes differently");
    let set: HashSet<ActorID> = [a, b, ActorID::new(p.a)].into_iter().collect();
    ensure!(set.len() == if p.a == p.b { 1 } else { 2 }, "hash-set", "set of {a:?},{b:?},{a:?} has {} members", set.len());
    ensure!((a.to_bytes() == b.to_bytes()) == (p.a == p.b), "injective", "{a:?} and {b:?} encode to {:?} / {:?}", a.to_bytes(), b.to_bytes());
    ensure!((a.to_string() == b.to_string()) == (p.a == p.b), "display", "{a} / {b}");
    for id in [a, b] {
        let d = ActorID::from_bytes(&id.to_bytes());
        ensure!(matches!(&d, Ok(d) if *d == id && d.sequence_id() == id.sequence_id()), "bytes-roundtrip", "{id:?} -> {:?} -> {d:?}", id.to_bytes());
        let w = Wrapped { before: 7, id, after: Some(vec![a, b]) };
        let js = serde_json::to_string(&w).map_err(|e| err("json-encode", e))?;
        let d: Wrapped = serde_json::from_str(&js).map_err(|e| err("json-decode", e))?;
        ensure!(d == w, "json-roundtrip", "{w:?} -> {js} -> {d:?}");
        let v = serde_json::to_value(&w).map_err(|e| err("json-encode", e))?;
        let d: Wrapped = serde_json::from_value(v).map_err(|e| err("json-value-decode", e))?;
        ensure!(d == w, "json-value-roundtrip", "{w:?} -> {d:?}");
        let bytes = rmp_serde::to_vec(&w).map_err(|e| err("msgpack-encode", e))?;
        let d: Wrapped = rmp_serde::from_slice(&bytes).map_err(|e| err("msgpack-decode", e))?;
        ensure!(d == w, "msgpack-roundtrip", "{w:?} -> {bytes:?} -> {d:?}");
        let d: Wrapped = rmp_serde::from_read(&bytes[..]).map_err(|e| err("msgpack-read-decode", e))?;
        ensure!(d == w, "msgpack-read-roundtrip", "{w:?} -> {bytes:?} -> {d:?}");
        let bytes = rmp_serde::to_vec_named(&w).map_err(|e| err("msgpack-encode", e))?;
        let d: Wrapped = rmp_serde::from_slice(&bytes).map_err(|e| err("msgpack-decode", e))?;
        ensure!(d == w, "msgpack-roundtrip", "{w:?} -> {bytes:?} -> {d:?}");
        let mut bytes = vec![];
        ciborium::into_writer(&w, &mut bytes).map_err(|e| err("cbor-encode", e))?;
        let d: Wrapped = ciborium::from_reader(&bytes[..]).map_err(|e| err("cbor-decode", e))?;
        ensure!(d == w, "cbor-roundtrip", "{w:?} -> {d:?}");
    }
    Ok(Info::new(p.a > 255).label(p.a == p.b, "equal pair"))
}

fn err(sig: &str, e: impl std::fmt::Display) -> pbt::Fail {
    pbt::Fail { sig: sig.into(), msg: e.to_string() }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bytes(Vec<u8>);

fn decode(b: &Bytes) -> CaseResult {
    let (mut ok, mut bad) = (0, 0);
    let mut check = |how: &str, r: Result<ActorID, String>| -> Result<(), pbt::Fail> {
        match r {
            Ok(id) => {
                ok += 1;
                let again = ActorID::from_bytes(&id.to_bytes());
                ensure!(matches!(&again, Ok(i) if *i == id), "decode-encode", "{how}: {:?} -> {id:?} -> {again:?}", b.0);
                let want = u64::from_le_bytes(b.0.get(..8).and_then(|b| b.try_into().ok()).unwrap_or_default());
                if how == "bytes" {
                    ensure!(id.sequence_id() == want, "decode-value", "{:?} decoded to {id:?}", b.0);
                }
                Ok(())
            }
            Err(_) => {
                bad += 1;
                Ok(())
            }
        }
    };
    check("bytes", ActorID::from_bytes(&b.0).map_err(|e| e.to_string()))?;
    check("json", serde_json::from_slice(&b.0).map_err(|e| e.to_string()))?;
    check("json array", serde_json::from_value(serde_json::json!(b.0)).map_err(|e| e.to_string()))?;
    check("msgpack", rmp_serde::from_slice(&b.0).map_err(|e| e.to_string()))?;
    check("cbor", ciborium::from_reader(&b.0[..]).map_err(|e| e.to_string()))?;
    ensure!(b.0.len() >= 8 || ActorID::from_bytes(&b.0).is_err(), "short-accepted", "{:?} accepted", b.0);
    Ok(Info::new(bad > 0).label(ok > 0, "decodes").label(b.0.len() < 8, "short"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Gen {
    threads: Vec<Vec<bool>>,
}

fn unique(g: &Gen) -> CaseResult {
    let all = Mutex::new(Vec::<ActorID>::new());
    let bad = Mutex::new(None::<String>);
    let barrier = std::sync::Barrier::new(g.threads.len());
    std::thread::scope(|sc| {
        for t in &g.threads {
            let (all, bad, barrier) = (&all, &bad, &barrier);
            sc.spawn(move || {
                let mut mine = vec![];
                barrier.wait();
                for k in t {
                    if *k {
                        mine.push(ActorID::generate());
                    } else {
                        let p = PreparedActor::<X>::new(mailbox::unbounded());
                        let a = p.actor_ref();
                        let r = a.clone().recipient::<Ping>();
                        let ids = [a.id(), a.clone().id(), a.downgrade().id(), r.id(), r.clone().id(),
                            r.downgrade().id(), a.downgrade().upgrade().map(|a| a.id()).unwrap_or(ActorID::new(u64::MAX)),
                            r.downgrade().upgrade().map(|a| a.id()).unwrap_or(ActorID::new(u64::MAX))];
                        if ids.iter().any(|i| *i != ids[0]) {
                            *bad.lock().unwrap() = Some(format!("handles report {ids:?}"));
                        }
                        mine.push(a.id());
                    }
                }
                all.lock().unwrap().extend(mine);
            });
        }
    });
    if let Some(b) = bad.into_inner().unwrap() {
        return pbt::fail("handle-id", b);
    }
    let all = all.into_inner().unwrap();
    let set: BTreeSet<u64> = all.iter().map(|i| i.sequence_id()).collect();
    ensure!(set.len() == all.len(), "duplicate-id", "{} ids, {} distinct", all.len(), set.len());
    let set: HashSet<ActorID> = all.iter().copied().collect();
    ensure!(set.len() == all.len(), "duplicate-id", "{} ids, {} distinct", all.len(), set.len());
    Ok(Info::new(g.threads.len() > 1))
}

pub fn run(s: &mut Session) {
    s.prop("id_laws", "the id needs more than one byte", 12_000, 400_000,
        || boxed((seq(), seq(), prop::bool::weighted(0.3)).prop_map(|(a, b, same)| Pair { a, b: if same { a } else { b } })),
        laws);
    s.prop("decode_arbitrary", "at least one decoder rejects the bytes", 20_000, 1_000_000,
        || {
            let enc = (seq(), 0u8..6, prop::collection::vec(any::<u8>(), 0..6)).prop_map(|(n, k, junk)| {
                let id = ActorID::new(n);
                let mut b = match k {
                    0 => id.to_bytes(),
                    1 => serde_json::to_vec(&id).unwrap(),
                    2 => rmp_serde::to_vec(&id).unwrap(),
                    3 => {
                        let mut v = vec![];
                        ciborium::into_writer(&id, &mut v).unwrap();
                        v
                    }
                    4 => id.to_bytes()[..(n % 8) as usize].to_vec(),
                    _ => serde_json::to_vec(&id.to_bytes()[..(n % 8) as usize]).unwrap(),
                };
                // corrupt or extend
                for (i, j) in junk.iter().enumerate() {
                    if i % 2 == 0 || b.is_empty() {
                        b.push(*j);
                    } else {
                        let at = *j as usize % b.len();
                        b[at] ^= 1 << (j % 8);
                    }
                }
                Bytes(b)
            });
            boxed(prop_oneof![1 => prop::collection::vec(any::<u8>(), 0..64).prop_map(Bytes), 2 => enc])
        },
        decode);
    s.prop_sharded("unique_ids", "more than one thread creates ids", 400, 6_000, 4,
        || boxed(prop::collection::vec(prop::collection::vec(any::<bool>(), 1..200), 1..5).prop_map(|threads| Gen { threads })),
        unique);
}

//! What the driver and the node processes say to each other (one JSON value per line).
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Init {
    pub seed: [u8; 32],
    /// the swarm is driven by hand, and its connections can be watched
    pub manual: bool,
    pub port: u16,
    /// peers and their addresses
    pub peers: Vec<(String, String)>,
    pub max_records: usize,
    pub request_timeout_ms: u64,
    /// how long a query may take
    pub query_ms: u64,
    /// keeps worlds apart
    pub tag: String,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Ty {
    A,
    B,
}

pub fn type_id(t: Ty) -> &'static str {
    match t {
        Ty::A => "verif",
        Ty::B => "verif-b",
    }
}
pub const JOB_ID: &str = "verif-job";

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Out {
    Ok,
    Err,
    Panic,
    /// the reply is sent from another task
    Later(u8),
    /// the reply (or error) cannot be serialized
    BadOk,
    BadErr,
    /// the reply is taken and dropped
    Dropped,
}

/// Serializing it fails if set.
#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub struct Fuse(pub bool);
impl Serialize for Fuse {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.0 {
            return Err(serde::ser::Error::custom("fuse"));
        }
        false.serialize(s)
    }
}
impl<'de> Deserialize<'de> for Fuse {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        bool::deserialize(d).map(Fuse)
    }
}

/// What only survives an encoding which keeps the names of fields, or all of a value's precision.
#[derive(Clone, Serialize, Deserialize, PartialEq)]
pub struct Extra {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    note: Option<u64>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    list: Vec<Shape>,
    shape: Shape,
    either: Either,
    #[serde(flatten)]
    inner: Inner,
    by: std::collections::BTreeMap<String, i64>,
    float: f64,
    single: f32,
    sign: char,
    unit: (),
    pair: (i8, u128),
}
#[derive(Clone, Serialize, Deserialize, PartialEq)]
#[serde(tag = "kind")]
enum Shape {
    Dot,
    Rect { w: u32, #[serde(default, skip_serializing_if = "Option::is_none")] h: Option<i32>, d: u8 },
    Named { name: String },
}
#[derive(Clone, Serialize, Deserialize, PartialEq)]
#[serde(untagged)]
enum Either {
    Number(i64),
    Text(String),
    Pair { a: u8, b: Option<bool> },
    Swapped { b: u8, c: bool },
}
#[derive(Clone, Serialize, Deserialize, PartialEq)]
struct Inner {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    first: Option<String>,
    second: u16,
}
impl std::fmt::Debug for Extra {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("..")
    }
}
impl Extra {
    pub fn of(id: u64) -> Extra {
        let h = id.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        let bits = |from: u32, n: u64| (h >> from) % n;
        let shape = |k: u64| match k % 3 {
            0 => Shape::Dot,
            1 => Shape::Rect { w: k as u32, h: (k % 2 == 0).then_some(-5), d: 7 },
            _ => Shape::Named { name: format!("é{k}") },
        };
        Extra {
            note: (bits(20, 3) > 0).then_some(h),
            list: (0..bits(22, 3)).map(|i| shape(bits(24, 7) + i)).collect(),
            shape: shape(bits(30, 12)),
            either: match bits(34, 4) {
                0 => Either::Number(h as i64),
                1 => Either::Text("text".into()),
                2 => Either::Pair { a: 3, b: (bits(36, 2) == 0).then_some(true) },
                _ => Either::Swapped { b: 4, c: false },
            },
            inner: Inner { first: (bits(38, 2) == 0).then(|| "first".into()), second: h as u16 },
            by: (0..bits(40, 3)).map(|i| (format!("k{i}"), -(i as i64) << 40)).collect(),
            float: (h >> 34) as f64 / 4.0,
            single: (h >> 48) as f32 / 4.0,
            sign: ['a', '\u{0}', '\u{fffd}', '\u{1f600}'][bits(44, 4) as usize],
            unit: (),
            pair: (h as i8, (h as u128) << 60),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Job {
    pub extra: Extra,
    pub id: u64,
    pub gate: bool,
    pub sleep: u8,
    pub out: Out,
    pub data: Vec<u8>,
    pub fuse: Fuse,
}

impl Job {
    pub fn new(id: u64, out: Out) -> Self {
        Job { extra: Extra::of(id), id, gate: false, sleep: 0, out, data: vec![], fuse: Fuse(false) }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Rep {
    pub extra: Extra,
    pub id: u64,
    pub by: u64,
    pub data: Vec<u8>,
    pub fuse: Fuse,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct JobErr {
    pub extra: Extra,
    pub id: u64,
    pub text: String,
    pub fuse: Fuse,
}

/// A job with this `sleep` is sent with a blown fuse.
pub const FUSE: u8 = 255;

impl JobErr {
    /// The text, if everything else arrived as it was sent.
    pub fn check(self) -> String {
        if self.extra == Extra::of(self.id) { self.text } else { format!("{} (with another value)", self.text) }
    }
}

pub fn err_text(id: u64) -> String {
    format!("job {id} fails")
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ev {
    Begin(u64),
    End(u64),
    /// sequence id and peer of the dead actor, the reason
    Link(u64, String, String),
    Stop(String),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Res {
    Ok(Option<Rep>),
    Handler(u64, String),
    NotRunning,
    Stopped,
    Full,
    Timeout,
    UnknownActor(String),
    UnknownMessage(String, String),
    BadType,
    Ser,
    De,
    SerReply,
    SerErr,
    DeErr,
    NoSwarm,
    /// dialing, timeout, closed, unsupported, io
    Net(String),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum How {
    Kill,
    Stop,
    /// by an unhandled panic
    Panic,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Cmd {
    Spawn { a: u64, ty: Ty, cap: Option<u8>, resilient: bool },
    IdOf { a: u64 },
    Register { a: u64, name: String },
    Unregister { name: String },
    Lookup { name: String, ty: Ty, slot: u64 },
    LookupLocal { name: String, ty: Ty },
    /// `local`: by the actor ref, not the remote one
    Req { local: Option<u64>, slot: u64, ask: bool, try_: bool, mbt: Option<u64>, rt: Option<u64>, job: Job },
    Link { on: bool, a: u64, slot: u64 },
    Link2 { on: bool, slot: u64, slot2: u64 },
    LinkLocal { on: bool, a: u64, b: u64 },
    End { a: u64, how: How },
    WaitStopped { a: u64 },
    Open { a: u64, n: usize },
    WaitBegin { a: u64, id: u64 },
    WaitEnd { a: u64, id: u64 },
    /// waits for that many events besides those of messages
    WaitEvents { a: u64, n: usize, ms: u64 },
    Log { a: u64 },
    Disconnect { peer: String },
    Dial { peer: String, addr: String },
    /// (manual) close the n-th connection to a peer
    Close { peer: String, n: usize },
    /// (manual) the connections to a peer, and how often the last one was lost
    Conns { peer: String },
    /// forget actors and references
    Clear,
    Panics,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Resp {
    Unit,
    Id(u64, Option<String>),
    Found(Option<(u64, Option<String>)>),
    Registry(String),
    Res(Res),
    Log(Vec<Ev>),
    Bool(bool),
    Conns(usize, u64),
    Panics(Vec<String>),
    /// running the command panicked
    Panicked(String),
}

//! Node processes and how the driver talks to them.
use std::{
    cell::RefCell,
    collections::HashMap,
    io::{BufRead, BufReader, Write},
    net::UdpSocket,
    process::{Child, ChildStdin, Command, Stdio},
    sync::{
        atomic::{AtomicU64, Ordering},
        mpsc, Arc, Mutex,
    },
    time::{Duration, Instant},
};

use libp2p::identity::Keypair;
use pbt::Fail;

use crate::{proto::*, puppet::Puppet};

/// A command normally takes milliseconds.
const PATIENCE: Duration = Duration::from_secs(40);

static COUNT: AtomicU64 = AtomicU64::new(1);

/// A number not used before in this process.
pub fn fresh() -> u64 {
    COUNT.fetch_add(1, Ordering::Relaxed)
}

pub struct Node {
    child: Child,
    stdin: Mutex<ChildStdin>,
    waiting: Arc<Mutex<Option<HashMap<u64, mpsc::Sender<Resp>>>>>,
    pub peer: String,
    pub addr: String,
    pub manual: bool,
}

pub struct Pending(mpsc::Receiver<Resp>, Cmd);

impl Pending {
    pub fn done(&self) -> Option<Resp> {
        self.0.try_recv().ok()
    }
    pub fn wait(self) -> Result<Resp, Fail> {
        match self.0.recv_timeout(PATIENCE) {
            Ok(Resp::Panicked(p)) => Err(Fail { sig: "panic".into(), msg: format!("{:?} panics: {p}", self.1) }),
            Ok(r) => Ok(r),
            Err(mpsc::RecvTimeoutError::Timeout) => {
                Err(Fail { sig: "hang".into(), msg: format!("{:?} never completes", self.1) })
            }
            Err(_) => Err(Fail { sig: "node-dead".into(), msg: format!("the node died; {:?}", self.1) }),
        }
    }
}

impl Node {
    pub fn start(&self, cmd: Cmd) -> Pending {
        let id = fresh();
        let (tx, rx) = mpsc::channel();
        if let Some(w) = &mut *self.waiting.lock().unwrap() {
            w.insert(id, tx);
        }
        let line = serde_json::to_string(&(id, &cmd)).unwrap() + "\n";
        let _ = self.stdin.lock().unwrap().write_all(line.as_bytes());
        Pending(rx, cmd)
    }
    pub fn call(&self, cmd: Cmd) -> Result<Resp, Fail> {
        self.start(cmd).wait()
    }
    pub fn res(&self, cmd: Cmd) -> Result<Res, Fail> {
        match self.call(cmd.clone())? {
            Resp::Res(r) => Ok(r),
            r => Err(Fail { sig: "harness".into(), msg: format!("{cmd:?} gives {r:?}") }),
        }
    }
    pub fn yes(&self, cmd: Cmd, what: &str) -> Result<(), Fail> {
        match self.call(cmd.clone())? {
            Resp::Bool(true) => Ok(()),
            _ => Err(Fail { sig: "never".into(), msg: format!("{what} never happens ({cmd:?})") }),
        }
    }
    pub fn log(&self, a: u64) -> Result<Vec<Ev>, Fail> {
        match self.call(Cmd::Log { a })? {
            Resp::Log(l) => Ok(l),
            _ => Ok(vec![]),
        }
    }
    /// connections to a peer and how often the last one was lost
    pub fn conns(&self, peer: &str) -> Result<(usize, u64), Fail> {
        match self.call(Cmd::Conns { peer: peer.into() })? {
            Resp::Conns(n, l) => Ok((n, l)),
            _ => Ok((0, 0)),
        }
    }
}

impl Drop for Node {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

pub struct World {
    pub nodes: Vec<Node>,
    pub puppet: Option<Puppet>,
    pub cases: u32,
    pub kind: Kind,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Kind {
    /// for each node: is its swarm driven by hand
    pub manual: [Option<bool>; 3],
    pub max_records: usize,
    pub timeout_ms: u64,
    pub query_ms: u64,
    pub puppet: bool,
    /// a world for one case only
    pub once: bool,
}

fn free_port() -> u16 {
    UdpSocket::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port()
}

pub fn key(seed: [u8; 32]) -> Keypair {
    Keypair::ed25519_from_bytes(seed).unwrap()
}

fn seed() -> [u8; 32] {
    let mut s = [0; 32];
    s[..8].copy_from_slice(&fresh().to_le_bytes());
    s[8..12].copy_from_slice(&std::process::id().to_le_bytes());
    let t = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos();
    s[12..28].copy_from_slice(&t.to_le_bytes());
    s
}

impl World {
    fn try_new(kind: Kind) -> Option<World> {
        let tag = format!("verif-{}-{}", std::process::id(), fresh());
        let modes: Vec<bool> = kind.manual.iter().flatten().copied().collect();
        let seeds: Vec<_> = modes.iter().map(|_| (seed(), free_port())).collect();
        let mut peers: Vec<(String, String)> = seeds
            .iter()
            .map(|(s, p)| (key(*s).public().to_peer_id().to_string(), format!("/ip4/127.0.0.1/udp/{p}/quic-v1")))
            .collect();
        let puppet = kind.puppet.then(|| Puppet::new(seed(), free_port(), &tag, &peers));
        if let Some(p) = &puppet {
            peers.push((p.peer.to_string(), p.addr.to_string()));
        }
        let mut nodes = vec![];
        for (i, (m, (s, port))) in modes.iter().zip(&seeds).enumerate() {
            let init = Init {
                seed: *s,
                manual: *m,
                port: *port,
                peers: peers.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, p)| p.clone()).collect(),
                max_records: kind.max_records,
                request_timeout_ms: kind.timeout_ms,
                query_ms: kind.query_ms,
                tag: tag.clone(),
            };
            let mut child = Command::new(std::env::current_exe().unwrap())
                .arg("node")
                .arg(serde_json::to_string(&init).unwrap())
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(if std::env::var_os("VERIF_PANICS").is_some() { Stdio::inherit() } else { Stdio::null() })
                .spawn()
                .ok()?;
            let stdin = child.stdin.take().unwrap();
            let mut out = BufReader::new(child.stdout.take().unwrap());
            let waiting: Arc<Mutex<Option<HashMap<u64, mpsc::Sender<Resp>>>>> = Arc::new(Mutex::new(Some(HashMap::new())));
            let mut node = Node {
                child,
                stdin: Mutex::new(stdin),
                waiting: waiting.clone(),
                peer: peers[i].0.clone(),
                addr: peers[i].1.clone(),
                manual: *m,
            };
            let mut up = String::new();
            if out.read_line(&mut up).is_err() || up.trim() != "up" {
                let _ = node.child.kill();
                return None;
            }
            std::thread::spawn(move || {
                for line in out.lines().map_while(Result::ok) {
                    if let Ok((id, r)) = serde_json::from_str::<(u64, Resp)>(&line) {
                        if let Some(tx) = waiting.lock().unwrap().as_mut().and_then(|w| w.remove(&id)) {
                            let _ = tx.send(r);
                        }
                    }
                }
                // whoever waits notices
                *waiting.lock().unwrap() = None;
            });
            nodes.push(node);
        }
        Some(World { nodes, puppet, cases: 0, kind })
    }

    fn new(kind: Kind) -> World {
        for _ in 0..4 {
            if let Some(w) = World::try_new(kind) {
                return w;
            }
        }
        eprintln!("no node can be started here (inconclusive)");
        std::process::exit(3);
    }

    /// Every pair of nodes has a connection; fails if that cannot be achieved.
    pub fn connect(&self) -> Result<(), Fail> {
        for i in 0..self.nodes.len() {
            for j in i + 1..self.nodes.len() {
                self.connect_pair(i, j)?;
            }
        }
        Ok(())
    }

    /// Dials until a request from `i` reaches `j`.
    pub fn connect_pair(&self, i: usize, j: usize) -> Result<(), Fail> {
        let (a, b) = (&self.nodes[i], &self.nodes[j]);
        let watch = if a.manual { Some((a, b)) } else if b.manual { Some((b, a)) } else { None };
        let until = Instant::now() + Duration::from_secs(20);
        if let Some((m, o)) = watch {
            if m.conns(&o.peer)?.0 > 0 {
                return Ok(());
            }
            while Instant::now() < until {
                m.call(Cmd::Dial { peer: o.peer.clone(), addr: o.addr.clone() })?;
                let t = Instant::now();
                while t.elapsed() < Duration::from_secs(3) {
                    if m.conns(&o.peer)?.0 > 0 {
                        return Ok(());
                    }
                    std::thread::sleep(Duration::from_micros(500));
                }
            }
            return Err(Fail { sig: "connect".into(), msg: format!("nodes {i} and {j} cannot be connected") });
        }
        // both are on their own: a lookup by the one of something registered by the other connects them
        a.call(Cmd::Dial { peer: b.peer.clone(), addr: b.addr.clone() })?;
        let (x, name) = (fresh(), format!("connect-{}", fresh()));
        b.call(Cmd::Spawn { a: x, ty: Ty::A, cap: None, resilient: true })?;
        while Instant::now() < until {
            b.call(Cmd::Register { a: x, name: name.clone() })?;
            if let Resp::Found(Some(_)) = a.call(Cmd::Lookup { name: name.clone(), ty: Ty::A, slot: x })? {
                let job = Job::new(fresh(), Out::Ok);
                if let Res::Ok(_) = a.res(Cmd::Req { local: None, slot: x, ask: true, try_: false, mbt: None, rt: None, job })? {
                    b.call(Cmd::End { a: x, how: How::Kill })?;
                    return Ok(());
                }
            }
            std::thread::sleep(Duration::from_millis(20));
        }
        Err(Fail { sig: "connect".into(), msg: format!("nodes {i} and {j} cannot be connected") })
    }

    /// Nothing panicked that should not have, everybody is there, and everything can be stopped.
    pub fn end(&self) -> Result<(), Fail> {
        for (i, n) in self.nodes.iter().enumerate() {
            if let Resp::Bool(false) = n.call(Cmd::Clear)? {
                return Err(Fail { sig: "stop".into(), msg: format!("an actor of node {i} never stops") });
            }
            if let Resp::Panics(p) = n.call(Cmd::Panics)? {
                if !p.is_empty() {
                    return Err(Fail { sig: "panic".into(), msg: format!("node {i} panics: {}", p.join("; ")) });
                }
            }
        }
        Ok(())
    }
}

thread_local! {
    static WORLD: RefCell<Vec<World>> = const { RefCell::new(Vec::new()) };
}

/// Runs a case in this thread's world of that kind; a world in which a case failed is not used again.
pub fn with<T>(kind: Kind, f: impl FnOnce(&World) -> Result<T, Fail>) -> Result<T, Fail> {
    let mut w = WORLD.with(|w| {
        let mut w = w.borrow_mut();
        // (several of single nodes may be kept)
        w.retain(|w| w.kind == kind && w.cases < 400 || w.nodes.len() == 1 && kind.manual[1].is_none());
        let i = w.iter().position(|w| w.kind == kind && w.cases < 400);
        i.map(|i| w.swap_remove(i))
    })
    .unwrap_or_else(|| World::new(kind));
    w.cases += 1;
    let r = f(&w).and_then(|r| w.end().map(|_| r));
    if r.is_ok() && !kind.once {
        WORLD.with(|x| x.borrow_mut().push(w));
    }
    r
}

//! A node: one process with one actor swarm, doing what it is told on stdin.
use std::{
    collections::HashMap,
    ops::ControlFlow,
    panic::AssertUnwindSafe,
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc, Mutex,
    },
    time::Duration,
};

use futures::{FutureExt, StreamExt};
use kameo::{
    actor::{ActorID, ActorRef, RemoteActorRef, WeakActorRef},
    error::{ActorStopReason, PanicError, RegistryError, RemoteSendError, SendError},
    mailbox,
    message::{Context, Message},
    remote::{ActorSwarm, ActorSwarmBehaviour, ActorSwarmBehaviourEvent, ActorSwarmEvent},
    reply::{DelegatedReply, Reply},
    Actor, RemoteActor,
};
use libp2p::{
    identity::Keypair,
    kad::{self, store::MemoryStore},
    mdns, request_response,
    swarm::{dial_opts::DialOpts, ConnectionId, SwarmEvent},
    Multiaddr, PeerId, StreamProtocol, SwarmBuilder,
};
use tokio::{
    io::{AsyncBufReadExt, AsyncWriteExt, BufReader},
    sync::{mpsc, Notify, Semaphore},
};

use crate::proto::*;

pub const JOB_PANIC: &str = "job panic";

pub struct Core {
    a: u64,
    resilient: bool,
    log: Arc<ActLog>,
    gate: Arc<Semaphore>,
}

#[derive(Default)]
pub struct ActLog {
    list: Mutex<Vec<Ev>>,
    changed: Notify,
}

impl ActLog {
    fn push(&self, ev: Ev) {
        self.list.lock().unwrap().push(ev);
        self.changed.notify_waiters();
    }
    async fn wait(&self, cond: impl Fn(&[Ev]) -> bool, ms: u64) -> bool {
        let until = tokio::time::Instant::now() + Duration::from_millis(ms);
        loop {
            let n = self.changed.notified();
            tokio::pin!(n);
            n.as_mut().enable();
            if cond(&self.list.lock().unwrap()) {
                return true;
            }
            if tokio::time::timeout_at(until, n).await.is_err() {
                return cond(&self.list.lock().unwrap());
            }
        }
    }
}

pub fn desc(r: &ActorStopReason) -> String {
    match r {
        ActorStopReason::Normal => "normal".into(),
        ActorStopReason::Killed => "killed".into(),
        // (what other peers say they panicked with is theirs)
        ActorStopReason::Panicked(e) if e.to_string().contains(JOB_PANIC) => "panicked".into(),
        ActorStopReason::Panicked(e) => format!("panicked({e})"),
        ActorStopReason::LinkDied { id, reason } => format!("link({},{})", id.sequence_id(), desc(reason)),
        ActorStopReason::PeerDisconnected => "peer".into(),
    }
}

fn peer_of(id: &ActorID) -> String {
    id.peer_id().map(|p| p.to_string()).unwrap_or_default()
}

/// Either an immediate result or a marker that the reply was sent or delegated.
pub enum JobReply {
    Now(Result<Rep, JobErr>),
    Later,
}

impl Reply for JobReply {
    type Ok = Rep;
    type Error = JobErr;
    type Value = Result<Rep, JobErr>;
    fn to_result(self) -> Result<Rep, JobErr> {
        match self {
            JobReply::Now(r) => r,
            JobReply::Later => unreachable!(),
        }
    }
    fn into_any_err(self) -> Option<Box<dyn kameo::reply::ReplyError>> {
        match self {
            JobReply::Now(Err(e)) => Some(Box::new(e)),
            _ => None,
        }
    }
    fn into_value(self) -> Self::Value {
        match self {
            JobReply::Now(r) => r,
            JobReply::Later => unreachable!(),
        }
    }
}

macro_rules! actor {
    ($name:ident, $id:tt) => {
        #[derive(RemoteActor)]
        #[remote_actor(id = $id)]
        pub struct $name(Core);

        impl Actor for $name {
            type Error = String;

            async fn on_panic(
                &mut self,
                _: WeakActorRef<Self>,
                err: PanicError,
            ) -> Result<ControlFlow<ActorStopReason>, String> {
                if self.0.resilient {
                    return Ok(ControlFlow::Continue(()));
                }
                Ok(ControlFlow::Break(ActorStopReason::Panicked(err)))
            }

            async fn on_link_died(
                &mut self,
                _: WeakActorRef<Self>,
                id: ActorID,
                reason: ActorStopReason,
            ) -> Result<ControlFlow<ActorStopReason>, String> {
                self.0.log.push(Ev::Link(id.sequence_id(), peer_of(&id), desc(&reason)));
                if self.0.resilient || matches!(reason, ActorStopReason::Normal) {
                    return Ok(ControlFlow::Continue(()));
                }
                Ok(ControlFlow::Break(ActorStopReason::LinkDied { id, reason: Box::new(reason) }))
            }

            async fn on_stop(&mut self, _: WeakActorRef<Self>, reason: ActorStopReason) -> Result<(), String> {
                self.0.log.push(Ev::Stop(desc(&reason)));
                Ok(())
            }
        }

        #[kameo::remote_message("verif-job")]
        impl Message<Job> for $name {
            type Reply = JobReply;

            async fn handle(&mut self, job: Job, ctx: &mut Context<Self, Self::Reply>) -> JobReply {
                let Job { id, .. } = job;
                // (or nothing that was sent)
                self.0.log.push(Ev::Begin(if job.extra == Extra::of(id) { id } else { u64::MAX }));
                if job.gate {
                    if let Ok(p) = self.0.gate.clone().acquire_owned().await {
                        p.forget();
                    }
                }
                if job.sleep > 0 {
                    tokio::time::sleep(Duration::from_millis(job.sleep as u64)).await;
                }
                let rep = Rep { extra: Extra::of(id), id, by: self.0.a, data: job.data, fuse: Fuse(job.out == Out::BadOk) };
                if job.out == Out::Panic {
                    self.0.log.push(Ev::End(id));
                    panic!("{JOB_PANIC}");
                }
                let r = match job.out {
                    Out::Err | Out::BadErr => {
                        JobReply::Now(Err(JobErr { extra: Extra::of(id), id, text: err_text(id), fuse: Fuse(job.out == Out::BadErr) }))
                    }
                    Out::Later(ms) => {
                        let (_, tx): (DelegatedReply<_>, _) = ctx.reply_sender();
                        if let Some(tx) = tx {
                            tokio::spawn(async move {
                                tokio::time::sleep(Duration::from_millis(ms as u64)).await;
                                tx.send(Ok(rep));
                            });
                        }
                        JobReply::Later
                    }
                    Out::Dropped => {
                        let (_, tx): (DelegatedReply<_>, _) = ctx.reply_sender();
                        drop(tx);
                        JobReply::Later
                    }
                    _ => JobReply::Now(Ok(rep)),
                };
                self.0.log.push(Ev::End(id));
                r
            }
        }
    };
}

actor!(ActA, "verif");
actor!(ActB, "verif-b");

#[derive(Clone)]
enum Any {
    A(ActorRef<ActA>),
    B(ActorRef<ActB>),
}
#[derive(Clone)]
enum Rem {
    A(RemoteActorRef<ActA>),
    B(RemoteActorRef<ActB>),
}

macro_rules! each {
    ($e:expr, $a:ident => $x:expr) => {
        match $e {
            Any::A($a) => $x,
            Any::B($a) => $x,
        }
    };
}
macro_rules! rem {
    ($e:expr, $a:ident => $x:expr) => {
        match $e {
            Rem::A($a) => $x,
            Rem::B($a) => $x,
        }
    };
}

struct Entry {
    act: Any,
    log: Arc<ActLog>,
    gate: Arc<Semaphore>,
}

enum Manual {
    Close(PeerId, usize, tokio::sync::oneshot::Sender<bool>),
    Conns(PeerId, tokio::sync::oneshot::Sender<(usize, u64)>),
}

struct Node {
    acts: Mutex<HashMap<u64, Entry>>,
    slots: Mutex<HashMap<u64, Rem>>,
    manual: Option<mpsc::UnboundedSender<Manual>>,
}

static PANICS: Mutex<Vec<String>> = Mutex::new(vec![]);

pub fn of_remote<E>(e: RemoteSendError<E>, handler: impl FnOnce(E) -> Res) -> Res {
    match e {
        RemoteSendError::ActorNotRunning => Res::NotRunning,
        RemoteSendError::ActorStopped => Res::Stopped,
        RemoteSendError::UnknownActor { actor_remote_id } => Res::UnknownActor(actor_remote_id.into_owned()),
        RemoteSendError::UnknownMessage { actor_remote_id, message_remote_id } => {
            Res::UnknownMessage(actor_remote_id.into_owned(), message_remote_id.into_owned())
        }
        RemoteSendError::BadActorType => Res::BadType,
        RemoteSendError::MailboxFull => Res::Full,
        RemoteSendError::ReplyTimeout => Res::Timeout,
        RemoteSendError::HandlerError(e) => handler(e),
        RemoteSendError::SerializeMessage(_) => Res::Ser,
        RemoteSendError::DeserializeMessage(_) => Res::De,
        RemoteSendError::SerializeReply(_) => Res::SerReply,
        RemoteSendError::SerializeHandlerError(_) => Res::SerErr,
        RemoteSendError::DeserializeHandlerError(_) => Res::DeErr,
        RemoteSendError::SwarmNotBootstrapped => Res::NoSwarm,
        e @ (RemoteSendError::DialFailure
        | RemoteSendError::NetworkTimeout
        | RemoteSendError::ConnectionClosed
        | RemoteSendError::UnsupportedProtocols
        | RemoteSendError::Io(_)) => Res::Net(match e {
            RemoteSendError::DialFailure => "dial".into(),
            RemoteSendError::NetworkTimeout => "timeout".into(),
            RemoteSendError::ConnectionClosed => "closed".into(),
            RemoteSendError::UnsupportedProtocols => "unsupported".into(),
            _ => "io".into(),
        }),
    }
}

fn res_of_tell(r: Result<(), RemoteSendError>) -> Res {
    match r {
        Ok(()) => Res::Ok(None),
        Err(e) => of_remote(e, |e| match e {}),
    }
}

fn of_local<M>(e: SendError<M, JobErr>) -> Res {
    match e {
        SendError::ActorNotRunning(_) => Res::NotRunning,
        SendError::ActorStopped => Res::Stopped,
        SendError::MailboxFull(_) => Res::Full,
        SendError::HandlerError(e) => Res::Handler(e.id, e.check()),
        SendError::Timeout(_) => Res::Timeout,
    }
}

/// The four combinations of timeouts of a request.
macro_rules! with_timeouts {
    ($req:expr, $mbt:expr, $rt:expr, $r:ident => $send:expr) => {{
        let req = $req;
        match ($mbt.map(Duration::from_millis), $rt.map(Duration::from_millis)) {
            (None, None) => {
                let $r = req;
                $send
            }
            (Some(m), None) => {
                let $r = req.mailbox_timeout(m);
                $send
            }
            (None, Some(t)) => {
                let $r = req.reply_timeout(t);
                $send
            }
            (Some(m), Some(t)) => {
                let $r = req.mailbox_timeout(m).reply_timeout(t);
                $send
            }
        }
    }};
}

async fn request(n: &Node, local: Option<u64>, slot: u64, ask: bool, try_: bool, mbt: Option<u64>, rt: Option<u64>, mut job: Job) -> Res {
    if job.sleep == FUSE {
        (job.sleep, job.fuse) = (0, Fuse(true));
    }
    if let Some(a) = local {
        let Some(a) = n.act(a) else { return Res::NotRunning };
        return each!(a, a => match (ask, try_) {
            (true, false) => match with_timeouts!(a.ask(job), mbt, rt, r => r.send().await) {
                Ok(r) => Res::Ok(Some(r)),
                Err(e) => of_local(e),
            },
            (true, true) => match match rt {
                Some(t) => a.ask(job).reply_timeout(Duration::from_millis(t)).try_send().await,
                None => a.ask(job).try_send().await,
            } {
                Ok(r) => Res::Ok(Some(r)),
                Err(e) => of_local(e),
            },
            (false, false) => match match mbt {
                Some(t) => a.tell(job).mailbox_timeout(Duration::from_millis(t)).send().await,
                None => a.tell(job).send().await,
            } {
                Ok(()) => Res::Ok(None),
                Err(e) => of_local(e.map_err(|e| match e {})),
            },
            (false, true) => match a.tell(job).try_send() {
                Ok(()) => Res::Ok(None),
                Err(e) => of_local(e.map_err(|e| match e {})),
            },
        });
    }
    let Some(r) = n.slots.lock().unwrap().get(&slot).cloned() else { return Res::NotRunning };
    rem!(&r, a => match (ask, try_) {
        (true, false) => match with_timeouts!(a.ask(&job), mbt, rt, r => r.send().await) {
            Ok(r) => Res::Ok(Some(r)),
            Err(e) => of_remote(e, |e: JobErr| Res::Handler(e.id, e.check())),
        },
        (true, true) => match match rt {
            Some(t) => a.ask(&job).reply_timeout(Duration::from_millis(t)).try_send().await,
            None => a.ask(&job).try_send().await,
        } {
            Ok(r) => Res::Ok(Some(r)),
            Err(e) => of_remote(e, |e: JobErr| Res::Handler(e.id, e.check())),
        },
        (false, false) => res_of_tell(match mbt {
            Some(t) => a.tell(&job).mailbox_timeout(Duration::from_millis(t)).send().await,
            None => a.tell(&job).send().await,
        }),
        (false, true) => res_of_tell(a.tell(&job).try_send().await),
    })
}

fn registry(e: RegistryError) -> Resp {
    Resp::Registry(match e {
        RegistryError::BadActorType => "type".into(),
        RegistryError::SwarmNotBootstrapped => "swarm".into(),
        RegistryError::QuorumFailed { .. } => "quorum".into(),
        RegistryError::Timeout => "timeout".into(),
        #[allow(unreachable_patterns)]
        _ => "other".into(),
    })
}

fn found(id: ActorID) -> Resp {
    Resp::Found(Some((id.sequence_id(), id.peer_id().map(|p| p.to_string()))))
}

impl Node {
    fn act(&self, a: u64) -> Option<Any> {
        self.acts.lock().unwrap().get(&a).map(|e| e.act.clone())
    }
    fn log(&self, a: u64) -> Arc<ActLog> {
        self.acts.lock().unwrap().get(&a).map(|e| e.log.clone()).unwrap_or_default()
    }

    async fn run(&self, cmd: Cmd) -> Resp {
        match cmd {
            Cmd::Spawn { a, ty, cap, resilient } => {
                let (log, gate) = (Arc::new(ActLog::default()), Arc::new(Semaphore::new(0)));
                let core = Core { a, resilient, log: log.clone(), gate: gate.clone() };
                macro_rules! go {
                    ($t:ident) => {
                        match cap {
                            Some(c) => kameo::actor::spawn_with_mailbox($t(core), mailbox::bounded(c as usize)),
                            None => kameo::actor::spawn_with_mailbox($t(core), mailbox::unbounded()),
                        }
                    };
                }
                let act = match ty {
                    Ty::A => Any::A(go!(ActA)),
                    Ty::B => Any::B(go!(ActB)),
                };
                let id = each!(&act, x => { x.wait_for_startup().await; x.id() });
                self.acts.lock().unwrap().insert(a, Entry { act, log, gate });
                Resp::Id(id.sequence_id(), id.peer_id().map(|p| p.to_string()))
            }
            Cmd::IdOf { a } => match self.act(a) {
                Some(act) => {
                    let id = each!(&act, x => x.id());
                    Resp::Id(id.sequence_id(), id.peer_id().map(|p| p.to_string()))
                }
                None => Resp::Unit,
            },
            Cmd::Register { a, name } => {
                let Some(act) = self.act(a) else { return Resp::Unit };
                let r = each!(act, x => x.register(&name).await);
                match r {
                    Ok(()) => Resp::Unit,
                    Err(e) => registry(e),
                }
            }
            Cmd::Unregister { name } => match ActorSwarm::get().unwrap().unregister(name).await {
                Ok(()) => Resp::Unit,
                Err(e) => registry(e),
            },
            Cmd::Lookup { name, ty, slot } => {
                let r = match ty {
                    Ty::A => RemoteActorRef::<ActA>::lookup(&name).await.map(|r| r.map(Rem::A)),
                    Ty::B => RemoteActorRef::<ActB>::lookup(&name).await.map(|r| r.map(Rem::B)),
                };
                match r {
                    Ok(Some(r)) => {
                        let id = rem!(&r, x => x.id());
                        self.slots.lock().unwrap().insert(slot, r);
                        found(id)
                    }
                    Ok(None) => Resp::Found(None),
                    Err(e) => registry(e),
                }
            }
            Cmd::LookupLocal { name, ty } => {
                let r = match ty {
                    Ty::A => ActorRef::<ActA>::lookup(&name).await.map(|r| r.map(Any::A)),
                    Ty::B => ActorRef::<ActB>::lookup(&name).await.map(|r| r.map(Any::B)),
                };
                match r {
                    Ok(Some(r)) => found(each!(&r, x => x.id())),
                    Ok(None) => Resp::Found(None),
                    Err(e) => registry(e),
                }
            }
            Cmd::Req { local, slot, ask, try_, mbt, rt, job } => {
                let mut r = request(self, local, slot, ask, try_, mbt, rt, job).await;
                if let Res::Ok(Some(r)) = &mut r {
                    // it could not be told to the driver
                    r.fuse = Fuse(false);
                }
                Resp::Res(r)
            }
            Cmd::Link { on, a, slot } => {
                let (Some(a), Some(r)) = (self.act(a), self.slots.lock().unwrap().get(&slot).cloned()) else {
                    return Resp::Unit;
                };
                let r = each!(a, a => rem!(&r, b => if on { a.link_remote(b).await } else { a.unlink_remote(b).await }));
                Resp::Res(res_of_tell(r))
            }
            Cmd::Link2 { on, slot, slot2 } => {
                let (a, b) = {
                    let s = self.slots.lock().unwrap();
                    (s.get(&slot).cloned(), s.get(&slot2).cloned())
                };
                let (Some(a), Some(b)) = (a, b) else { return Resp::Unit };
                let r = rem!(&a, a => rem!(&b, b => if on { a.link_remote(b).await } else { a.unlink_remote(b).await }));
                Resp::Res(res_of_tell(r))
            }
            Cmd::LinkLocal { on, a, b } => {
                let (Some(a), Some(b)) = (self.act(a), self.act(b)) else { return Resp::Unit };
                each!(a, a => each!(&b, b => if on { a.link(b).await } else { a.unlink(b).await }));
                Resp::Unit
            }
            Cmd::End { a, how } => {
                let Some(act) = self.act(a) else { return Resp::Unit };
                match how {
                    How::Kill => each!(act, x => x.kill()),
                    How::Stop => each!(act, x => drop(x.stop_gracefully().await)),
                    How::Panic => each!(act, x => drop(x.tell(Job::new(u64::MAX, Out::Panic)).send().await)),
                }
                Resp::Unit
            }
            Cmd::WaitStopped { a } => {
                let Some(act) = self.act(a) else { return Resp::Bool(true) };
                let w = async { each!(act, x => x.wait_for_shutdown().await) };
                Resp::Bool(tokio::time::timeout(Duration::from_secs(15), w).await.is_ok())
            }
            Cmd::Open { a, n } => {
                if let Some(e) = self.acts.lock().unwrap().get(&a) {
                    e.gate.add_permits(n);
                }
                Resp::Unit
            }
            Cmd::WaitBegin { a, id } => Resp::Bool(self.log(a).wait(|l| l.contains(&Ev::Begin(id)), 15_000).await),
            Cmd::WaitEnd { a, id } => Resp::Bool(self.log(a).wait(|l| l.contains(&Ev::End(id)), 15_000).await),
            Cmd::WaitEvents { a, n, ms } => Resp::Bool(
                self.log(a)
                    .wait(|l| l.iter().filter(|e| !matches!(e, Ev::Begin(_) | Ev::End(_))).count() >= n, ms)
                    .await,
            ),
            Cmd::Log { a } => Resp::Log(self.log(a).list.lock().unwrap().clone()),
            Cmd::Disconnect { peer } => {
                ActorSwarm::get().unwrap().disconnect_peer_id(peer.parse().unwrap());
                Resp::Unit
            }
            Cmd::Dial { peer, addr } => {
                let opts = DialOpts::peer_id(peer.parse().unwrap())
                    .condition(libp2p::swarm::dial_opts::PeerCondition::Always)
                    .addresses(vec![addr.parse().unwrap()])
                    .build();
                Resp::Bool(ActorSwarm::get().unwrap().dial(opts).await.is_ok())
            }
            Cmd::Close { peer, n } => {
                let (tx, rx) = tokio::sync::oneshot::channel();
                if let Some(m) = &self.manual {
                    let _ = m.send(Manual::Close(peer.parse().unwrap(), n, tx));
                }
                Resp::Bool(rx.await.unwrap_or(false))
            }
            Cmd::Conns { peer } => {
                let (tx, rx) = tokio::sync::oneshot::channel();
                if let Some(m) = &self.manual {
                    let _ = m.send(Manual::Conns(peer.parse().unwrap(), tx));
                }
                let (n, lost) = rx.await.unwrap_or_default();
                Resp::Conns(n, lost)
            }
            Cmd::Clear => {
                let acts: Vec<Entry> = self.acts.lock().unwrap().drain().map(|(_, e)| e).collect();
                for e in &acts {
                    e.gate.add_permits(1_000);
                    each!(&e.act, x => x.kill());
                }
                for e in acts {
                    let w = async { each!(&e.act, x => x.wait_for_shutdown().await) };
                    if tokio::time::timeout(Duration::from_secs(15), w).await.is_err() {
                        return Resp::Bool(false);
                    }
                }
                self.slots.lock().unwrap().clear();
                Resp::Bool(true)
            }
            Cmd::Panics => Resp::Panics(std::mem::take(&mut PANICS.lock().unwrap())),
        }
    }
}

pub fn behaviour(key: &Keypair, i: &Init) -> std::io::Result<ActorSwarmBehaviour> {
    let me = key.public().to_peer_id();
    let mut kc = kad::Config::new(StreamProtocol::try_from_owned(format!("/{}/kad", i.tag)).unwrap());
    kc.set_periodic_bootstrap_interval(None);
    kc.set_query_timeout(Duration::from_millis(i.query_ms));
    let store = kad::store::MemoryStoreConfig { max_records: i.max_records, ..Default::default() };
    let mut b = ActorSwarmBehaviour {
        kademlia: kad::Behaviour::with_config(me, MemoryStore::with_config(me, store), kc),
        request_response: request_response::cbor::Behaviour::new(
            [(StreamProtocol::try_from_owned(format!("/{}/kameo", i.tag)).unwrap(), request_response::ProtocolSupport::Full)],
            request_response::Config::default().with_request_timeout(Duration::from_millis(i.request_timeout_ms)),
        ),
        mdns: mdns::tokio::Behaviour::new(
            mdns::Config { query_interval: Duration::from_secs(86_400), ..Default::default() },
            me,
        )?,
    };
    for (p, a) in &i.peers {
        b.kademlia.add_address(&p.parse().unwrap(), a.parse().unwrap());
    }
    Ok(b)
}

fn forward(h: &mut kameo::remote::ActorSwarmHandler, swarm: &mut libp2p::Swarm<ActorSwarmBehaviour>, e: ActorSwarmBehaviourEvent) {
    h.handle_event(swarm, ActorSwarmEvent::Behaviour(e))
}

/// The swarm, driven by hand.
fn drive(key: Keypair, b: ActorSwarmBehaviour) -> mpsc::UnboundedSender<Manual> {
    let mut swarm = SwarmBuilder::with_existing_identity(key)
        .with_tokio()
        .with_quic()
        .with_behaviour(|_| Ok(b))
        .unwrap()
        .with_swarm_config(|c| c.with_idle_connection_timeout(Duration::from_secs(86_400)))
        .build();
    let (_, mut handler) = ActorSwarm::bootstrap_manual(*swarm.local_peer_id()).unwrap();
    let (tx, mut rx) = mpsc::unbounded_channel();
    tokio::spawn(async move {
        let mut conns: HashMap<PeerId, Vec<ConnectionId>> = HashMap::new();
        let mut lost: HashMap<PeerId, u64> = HashMap::new();
        loop {
            tokio::select! {
                Some(m) = rx.recv() => match m {
                    Manual::Close(p, n, tx) => {
                        let c = conns.get(&p).filter(|c| !c.is_empty()).map(|c| c[n % c.len()]);
                        let _ = tx.send(c.map(|c| swarm.close_connection(c)).unwrap_or(false));
                    }
                    Manual::Conns(p, tx) => {
                        let _ = tx.send((conns.get(&p).map(|c| c.len()).unwrap_or(0), lost.get(&p).copied().unwrap_or(0)));
                    }
                },
                Some(cmd) = handler.next_command() => handler.handle_command(&mut swarm, cmd),
                Some(ev) = swarm.next() => match ev {
                    SwarmEvent::ConnectionEstablished { peer_id, connection_id, .. } => {
                        conns.entry(peer_id).or_default().push(connection_id);
                    }
                    SwarmEvent::ConnectionClosed { peer_id, connection_id, endpoint, num_established, cause } => {
                        conns.entry(peer_id).or_default().retain(|c| *c != connection_id);
                        if num_established == 0 {
                            *lost.entry(peer_id).or_default() += 1;
                        }
                        handler.handle_event(&mut swarm, ActorSwarmEvent::ConnectionClosed { peer_id, connection_id, endpoint, num_established, cause });
                    }
                    SwarmEvent::Behaviour(ev) => forward(&mut handler, &mut swarm, ev),
                    _ => {}
                }
            }
        }
    });
    tx
}

static UNNAMED: AtomicU64 = AtomicU64::new(0);

pub fn main(init: &str) {
    let init: Init = serde_json::from_str(init).expect("init");
    std::panic::set_hook(Box::new(|info| {
        let text = info.to_string();
        if !text.contains(JOB_PANIC) {
            UNNAMED.fetch_add(1, Ordering::Relaxed);
            PANICS.lock().unwrap().push(text);
        }
    }));
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    rt.block_on(async move {
        let key = Keypair::ed25519_from_bytes(init.seed).unwrap();
        let b = behaviour(&key, &init).expect("behaviour");
        let manual = if init.manual {
            Some(drive(key, b))
        } else {
            ActorSwarm::bootstrap_with_behaviour(key, b).expect("bootstrap");
            None
        };
        let addr: Multiaddr = format!("/ip4/127.0.0.1/udp/{}/quic-v1", init.port).parse().unwrap();
        let ok = ActorSwarm::get().unwrap().listen_on(addr).await.is_ok();
        println!("{}", if ok { "up" } else { "port" });
        let node = Arc::new(Node { acts: Default::default(), slots: Default::default(), manual });
        let (tx, mut rx) = mpsc::unbounded_channel::<String>();
        tokio::spawn(async move {
            let mut out = tokio::io::stdout();
            while let Some(mut l) = rx.recv().await {
                while let Ok(m) = rx.try_recv() {
                    l.push_str(&m);
                }
                if out.write_all(l.as_bytes()).await.is_err() || out.flush().await.is_err() {
                    std::process::exit(0);
                }
            }
        });
        let mut lines = BufReader::new(tokio::io::stdin()).lines();
        while let Ok(Some(line)) = lines.next_line().await {
            let (id, cmd): (u64, Cmd) = serde_json::from_str(&line).expect("command");
            let (node, tx) = (node.clone(), tx.clone());
            tokio::spawn(async move {
                let r = AssertUnwindSafe(node.run(cmd)).catch_unwind().await.unwrap_or_else(|p| {
                    let t = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string()));
                    Resp::Panicked(t.unwrap_or_default())
                });
                let _ = tx.send(serde_json::to_string(&(id, r)).unwrap() + "\n");
            });
        }
        std::process::exit(0);
    });
}

//! A peer that is not a kameo node: it says whatever it is told to.
use std::{
    collections::{HashMap, VecDeque},
    io,
    sync::{Arc, Mutex},
    time::{Duration, Instant},
};

use async_trait::async_trait;
use futures::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, StreamExt};
use kameo::remote::{SwarmRequest, SwarmResponse};
use libp2p::{
    kad::{self, store::MemoryStore},
    request_response::{self, OutboundRequestId, ProtocolSupport},
    swarm::{dial_opts::DialOpts, NetworkBehaviour, SwarmEvent},
    Multiaddr, PeerId, StreamProtocol, SwarmBuilder,
};
use pbt::Fail;
use tokio::sync::{mpsc, oneshot};

use crate::world;

/// Requests and responses are just bytes.
#[derive(Clone, Default)]
pub struct Raw;

#[async_trait]
impl request_response::Codec for Raw {
    type Protocol = StreamProtocol;
    type Request = Vec<u8>;
    type Response = Vec<u8>;

    async fn read_request<T: AsyncRead + Unpin + Send>(&mut self, _: &StreamProtocol, io: &mut T) -> io::Result<Vec<u8>> {
        let mut v = vec![];
        io.take(20 << 20).read_to_end(&mut v).await?;
        Ok(v)
    }
    async fn read_response<T: AsyncRead + Unpin + Send>(&mut self, _: &StreamProtocol, io: &mut T) -> io::Result<Vec<u8>> {
        let mut v = vec![];
        io.take(20 << 20).read_to_end(&mut v).await?;
        Ok(v)
    }
    async fn write_request<T: AsyncWrite + Unpin + Send>(&mut self, _: &StreamProtocol, io: &mut T, r: Vec<u8>) -> io::Result<()> {
        io.write_all(&r).await
    }
    async fn write_response<T: AsyncWrite + Unpin + Send>(&mut self, _: &StreamProtocol, io: &mut T, r: Vec<u8>) -> io::Result<()> {
        io.write_all(&r).await
    }
}

#[derive(NetworkBehaviour)]
struct Beh {
    kad: kad::Behaviour<MemoryStore>,
    raw: request_response::Behaviour<Raw>,
}

#[derive(Clone, Debug)]
pub enum Answer {
    Bytes(Vec<u8>),
    /// the response channel is dropped
    Drop,
    /// the connection is closed
    Cut,
}

enum Cmd {
    Send(PeerId, Vec<u8>, oneshot::Sender<Option<Vec<u8>>>),
    Put(Vec<u8>, Vec<u8>, Vec<PeerId>, oneshot::Sender<bool>),
    Get(Vec<u8>, oneshot::Sender<Option<Vec<u8>>>),
    Disconnect(PeerId, oneshot::Sender<()>),
}

pub struct Puppet {
    tx: mpsc::UnboundedSender<Cmd>,
    pub peer: PeerId,
    pub addr: Multiaddr,
    /// what it answers next
    pub answers: Arc<Mutex<VecDeque<Answer>>>,
    /// what it was asked
    pub asked: Arc<Mutex<Vec<Vec<u8>>>>,
    last_cut: Arc<Mutex<Option<Instant>>>,
}

impl Puppet {
    pub fn new(seed: [u8; 32], port: u16, tag: &str, peers: &[(String, String)]) -> Puppet {
        let key = world::key(seed);
        let me = key.public().to_peer_id();
        let addr: Multiaddr = format!("/ip4/127.0.0.1/udp/{port}/quic-v1").parse().unwrap();
        let (tx, mut rx) = mpsc::unbounded_channel();
        let answers: Arc<Mutex<VecDeque<Answer>>> = Default::default();
        let asked: Arc<Mutex<Vec<Vec<u8>>>> = Default::default();
        let p = Puppet { tx, peer: me, addr: addr.clone(), answers: answers.clone(), asked: asked.clone(), last_cut: Default::default() };
        let last_cut = p.last_cut.clone();
        let (tag, peers) = (tag.to_string(), peers.to_vec());
        let (up_tx, up_rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
            rt.block_on(async move {
                let mut kc = kad::Config::new(StreamProtocol::try_from_owned(format!("/{tag}/kad")).unwrap());
                kc.set_periodic_bootstrap_interval(None);
                let mut kad = kad::Behaviour::with_config(me, MemoryStore::new(me), kc);
                kad.set_mode(Some(kad::Mode::Server));
                let raw = request_response::Behaviour::with_codec(
                    Raw,
                    [(StreamProtocol::try_from_owned(format!("/{tag}/kameo")).unwrap(), ProtocolSupport::Full)],
                    request_response::Config::default().with_request_timeout(Duration::from_secs(15)),
                );
                let mut addrs: HashMap<PeerId, Multiaddr> = HashMap::new();
                for (p, a) in &peers {
                    addrs.insert(p.parse().unwrap(), a.parse().unwrap());
                    kad.add_address(&p.parse().unwrap(), a.parse().unwrap());
                }
                let mut swarm = SwarmBuilder::with_existing_identity(key)
                    .with_tokio()
                    .with_quic()
                    .with_behaviour(|_| Ok(Beh { kad, raw }))
                    .unwrap()
                    .with_swarm_config(|c| c.with_idle_connection_timeout(Duration::from_secs(86_400)))
                    .build();
                let _ = swarm.listen_on(addr);
                let _ = up_tx.send(());
                let mut sent: HashMap<OutboundRequestId, oneshot::Sender<Option<Vec<u8>>>> = HashMap::new();
                let mut puts: HashMap<kad::QueryId, oneshot::Sender<bool>> = HashMap::new();
                let mut gets: HashMap<kad::QueryId, oneshot::Sender<Option<Vec<u8>>>> = HashMap::new();
                let mut closing: Vec<(PeerId, oneshot::Sender<()>)> = vec![];
                loop {
                    tokio::select! {
                        cmd = rx.recv() => match cmd {
                            None => return,
                            Some(Cmd::Send(p, bytes, tx)) => {
                                if !swarm.is_connected(&p) {
                                    let _ = swarm.dial(DialOpts::peer_id(p).addresses(vec![addrs[&p].clone()]).build());
                                }
                                let id = swarm.behaviour_mut().raw.send_request(&p, bytes);
                                sent.insert(id, tx);
                            }
                            Some(Cmd::Put(k, v, to, tx)) => {
                                let r = kad::Record { key: k.into(), value: v, publisher: None, expires: None };
                                let id = swarm.behaviour_mut().kad.put_record_to(r, to.into_iter(), kad::Quorum::All);
                                puts.insert(id, tx);
                            }
                            Some(Cmd::Disconnect(p, tx)) => {
                                if swarm.is_connected(&p) {
                                    let _ = swarm.disconnect_peer_id(p);
                                    closing.push((p, tx));
                                }
                            }
                            Some(Cmd::Get(k, tx)) => {
                                let id = swarm.behaviour_mut().kad.get_record(k.into());
                                gets.insert(id, tx);
                            }
                        },
                        ev = swarm.select_next_some() => match ev {
                            SwarmEvent::Behaviour(BehEvent::Raw(request_response::Event::Message { peer, message, .. })) => match message {
                                request_response::Message::Request { request, channel, .. } => {
                                    asked.lock().unwrap().push(request);
                                    match answers.lock().unwrap().pop_front() {
                                        Some(Answer::Bytes(b)) => {
                                            let _ = swarm.behaviour_mut().raw.send_response(channel, b);
                                        }
                                        Some(Answer::Cut) => {
                                            *last_cut.lock().unwrap() = Some(Instant::now());
                                            let _ = swarm.disconnect_peer_id(peer);
                                        }
                                        Some(Answer::Drop) | None => drop(channel),
                                    }
                                }
                                request_response::Message::Response { request_id, response } => {
                                    if let Some(tx) = sent.remove(&request_id) {
                                        let _ = tx.send(Some(response));
                                    }
                                }
                            },
                            SwarmEvent::Behaviour(BehEvent::Raw(request_response::Event::OutboundFailure { request_id, error, connection_id, .. })) => {
                                if std::env::var_os("VERIF_DEBUG").is_some() { eprintln!("puppet: {error:?} on {connection_id:?}"); }
                                if let Some(tx) = sent.remove(&request_id) {
                                    let _ = tx.send(None);
                                }
                            }
                            SwarmEvent::Behaviour(BehEvent::Kad(kad::Event::OutboundQueryProgressed { id, result, step, .. })) => match result {
                                kad::QueryResult::PutRecord(r) => {
                                    if let Some(tx) = puts.remove(&id) {
                                        let _ = tx.send(r.is_ok());
                                    }
                                }
                                kad::QueryResult::GetRecord(Ok(kad::GetRecordOk::FoundRecord(r))) => {
                                    if let Some(tx) = gets.remove(&id) {
                                        let _ = tx.send(Some(r.record.value));
                                    }
                                }
                                kad::QueryResult::GetRecord(_) if step.last => {
                                    gets.remove(&id);
                                }
                                _ => {}
                            },
                            SwarmEvent::ConnectionClosed { peer_id, num_established: 0, .. } => {
                                closing.retain(|(p, _)| *p != peer_id);
                            }
                            e => if std::env::var_os("VERIF_DEBUG").is_some() { eprintln!("puppet: {e:?}") },
                        }
                    }
                }
            });
        });
        let _ = up_rx.recv();
        p
    }

    fn wait<T>(rx: oneshot::Receiver<T>, what: &str) -> Result<Option<T>, Fail> {
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
        match rt.block_on(async { tokio::time::timeout(Duration::from_secs(40), rx).await }) {
            Ok(r) => Ok(r.ok()),
            Err(_) => Err(Fail { sig: "hang".into(), msg: format!("{what} never completes") }),
        }
    }

    /// Sends these bytes as a request; `None` if it fails without a response.
    pub fn send(&self, to: PeerId, bytes: Vec<u8>) -> Result<Option<Vec<u8>>, Fail> {
        let (tx, rx) = oneshot::channel();
        let _ = self.tx.send(Cmd::Send(to, bytes, tx));
        Ok(Self::wait(rx, "a request of another peer")?.flatten())
    }
    pub fn put(&self, key: &str, value: Vec<u8>, to: Vec<PeerId>) -> Result<bool, Fail> {
        let (tx, rx) = oneshot::channel();
        let _ = self.tx.send(Cmd::Put(key.as_bytes().to_vec(), value, to, tx));
        Ok(Self::wait(rx, "storing a record")?.unwrap_or(false))
    }
    pub fn get(&self, key: &str) -> Result<Option<Vec<u8>>, Fail> {
        let (tx, rx) = oneshot::channel();
        let _ = self.tx.send(Cmd::Get(key.as_bytes().to_vec(), tx));
        Ok(Self::wait(rx, "getting a record")?.flatten())
    }
    /// Closes the connections with a peer, and waits until they are.
    pub fn disconnect(&self, from: PeerId) -> Result<(), Fail> {
        let (tx, rx) = oneshot::channel();
        let _ = self.tx.send(Cmd::Disconnect(from, tx));
        Self::wait(rx, "disconnecting").map(|_| ())
    }
    /// Whether it closed a connection not long ago.
    pub fn cut_lately(&self) -> bool {
        self.last_cut.lock().unwrap().is_some_and(|t| t.elapsed() < Duration::from_secs(2))
    }
}

pub fn encode(r: &SwarmRequest) -> Vec<u8> {
    cbor4ii::serde::to_vec(vec![], r).unwrap()
}
pub fn encode_response(r: &SwarmResponse) -> Vec<u8> {
    cbor4ii::serde::to_vec(vec![], r).unwrap()
}
pub fn decode_request(b: &[u8]) -> Option<SwarmRequest> {
    cbor4ii::serde::from_slice(b).ok()
}
pub fn decode_response(b: &[u8]) -> Option<SwarmResponse> {
    cbor4ii::serde::from_slice(b).ok()
}

//! A node under test that talks to peers implemented here, over raw sockets: handshakes (C19), hostile bytes
//! after and before them (C18), heartbeats and timeouts (C28).
use crate::agent::{Cmd, NMsg, Req};
use crate::cluster::{AgentProc, fresh_ip};
use crate::prop::*;
use hmac::{Hmac, Mac};
use hydra::ExitReason;
use hydra::verif::frame::{Codec, Exit, Frame, Hello, Link, Monitor, Send, SendTarget};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{ErrorKind, Read, Write};
use std::net::{Shutdown, SocketAddr, TcpListener, TcpStream};
use std::num::NonZeroU64;
use std::time::{Duration, Instant};
use tokio_util::bytes::BytesMut;
use tokio_util::codec::{Decoder, Encoder};

// ---------------------------------------------------------------- raw connections

pub fn proof(cookie: Option<&str>, name: &str, addr: &str) -> Vec<u8> {
    let mut m = Hmac::<sha2::Sha256>::new_from_slice(cookie.map(|c| c.as_bytes()).unwrap_or(&[0])).unwrap();
    m.update(name.as_bytes());
    m.update(addr.as_bytes());
    m.finalize().into_bytes().to_vec()
}

pub fn encode(f: Frame) -> Vec<u8> {
    let mut b = BytesMut::new();
    Codec::new().encode(f, &mut b).unwrap();
    b.to_vec()
}

pub fn hello(name: &str, addr: SocketAddr, cookie: Option<&str>) -> Frame {
    Frame::Hello(Hello { name: name.to_string(), broadcast_address: addr, challenge: proof(cookie, name, &addr.to_string()) })
}

pub enum Got {
    Frame(Frame),
    Closed,
    Nothing,
}

pub struct Raw {
    s: TcpStream,
    buf: BytesMut,
    /// when the last bytes were received
    pub at: Instant,
}

impl Raw {
    pub fn new(s: TcpStream) -> Raw {
        let _ = s.set_nodelay(true);
        Raw { s, buf: BytesMut::new(), at: Instant::now() }
    }
    pub fn connect(addr: SocketAddr) -> Result<Raw, String> {
        TcpStream::connect_timeout(&addr, Duration::from_secs(10)).map(Raw::new).map_err(|e| format!("the node does not accept connections any more: {e}"))
    }
    pub fn bytes(&mut self, b: &[u8]) -> bool {
        self.s.set_write_timeout(Some(Duration::from_secs(10))).unwrap();
        self.s.write_all(b).is_ok()
    }
    pub fn frame(&mut self, f: Frame) -> bool {
        self.bytes(&encode(f))
    }
    pub fn next(&mut self, wait: Duration) -> Result<Got, String> {
        let until = Instant::now() + wait;
        loop {
            match Codec::new().decode(&mut self.buf) {
                Ok(Some(f)) => return Ok(Got::Frame(f)),
                Ok(None) => {}
                Err(e) => return Err(format!("the node sent something that is no frame: {e}")),
            }
            let now = Instant::now();
            if now >= until {
                return Ok(Got::Nothing);
            }
            self.s.set_read_timeout(Some((until - now).max(Duration::from_millis(1)))).unwrap();
            let mut b = [0u8; 65536];
            match self.s.read(&mut b) {
                Ok(0) => return Ok(Got::Closed),
                Ok(n) => {
                    self.at = Instant::now();
                    self.buf.extend_from_slice(&b[..n]);
                }
                Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut) => return Ok(Got::Nothing),
                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                Err(_) => return Ok(Got::Closed),
            }
        }
    }
    /// Reads until the node closes the connection. Returns what it sent.
    pub fn drain(&mut self, wait: Duration) -> Result<Option<Vec<Frame>>, String> {
        let until = Instant::now() + wait;
        let mut v = Vec::new();
        loop {
            let left = until.saturating_duration_since(Instant::now());
            match self.next(left)? {
                Got::Frame(f) => v.push(f),
                Got::Closed => return Ok(Some(v)),
                Got::Nothing => return Ok(None),
            }
        }
    }
    /// Reads (frames or not) until the node closes the connection.
    pub fn drain_any(&mut self, wait: Duration) -> Option<()> {
        let until = Instant::now() + wait;
        loop {
            let left = until.saturating_duration_since(Instant::now());
            if left.is_zero() {
                return None;
            }
            self.s.set_read_timeout(Some(left)).unwrap();
            let mut b = [0u8; 65536];
            match self.s.read(&mut b) {
                Ok(0) => return Some(()),
                Ok(_) => {}
                Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut | ErrorKind::Interrupted) => {}
                Err(_) => return Some(()),
            }
        }
    }
    pub fn socket(&self) -> &TcpStream {
        &self.s
    }
    /// No more will be sent.
    pub fn finish(&self) {
        let _ = self.s.shutdown(Shutdown::Write);
    }
    pub fn close(&self) {
        let _ = self.s.shutdown(Shutdown::Both);
    }
}

// ---------------------------------------------------------------- handshakes (C19)

const COOKIES: [Option<&str>; 6] = [
    Some("secret"),
    None,
    Some("Secret"),
    Some("secret1"),
    Some("a very long secret that does not fit into one block of the hash function, so it is hashed first"),
    Some("ключ\u{1F511}"),
];

/// The handshake a peer sends. All but `Valid` (and `Cookie`, when it happens to be the same) prove nothing.
#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum H {
    Valid,
    Cookie(u8),
    Flip(u16),
    Truncate(u8),
    Extend(u8),
    Empty,
    Zero,
    /// The proof of another of the peers.
    ProofOf(u8),
    /// The proof for this name at another port / this address under another name.
    ProofPort(u16),
    ProofName(u8),
    /// A keyless hash, or the fields the other way around.
    Swapped,
    Garbage(Vec<u8>),
    /// The first bytes of a valid handshake, then nothing more.
    Partial(u8),
    Silent,
    /// Another frame first, then a valid handshake.
    PingFirst,
    FramesFirst,
    /// A valid handshake followed by a second one.
    Twice,
    /// Closes before sending anything.
    Close,
    /// A valid handshake followed by something that is no frame.
    Broken(Vec<u8>),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Atk {
    Send(u8, u8),
    Exit(u8, u8, u8),
    Link(u8, u8, bool),
    Monitor(u8, u8, bool),
    Ping,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Step {
    /// The peer connects.
    In { who: u8, h: H, frames: Vec<Atk>, pipeline: bool, cut: u8 },
    /// The node connects to the peer.
    Out { who: u8, trigger: u8, victim: u8, h: H, frames: Vec<Atk> },
    /// Out, but the one that answers is another peer.
    Wrong { who: u8, other: u8, trigger: u8, victim: u8, frames: Vec<Atk> },
    Refuse { who: u8, trigger: u8, victim: u8 },
    /// More frames on an established connection.
    More(u8, Vec<Atk>),
    Close(u8),
    Disconnect(u8),
    Forget(u8),
    Cookie(u8),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct HCase {
    seed: u64,
    cookie: u8,
    /// bit 0: peers share their name, bit 1: peers share their ip
    ident: u8,
    v6: bool,
    steps: Vec<Step>,
}

struct Victim {
    id: u64,
    alive: bool,
    trap: bool,
    name: Option<String>,
    events: Vec<String>,
    links: BTreeSet<(usize, u64)>,
    /// reference -> (peer, pid)
    mons: BTreeMap<(usize, u64), u64>,
}

struct Peer {
    name: String,
    addr: SocketAddr,
    known: Option<bool>,
    raw: Option<Raw>,
}

struct W {
    agent: AgentProc,
    name: String,
    addr: SocketAddr,
    cookie: usize,
    alias: u64,
    victims: Vec<Victim>,
    peers: Vec<Peer>,
    /// (victim, peer, reference)
    nodemons: Vec<(usize, usize, u64)>,
    procmons: Vec<(usize, usize, u64)>,
    next: u64,
    refs: u64,
    lenient: bool,
    accepted: u32,
    rejected: u32,
    effects: u32,
}

fn reason(k: u8) -> (ExitReason, &'static str) {
    match k % 3 {
        0 => (ExitReason::Normal, "!normal"),
        1 => (ExitReason::Kill, "!kill"),
        _ => (ExitReason::Custom("boom".into()), "boom"),
    }
}

fn num(v: &Value) -> Option<u64> {
    match v {
        Value::Number(n) => n.as_u64(),
        Value::Array(a) => a.first().and_then(num),
        Value::Object(o) => o.values().next().and_then(num),
        _ => None,
    }
}

const HS: u64 = 1500;

impl W {
    fn cookie(&self) -> Option<&'static str> {
        COOKIES[self.cookie]
    }
    fn label(&self, p: usize) -> String {
        format!("{}@{}", self.peers[p].name, self.peers[p].addr)
    }
    fn die(&mut self, v: usize) {
        let x = &mut self.victims[v];
        x.alive = false;
        x.links.clear();
        x.mons.clear();
        self.nodemons.retain(|m| m.0 != v);
        self.procmons.retain(|m| m.0 != v);
    }
    fn lost(&mut self, p: usize) {
        self.peers[p].known = Some(false);
        if let Some(r) = self.peers[p].raw.take() {
            r.close();
        }
        self.lost_effects(p);
    }
    fn lost_effects(&mut self, p: usize) {
        let mut keep = Vec::new();
        for (v, q, r) in std::mem::take(&mut self.nodemons) {
            if q == p { self.victims[v].events.push(format!("nodedown {p} {r}")) } else { keep.push((v, q, r)) }
        }
        self.nodemons = keep;
        let mut keep = Vec::new();
        for (v, q, r) in std::mem::take(&mut self.procmons) {
            if q == p { self.victims[v].events.push(format!("down {r} noconnection")) } else { keep.push((v, q, r)) }
        }
        self.procmons = keep;
        for v in 0..self.victims.len() {
            self.victims[v].mons.retain(|m, _| m.0 != p);
            let l: Vec<(usize, u64)> = self.victims[v].links.iter().copied().filter(|l| l.0 == p).collect();
            for x in l {
                if !self.victims[v].alive {
                    continue;
                }
                self.victims[v].links.remove(&x);
                if self.victims[v].trap {
                    self.victims[v].events.push(format!("exit {p}:{} noconnection", x.1));
                } else {
                    self.die(v);
                }
            }
        }
    }
    /// Builds frames. `live`: they take effect.
    fn frames(&mut self, p: usize, list: &[Atk], live: bool) -> Vec<u8> {
        let mut out = Vec::new();
        for a in list {
            match a {
                Atk::Ping => out.extend(encode(Frame::Ping)),
                Atk::Send(v, how) => {
                    let mut v = *v as usize % self.victims.len();
                    let target = match how % 3 {
                        1 if self.victims[v].name.is_some() => SendTarget::Named(self.victims[v].name.clone().unwrap()),
                        2 => {
                            v = 0;
                            SendTarget::Alias(NonZeroU64::new(self.alias).unwrap())
                        }
                        _ => SendTarget::Pid(NonZeroU64::new(self.victims[v].id).unwrap()),
                    };
                    self.next += 1;
                    let m = NMsg { id: self.next, text: "x".into(), bytes: vec![1, 2, 3], num: (0, 0.0, None), ids: vec![], tree: BTreeMap::new() };
                    let bytes = rmp_serde::to_vec_named(&m).unwrap();
                    out.extend(encode(Frame::Send(Send { targets: vec![target], message: bytes })));
                    if live && self.victims[v].alive {
                        self.effects += 1;
                        self.victims[v].events.push(format!("data {}", self.next));
                    }
                }
                Atk::Exit(v, from, r) => {
                    let v = *v as usize % self.victims.len();
                    let (r, text) = reason(*r);
                    let from = 1 + *from as u64 % 4;
                    out.extend(encode(Frame::Exit(Exit { process_id: self.victims[v].id, from_id: from, exit_reason: r })));
                    if live && self.victims[v].alive {
                        self.effects += 1;
                        if text == "!kill" || (!self.victims[v].trap && text == "boom") {
                            self.die(v);
                        } else if self.victims[v].trap {
                            self.victims[v].events.push(format!("exit {p}:{from} {text}"));
                        }
                    }
                }
                Atk::Link(v, from, install) => {
                    let v = *v as usize % self.victims.len();
                    let from = 1 + *from as u64 % 4;
                    out.extend(encode(Frame::Link(Link { install: *install, process_id: self.victims[v].id, from_id: from })));
                    if live && self.victims[v].alive {
                        self.effects += 1;
                        if *install { self.victims[v].links.insert((p, from)) } else { self.victims[v].links.remove(&(p, from)) };
                    }
                }
                Atk::Monitor(v, from, by_name) => {
                    let v = *v as usize % self.victims.len();
                    let from = 1 + *from as u64 % 4;
                    self.refs += 1;
                    let name = if *by_name { self.victims[v].name.clone() } else { None };
                    let id = if name.is_some() { None } else { Some(self.victims[v].id) };
                    out.extend(encode(Frame::Monitor(Monitor { install: true, process_id: id, process_name: name, from_id: Some(from), reference_id: self.refs })));
                    if live && self.victims[v].alive {
                        self.effects += 1;
                        self.victims[v].mons.insert((p, self.refs), from);
                    }
                }
            }
        }
        out
    }
    /// What the node sends first must prove its own identity.
    fn check_hello(&self, f: &Frame) -> Result<(), String> {
        let Frame::Hello(h) = f else { return Err(format!("the node sent {f:?} instead of a handshake")) };
        if h.name != self.name || h.broadcast_address != self.addr {
            return Err(format!("the node introduces itself as {}@{}", h.name, h.broadcast_address));
        }
        if h.challenge != proof(self.cookie(), &self.name, &self.addr.to_string()) {
            return Err("the proof of the node is not made with its cookie".into());
        }
        Ok(())
    }
    /// The bytes of a handshake; whether it should be accepted.
    fn handshake(&self, p: usize, h: &H) -> (Vec<u8>, bool) {
        let (name, addr) = (self.peers[p].name.clone(), self.peers[p].addr);
        let a = addr.to_string();
        let good = proof(self.cookie(), &name, &a);
        let with = |c: Vec<u8>| {
            let ok = c == good;
            (encode(Frame::Hello(Hello { name: name.clone(), broadcast_address: addr, challenge: c })), ok)
        };
        match h {
            H::Valid | H::Twice | H::Broken(_) => with(good.clone()),
            H::Cookie(c) => with(proof(COOKIES[*c as usize % COOKIES.len()], &name, &a)),
            H::Flip(b) => {
                let mut g = good.clone();
                g[*b as usize / 8 % 32] ^= 1 << (b % 8);
                with(g)
            }
            H::Truncate(n) => with(good[..*n as usize % 32].to_vec()),
            H::Extend(n) => {
                let mut g = good.clone();
                g.extend(std::iter::repeat_n(*n, 1 + *n as usize % 40));
                with(g)
            }
            H::Empty => with(vec![]),
            H::Zero => with(vec![0; 32]),
            H::ProofOf(q) => {
                let q = &self.peers[*q as usize % self.peers.len()];
                with(proof(self.cookie(), &q.name, &q.addr.to_string()))
            }
            H::ProofPort(port) => {
                let mut b = addr;
                b.set_port(*port);
                with(proof(self.cookie(), &name, &b.to_string()))
            }
            H::ProofName(n) => with(proof(self.cookie(), ["", "Peer", "peer0 ", "node"][*n as usize % 4], &a)),
            H::Swapped => with(proof(self.cookie(), &a, &name)),
            H::Garbage(b) => (b.clone(), false),
            H::Partial(n) => {
                let (b, _) = with(good.clone());
                let n = *n as usize % b.len();
                (b[..n].to_vec(), false)
            }
            H::Silent | H::Close => (vec![], false),
            H::PingFirst => {
                let mut b = encode(Frame::Ping);
                b.extend(with(good.clone()).0);
                (b, false)
            }
            H::FramesFirst => (vec![], false),
        }
    }
    fn expect_rejected(&mut self, mut raw: Raw) -> Result<(), String> {
        self.rejected += 1;
        let Some(got) = raw.drain(Duration::from_millis(HS + 12_000))? else {
            return Err("a connection without a valid handshake stays open".into());
        };
        for (i, f) in got.iter().enumerate() {
            if i > 0 {
                return Err(format!("the node sent {f:?} on a connection without a valid handshake"));
            }
            self.check_hello(f)?;
        }
        Ok(())
    }
    /// After an accepted handshake: frames, and what breaks the connection again.
    fn established(&mut self, p: usize, mut raw: Raw, h: &H, frames: &[Atk], sent: bool) -> Result<(), String> {
        self.accepted += 1;
        if !sent {
            let b = self.frames(p, frames, true);
            if !b.is_empty() && !raw.bytes(&b) {
                return Err("an established connection was closed".into());
            }
        }
        self.peers[p].known = Some(true);
        match h {
            H::Twice => {
                raw.bytes(&self.handshake(p, &H::Valid).0);
            }
            H::Broken(b) => {
                let mut bytes = ((b.len() + 1) as u32).to_le_bytes().to_vec();
                bytes.push(200);
                bytes.extend(b);
                raw.bytes(&bytes);
            }
            _ => {
                self.peers[p].raw = Some(raw);
                return Ok(());
            }
        }
        if raw.drain(Duration::from_secs(12))?.is_none() {
            return Err("a connection on which something invalid was received stays open".into());
        }
        self.lost(p);
        Ok(())
    }

    fn act(&mut self, v: usize, c: Cmd) -> Result<Value, String> {
        let r = self.agent.call(Req::Act { actor: v, cmds: vec![c] })?;
        match r["out"].as_array() {
            Some(o) => Ok(o[0].clone()),
            None => Err(format!("process {v} is dead")),
        }
    }
    /// Something that makes the node connect. Returns the effect when the connection fails / the frame when it works.
    fn trigger(&mut self, p: usize, kind: u8, v: usize) -> Result<(u8, u64), String> {
        let l = self.label(p);
        let pid = json!({"WithNode": [3, self.peers[p].name, self.peers[p].addr.to_string()]});
        let k = if self.victims[v].alive { kind % 5 } else { 0 };
        let r = match k {
            0 => {
                self.agent.call(Req::Connect(l))?;
                Value::Null
            }
            1 => self.act(v, Cmd::NodeMonitor(l))?,
            2 => self.act(v, Cmd::Link(pid))?,
            3 => self.act(v, Cmd::Monitor(json!({"p": pid})))?,
            _ => self.act(v, Cmd::Monitor(json!({"name": "there", "node": l})))?,
        };
        Ok((k, num(&r).unwrap_or(0)))
    }
    fn trigger_failed(&mut self, p: usize, v: usize, t: (u8, u64)) {
        self.peers[p].known = Some(false);
        match t.0 {
            1 => self.victims[v].events.push(format!("nodedown {p} {}", t.1)),
            2 => {
                if self.victims[v].trap {
                    self.victims[v].events.push(format!("exit {p}:3 noconnection"));
                } else {
                    self.die(v);
                }
            }
            3 | 4 => self.victims[v].events.push(format!("down {} noconnection", t.1)),
            _ => {}
        }
    }

    fn step(&mut self, s: &Step) -> Result<bool, String> {
        let n = self.peers.len();
        match s {
            Step::In { who, h, frames, pipeline, cut } => {
                let p = *who as usize % n;
                let free = self.peers[p].known != Some(true);
                let (bytes, ok) = self.handshake(p, h);
                let ok = ok && free;
                let mut raw = Raw::connect(self.addr)?;
                let started = Instant::now();
                match h {
                    H::Close => {
                        raw.close();
                        return Ok(true);
                    }
                    H::FramesFirst => {
                        let mut b = self.frames(p, frames, false);
                        b.extend(self.handshake(p, &H::Valid).0);
                        if frames.is_empty() {
                            return Ok(false);
                        }
                        raw.bytes(&b);
                        self.expect_rejected(raw)?;
                        return Ok(true);
                    }
                    _ => {}
                }
                let mut all = bytes;
                // A partial handshake must not be completed by what follows.
                let pipeline = *pipeline && !matches!(h, H::Partial(_) | H::Garbage(_) | H::Silent);
                if pipeline {
                    all.extend(self.frames(p, frames, ok));
                }
                // In several pieces.
                let k = if *cut == 0 { all.len() } else { *cut as usize % (all.len() + 1) };
                raw.bytes(&all[..k]);
                if k < all.len() {
                    std::thread::sleep(Duration::from_millis(1));
                    raw.bytes(&all[k..]);
                }
                if started.elapsed() > Duration::from_millis(HS / 2) && ok {
                    return Err("SLOW".into());
                }
                if !ok {
                    self.expect_rejected(raw)?;
                    return Ok(true);
                }
                match raw.next(Duration::from_secs(12))? {
                    Got::Frame(f) => self.check_hello(&f)?,
                    _ => return Err("the node closed a connection with a valid handshake".into()),
                }
                self.established(p, raw, h, frames, pipeline)?;
            }
            _ => return self.step_out(s),
        }
        Ok(true)
    }
    fn step_out(&mut self, s: &Step) -> Result<bool, String> {
        let n = self.peers.len();
        match s {
            Step::Out { who, trigger, victim, h, frames } => {
                let p = *who as usize % n;
                self.outgoing(p, *trigger, *victim, Some((h.clone(), p)), frames)
            }
            Step::Wrong { who, other, trigger, victim, frames } => {
                let (p, q) = (*who as usize % n, *other as usize % n);
                if p == q {
                    return Ok(false);
                }
                self.outgoing(p, *trigger, *victim, Some((H::Valid, q)), frames)
            }
            Step::Refuse { who, trigger, victim } => self.outgoing(*who as usize % n, *trigger, *victim, None, &[]),
            Step::More(who, frames) => {
                let p = *who as usize % n;
                if self.peers[p].known != Some(true) {
                    return Ok(false);
                }
                let b = self.frames(p, frames, true);
                if !self.peers[p].raw.as_mut().unwrap().bytes(&b) {
                    return Err("an established connection was closed".into());
                }
                Ok(true)
            }
            Step::Close(who) | Step::Disconnect(who) | Step::Forget(who) => {
                let p = *who as usize % n;
                let l = self.label(p);
                let was = self.peers[p].known;
                match s {
                    Step::Close(_) => {
                        if was != Some(true) {
                            return Ok(false);
                        }
                        self.lost(p);
                    }
                    Step::Disconnect(_) => {
                        self.agent.call(Req::Disconnect(l))?;
                        if was == Some(true) {
                            let mut raw = self.peers[p].raw.take().unwrap();
                            if raw.drain(Duration::from_secs(12))?.is_none() {
                                return Err("a disconnected connection stays open".into());
                            }
                            self.lost(p);
                        }
                    }
                    _ => {
                        self.agent.call(Req::Forget(l))?;
                        self.lenient = true;
                        if was == Some(true) {
                            let mut raw = self.peers[p].raw.take().unwrap();
                            if raw.drain(Duration::from_secs(12))?.is_none() {
                                return Err("a forgotten connection stays open".into());
                            }
                            self.lost(p);
                        }
                        self.peers[p].known = None;
                    }
                }
                Ok(was.is_some())
            }
            Step::Cookie(c) => {
                self.cookie = *c as usize % COOKIES.len();
                self.agent.call(Req::Cookie(self.cookie().map(String::from)))?;
                Ok(true)
            }
            Step::In { .. } => unreachable!(),
        }
    }
    fn outgoing(&mut self, p: usize, trigger: u8, victim: u8, reply: Option<(H, usize)>, frames: &[Atk]) -> Result<bool, String> {
        if self.peers[p].known == Some(true) {
            return Ok(false);
        }
        let v = victim as usize % self.victims.len();
        let Some((h, as_peer)) = reply else {
            let t = self.trigger(p, trigger, v)?;
            self.rejected += 1;
            self.trigger_failed(p, v, t);
            return Ok(true);
        };
        let listener = TcpListener::bind(self.peers[p].addr).map_err(|e| format!("SLOW {e}"))?;
        listener.set_nonblocking(true).unwrap();
        let t = self.trigger(p, trigger, v)?;
        let until = Instant::now() + Duration::from_secs(12);
        let stream = loop {
            match listener.accept() {
                Ok((s, _)) => break s,
                Err(_) if Instant::now() < until => std::thread::sleep(Duration::from_millis(1)),
                Err(e) => return Err(format!("the node does not connect: {e}")),
            }
        };
        drop(listener);
        stream.set_nonblocking(false).unwrap();
        let mut raw = Raw::new(stream);
        match raw.next(Duration::from_secs(12))? {
            Got::Frame(f) => self.check_hello(&f)?,
            _ => return Err("the node does not introduce itself".into()),
        }
        let (bytes, ok) = self.handshake(as_peer, &h);
        let ok = ok && as_peer == p;
        if matches!(h, H::Close) {
            raw.close();
            self.trigger_failed(p, v, t);
            self.rejected += 1;
            return Ok(true);
        }
        if matches!(h, H::FramesFirst) {
            let mut b = self.frames(p, frames, false);
            b.extend(self.handshake(p, &H::Valid).0);
            if frames.is_empty() {
                b = encode(Frame::Pong);
            }
            raw.bytes(&b);
        } else {
            raw.bytes(&bytes);
        }
        if !ok {
            if !matches!(h, H::Partial(_) | H::Garbage(_) | H::Silent | H::FramesFirst) {
                let b = self.frames(p, frames, false);
                raw.bytes(&b);
            }
            let Some(got) = raw.drain(Duration::from_millis(HS + 12_000))? else {
                return Err("the node stays connected to a peer without a valid handshake".into());
            };
            if let Some(f) = got.first() {
                return Err(format!("the node sent {f:?} to a peer that did not prove its identity"));
            }
            self.rejected += 1;
            self.trigger_failed(p, v, t);
            return Ok(true);
        }
        self.peers[p].known = Some(true);
        // What the node wanted to say arrives now.
        let vid = self.victims[v].id;
        if t.0 >= 2 {
            let f = match raw.next(Duration::from_secs(12))? {
                Got::Frame(f) => f,
                _ => return Err("the node closed a connection with a valid handshake".into()),
            };
            let good = match (&f, t.0) {
                (Frame::Link(l), 2) => l.install && l.process_id == 3 && l.from_id == vid,
                (Frame::Monitor(m), 3) => m.install && m.process_id == Some(3) && m.process_name.is_none() && m.from_id == Some(vid) && m.reference_id == t.1,
                (Frame::Monitor(m), 4) => m.install && m.process_id.is_none() && m.process_name.as_deref() == Some("there") && m.from_id == Some(vid) && m.reference_id == t.1,
                _ => false,
            };
            if !good {
                return Err(format!("the node sent {f:?} (trigger {}, process {vid}, reference {})", t.0, t.1));
            }
        }
        match t.0 {
            1 => self.nodemons.push((v, p, t.1)),
            2 => {
                self.victims[v].links.insert((p, 3));
            }
            3 | 4 => self.procmons.push((v, p, t.1)),
            _ => {}
        }
        self.established(p, raw, &h, frames, false)?;
        Ok(true)
    }

    fn peer_of(&self, v: &Value) -> Result<(usize, u64), String> {
        let id = num(v).ok_or_else(|| format!("strange pid {v}"))?;
        let o = v.as_object().and_then(|o| o.values().next()).ok_or_else(|| format!("strange pid {v}"))?;
        if let Some(a) = o.as_array().filter(|a| a.len() == 3) {
            if let Some(p) = self.peers.iter().position(|p| a[1] == json!(p.name) && a[2] == json!(p.addr.to_string())) {
                return Ok((p, id));
            }
        }
        if self.lenient && v.get("NodeUnavailable").is_some() {
            return Ok((usize::MAX, id));
        }
        Err(format!("unknown peer in {v}"))
    }
    fn compare(&mut self) -> Result<Option<String>, String> {
        let s = self.agent.call(Req::Snap)?;
        let names = |f: &dyn Fn(bool) -> bool| {
            let mut v: Vec<String> = (0..self.peers.len()).filter(|p| self.peers[*p].known.is_some_and(f)).map(|p| self.label(p)).collect();
            v.sort();
            v
        };
        let want = json!({"alive": true, "list": names(&|_| true), "known": names(&|c| !c), "connected": names(&|c| c), "pending": [],
                          "current": [format!("{}@{}", self.name, self.addr)]});
        if s["nodes"] != want {
            return Ok(Some(format!("nodes are {}, expected {want}", s["nodes"])));
        }
        for (i, v) in self.victims.iter().enumerate() {
            let g = &s["actors"][i];
            if g["alive"] != json!(v.alive) {
                return Ok(Some(format!("process {i}: alive {}, expected {}", g["alive"], v.alive)));
            }
            if !v.alive {
                continue;
            }
            let mut got = Vec::new();
            for e in g["log"].as_array().unwrap() {
                got.push(match e["t"].as_str().unwrap_or("?") {
                    "data" => format!("data {}", e["id"]),
                    "exit" => {
                        let (p, id) = self.peer_of(&e["p"])?;
                        format!("exit {}:{id} {}", if self.lenient { "?".to_string() } else { p.to_string() }, e["reason"].as_str().unwrap_or("?"))
                    }
                    "down" => format!("down {} {}", num(&e["r"]).unwrap_or(0), e["reason"].as_str().unwrap_or("?")),
                    "nodedown" => {
                        let p = self.peers.iter().position(|p| e["n"]["name"] == json!(p.name) && e["n"]["address"] == json!(p.addr.to_string())).ok_or("node down of an unknown node")?;
                        format!("nodedown {p} {}", num(&e["r"]).unwrap_or(0))
                    }
                    t => return Err(format!("unexpected message {t}: {e}")),
                });
            }
            let order = |v: &[String]| v.iter().filter(|e| e.starts_with("data")).cloned().collect::<Vec<_>>();
            let mut want = v.events.clone();
            if self.lenient {
                for e in want.iter_mut().filter(|e| e.starts_with("exit")) {
                    let (a, b) = e.split_once(':').unwrap();
                    let _ = a;
                    *e = format!("exit ?:{b}");
                }
            }
            let (og, ow) = (order(&got), order(&want));
            if og.len() == ow.len() && og != ow {
                // Each peer's own messages are in order; a step uses one connection.
                return Err(format!("process {i} received {og:?}, expected {ow:?}"));
            }
            let (mut a, mut b) = (got.clone(), want.clone());
            a.sort();
            b.sort();
            if a != b {
                if a.iter().any(|e| a.iter().filter(|x| *x == e).count() > b.iter().filter(|x| *x == e).count()) {
                    return Err(format!("process {i} received {got:?}, expected {want:?}"));
                }
                return Ok(Some(format!("process {i} received {got:?}, expected {want:?}")));
            }
            let pids = |v: &Value| -> Result<Vec<(usize, u64)>, String> {
                let mut v: Vec<(usize, u64)> = v.as_array().map(|v| v.iter().map(|p| self.peer_of(p)).collect()).unwrap_or(Ok(vec![]))?;
                v.sort();
                Ok(v)
            };
            let got = pids(&g["links"])?;
            let want: Vec<(usize, u64)> = v.links.iter().copied().collect();
            if got != want {
                return Ok(Some(format!("process {i} is linked to {got:?}, expected {want:?}")));
            }
            let got = pids(&g["mons"])?;
            let mut want: Vec<(usize, u64)> = v.mons.iter().map(|(k, from)| (k.0, *from)).collect();
            want.sort();
            if got != want {
                return Ok(Some(format!("process {i} is monitored by {got:?}, expected {want:?}")));
            }
        }
        Ok(None)
    }
    fn settle(&mut self) -> Result<(), String> {
        let until = Instant::now() + Duration::from_secs(12);
        let mut pause = 200;
        loop {
            match self.compare()? {
                None => return Ok(()),
                Some(d) if Instant::now() > until => return Err(format!("after 12 s: {d}")),
                _ => {}
            }
            std::thread::sleep(Duration::from_micros(pause));
            pause = (pause * 2).min(5000);
        }
    }
}

fn handshakes(case: &HCase) -> Result<Outcome, String> {
    let mut agent = AgentProc::spawn();
    let addr = SocketAddr::from((fresh_ip(), 21000));
    let cookie = case.cookie as usize % COOKIES.len();
    agent.call(Req::Cookie(COOKIES[cookie].map(String::from)))?;
    let r = agent.call(Req::Start { name: "node".into(), listen: addr, broadcast: addr, hs: Some(HS), hi: None, ht: None })?;
    if r != "ok" {
        return Err(format!("the node does not start: {r}"));
    }
    let mut victims = Vec::new();
    for i in 0..4 {
        let trap = i % 2 == 0;
        let name = if i < 2 { Some(format!("v{i}")) } else { None };
        let v = agent.call(Req::Spawn { trap, name: name.clone() })?;
        victims.push(Victim { id: num(&v["pid"]).ok_or("no pid")?, alive: true, trap, name, events: vec![], links: BTreeSet::new(), mons: BTreeMap::new() });
    }
    let a = agent.call(Req::Act { actor: 0, cmds: vec![Cmd::Alias(false)] })?;
    let alias = num(&a["out"][0]).ok_or("no alias")?;
    let ip = fresh_ip();
    let peers = (0..3)
        .map(|i| {
            let name = if case.ident & 1 == 1 { "peer".to_string() } else { format!("peer{i}") };
            let addr = if case.ident & 2 == 2 { SocketAddr::from((ip, 22000 + i as u16)) } else { SocketAddr::from((fresh_ip(), 22000)) };
            Peer { name, addr, known: None, raw: None }
        })
        .collect();
    let mut w = W {
        agent,
        name: "node".into(),
        addr,
        cookie,
        alias,
        victims,
        peers,
        nodemons: vec![],
        procmons: vec![],
        next: 0,
        refs: 0,
        lenient: false,
        accepted: 0,
        rejected: 0,
        effects: 0,
    };
    for (k, s) in case.steps.iter().enumerate() {
        let r = w.step(s).and_then(|_| w.settle());
        if let Err(e) = r {
            if e.starts_with("SLOW") {
                return Ok(Outcome { inconclusive: true, ..Outcome::ok(false) });
            }
            return Err(format!("step {k} {s:?}: {e}"));
        }
    }
    std::thread::sleep(Duration::from_millis(5));
    w.settle().map_err(|e| format!("at the end: {e}"))?;
    let mut o = Outcome::ok(w.rejected > 0 || w.accepted > 0);
    for (n, c) in [(w.accepted, "accepted handshake"), (w.rejected, "rejected handshake"), (w.effects, "effective frame")] {
        if n > 0 {
            o = o.class(c);
        }
    }
    Ok(o)
}

fn handshake() -> BoxedStrategy<H> {
    let u = any::<u8>;
    weighted(vec![
        (10, Just(H::Valid).boxed()),
        (4, u().prop_map(H::Cookie).boxed()),
        (5, any::<u16>().prop_map(H::Flip).boxed()),
        (2, u().prop_map(H::Truncate).boxed()),
        (1, u().prop_map(H::Extend).boxed()),
        (1, Just(H::Empty).boxed()),
        (1, Just(H::Zero).boxed()),
        (3, u().prop_map(H::ProofOf).boxed()),
        (2, any::<u16>().prop_map(H::ProofPort).boxed()),
        (2, u().prop_map(H::ProofName).boxed()),
        (1, Just(H::Swapped).boxed()),
        (1, prop::collection::vec(u(), 1..80).prop_map(H::Garbage).boxed()),
        (1, u().prop_map(H::Partial).boxed()),
        (1, Just(H::Silent).boxed()),
        (2, Just(H::PingFirst).boxed()),
        (3, Just(H::FramesFirst).boxed()),
        (2, Just(H::Twice).boxed()),
        (1, Just(H::Close).boxed()),
        (1, prop::collection::vec(u(), 0..20).prop_map(H::Broken).boxed()),
    ])
}

fn atk() -> BoxedStrategy<Atk> {
    let u = any::<u8>;
    weighted(vec![
        (6, (u(), u()).prop_map(|(a, b)| Atk::Send(a, b)).boxed()),
        (3, (u(), u(), u()).prop_map(|(a, b, c)| Atk::Exit(a, b, c)).boxed()),
        (3, (u(), u(), prop::bool::weighted(0.8)).prop_map(|(a, b, c)| Atk::Link(a, b, c)).boxed()),
        (3, (u(), u(), any::<bool>()).prop_map(|(a, b, c)| Atk::Monitor(a, b, c)).boxed()),
        (1, Just(Atk::Ping).boxed()),
    ])
}

fn hcase() -> BoxedStrategy<HCase> {
    let u = any::<u8>;
    let f = || prop::collection::vec(atk(), 0..6);
    let step = weighted(vec![
        (10, (u(), handshake(), f(), any::<bool>(), prop_oneof![2 => Just(0u8), 1 => u()]).prop_map(|(who, h, frames, pipeline, cut)| Step::In { who, h, frames, pipeline, cut }).boxed()),
        (8, (u(), u(), u(), handshake(), f()).prop_map(|(who, trigger, victim, h, frames)| Step::Out { who, trigger, victim, h, frames }).boxed()),
        (2, (u(), u(), u(), u(), f()).prop_map(|(who, other, trigger, victim, frames)| Step::Wrong { who, other, trigger, victim, frames }).boxed()),
        (1, (u(), u(), u()).prop_map(|(who, trigger, victim)| Step::Refuse { who, trigger, victim }).boxed()),
        (3, (u(), f()).prop_map(|(p, f)| Step::More(p, f)).boxed()),
        (3, u().prop_map(Step::Close).boxed()),
        (1, u().prop_map(Step::Disconnect).boxed()),
        (1, u().prop_map(Step::Forget).boxed()),
        (2, u().prop_map(Step::Cookie).boxed()),
    ]);
    (any::<u64>(), u(), 0u8..4, any::<bool>(), prop::collection::vec(step, 2..12))
        .prop_map(|(seed, cookie, ident, v6, steps)| HCase { seed, cookie, ident, v6, steps })
        .boxed()
}

/// The known weakness of the proof: name and address are not separated in it.
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Shift {
    name: String,
    cookie: u8,
}

fn shifted(c: &Shift) -> Result<Outcome, String> {
    let mut agent = AgentProc::spawn();
    let addr = SocketAddr::from((fresh_ip(), 21000));
    let cookie = COOKIES[c.cookie as usize % COOKIES.len()];
    agent.call(Req::Cookie(cookie.map(String::from)))?;
    let r = agent.call(Req::Start { name: "node".into(), listen: addr, broadcast: addr, hs: Some(HS), hi: None, ht: None })?;
    if r != "ok" {
        return Err(format!("the node does not start: {r}"));
    }
    // The proof of NAME1 at 27.0.0.1:80 is also one of NAME at 127.0.0.1:80.
    let other: SocketAddr = "27.0.0.1:80".parse().unwrap();
    let claimed: SocketAddr = "127.0.0.1:80".parse().unwrap();
    let challenge = proof(cookie, &format!("{}1", c.name), &other.to_string());
    let mut raw = Raw::connect(addr)?;
    raw.bytes(&encode(Frame::Hello(Hello { name: c.name.clone(), broadcast_address: claimed, challenge })));
    let mut o = Outcome::ok(true);
    if let Some(n) = raw.drain(Duration::from_millis(HS / 2))? {
        return if n.len() <= 1 { Ok(o) } else { Err(format!("the node sent {n:?}")) };
    }
    let nodes = agent.call(Req::Nodes)?;
    if nodes["connected"] == json!([format!("{}@{claimed}", c.name)]) {
        o.findings.push("hello-concat".into());
    }
    Ok(o)
}

const RULE: &str = "a handshake was accepted or rejected, with every node list, process, link, monitor and mailbox compared afterwards";

fn boxed<C: CaseT>(name: &'static str, cases: (u32, u32), threads: usize, s: impl Fn() -> BoxedStrategy<C> + std::marker::Send + Sync + 'static, f: fn(&C) -> Result<Outcome, String>) -> Box<dyn DynSub> {
    Sub::new(name, cases, s, move |c: &C| f(c).unwrap_or_else(Outcome::fail)).threads(threads).confirm(2).shrink(60).replays(3).boxed()
}

pub fn subs(id: &str) -> (Vec<Box<dyn DynSub>>, &'static str, Vec<&'static str>) {
    match id {
        "C19" => (
            vec![
                boxed("handshake", (4_000, 25), 32, hcase, handshakes),
                boxed("shifted fields", (20, 2), 8, || (prop_oneof![Just("x"), Just("node"), Just("a.b-c")], any::<u8>()).prop_map(|(n, cookie)| Shift { name: n.to_string(), cookie }).boxed(), shifted),
                crate::cluster::nodes_sub("C19"),
            ],
            RULE,
            vec!["cookies \"\" and none are the same key and not told apart by the proof"],
        ),
        _ => unreachable!(),
    }
}

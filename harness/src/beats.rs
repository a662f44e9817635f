//! C28: heartbeats, timeouts and node options. C22: stopping a node while connections are in the making.
use crate::agent::{Cmd, MsgSpec, Req};
use crate::cluster::{AgentProc, fresh_ip};
use crate::peer::{Got, Raw, encode, hello, proof};
use crate::prop::*;
use hydra::verif::frame::{Frame, Send, SendTarget};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::net::{SocketAddr, TcpListener, TcpStream};
use std::num::NonZeroU64;
use std::time::{Duration, Instant};

#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq)]
pub enum Quiet {
    Silent,
    Partial(u8),
    Dribble,
    /// The connection itself is not established (outgoing only).
    Unanswered,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Scene {
    /// A peer that says this much and then nothing more.
    Goes { silent_after: u8, out: bool },
    /// A peer that says something a few times per heartbeat timeout.
    Lives { pings: bool, per: u8 },
    /// A handshake that does not complete.
    Handshake { how: Quiet, out: bool },
    /// Two nodes that have nothing to say.
    Idle,
    /// Two nodes, one of which stops running.
    Frozen,
    /// A peer that does not read, with another one beside it.
    Stuck { alive: bool, size: u16, count: u8 },
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct BCase {
    hi: Option<u16>,
    ht: Option<u16>,
    hs: Option<u16>,
    /// Broadcasts another address than it listens on.
    elsewhere: bool,
    scene: Scene,
}

const SLACK: Duration = Duration::from_millis(3500);
const EARLY: Duration = Duration::from_millis(10);

enum Bad {
    Violation(String),
    Inconclusive,
}
impl From<String> for Bad {
    fn from(s: String) -> Bad {
        Bad::Violation(s)
    }
}
impl From<&str> for Bad {
    fn from(s: &str) -> Bad {
        Bad::Violation(s.into())
    }
}
type R<T> = Result<T, Bad>;

fn ms(v: Option<u16>, default: u64) -> Duration {
    Duration::from_millis(v.map(|v| v as u64).unwrap_or(default))
}

struct N {
    agent: AgentProc,
    name: &'static str,
    listen: SocketAddr,
    addr: SocketAddr,
}

impl N {
    fn start(name: &'static str, c: &BCase) -> R<N> {
        let mut agent = AgentProc::spawn();
        let listen = SocketAddr::from((fresh_ip(), 21000));
        let addr = if c.elsewhere { SocketAddr::from((fresh_ip(), 21001)) } else { listen };
        agent.call(Req::Cookie(Some("cookie".into())))?;
        let r = agent.call(Req::Start {
            name: name.into(),
            listen,
            broadcast: addr,
            hs: c.hs.map(|v| v as u64),
            hi: c.hi.map(|v| v as u64),
            ht: c.ht.map(|v| v as u64),
        })?;
        if r != "ok" {
            return Err(Bad::Violation(format!("the node does not start: {r}")));
        }
        agent.call(Req::Spawn { trap: true, name: None })?;
        Ok(N { agent, name, listen, addr })
    }
    fn act(&mut self, c: Cmd) -> R<Value> {
        let r = self.agent.call(Req::Act { actor: 0, cmds: vec![c] })?;
        Ok(r["out"].as_array().ok_or("the process is dead")?[0].clone())
    }
    fn hello_ok(&self, f: &Frame) -> R<()> {
        match f {
            Frame::Hello(h) if h.name == self.name && h.broadcast_address == self.addr && h.challenge == proof(Some("cookie"), self.name, &self.addr.to_string()) => Ok(()),
            f => Err(Bad::Violation(format!("the node introduces itself with {f:?}, expected {}@{}", self.name, self.addr))),
        }
    }
    fn log(&mut self) -> R<Vec<Value>> {
        let s = self.agent.call(Req::Snap)?;
        Ok(s["actors"][0]["log"].as_array().ok_or("no log")?.clone())
    }
    fn connected(&mut self) -> R<bool> {
        Ok(self.agent.call(Req::Nodes)?["connected"] != json!([]))
    }
}

struct P {
    name: &'static str,
    addr: SocketAddr,
}
impl P {
    fn new() -> P {
        P { name: "peer", addr: SocketAddr::from((fresh_ip(), 22000)) }
    }
    fn label(&self) -> String {
        format!("{}@{}", self.name, self.addr)
    }
    fn pid(&self) -> Value {
        json!({"WithNode": [3, self.name, self.addr.to_string()]})
    }
    fn hello(&self) -> Frame {
        hello(self.name, self.addr, Some("cookie"))
    }
    fn meet(&self, n: &mut N, out: bool) -> R<(Raw, Instant)> {
        let mut raw = if out { self.called(n, |n, l| n.agent.call(Req::Connect(l)).map(|_| ()))? } else { Raw::connect(n.listen)? };
        let t = Instant::now();
        raw.frame(self.hello());
        match raw.next(Duration::from_secs(12))? {
            Got::Frame(f) => n.hello_ok(&f)?,
            _ => return Err(Bad::Violation("a connection with a valid handshake was closed".into())),
        }
        let until = Instant::now() + Duration::from_secs(12);
        while !n.agent.call(Req::Nodes)?["connected"].as_array().is_some_and(|a| a.contains(&json!(self.label()))) {
            if Instant::now() > until {
                return Err(Bad::Violation("a peer with a valid handshake is not connected".into()));
            }
            std::thread::sleep(Duration::from_millis(2));
        }
        Ok((raw, t))
    }
    fn called(&self, n: &mut N, f: impl FnOnce(&mut N, String) -> Result<(), String>) -> R<Raw> {
        let l = TcpListener::bind(self.addr).map_err(|_| Bad::Inconclusive)?;
        l.set_nonblocking(true).unwrap();
        f(n, self.label())?;
        let until = Instant::now() + Duration::from_secs(12);
        loop {
            match l.accept() {
                Ok((s, _)) => {
                    s.set_nonblocking(false).unwrap();
                    return Ok(Raw::new(s));
                }
                Err(_) if Instant::now() < until => std::thread::sleep(Duration::from_millis(1)),
                Err(_) => return Err(Bad::Violation("the node does not connect".into())),
            }
        }
    }
}

/// What is reported when the connection is lost: to the monitor of the node, the link and the monitor of the process.
fn loss_reported(n: &mut N, refs: &[Value], wait: Duration) -> R<()> {
    let until = Instant::now() + wait;
    loop {
        let log = n.log()?;
        let mut kinds: Vec<String> = log.iter().map(|e| format!("{} {}", e["t"].as_str().unwrap_or("?"), e["reason"].as_str().unwrap_or(""))).collect();
        kinds.sort();
        let want = ["down noconnection", "exit noconnection", "nodedown "];
        let connected = n.connected()?;
        if kinds == want && !connected {
            let _ = refs;
            return Ok(());
        }
        if kinds.len() > want.len() || Instant::now() > until {
            return Err(Bad::Violation(format!("the loss of the connection was reported as {kinds:?}, expected {want:?}; connected: {connected}")));
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}

fn goes(c: &BCase, talk: u8, out: bool) -> R<&'static str> {
    let (hi, ht) = (ms(c.hi, 5000), ms(c.ht, 45000));
    let mut n = N::start("node", c)?;
    let p = P::new();
    let (mut raw, t0) = p.meet(&mut n, out)?;
    let mut last = t0;
    let r = vec![n.act(Cmd::Link(p.pid()))?, n.act(Cmd::Monitor(json!({"p": p.pid()})))?, n.act(Cmd::NodeMonitor(p.label()))?];
    for _ in 0..talk {
        std::thread::sleep(ht / 4);
        last = Instant::now();
        raw.frame(Frame::Ping);
    }
    let said = Instant::now();
    let (mut pings, mut pongs, mut own) = (0u32, 0, 0);
    let closed = loop {
        match raw.next((said + ht + SLACK).saturating_duration_since(Instant::now()))? {
            Got::Frame(Frame::Ping) => {
                pings += 1;
                let early = (hi.saturating_sub(EARLY)) * pings;
                if t0.elapsed() < early {
                    return Err(Bad::Violation(format!("heartbeat {pings} came {:?} after the handshake, with an interval of {hi:?}", t0.elapsed())));
                }
            }
            Got::Frame(Frame::Pong) => pongs += 1,
            Got::Frame(Frame::Link(_) | Frame::Monitor(_)) => own += 1,
            Got::Frame(f) => return Err(Bad::Violation(format!("the node sent {f:?}"))),
            Got::Closed => break Instant::now(),
            Got::Nothing => return Err(Bad::Violation(format!("a peer that is silent for {:?} is still connected (heartbeat timeout {ht:?})", said.elapsed()))),
        }
    };
    let after = closed - last;
    if after + EARLY < ht {
        return Err(Bad::Violation(format!("the peer was declared down {after:?} after it said something (heartbeat timeout {ht:?})")));
    }
    if last.elapsed() < ht + SLACK && (pongs != talk as u32 || own != 2) {
        return Err(Bad::Violation(format!("{pongs} replies to {talk} heartbeats, {own} of 2 frames")));
    }
    loss_reported(&mut n, &r, Duration::from_secs(5))?;
    Ok("silent peer")
}

fn lives(c: &BCase, with_pings: bool, per: u8) -> R<&'static str> {
    let (hi, ht) = (ms(c.hi, 5000), ms(c.ht, 45000));
    let mut n = N::start("node", c)?;
    let p = P::new();
    let (mut raw, t0) = p.meet(&mut n, false)?;
    n.act(Cmd::NodeMonitor(p.label()))?;
    let step = ht / (2 + per as u32 % 4);
    let mut before = t0;
    let (mut pings, mut pongs, mut sent) = (0u32, 0u32, 0u32);
    while t0.elapsed() < ht * 3 {
        let next = before + step;
        let now = Instant::now();
        // Lateness of our own says nothing about the node.
        if now > next + step / 2 {
            return Err(Bad::Inconclusive);
        }
        if now >= next {
            before = now;
            let ok = if with_pings {
                sent += 1;
                raw.frame(Frame::Ping)
            } else {
                raw.frame(Frame::Send(Send { targets: vec![SendTarget::Pid(NonZeroU64::new(1 << 50).unwrap())], message: vec![1] }))
            };
            if !ok {
                return Err(Bad::Violation(format!("a peer that says something every {step:?} was declared down after {:?} (heartbeat timeout {ht:?})", t0.elapsed())));
            }
            continue;
        }
        match raw.next(next - now)? {
            Got::Frame(Frame::Ping) => {
                pings += 1;
                if t0.elapsed() < hi.saturating_sub(EARLY) * pings {
                    return Err(Bad::Violation(format!("heartbeat {pings} came {:?} after the handshake, with an interval of {hi:?}", t0.elapsed())));
                }
            }
            Got::Frame(Frame::Pong) => pongs += 1,
            Got::Frame(f) => return Err(Bad::Violation(format!("the node sent {f:?}"))),
            Got::Closed => {
                return Err(Bad::Violation(format!("a peer that says something every {step:?} was declared down after {:?} (heartbeat timeout {ht:?})", t0.elapsed())));
            }
            Got::Nothing => {}
        }
    }
    let total = t0.elapsed();
    if !with_pings {
        let expect = (total.as_millis() / hi.as_millis().max(1)) as u32;
        if pings + 1 < expect / 3 {
            return Err(Bad::Violation(format!("{pings} heartbeats within {total:?}, with an interval of {hi:?}")));
        }
    } else {
        let until = Instant::now() + Duration::from_secs(2);
        while pongs < sent && Instant::now() < until {
            if let Got::Frame(Frame::Pong) = raw.next(Duration::from_millis(50))? {
                pongs += 1
            }
        }
        if pongs != sent && before.elapsed() < ht {
            return Err(Bad::Violation(format!("{pongs} replies to {sent} heartbeats")));
        }
    }
    if before.elapsed() < ht / 2 && (!n.connected()? || !n.log()?.is_empty()) && before.elapsed() < ht.saturating_sub(Duration::from_millis(20)) {
        return Err(Bad::Violation(format!("a peer that says something every {step:?} was declared down (heartbeat timeout {ht:?})")));
    }
    Ok("live peer")
}

fn unfinished(c: &BCase, how: Quiet, out: bool) -> R<&'static str> {
    let hs = ms(c.hs, 5000);
    let mut n = N::start("node", c)?;
    let p = P::new();
    let h = encode(p.hello());
    let mut fill = Vec::new();
    let mut listener = None;
    let t0;
    let raw;
    if out && how == Quiet::Unanswered {
        // Connections beyond the backlog are not answered.
        let l = TcpListener::bind(p.addr).map_err(|_| Bad::Inconclusive)?;
        let mut full = false;
        for _ in 0..6000 {
            match TcpStream::connect_timeout(&p.addr, Duration::from_millis(60)) {
                Ok(s) => fill.push(s),
                Err(_) => {
                    full = true;
                    break;
                }
            }
        }
        if !full {
            return Err(Bad::Inconclusive);
        }
        listener = Some(l);
        t0 = Instant::now();
        n.act(Cmd::NodeMonitor(p.label()))?;
        raw = None;
    } else if out {
        t0 = Instant::now();
        raw = Some(p.called(&mut n, |n, l| n.agent.call(Req::Act { actor: 0, cmds: vec![Cmd::NodeMonitor(l)] }).map(|_| ()))?);
    } else {
        t0 = Instant::now();
        raw = Some(Raw::connect(n.listen)?);
    }
    let ready = Instant::now();
    let closed = match raw {
        Some(mut raw) => {
            if let Quiet::Partial(k) = how {
                raw.bytes(&h[..k as usize % h.len()]);
            }
            let mut at = 0;
            let mut drop = hs / 6;
            let mut greeted = false;
            loop {
                let left = (ready + hs + SLACK).saturating_duration_since(Instant::now());
                if left.is_zero() {
                    return Err(Bad::Violation(format!("an unfinished handshake is still open after {:?} (handshake timeout {hs:?})", t0.elapsed())));
                }
                if how == Quiet::Dribble && t0.elapsed() > drop && at + 1 < h.len() {
                    raw.bytes(&h[at..at + 1]);
                    at += 1;
                    drop += hs / 6;
                }
                match raw.next(left.min(Duration::from_millis(20)))? {
                    Got::Frame(f) if !greeted => {
                        n.hello_ok(&f)?;
                        greeted = true;
                    }
                    Got::Frame(f) => return Err(Bad::Violation(format!("the node sent {f:?} during a handshake"))),
                    Got::Closed => break Instant::now(),
                    Got::Nothing => {}
                }
            }
        }
        None => loop {
            if ready.elapsed() > hs + SLACK {
                return Err(Bad::Violation(format!("a connection that is not answered is still being made after {:?} (handshake timeout {hs:?})", t0.elapsed())));
            }
            if !n.log()?.is_empty() {
                break Instant::now();
            }
            std::thread::sleep(Duration::from_millis(3));
        },
    };
    drop(listener);
    drop(fill);
    if closed - t0 + EARLY < hs {
        return Err(Bad::Violation(format!("a handshake was given up after {:?} (handshake timeout {hs:?})", closed - t0)));
    }
    let until = Instant::now() + Duration::from_secs(10);
    let want: &[&str] = if out { &["nodedown"] } else { &[] };
    loop {
        let log = n.log()?;
        let kinds: Vec<&str> = log.iter().filter_map(|e| e["t"].as_str()).collect();
        let nodes = n.agent.call(Req::Nodes)?;
        let list = if out { json!([p.label()]) } else { json!([]) };
        if kinds == want && nodes["connected"] == json!([]) && nodes["pending"] == json!([]) && nodes["list"] == list {
            break;
        }
        if Instant::now() > until {
            return Err(Bad::Violation(format!("after a handshake that timed out: {kinds:?} reported, nodes {nodes}")));
        }
        std::thread::sleep(Duration::from_millis(3));
    }
    Ok(if out { "unfinished outgoing handshake" } else { "unfinished incoming handshake" })
}

fn pair(c: &BCase) -> R<(N, N)> {
    // Nodes find each other where they listen.
    let c = BCase { elsewhere: false, ..c.clone() };
    let mut a = N::start("a", &c)?;
    let mut b = N::start("b", &c)?;
    let (la, lb) = (format!("a@{}", a.addr), format!("b@{}", b.addr));
    a.agent.call(Req::Connect(lb.clone()))?;
    if a.agent.call(Req::Sync(vec![lb.clone()]))? != json!([]) || b.agent.call(Req::Sync(vec![la.clone()]))? != json!([]) {
        return Err(Bad::Inconclusive);
    }
    a.act(Cmd::NodeMonitor(lb))?;
    b.act(Cmd::NodeMonitor(la))?;
    Ok((a, b))
}

fn idle(c: &BCase) -> R<&'static str> {
    let ht = ms(c.ht, 45000);
    let (mut a, mut b) = pair(c)?;
    std::thread::sleep(ht * 3);
    for n in [&mut a, &mut b] {
        let log = n.log()?;
        if !log.is_empty() || !n.connected()? {
            return Err(Bad::Violation(format!("an idle connection was lost: {log:?}")));
        }
    }
    Ok("idle nodes")
}

fn frozen(c: &BCase) -> R<&'static str> {
    let ht = ms(c.ht, 45000);
    let (mut a, mut b) = pair(c)?;
    let p = b.agent.call(Req::Spawn { trap: true, name: None })?;
    let id = p["pid"]["WithNode"][0].as_u64().or(p["pid"]["LocalOnly"].as_u64()).ok_or("pid")?;
    let pid = json!({"WithNode": [id, "b", b.addr.to_string()]});
    a.act(Cmd::Link(pid.clone()))?;
    a.act(Cmd::Monitor(json!({"p": pid})))?;
    let lb = format!("b@{}", b.addr);
    if a.agent.call(Req::Sync(vec![lb.clone()]))? != json!([]) {
        return Err(Bad::Inconclusive);
    }
    b.agent.stop_signal("-STOP");
    let t = Instant::now();
    let r = loss_reported(&mut a, &[], ht + SLACK);
    let took = t.elapsed();
    b.agent.stop_signal("-CONT");
    r?;
    let _ = took;
    // The other side notices as well, and they can connect again.
    let until = Instant::now() + Duration::from_secs(15);
    loop {
        let log = b.log()?;
        if log.len() == 1 && log[0]["t"] == "nodedown" && !b.connected()? {
            break;
        }
        if Instant::now() > until {
            return Err(Bad::Violation(format!("the node that was frozen does not notice the loss: {log:?}")));
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    a.agent.call(Req::Connect(lb.clone()))?;
    if a.agent.call(Req::Sync(vec![lb]))? != json!([]) {
        return Err(Bad::Violation("the nodes do not connect again".into()));
    }
    Ok("frozen node")
}

fn stuck(c: &BCase, alive: bool, size: u16, count: u8) -> R<&'static str> {
    let ht = ms(c.ht, 45000);
    let cc = BCase { elsewhere: false, ..c.clone() };
    let mut n = N::start("node", &cc)?;
    let mut b = N::start("b", &BCase { hi: Some(200), ht: None, hs: None, ..cc.clone() })?;
    let lb = format!("b@{}", b.addr);
    n.agent.call(Req::Connect(lb.clone()))?;
    if n.agent.call(Req::Sync(vec![lb.clone()]))? != json!([]) {
        return Err(Bad::Inconclusive);
    }
    let p = P::new();
    let (mut raw, _) = p.meet(&mut n, false)?;
    let mut said = Instant::now();
    n.act(Cmd::NodeMonitor(p.label()))?;
    let count = 20 + count as u64;
    let size = 40_000 + size as usize;
    for k in 0..count {
        n.act(Cmd::Send { dests: vec![json!({"p": p.pid()})], msg: MsgSpec { id: k + 1, seed: k, size, ids: vec![] }, after: None, list: false })?;
        if alive && said.elapsed() > ht / 4 {
            said = Instant::now();
            raw.frame(Frame::Ping);
        }
    }
    // The other node is reached as ever.
    for _ in 0..5 {
        let t = Instant::now();
        if n.agent.call(Req::Sync(vec![lb.clone()]))? != json!([]) {
            return Err(Bad::Violation("a peer that does not read keeps the node from reaching another one".into()));
        }
        if t.elapsed() > Duration::from_secs(3) {
            return Err(Bad::Violation(format!("with a peer that does not read, another one replies after {:?}", t.elapsed())));
        }
        let late = said.elapsed();
        if alive {
            if late > ht * 3 / 4 {
                return Err(Bad::Inconclusive);
            }
            said = Instant::now();
            raw.frame(Frame::Ping);
        }
    }
    if alive {
        // Everything that was sent arrives when it reads again.
        let mut next = 1;
        while next <= count {
            if said.elapsed() > ht / 4 {
                if said.elapsed() > ht * 3 / 4 {
                    return Err(Bad::Inconclusive);
                }
                said = Instant::now();
                raw.frame(Frame::Ping);
            }
            match raw.next(ht / 4)? {
                Got::Frame(Frame::Send(s)) => {
                    let m: crate::agent::NMsg = rmp_serde::from_slice(&s.message).map_err(|e| format!("message {next}: {e}"))?;
                    let want = crate::agent::content(next - 1, size);
                    if m.id != next || (&m.text, &m.bytes) != (&want.0, &want.1) {
                        return Err(Bad::Violation(format!("message {next} of a peer that read late is message {}", m.id)));
                    }
                    next += 1;
                }
                Got::Frame(Frame::Ping | Frame::Pong) | Got::Nothing => {}
                Got::Frame(f) => return Err(Bad::Violation(format!("the node sent {f:?}"))),
                Got::Closed => return Err(Bad::Violation("a peer that reads late but says it is alive was declared down".into())),
            }
        }
    } else {
        // It has been silent: it goes down although there is still something to be written to it.
        let until = said + ht + SLACK + Duration::from_secs(2);
        loop {
            let log = n.log()?;
            if log.len() == 1 && log[0]["t"] == "nodedown" && n.agent.call(Req::Nodes)?["connected"] == json!([lb.clone()]) {
                break;
            }
            if Instant::now() > until {
                return Err(Bad::Violation(format!("a peer that neither reads nor writes is still connected after {:?} (heartbeat timeout {ht:?})", said.elapsed())));
            }
            std::thread::sleep(Duration::from_millis(5));
        }
    }
    Ok(if alive { "peer that reads late" } else { "peer that does not read" })
}

fn scene(c: &BCase) -> Outcome {
    let r = match &c.scene {
        Scene::Goes { silent_after, out } => goes(c, *silent_after, *out),
        Scene::Lives { pings, per } => lives(c, *pings, *per),
        Scene::Handshake { how, out } => unfinished(c, if *how == Quiet::Unanswered && !out { Quiet::Silent } else { *how }, *out),
        Scene::Idle => idle(c),
        Scene::Frozen => frozen(c),
        Scene::Stuck { alive, size, count } => stuck(c, *alive, *size, *count),
    };
    match r {
        Ok(k) => Outcome::ok(true).class(k),
        Err(Bad::Violation(s)) => Outcome::fail(s),
        Err(Bad::Inconclusive) => Outcome { inconclusive: true, ..Outcome::ok(false) },
    }
}

fn bcase() -> BoxedStrategy<BCase> {
    let small = || 60u16..900;
    let opt = move || prop_oneof![1 => Just(None), 2 => small().prop_map(Some)];
    // The settings that matter to the scene are set, the others are anything (or the default).
    let goes = (opt(), 150u16..900, prop_oneof![Just(None), Just(Some(2000u16))], 0u8..4, any::<bool>(), any::<bool>()).prop_map(|(hi, ht, hs, n, out, e)| BCase {
        hi,
        ht: Some(ht),
        hs,
        elsewhere: e,
        scene: Scene::Goes { silent_after: n, out },
    });
    let lives = (60u16..300, 500u16..1100, prop_oneof![Just(None), Just(Some(2000u16))], any::<bool>(), any::<u8>(), any::<bool>())
        .prop_map(|(hi, ht, hs, pings, per, e)| BCase { hi: Some(hi), ht: Some(ht), hs, elsewhere: e, scene: Scene::Lives { pings, per } });
    let how = prop_oneof![3 => Just(Quiet::Silent), 2 => any::<u8>().prop_map(Quiet::Partial), 2 => Just(Quiet::Dribble), 1 => Just(Quiet::Unanswered)];
    let shake = (opt(), opt(), prop_oneof![6 => (150u16..900).prop_map(Some), 1 => Just(None)], how, any::<bool>(), any::<bool>())
        .prop_map(|(hi, ht, hs, how, out, e)| BCase { hi, ht, hs, elsewhere: e, scene: Scene::Handshake { how, out } });
    let idle = (60u16..200, 900u16..1500, any::<bool>())
        .prop_map(|(hi, ht, f)| BCase { hi: Some(hi), ht: Some(ht), hs: None, elsewhere: false, scene: if f { Scene::Idle } else { Scene::Frozen } });
    let stuck = (prop_oneof![Just(None), (100u16..400).prop_map(Some)], 1500u16..2500, any::<bool>(), any::<u16>(), any::<u8>())
        .prop_map(|(hi, ht, alive, size, count)| BCase { hi, ht: Some(ht), hs: None, elsewhere: false, scene: Scene::Stuck { alive, size, count } });
    weighted(vec![(4, goes.boxed()), (3, lives.boxed()), (4, shake.boxed()), (2, idle.boxed()), (2, stuck.boxed())])
}

pub fn subs() -> (Vec<Box<dyn DynSub>>, &'static str, Vec<&'static str>) {
    let s = Sub::new("timing", (1_000, 25), bcase, scene).threads(40).confirm(3).shrink(25).replays(2).boxed();
    (
        vec![s],
        "a scene ran to its end: a peer went silent, kept talking, did not finish its handshake, did not read, or two nodes stayed idle",
        vec![
            "upper bounds leave 3.5 s for a slow machine (less than any default setting); lower bounds are exact but for the resolution of the timers (10 ms)",
            "a case in which the harness itself was late is discarded",
        ],
    )
}

// ---------------------------------------------------------------- C22: connections in the making

#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq)]
pub enum Stage {
    /// Connected, this much of the handshake sent.
    In(u8),
    InDone,
    /// The node has connected to us, this much of the handshake sent.
    Out(u8),
    OutDone,
}

#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq)]
pub enum What {
    Stop,
    /// Kills the supervisor of the local node.
    Disconnect,
    Forget,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct MCase {
    conns: Vec<(Stage, bool)>,
    what: What,
    /// Starts the node again before the handshakes go on.
    restart_first: bool,
    pause: u8,
}

fn making(c: &MCase) -> R<Outcome> {
    let opts = BCase { hi: None, ht: None, hs: Some(1200), elsewhere: false, scene: Scene::Idle };
    let mut n = N::start("node", &opts)?;
    let own = num(&n.agent.call(Req::Snap)?["actors"][0]["pid"]).ok_or("pid")?;
    let nodes = |n: &mut N| n.agent.call(Req::Nodes);
    struct C {
        p: P,
        raw: Raw,
        rest: Vec<u8>,
        stage: Stage,
        go: bool,
        at: Instant,
    }
    let mut cs = Vec::new();
    for (i, (stage, go)) in c.conns.iter().enumerate() {
        let p = P { name: ["p0", "p1", "p2", "p3", "p4"][i % 5], addr: SocketAddr::from((fresh_ip(), 22000)) };
        let bytes = encode(p.hello());
        let at = Instant::now();
        let (mut raw, sent) = match stage {
            Stage::In(k) => (Raw::connect(n.listen)?, *k as usize % bytes.len()),
            Stage::InDone => (Raw::connect(n.listen)?, bytes.len()),
            Stage::Out(k) => (p.called(&mut n, |n, l| n.agent.call(Req::Connect(l)).map(|_| ()))?, *k as usize % bytes.len()),
            Stage::OutDone => (p.called(&mut n, |n, l| n.agent.call(Req::Connect(l)).map(|_| ()))?, bytes.len()),
        };
        raw.bytes(&bytes[..sent]);
        match raw.next(Duration::from_secs(12))? {
            Got::Frame(f) => n.hello_ok(&f)?,
            _ => return Err(Bad::Violation(format!("connection {i} is not greeted"))),
        }
        cs.push(C { p, raw, rest: bytes[sent..].to_vec(), stage: *stage, go: *go, at });
    }
    let done = |s: &Stage| matches!(s, Stage::InDone | Stage::OutDone);
    let out = |s: &Stage| matches!(s, Stage::Out(_) | Stage::OutDone);
    let sorted = |mut v: Vec<String>| {
        v.sort();
        json!(v)
    };
    let settle = |n: &mut N, want: Value, when: &str| -> R<()> {
        let until = Instant::now() + Duration::from_secs(12);
        loop {
            let mut s = nodes(n)?;
            s.as_object_mut().unwrap().remove("current");
            if s == want {
                return Ok(());
            }
            if Instant::now() > until {
                return Err(Bad::Violation(format!("{when}: nodes {s}, expected {want}")));
            }
            std::thread::sleep(Duration::from_millis(3));
        }
    };
    let late = |cs: &[C]| cs.iter().any(|c| !done(&c.stage) && c.at.elapsed() > Duration::from_millis(700));
    let established: Vec<String> = cs.iter().filter(|c| done(&c.stage)).map(|c| c.p.label()).collect();
    let pending: Vec<String> = cs.iter().filter(|c| matches!(c.stage, Stage::Out(_))).map(|c| c.p.label()).collect();
    let both: Vec<String> = established.iter().chain(&pending).cloned().collect();
    if late(&cs) {
        return Err(Bad::Inconclusive);
    }
    settle(&mut n, json!({"alive": true, "list": sorted(both.clone()), "known": [], "connected": sorted(established), "pending": sorted(pending)}), "before")?;
    std::thread::sleep(Duration::from_millis(c.pause as u64 % 8));

    match c.what {
        What::Stop => {
            n.agent.call(Req::Stop)?;
        }
        What::Disconnect | What::Forget => {
            for x in &cs {
                let l = x.p.label();
                n.agent.call(if c.what == What::Disconnect { Req::Disconnect(l) } else { Req::Forget(l) })?;
            }
        }
    }
    let restart = |n: &mut N| -> R<()> {
        let r = n.agent.call(Req::Start { name: "node".into(), listen: n.listen, broadcast: n.addr, hs: Some(1200), hi: None, ht: None })?;
        if r != "ok" {
            return Err(Bad::Violation(format!("the node does not start again: {r}")));
        }
        Ok(())
    };
    let stopped = c.what == What::Stop;
    let mut alive = !stopped;
    if stopped && c.restart_first {
        restart(&mut n)?;
        alive = true;
    }
    if late(&cs) {
        return Err(Bad::Inconclusive);
    }
    // The handshakes go on.
    let mut survive = Vec::new();
    let mut known = Vec::new();
    for x in cs.iter_mut() {
        let ends = stopped || out(&x.stage) || done(&x.stage);
        if c.what == What::Disconnect && (out(&x.stage) || done(&x.stage)) {
            known.push(x.p.label());
        }
        if x.go && !done(&x.stage) {
            let mut b = x.rest.clone();
            b.extend(data(own, 7));
            x.raw.bytes(&b);
        }
        if x.go && !ends {
            survive.push(x.p.label());
        }
    }
    for (i, x) in cs.iter_mut().enumerate() {
        let ends = stopped || out(&x.stage) || done(&x.stage) || !x.go;
        if ends && x.raw.drain_any(Duration::from_secs(15)).is_none() {
            return Err(Bad::Violation(format!("connection {i} stays open after {:?}", c.what)));
        }
    }
    let list: Vec<String> = known.iter().chain(&survive).cloned().collect();
    let want = json!({"alive": alive, "list": sorted(list), "known": sorted(known.clone()), "connected": sorted(survive.clone()), "pending": []});
    settle(&mut n, want.clone(), "afterwards")?;
    std::thread::sleep(Duration::from_millis(5));
    let got = n.log()?.len();
    if got > survive.len() {
        return Err(Bad::Violation(format!("{got} messages were delivered over {} connections", survive.len())));
    }
    settle(&mut n, want, "after a while")?;
    if stopped && !alive {
        restart(&mut n)?;
    }
    // Whatever happened, everybody can connect now.
    for x in cs.iter_mut().filter(|x| !survive.contains(&x.p.label())) {
        let mut raw = Raw::connect(n.listen)?;
        raw.frame(x.p.hello());
        raw.bytes(&data(own, 8));
        match raw.next(Duration::from_secs(12))? {
            Got::Frame(f) => n.hello_ok(&f)?,
            _ => return Err(Bad::Violation("a connection with a valid handshake was closed".into())),
        }
        x.raw = raw;
    }
    let all: Vec<String> = cs.iter().map(|x| x.p.label()).collect();
    settle(&mut n, json!({"alive": true, "list": sorted(all.clone()), "known": [], "connected": sorted(all), "pending": []}), "at the end")?;
    let until = Instant::now() + Duration::from_secs(12);
    loop {
        let ids: Vec<u64> = n.log()?.iter().filter_map(|e| e["id"].as_u64()).collect();
        let (a, b) = (ids.iter().filter(|i| **i == 7).count(), ids.iter().filter(|i| **i == 8).count());
        if a == survive.len() && a + b == cs.len() {
            break;
        }
        if a > survive.len() || a + b > cs.len() || Instant::now() > until {
            return Err(Bad::Violation(format!("messages {ids:?} were received over {} connections that survived and {} new ones", survive.len(), cs.len() - survive.len())));
        }
        std::thread::sleep(Duration::from_millis(3));
    }
    let mut o = Outcome::ok(cs.iter().any(|x| !done(&x.stage)));
    o = o.class(match c.what {
        What::Stop => "stop",
        What::Disconnect => "disconnect",
        What::Forget => "forget",
    });
    if stopped && c.restart_first {
        o = o.class("handshake completed after a restart");
    }
    Ok(o)
}

fn num(v: &Value) -> Option<u64> {
    match v {
        Value::Number(n) => n.as_u64(),
        Value::Array(a) => a.first().and_then(num),
        Value::Object(o) => o.values().next().and_then(num),
        _ => None,
    }
}

fn data(pid: u64, id: u64) -> Vec<u8> {
    let m = crate::agent::NMsg { id, text: String::new(), bytes: vec![], num: (0, 0.0, None), ids: vec![], tree: Default::default() };
    encode(Frame::Send(Send { targets: vec![SendTarget::Pid(NonZeroU64::new(pid).unwrap())], message: rmp_serde::to_vec_named(&m).unwrap() }))
}

pub fn making_sub() -> Box<dyn DynSub> {
    let stage = || prop_oneof![2 => any::<u8>().prop_map(Stage::In), 1 => Just(Stage::InDone), 2 => any::<u8>().prop_map(Stage::Out), 1 => Just(Stage::OutDone)];
    let what = || prop_oneof![2 => Just(What::Stop), 1 => Just(What::Disconnect), 1 => Just(What::Forget)];
    Sub::new(
        "handshaking",
        (1_200, 25),
        move || {
            (prop::collection::vec((stage(), prop::bool::weighted(0.8)), 1..5), what(), any::<bool>(), any::<u8>())
                .prop_map(|(conns, what, restart_first, pause)| MCase { conns, what, restart_first, pause })
                .boxed()
        },
        |c: &MCase| match making(c) {
            Ok(o) => o,
            Err(Bad::Violation(s)) => Outcome::fail(s),
            Err(Bad::Inconclusive) => Outcome { inconclusive: true, ..Outcome::ok(false) },
        },
    )
    .threads(24)
    .confirm(2)
    .shrink(60)
    .replays(3)
    .boxed()
}

//! C18: a node that is fed hostile bytes keeps serving everybody else.
use crate::agent::{Cmd, Req};
use crate::cluster::{AgentProc, fresh_ip};
use crate::codec::{FrameSpec, Piece, TargetSpec, piece, piece_bytes};
use crate::peer::{Got, Raw, encode, hello};
use crate::prop::*;
use hydra::verif::frame::{Codec, Frame, SendTarget};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::net::SocketAddr;
use std::time::{Duration, Instant};
use tokio_util::bytes::BytesMut;
use tokio_util::codec::Decoder;

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Conn {
    /// After a valid handshake.
    hs: bool,
    pieces: Vec<Piece>,
    cut: u8,
    end: End,
}

#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq)]
pub enum End {
    Keep,
    Close,
    Reset,
    HalfClose,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct SCase {
    conns: Vec<Conn>,
    /// All at the same time, piece by piece.
    together: bool,
}

/// Keeps the identifiers of a frame away from those that exist.
fn raise(f: &mut FrameSpec) {
    let up = |i: &mut u64| *i |= 1 << 40;
    match f {
        FrameSpec::Hello { .. } | FrameSpec::Ping | FrameSpec::Pong => {}
        FrameSpec::Send { targets, .. } => {
            for t in targets {
                match t {
                    TargetSpec::Pid(i) | TargetSpec::Alias(i) => up(i),
                    TargetSpec::Named(n) => n.push('~'),
                }
            }
        }
        FrameSpec::Monitor { id, name, from, reference, .. } => {
            id.iter_mut().for_each(up);
            name.iter_mut().for_each(|n| n.push('~'));
            from.iter_mut().for_each(up);
            up(reference);
        }
        FrameSpec::MonitorDown { monitors, .. } => monitors.iter_mut().for_each(up),
        FrameSpec::MonitorUpdate { process, from, reference } => [process, from, reference].into_iter().for_each(up),
        FrameSpec::Link { process, from, .. } => [process, from].into_iter().for_each(up),
        FrameSpec::LinkDown { links, from, .. } => {
            links.iter_mut().for_each(up);
            up(from)
        }
        FrameSpec::Exit { process, from, .. } => [process, from].into_iter().for_each(up),
    }
}

/// What a frame of a trusted peer does: nothing (to what exists), ends the connection, or something real.
#[derive(PartialEq)]
enum Effect {
    None,
    Ends,
    Real,
}

fn effect(f: &Frame) -> Effect {
    let low = |i: u64| i < 1_000_000;
    let real = match f {
        Frame::Hello(_) => return Effect::Ends,
        Frame::Ping | Frame::Pong => false,
        Frame::Send(s) => s.targets.iter().any(|t| match t {
            SendTarget::Pid(i) | SendTarget::Alias(i) => low(i.get()),
            SendTarget::Named(n) => n == "sync",
        }),
        Frame::Monitor(m) => {
            if m.install && (m.from_id.is_none() || (m.process_id.is_none() && m.process_name.is_none())) {
                return Effect::Ends;
            }
            m.process_id.is_some_and(low) || m.from_id.is_some_and(low) || low(m.reference_id) || m.process_name.as_deref() == Some("sync")
        }
        Frame::MonitorDown(m) => m.monitors.iter().any(|i| low(*i)),
        Frame::MonitorUpdate(m) => low(m.process_id) || low(m.from_id) || low(m.reference_id),
        Frame::Link(l) => low(l.process_id) || low(l.from_id),
        Frame::LinkDown(l) => low(l.from_id) || l.links.iter().any(|i| low(*i)),
        Frame::Exit(e) => low(e.process_id) || low(e.from_id),
    };
    if real { Effect::Real } else { Effect::None }
}

/// The bytes of a connection. After a handshake, pieces with a real effect are left out.
fn bytes_of(c: &Conn) -> (Vec<Vec<u8>>, bool, usize) {
    let mut out: Vec<Vec<u8>> = Vec::new();
    let mut ends = false;
    let mut frames = 0;
    'pieces: for p in &c.pieces {
        let mut p = p.clone();
        if let Piece::Valid(f) | Piece::Mutated(f, _) = &mut p {
            raise(f);
        }
        let b = piece_bytes(&p);
        if c.hs {
            let mut buf = BytesMut::new();
            for o in &out {
                buf.extend_from_slice(o);
            }
            buf.extend_from_slice(&b);
            let (mut n, mut bad) = (0, false);
            loop {
                match Codec::new().decode(&mut buf) {
                    Ok(Some(f)) => match effect(&f) {
                        Effect::Real => continue 'pieces,
                        Effect::Ends => {
                            bad = true;
                            break;
                        }
                        Effect::None => n += 1,
                    },
                    Ok(None) => break,
                    Err(_) => {
                        bad = true;
                        break;
                    }
                }
            }
            ends = bad;
            frames = n;
            out.push(b);
            if ends {
                break;
            }
        } else {
            out.push(b);
        }
    }
    (out, ends, frames)
}

const HS: u64 = 700;

fn high_water(pid: u32) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/{pid}/status")).unwrap_or_default();
    s.lines().find_map(|l| l.strip_prefix("VmHWM:")).and_then(|l| l.trim().trim_end_matches("kB").trim().parse().ok()).unwrap_or(0)
}

fn reset(r: &Raw) {
    reset_socket(r.socket());
}
pub fn reset_socket(s: &std::net::TcpStream) {
    let l = socket2_linger();
    use std::os::fd::AsRawFd;
    unsafe {
        setsockopt(s.as_raw_fd(), 1, 13, &l as *const Linger as *const _, std::mem::size_of::<Linger>() as u32);
    }
}
#[repr(C)]
struct Linger {
    on: i32,
    secs: i32,
}
fn socket2_linger() -> Linger {
    Linger { on: 1, secs: 0 }
}
unsafe extern "C" {
    fn setsockopt(fd: i32, level: i32, name: i32, value: *const std::ffi::c_void, len: u32) -> i32;
}

fn serving(case: &SCase) -> Result<Outcome, String> {
    let mut a = AgentProc::spawn();
    let mut b = AgentProc::spawn();
    let at = |x: &mut AgentProc, name: &str| -> Result<SocketAddr, String> {
        let addr = SocketAddr::from((fresh_ip(), 21000));
        x.call(Req::Cookie(Some("cookie".into())))?;
        let r = x.call(Req::Start { name: name.into(), listen: addr, broadcast: addr, hs: Some(HS), hi: None, ht: None })?;
        if r != "ok" {
            return Err(format!("the node does not start: {r}"));
        }
        Ok(addr)
    };
    let (aa, ba) = (at(&mut a, "a")?, at(&mut b, "b")?);
    let (la, lb) = (format!("a@{aa}"), format!("b@{ba}"));
    let p = b.call(Req::Spawn { trap: true, name: None })?;
    let own = a.call(Req::Spawn { trap: false, name: Some("own".into()) })?;
    a.call(Req::Spawn { trap: true, name: None })?;
    a.call(Req::Connect(lb.clone()))?;
    if a.call(Req::Sync(vec![lb.clone()]))? != json!([]) {
        return Ok(Outcome { inconclusive: true, ..Outcome::ok(false) });
    }
    let remote = json!({"WithNode": [p["pid"]["LocalOnly"].as_u64().or(p["pid"]["WithNode"][0].as_u64()).ok_or("pid")?, "b", ba.to_string()]});
    a.call(Req::Act { actor: 0, cmds: vec![Cmd::Link(remote.clone()), Cmd::Monitor(json!({"p": remote})), Cmd::NodeMonitor(lb.clone())] })?;
    let _ = own;
    // The state that must not change.
    let calm = |s: &Value| json!({"a": s["actors"]});
    let until = Instant::now() + Duration::from_secs(15);
    let mut before = a.call(Req::Snap)?;
    loop {
        std::thread::sleep(Duration::from_millis(5));
        let s = a.call(Req::Snap)?;
        let done = s == before && s["nodes"]["connected"] == json!([lb.clone()]);
        before = s;
        if done {
            break;
        }
        if Instant::now() > until {
            return Ok(Outcome { inconclusive: true, ..Outcome::ok(false) });
        }
    }
    let base = before["procs"].as_u64().unwrap();

    // The connections.
    struct Live {
        raw: Option<Raw>,
        todo: Vec<Vec<u8>>,
        ends: bool,
        name: Option<String>,
        end: End,
        cut: u8,
    }
    let mut live = Vec::new();
    let (mut hostile, mut effects) = (0, 0);
    for (i, c) in case.conns.iter().enumerate() {
        let (mut todo, ends, n) = bytes_of(c);
        todo.reverse();
        hostile += u32::from(ends || !c.hs);
        effects += n;
        let mut raw = Raw::connect(aa)?;
        let mut name = None;
        if c.hs {
            let addr = SocketAddr::from((fresh_ip(), 22000));
            let n = format!("peer{i}");
            raw.frame(hello(&n, addr, Some("cookie")));
            name = Some(format!("{n}@{addr}"));
            match raw.next(Duration::from_secs(12))? {
                Got::Frame(Frame::Hello(_)) => {}
                _ => return Err(format!("connection {i} with a valid handshake was closed")),
            }
        }
        live.push(Live { raw: Some(raw), todo, ends, name, end: c.end, cut: c.cut });
        if !case.together {
            let l = live.last_mut().unwrap();
            push(l.raw.as_mut().unwrap(), &mut l.todo, usize::MAX, l.cut);
        }
    }
    fn push(raw: &mut Raw, todo: &mut Vec<Vec<u8>>, mut n: usize, cut: u8) {
        while n > 0 {
            let Some(b) = todo.pop() else { return };
            let k = if cut == 0 { b.len() } else { cut as usize % (b.len() + 1) };
            // The node may have closed the connection by now.
            let _ = raw.bytes(&b[..k]);
            let _ = raw.bytes(&b[k..]);
            n -= 1;
        }
    }
    while live.iter().any(|l| !l.todo.is_empty()) {
        for l in live.iter_mut() {
            push(l.raw.as_mut().unwrap(), &mut l.todo, 1, l.cut);
        }
    }
    // Others are served meanwhile.
    if a.call(Req::Sync(vec![lb.clone()]))? != json!([]) {
        return Err("the node does not reach its peer any more".into());
    }
    let mut connected = vec![lb.clone()];
    let mut all = vec![lb.clone()];
    for l in live.iter_mut() {
        let raw = l.raw.as_mut().unwrap();
        match l.end {
            End::Keep => {}
            End::HalfClose => raw.finish(),
            End::Close => raw.close(),
            End::Reset => {
                reset(raw);
                l.raw = None;
            }
        }
        if let Some(n) = &l.name {
            all.push(n.clone());
            if l.end == End::Keep && !l.ends {
                connected.push(n.clone());
            }
        }
    }
    connected.sort();
    all.sort();
    let want_procs = base + 3 * (connected.len() as u64 - 1);
    let until = Instant::now() + Duration::from_secs(15);
    loop {
        let s = a.call(Req::Snap)?;
        if calm(&s) != calm(&before) {
            return Err(format!("the processes of the node were affected: {} (before: {})", calm(&s), calm(&before)));
        }
        let off = if s["nodes"]["connected"] != json!(connected) {
            Some(format!("connected to {}, expected {connected:?}", s["nodes"]["connected"]))
        } else if s["nodes"]["list"] != json!(all) {
            Some(format!("knows {}, expected {all:?}", s["nodes"]["list"]))
        } else if s["procs"] != json!(want_procs) {
            Some(format!("{} processes run, expected {want_procs}", s["procs"]))
        } else {
            None
        };
        match off {
            None => break,
            Some(d) if Instant::now() > until => return Err(d),
            _ => std::thread::sleep(Duration::from_millis(5)),
        }
    }
    // Connections that had to be closed are.
    for (i, l) in live.iter_mut().enumerate() {
        if let Some(raw) = &mut l.raw {
            if (l.ends || l.name.is_none()) && l.end != End::Close && raw.drain_any(Duration::from_secs(12)).is_none() {
                return Err(format!("connection {i} stays open"));
            }
        }
    }
    // New peers are served.
    let mut raw = Raw::connect(aa)?;
    let addr = SocketAddr::from((fresh_ip(), 22000));
    raw.frame(hello("fresh", addr, Some("cookie")));
    raw.frame(Frame::Ping);
    let mut seen = 0;
    while seen < 2 {
        match raw.next(Duration::from_secs(12))? {
            Got::Frame(Frame::Hello(_)) if seen == 0 => seen = 1,
            Got::Frame(Frame::Pong) if seen == 1 => seen = 2,
            Got::Frame(f) => return Err(format!("a new peer is sent {f:?}")),
            _ => return Err("a new peer is not served".into()),
        }
    }
    if b.call(Req::Sync(vec![la.clone()]))? != json!([]) {
        return Err("the node is not reached by its peer any more".into());
    }
    let _ = encode(Frame::Ping);
    let peak = high_water(a.id());
    if peak > 400_000 {
        return Err(format!("the node used {peak} kB of memory"));
    }
    let mut o = Outcome::ok(hostile > 0);
    if case.conns.iter().any(|c| c.hs) {
        o = o.class("after a handshake");
    }
    if case.conns.iter().any(|c| !c.hs) {
        o = o.class("before a handshake");
    }
    if effects > 0 {
        o = o.class("decodable frames");
    }
    if live.iter().any(|l| l.ends) {
        o = o.class("connection ended by the bytes");
    }
    Ok(o)
}

fn conn() -> BoxedStrategy<Conn> {
    let end = prop_oneof![3 => Just(End::Keep), 1 => Just(End::Close), 1 => Just(End::Reset), 1 => Just(End::HalfClose)];
    (prop::bool::weighted(0.7), prop::collection::vec(piece(), 0..5), prop_oneof![3 => Just(0u8), 1 => any::<u8>()], end)
        .prop_map(|(hs, pieces, cut, end)| Conn { hs, pieces, cut, end })
        .boxed()
}

pub fn sub() -> Box<dyn DynSub> {
    Sub::new(
        "hostile-node",
        (1_500, 25),
        || (prop::collection::vec(conn(), 1..6), any::<bool>()).prop_map(|(conns, together)| SCase { conns, together }).boxed(),
        |c: &SCase| serving(c).unwrap_or_else(Outcome::fail),
    )
    .threads(24)
    .confirm(2)
    .shrink(60)
    .boxed()
}

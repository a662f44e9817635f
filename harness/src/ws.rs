//! C27: the websocket server, with clients that speak the protocol by hand.
use crate::agent::fnv;
use crate::cluster::fresh_ip;
use crate::prop::*;
use hydra::{ExitReason, GenServer, GenServerOptions, Message, Pid, Process, SystemMessage};
use hydra_websockets::{CloseCode, WebsocketCommands, WebsocketHandler, WebsocketMessage, WebsocketRequest, WebsocketResponse, WebsocketServer, WebsocketServerConfig};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::io::{ErrorKind, Read, Write};
use std::net::{Shutdown, SocketAddr, TcpStream};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, LazyLock, Mutex};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- cases

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Out {
    binary: bool,
    len: u16,
    seed: u8,
}

/// What a callback does.
#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Do {
    Nothing,
    Echo,
    Send(Vec<Out>),
    Slow(u8, Box<Do>),
    Close { before: Vec<Out>, code: u8, reason: u8, after: Vec<Out> },
    Err(u8),
    Panic(u8),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Op {
    Data { binary: bool, len: u16, seed: u8, frags: u8, ping: bool, cut: u8, what: Do },
    Ping(u8),
    Pong(u8),
    Info(Do),
    /// Waits until everything has been handled.
    Sync,
    Close(u8),
    CloseEmpty,
    HalfClose,
    Drop,
    Reset,
    Kill(u8),
    Malformed(u8),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Shake {
    Good(Do),
    Reject(u8),
    AcceptPanics(u8),
    Bad(u8),
    Garbage(Vec<u8>),
    Stall(u16),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct WsCase {
    timeout: Option<u16>,
    max_message: Option<u16>,
    max_frame: Option<u16>,
    conns: Vec<Shake>,
    ops: Vec<(u8, Op)>,
}

fn text(len: usize, seed: u8) -> String {
    let pool = ["a", "Z", " ", "é", "漢", "\u{1F600}", "\"", "{", "\n", "0"];
    let mut x = seed as u32 + 1;
    (0..len)
        .map(|_| {
            x = x.wrapping_mul(1664525).wrapping_add(1013904223);
            pool[(x >> 20) as usize % pool.len()]
        })
        .collect()
}
fn binary(len: usize, seed: u8) -> Vec<u8> {
    let mut x = seed as u32 + 77;
    (0..len)
        .map(|_| {
            x = x.wrapping_mul(1664525).wrapping_add(1013904223);
            (x >> 24) as u8
        })
        .collect()
}
fn sig(kind: &str, b: &[u8]) -> String {
    format!("{kind} {}:{:x}", b.len(), fnv(b))
}
impl Out {
    fn sig(&self) -> String {
        if self.binary { sig("binary", &binary(self.len as usize, self.seed)) } else { sig("text", text(self.len as usize, self.seed).as_bytes()) }
    }
    fn message(&self) -> WebsocketMessage {
        if self.binary { WebsocketMessage::binary(binary(self.len as usize, self.seed)) } else { WebsocketMessage::text(text(self.len as usize, self.seed)) }
    }
}
const CODES: [(CloseCode, u16); 6] =
    [(CloseCode::Normal, 1000), (CloseCode::Away, 1001), (CloseCode::Policy, 1008), (CloseCode::Error, 1011), (CloseCode::Library(3333), 3333), (CloseCode::Bad(4999), 4999)];
fn close_code(k: u8) -> (CloseCode, u16) {
    match CODES[k as usize % CODES.len()] {
        (CloseCode::Bad(_), n) => (CloseCode::from(n), n),
        c => c,
    }
}
const REASONS: [&str; 4] = ["bye", "", "it's over: é", "connection_closed"];

impl Do {
    fn ends(&self) -> bool {
        match self {
            Do::Close { .. } | Do::Err(_) | Do::Panic(_) => true,
            Do::Slow(_, d) => d.ends(),
            _ => false,
        }
    }
    /// What the client receives because of it.
    fn outs(&self, echo: Option<&str>, v: &mut Vec<String>) {
        match self {
            Do::Echo => v.extend(echo.map(String::from)),
            Do::Send(o) => v.extend(o.iter().map(Out::sig)),
            Do::Slow(_, d) => d.outs(echo, v),
            Do::Close { before, code, reason, .. } => {
                v.extend(before.iter().map(Out::sig));
                v.push(format!("close {} {}", close_code(*code).1, REASONS[*reason as usize % REASONS.len()]));
            }
            _ => {}
        }
    }
    /// The reason the process exits with, and whether (and with what) `terminate` is called.
    fn reason(&self) -> Option<(ExitReason, Option<String>)> {
        match self {
            Do::Slow(_, d) => d.reason(),
            Do::Close { .. } => Some((ExitReason::Normal, None)),
            Do::Err(r) => Some((ExitReason::from(format!("error{r}")), Some(format!("error{r}")))),
            Do::Panic(r) => Some((ExitReason::from(format!("panic{r}")), None)),
            _ => None,
        }
    }
}

// ---------------------------------------------------------------- the handler under test

struct Rec {
    accept: u8,
    accept_arg: u8,
    init: Do,
    dos: Vec<Do>,
    log: Mutex<Vec<String>>,
    pid: Mutex<Option<Pid>>,
    address: Mutex<Option<SocketAddr>>,
    watcher: Pid,
    watched: AtomicBool,
    down: Mutex<Option<ExitReason>>,
}

static RECS: LazyLock<Mutex<HashMap<u64, Arc<Rec>>>> = LazyLock::new(Default::default);
static NEXT: AtomicU64 = AtomicU64::new(1);
static RT: LazyLock<tokio::runtime::Runtime> = LazyLock::new(|| tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap());

#[derive(Serialize, Deserialize)]
enum Watch {
    Pid(u64, Pid),
    Done,
}

#[derive(Serialize, Deserialize)]
struct Info {
    n: u64,
    what: Do,
}

struct Handler {
    rec: Arc<Rec>,
    seen: usize,
}

impl Handler {
    fn log(&self, s: String) {
        self.rec.log.lock().unwrap().push(s);
    }
    fn run<'a>(&'a mut self, what: &'a Do, echo: Option<WebsocketMessage>) -> std::pin::Pin<Box<dyn Future<Output = Result<Option<WebsocketCommands>, ExitReason>> + std::marker::Send + 'a>> {
        Box::pin(async move {
            match what {
                Do::Nothing => Ok(None),
                Do::Echo => Ok(echo.map(WebsocketCommands::with_send)),
                Do::Send(o) => {
                    let mut c = WebsocketCommands::new();
                    o.iter().for_each(|o| c.send(o.message()));
                    Ok(Some(c))
                }
                Do::Slow(ms, d) => {
                    tokio::time::sleep(Duration::from_millis(*ms as u64)).await;
                    self.run(d, echo).await
                }
                Do::Close { before, code, reason, after } => {
                    let mut c = WebsocketCommands::new();
                    before.iter().for_each(|o| c.send(o.message()));
                    c.close(close_code(*code).0, REASONS[*reason as usize % REASONS.len()]);
                    after.iter().for_each(|o| c.send(o.message()));
                    Ok(Some(c))
                }
                Do::Err(r) => Err(ExitReason::from(format!("error{r}"))),
                Do::Panic(r) => panic!("panic{r}"),
            }
        })
    }
}

impl WebsocketHandler for Handler {
    type Message = Info;
    fn accept(address: SocketAddr, request: &WebsocketRequest, mut response: WebsocketResponse) -> Result<(WebsocketResponse, Self), ExitReason> {
        let key: u64 = request.uri().path().trim_start_matches('/').parse().map_err(|_| ExitReason::from("nobody"))?;
        let rec = RECS.lock().unwrap().get(&key).cloned().ok_or(ExitReason::from("nobody"))?;
        rec.log.lock().unwrap().push("accept".into());
        *rec.address.lock().unwrap() = Some(address);
        match rec.accept {
            0 => {
                response.headers_mut().insert("x-key", key.into());
                Ok((response, Handler { rec, seen: 0 }))
            }
            1 => Err(ExitReason::from(format!("rejected{}", rec.accept_arg))),
            _ => panic!("accept{}", rec.accept_arg),
        }
    }
    async fn websocket_init(&mut self) -> Result<Option<WebsocketCommands>, ExitReason> {
        let rec = self.rec.clone();
        self.log("init".into());
        let me = Process::current();
        let again = rec.pid.lock().unwrap().replace(me);
        if again.is_some() {
            self.log("second init".into());
        }
        let key = RECS.lock().unwrap().iter().find(|(_, r)| Arc::ptr_eq(r, &rec)).map(|(k, _)| *k).unwrap_or(0);
        Process::send(rec.watcher, Watch::Pid(key, me));
        while !rec.watched.load(Ordering::SeqCst) {
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
        self.run(&rec.init, None).await
    }
    async fn websocket_handle(&mut self, m: WebsocketMessage) -> Result<Option<WebsocketCommands>, ExitReason> {
        let rec = self.rec.clone();
        let (s, data) = match &m {
            WebsocketMessage::Text(t) => (sig("text", t.as_bytes()), true),
            WebsocketMessage::Binary(b) => (sig("binary", b), true),
            WebsocketMessage::Ping(b) => (sig("ping", b), false),
            WebsocketMessage::Pong(b) => (sig("pong", b), false),
            WebsocketMessage::Close(c) => (format!("close {}", c.as_ref().map(|c| u16::from(c.code)).unwrap_or(0)), false),
            _ => ("frame".into(), false),
        };
        self.log(s);
        if !data {
            return Ok(None);
        }
        let k = self.seen;
        self.seen += 1;
        match rec.dos.get(k) {
            Some(d) => self.run(d, Some(m)).await,
            None => Ok(None),
        }
    }
    async fn websocket_info(&mut self, m: Message<Info>) -> Result<Option<WebsocketCommands>, ExitReason> {
        match m {
            Message::User(i) => {
                self.log(format!("info {}", i.n));
                self.run(&i.what, None).await
            }
            _ => {
                self.log("system".into());
                Ok(None)
            }
        }
    }
    async fn terminate(&mut self, reason: ExitReason) {
        self.log(match reason {
            ExitReason::Custom(r) => format!("terminate {r}"),
            r => format!("terminate {r:?}"),
        });
    }
}

async fn watcher() {
    let mut refs = HashMap::new();
    loop {
        match Process::receive::<Watch>().await {
            Message::User(Watch::Pid(key, pid)) => {
                let r = Process::monitor(pid);
                if let Some(rec) = RECS.lock().unwrap().get(&key).cloned() {
                    refs.insert(r, rec.clone());
                    rec.watched.store(true, Ordering::SeqCst);
                }
            }
            Message::User(Watch::Done) => return,
            Message::System(SystemMessage::ProcessDown(_, r, reason)) => {
                if let Some(rec) = refs.remove(&r) {
                    *rec.down.lock().unwrap() = Some(reason);
                }
            }
            _ => {}
        }
    }
}

// ---------------------------------------------------------------- the client

fn frame(fin: bool, op: u8, payload: &[u8]) -> Vec<u8> {
    let mut b = vec![op | if fin { 0x80 } else { 0 }];
    match payload.len() {
        n if n < 126 => b.push(0x80 | n as u8),
        n if n < 65536 => {
            b.push(0x80 | 126);
            b.extend((n as u16).to_be_bytes());
        }
        n => {
            b.push(0x80 | 127);
            b.extend((n as u64).to_be_bytes());
        }
    }
    let mask = [7, 91, 200, 13];
    b.extend(mask);
    b.extend(payload.iter().enumerate().map(|(i, c)| c ^ mask[i % 4]));
    b
}

#[derive(Default)]
struct Inbox {
    events: Vec<String>,
    pongs: usize,
    closed: bool,
    bad: Option<String>,
}

fn reader(mut s: TcpStream, mut buf: Vec<u8>, inbox: Arc<Mutex<Inbox>>) {
    let _ = s.set_read_timeout(None);
    let mut part: Option<(u8, Vec<u8>)> = None;
    let mut tmp = [0u8; 16384];
    loop {
        // Complete frames.
        loop {
            if buf.len() < 2 {
                break;
            }
            let (fin, op, masked) = (buf[0] & 0x80 != 0, buf[0] & 0x7f, buf[1] & 0x80 != 0);
            let (len, at) = match buf[1] & 0x7f {
                126 if buf.len() >= 4 => (u16::from_be_bytes([buf[2], buf[3]]) as usize, 4),
                127 if buf.len() >= 10 => (u64::from_be_bytes(buf[2..10].try_into().unwrap()) as usize, 10),
                126 | 127 => break,
                n => (n as usize, 2),
            };
            if masked || op & 0x70 != 0 {
                inbox.lock().unwrap().bad = Some(format!("a frame that no server sends: {:?}", &buf[..2]));
                return;
            }
            if buf.len() < at + len {
                break;
            }
            let payload = buf[at..at + len].to_vec();
            buf.drain(..at + len);
            let mut i = inbox.lock().unwrap();
            match op {
                0..=2 => {
                    let (op, all) = match (op, part.take()) {
                        (0, Some((op, mut p))) => {
                            p.extend(payload);
                            (op, p)
                        }
                        (1 | 2, None) => (op, payload),
                        _ => {
                            i.bad = Some("fragments out of order".into());
                            return;
                        }
                    };
                    if fin {
                        if op == 1 && std::str::from_utf8(&all).is_err() {
                            i.bad = Some("text that is not utf-8".into());
                            return;
                        }
                        i.events.push(sig(if op == 1 { "text" } else { "binary" }, &all));
                    } else {
                        part = Some((op, all));
                    }
                }
                8 => {
                    let (code, reason) = if payload.len() >= 2 { (u16::from_be_bytes([payload[0], payload[1]]), String::from_utf8_lossy(&payload[2..]).to_string()) } else { (0, String::new()) };
                    i.events.push(format!("close {code} {reason}"));
                }
                10 => i.pongs += 1,
                9 => {}
                _ => {
                    i.bad = Some(format!("opcode {op}"));
                    return;
                }
            }
        }
        match s.read(&mut tmp) {
            Ok(0) => break,
            Ok(n) => buf.extend_from_slice(&tmp[..n]),
            Err(e) if e.kind() == ErrorKind::Interrupted => {}
            Err(_) => break,
        }
    }
    inbox.lock().unwrap().closed = true;
}

fn request(key: u64, bad: Option<u8>) -> String {
    let mut lines = vec![
        format!("GET /{key} HTTP/1.1"),
        "Host: localhost".into(),
        "Connection: Upgrade".into(),
        "Upgrade: websocket".into(),
        "Sec-WebSocket-Version: 13".into(),
        "Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==".into(),
    ];
    match bad.map(|b| b % 9) {
        None => {}
        Some(0) => lines[0] = format!("POST /{key} HTTP/1.1"),
        Some(1) => lines[0] = format!("GET /{key} HTTP/1.0"),
        Some(2) => {
            lines.remove(2);
        }
        Some(3) => {
            lines.remove(3);
        }
        Some(4) => lines[4] = "Sec-WebSocket-Version: 12".into(),
        Some(5) => {
            lines.remove(5);
        }
        Some(6) => lines[0] = format!("GET /{key}"),
        Some(7) => lines.extend((0..300).map(|i| format!("X-{i}: {i}"))),
        Some(_) => lines[1] = "\u{1}\u{2}:::".into(),
    }
    format!("{}\r\n\r\n", lines.join("\r\n"))
}

/// Reads the head of the response. None: closed without one.
fn response(s: &mut TcpStream, wait: Duration) -> Result<Option<(String, Vec<u8>)>, String> {
    let until = Instant::now() + wait;
    let mut b = Vec::new();
    let mut tmp = [0u8; 4096];
    loop {
        if let Some(i) = b.windows(4).position(|w| w == b"\r\n\r\n") {
            let rest = b.split_off(i + 4);
            return Ok(Some((String::from_utf8_lossy(&b).to_string(), rest)));
        }
        let left = until.saturating_duration_since(Instant::now());
        if left.is_zero() {
            return Err("no response".into());
        }
        s.set_read_timeout(Some(left)).unwrap();
        match s.read(&mut tmp) {
            Ok(0) => return Ok(None),
            Ok(n) => b.extend_from_slice(&tmp[..n]),
            Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut | ErrorKind::Interrupted) => {}
            Err(_) => return Ok(None),
        }
    }
}

fn until_closed(s: &mut TcpStream, wait: Duration) -> Option<Vec<u8>> {
    let until = Instant::now() + wait;
    let mut all = Vec::new();
    let mut tmp = [0u8; 4096];
    loop {
        let left = until.saturating_duration_since(Instant::now());
        if left.is_zero() {
            return None;
        }
        s.set_read_timeout(Some(left)).unwrap();
        match s.read(&mut tmp) {
            Ok(0) => return Some(all),
            Ok(n) => all.extend_from_slice(&tmp[..n]),
            Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut | ErrorKind::Interrupted) => {}
            Err(_) => return Some(all),
        }
    }
}

/// How a connection ends on behalf of the client (or of another process).
#[derive(Debug, Clone, PartialEq)]
enum Cause {
    Close,
    /// Everything before it is handled.
    Eof,
    Malformed,
    /// Some of what precedes may be lost.
    Gone,
    Kill(String),
}

struct Client {
    rec: Arc<Rec>,
    s: TcpStream,
    inbox: Arc<Mutex<Inbox>>,
    sent: Vec<String>,
    /// The directive of each data message sent.
    infos: Vec<Do>,
    cause: Option<Cause>,
    /// Sent something after an ending directive: the end may overtake what was said before it.
    ending: bool,
    after: bool,
    data: usize,
}

struct Server {
    addr: SocketAddr,
    stop: Option<tokio::sync::oneshot::Sender<()>>,
    stopped: std::sync::mpsc::Receiver<()>,
}

fn start_server(config: WebsocketServerConfig, addr: SocketAddr) -> Result<Server, String> {
    let (stop, rx) = tokio::sync::oneshot::channel::<()>();
    let (tx, stopped) = std::sync::mpsc::channel();
    let (started, ok) = std::sync::mpsc::channel();
    RT.spawn(async move {
        Process::spawn(async move {
            let r = WebsocketServer::<Handler>::new(config).start(GenServerOptions::new()).await;
            let pid = match r {
                Ok(p) => p,
                Err(e) => {
                    let _ = started.send(Err(format!("{e:?}")));
                    return;
                }
            };
            let _ = started.send(Ok(()));
            let _ = rx.await;
            let _ = WebsocketServer::<Handler>::stop(pid, ExitReason::Normal, None).await;
            let _ = tx.send(());
        });
    });
    ok.recv_timeout(Duration::from_secs(20)).map_err(|_| "the server does not start".to_string())?.map_err(|e| format!("the server does not start: {e}"))?;
    Ok(Server { addr, stop: Some(stop), stopped })
}

impl Client {
    fn put(&mut self, b: &[u8], cut: u8) {
        let k = if cut == 0 { b.len() } else { cut as usize % (b.len() + 1) };
        let _ = self.s.write_all(&b[..k]);
        if k < b.len() {
            std::thread::sleep(Duration::from_millis(1));
            let _ = self.s.write_all(&b[k..]);
        }
    }
    /// Compares everything known about the connection. Err: can only get worse; Ok(Some): not there yet.
    fn compare(&self) -> Result<Option<String>, String> {
        // Effects before causes.
        let down = self.rec.down.lock().unwrap().clone();
        let inbox = self.inbox.lock().unwrap();
        let log = self.rec.log.lock().unwrap().clone();
        if let Some(b) = &inbox.bad {
            return Err(format!("the client received {b}"));
        }
        if log.first().map(|s| s.as_str()) != Some("accept") || log.get(1).is_some_and(|s| s != "init") {
            return Err(format!("the handler started with {log:?}"));
        }
        let (mut k, mut data, mut info) = (0, 0, 0);
        let mut outs = Vec::new();
        let mut end: Option<(ExitReason, Option<String>, bool)> = None;
        let mut terminate: Option<String> = None;
        for (i, e) in log.iter().enumerate().skip(1) {
            if let Some(t) = &terminate {
                return Err(format!("{e} was called after terminate ({t}): {log:?}"));
            }
            if let Some(r) = e.strip_prefix("terminate ") {
                terminate = Some(r.to_string());
                continue;
            }
            if end.is_some() {
                return Err(format!("{e} was called after the handler had ended the connection: {log:?}"));
            }
            let what: Option<&Do> = if i == 1 {
                Some(&self.rec.init)
            } else if let Some(n) = e.strip_prefix("info ") {
                if n != info.to_string() {
                    return Err(format!("process messages were handled out of order: {log:?}"));
                }
                info += 1;
                self.infos.get(info - 1)
            } else {
                if self.sent.get(k) != Some(e) {
                    return Err(format!("the handler received {e}, the client sent {:?} as message {k}: {log:?}", self.sent.get(k)));
                }
                k += 1;
                if e.starts_with("text") || e.starts_with("binary") {
                    data += 1;
                    self.rec.dos.get(data - 1)
                } else {
                    None
                }
            };
            if let Some(d) = what {
                let echo = if i == 1 || e.starts_with("info") { None } else { Some(e.as_str()) };
                d.outs(echo, &mut outs);
                if let Some((r, t)) = d.reason() {
                    end = Some((r, t, d.closes()));
                }
            }
        }
        let got = &inbox.events;
        let early = self.after || matches!(self.cause, Some(Cause::Gone | Cause::Kill(_)));
        let lead = got.len().min(outs.len());
        let mut want = outs.clone();
        if end.is_none() && self.cause == Some(Cause::Close) {
            // The reply to the close frame.
            if let Some(c) = self.sent.last().filter(|c| c.starts_with("close")) {
                want.push(c.clone());
            }
        }
        let same = |a: &str, b: &str| a == b || (a.starts_with("close ") && b.starts_with("close ") && a.split(' ').nth(1) == b.split(' ').nth(1) && !outs.iter().any(|o| o == b));
        for (i, e) in got.iter().enumerate() {
            if i >= want.len() {
                // What the handler does next may be logged after the client has seen... never: it is logged before.
                if matches!(self.cause, Some(Cause::Close | Cause::Malformed | Cause::Eof)) && e.starts_with("close ") {
                    continue;
                }
                return Err(format!("the client received {e}, nothing of the kind was sent: {got:?}, expected {want:?}"));
            }
            if !same(e, &want[i]) {
                // Answers are computed from the log as it is; a close frame may come from the protocol itself.
                if i >= lead || (e.starts_with("close ") && self.cause.is_some()) {
                    continue;
                }
                return Err(format!("the client received {e} as message {i}, expected {}: {got:?}", want[i]));
            }
        }
        let ended = end.is_some() || self.cause.is_some();
        let Some((reason, term, _)) = end else {
            // Not ended by the handler itself.
            match &self.cause {
                None => {
                    if let Some(t) = terminate {
                        return Err(format!("terminate({t}) of a healthy connection: {log:?}"));
                    }
                    if let Some(d) = down {
                        return Err(format!("the handler of a healthy connection exited: {d:?}"));
                    }
                    if inbox.closed {
                        return Err("a healthy connection was closed".into());
                    }
                    if k < self.sent.len() || info < self.infos.len() {
                        return Ok(Some(format!("{k} of {} messages and {info} of {} process messages handled: {log:?}", self.sent.len(), self.infos.len())));
                    }
                    if got.len() < want.len() {
                        return Ok(Some(format!("the client received {got:?}, expected {want:?}")));
                    }
                    return Ok(None);
                }
                Some(c) => {
                    let Some(d) = down else { return Ok(Some(format!("the handler is still there after {c:?}: {log:?}"))) };
                    if !inbox.closed && !matches!(c, Cause::Gone) {
                        return Ok(Some(format!("the connection is still open after {c:?}")));
                    }
                    let all = k == self.sent.len();
                    match c {
                        Cause::Close | Cause::Eof | Cause::Malformed => {
                            if !all {
                                return Err(format!("{k} of {} messages before {c:?} were handled: {log:?}", self.sent.len()));
                            }
                            if terminate.is_none() {
                                return Err(format!("terminate was not called after {c:?}: {log:?} {d:?}"));
                            }
                            if *c == Cause::Close && (terminate.as_deref() != Some("connection_closed") || d != "connection_closed") {
                                return Err(format!("after a close of the client: terminate({terminate:?}), {d:?}"));
                            }
                            if !d.is_custom() {
                                return Err(format!("after {c:?} the handler exited with {d:?}"));
                            }
                            if terminate.as_deref().is_some_and(|t| d != t) {
                                return Err(format!("terminate({terminate:?}), but the handler exited with {d:?}"));
                            }
                            if got.len() < want.len() {
                                return Err(format!("the client received {got:?}, expected {want:?} (after {c:?})"));
                            }
                        }
                        Cause::Gone => {
                            if d == ExitReason::Normal {
                                return Err("the handler of a lost connection exited normally".into());
                            }
                        }
                        Cause::Kill(r) => {
                            if d != r.as_str() && terminate.is_none() {
                                return Err(format!("a handler that was sent {r} exited with {d:?}"));
                            }
                        }
                    }
                    return Ok(None);
                }
            }
        };
        let _ = ended;
        // Ended by the handler. Another cause may have been first.
        let Some(d) = down else { return Ok(Some(format!("the handler is still there: {log:?}"))) };
        if !inbox.closed && self.cause != Some(Cause::Gone) {
            return Ok(Some("the connection is still open after the handler ended it".into()));
        }
        if self.cause.is_none() || matches!(self.cause, Some(Cause::Eof | Cause::Close | Cause::Malformed)) {
            if self.cause.is_none() && d != reason {
                return Err(format!("the handler exited with {d:?}, expected {reason:?}: {log:?}"));
            }
            if self.cause.is_none() && terminate != term {
                return Err(format!("terminate({terminate:?}), expected {term:?}: {log:?}"));
            }
            // A socket that is closed with unread data is reset, which may lose what the client has not read yet.
            if !early && self.cause.is_none() && k == self.sent.len() && got.len() < want.len() {
                return Err(format!("the client received {got:?}, expected {want:?} before the end"));
            }
        }
        Ok(None)
    }
    fn settle(&self, wait: Duration) -> Result<(), String> {
        let until = Instant::now() + wait;
        loop {
            match self.compare()? {
                None => return Ok(()),
                Some(d) if Instant::now() > until => return Err(format!("after {wait:?}: {d}")),
                _ => std::thread::sleep(Duration::from_micros(500)),
            }
        }
    }
}

impl Do {
    fn closes(&self) -> bool {
        match self {
            Do::Close { .. } => true,
            Do::Slow(_, d) => d.closes(),
            _ => false,
        }
    }
}

fn run(c: &WsCase) -> Result<Outcome, String> {
    let addr = SocketAddr::from((fresh_ip(), 23000));
    let mut config = WebsocketServerConfig::new(addr);
    if let Some(t) = c.timeout {
        config = config.handshake_timeout(Duration::from_millis(t as u64));
    }
    if let Some(n) = c.max_message {
        config = config.max_message_size(Some(n as usize));
    }
    if let Some(n) = c.max_frame {
        config = config.max_frame_size(Some(n as usize));
    }
    let mut server = start_server(config.clone(), addr)?;
    // A second one cannot listen there.
    if c.ops.len() % 8 == 3 {
        match start_server(config, addr) {
            Ok(_) => return Err("two servers listen on the same address".into()),
            Err(e) if e.contains("address_in_use") => {}
            Err(e) => return Err(format!("a second server on the address: {e}")),
        }
    }
    let (wtx, wrx) = std::sync::mpsc::channel();
    RT.spawn(async move {
        let _ = wtx.send(Process::spawn(watcher()));
    });
    let watcher = wrx.recv_timeout(Duration::from_secs(20)).map_err(|_| "HARNESS: watcher")?;
    let mut keys = Vec::new();
    let r = talk(c, &server, watcher, &mut keys);
    for k in &keys {
        let rec = RECS.lock().unwrap().remove(k);
        if let Some(p) = rec.and_then(|r| *r.pid.lock().unwrap()) {
            RT.block_on(async move { in_process(move || Process::exit(p, ExitReason::Kill)).await });
        }
    }
    RT.block_on(async move { Process::send(watcher, Watch::Done) });
    let _ = server.stop.take().unwrap().send(());
    let o = r?;
    // The server can be stopped, and does not listen any more.
    server.stopped.recv_timeout(Duration::from_secs(20)).map_err(|_| "the server does not stop")?;
    let until = Instant::now() + Duration::from_secs(10);
    while TcpStream::connect(server.addr).is_ok() {
        if Instant::now() > until {
            return Err("a stopped server still listens".into());
        }
        std::thread::sleep(Duration::from_millis(1));
    }
    Ok(o)
}

async fn in_process(f: impl FnOnce() + std::marker::Send + 'static) {
    let (t, r) = tokio::sync::oneshot::channel();
    Process::spawn(async move {
        f();
        let _ = t.send(());
    });
    let _ = r.await;
}

fn talk(c: &WsCase, server: &Server, watcher: Pid, keys: &mut Vec<u64>) -> Result<Outcome, String> {
    let mut clients: Vec<Option<Client>> = Vec::new();
    let mut stalled: Vec<(TcpStream, Instant)> = Vec::new();
    let mut o = Outcome::ok(false);
    let mut early = 0;
    for (i, shake) in c.conns.iter().enumerate() {
        let key = NEXT.fetch_add(1, Ordering::SeqCst);
        keys.push(key);
        let (accept, arg) = match shake {
            Shake::Reject(a) => (1, *a),
            Shake::AcceptPanics(a) => (2, *a),
            _ => (0, 0),
        };
        let dos: Vec<Do> = c
            .ops
            .iter()
            .filter(|(w, _)| *w as usize % c.conns.len() == i)
            .filter_map(|(_, op)| match op {
                Op::Data { what, .. } => Some(what.clone()),
                _ => None,
            })
            .collect();
        let rec = Arc::new(Rec {
            accept,
            accept_arg: arg,
            init: if let Shake::Good(d) = shake { d.clone() } else { Do::Nothing },
            dos,
            log: Default::default(),
            pid: Default::default(),
            address: Default::default(),
            watcher,
            watched: AtomicBool::new(false),
            down: Default::default(),
        });
        RECS.lock().unwrap().insert(key, rec.clone());
        let t0 = Instant::now();
        let mut s = TcpStream::connect(server.addr).map_err(|e| format!("connection {i}: the server does not accept connections: {e}"))?;
        let _ = s.set_nodelay(true);
        s.set_write_timeout(Some(Duration::from_secs(10))).unwrap();
        let wait = Duration::from_secs(12);
        match shake {
            Shake::Good(_) => {
                let _ = s.write_all(request(key, None).as_bytes());
                if c.timeout.is_some_and(|t| t0.elapsed() > Duration::from_millis(t as u64 / 2)) {
                    return Ok(Outcome { inconclusive: true, ..o });
                }
                let Some((head, rest)) = response(&mut s, wait).map_err(|e| format!("connection {i}: {e}"))? else {
                    return Err(format!("connection {i}: a valid upgrade was not answered"));
                };
                let lower = head.to_lowercase();
                if !head.starts_with("HTTP/1.1 101") || !head.contains("s3pPLMBiTxaQ9kYGzzhZRbK+xOo=") || !lower.contains(&format!("x-key: {key}\r\n")) {
                    return Err(format!("connection {i}: a valid upgrade was answered with {head:?}"));
                }
                let local = s.local_addr().unwrap();
                if *rec.address.lock().unwrap() != Some(local) {
                    return Err(format!("connection {i}: accept was told {:?} instead of {local}", rec.address.lock().unwrap()));
                }
                let inbox: Arc<Mutex<Inbox>> = Default::default();
                let (s2, i2) = (s.try_clone().unwrap(), inbox.clone());
                std::thread::Builder::new().stack_size(256 << 10).spawn(move || reader(s2, rest, i2)).unwrap();
                let ending = rec.init.ends();
                clients.push(Some(Client { rec, s, inbox, sent: vec![], infos: vec![], cause: None, ending, after: false, data: 0 }));
                continue;
            }
            Shake::Reject(a) => {
                o = o.class("rejected upgrade");
                let _ = s.write_all(request(key, None).as_bytes());
                let Some((head, rest)) = response(&mut s, wait).map_err(|e| format!("connection {i}: {e}"))? else {
                    return Err(format!("connection {i}: a rejected upgrade was not answered"));
                };
                if !head.starts_with("HTTP/1.1 4") {
                    return Err(format!("connection {i}: a rejected upgrade was answered with {head:?}"));
                }
                let Some(body) = until_closed(&mut s, wait) else {
                    return Err(format!("connection {i}: stays open after its upgrade was rejected"));
                };
                let body = String::from_utf8_lossy(&[rest, body].concat()).to_string();
                if !body.contains(&format!("rejected{a}")) {
                    return Err(format!("connection {i}: the answer to a rejected upgrade does not tell the reason: {body:?}"));
                }
            }
            Shake::AcceptPanics(_) => {
                o = o.class("accept panics");
                let _ = s.write_all(request(key, None).as_bytes());
                match until_closed(&mut s, wait) {
                    Some(b) if !b.starts_with(b"HTTP/1.1 101") => {}
                    _ => return Err(format!("connection {i}: was not ended although accept panicked")),
                }
            }
            Shake::Bad(b) => {
                o = o.class("malformed upgrade");
                let _ = s.write_all(request(key, Some(*b)).as_bytes());
                let _ = s.shutdown(Shutdown::Write);
                match until_closed(&mut s, wait) {
                    Some(b) if !b.starts_with(b"HTTP/1.1 101") => {}
                    _ => return Err(format!("connection {i}: a malformed upgrade was not refused")),
                }
            }
            Shake::Garbage(b) => {
                o = o.class("garbage instead of an upgrade");
                let _ = s.write_all(b);
                let _ = s.shutdown(Shutdown::Write);
                if until_closed(&mut s, wait).is_none() {
                    return Err(format!("connection {i}: garbage keeps it open"));
                }
            }
            Shake::Stall(n) => {
                let r = request(key, None);
                let _ = s.write_all(&r.as_bytes()[..*n as usize % r.len()]);
                stalled.push((s, t0));
            }
        }
        if rec.pid.lock().unwrap().is_some() {
            return Err(format!("connection {i}: {shake:?} has a handler"));
        }
        clients.push(None);
    }

    for (k, (who, op)) in c.ops.iter().enumerate() {
        let i = *who as usize % clients.len();
        let Some(cl) = &mut clients[i] else { continue };
        if cl.cause.is_some() {
            continue;
        }
        if cl.ending && !matches!(op, Op::Sync) {
            cl.after = true;
        }
        let fits = |n: usize, frag: usize| n <= c.max_message.map(|m| m as usize).unwrap_or(usize::MAX) && frag <= c.max_frame.map(|m| m as usize).unwrap_or(usize::MAX);
        match op {
            Op::Data { binary: bin, len, seed, frags, ping, cut, what } => {
                let payload = if *bin { binary(*len as usize, *seed) } else { text(*len as usize, *seed).into_bytes() };
                let opcode = if *bin { 2 } else { 1 };
                let parts = 1 + (*frags % 4) as usize;
                let size = payload.len().div_ceil(parts).max(1);
                let mut b = Vec::new();
                let chunks: Vec<&[u8]> = if payload.is_empty() { vec![&[]] } else { payload.chunks(size).collect() };
                let n = chunks.len();
                let mut pings = 0;
                for (j, p) in chunks.iter().enumerate() {
                    b.extend(frame(j + 1 == n, if j == 0 { opcode } else { 0 }, p));
                    if *ping && j + 1 < n {
                        b.extend(frame(true, 9, &[j as u8]));
                        pings += 1;
                    }
                }
                let s = sig(if *bin { "binary" } else { "text" }, &payload);
                if !fits(payload.len(), chunks.iter().map(|c| c.len()).max().unwrap()) {
                    o = o.class("too large");
                    cl.cause = Some(Cause::Gone);
                    // Pings between the fragments may still be seen.
                    for j in 0..pings {
                        cl.sent.push(sig("ping", &[j as u8]));
                    }
                    cl.put(&b, *cut);
                    continue;
                }
                for j in 0..pings {
                    cl.sent.push(sig("ping", &[j as u8]));
                }
                cl.sent.push(s);
                cl.data += 1;
                cl.ending |= what.ends();
                cl.put(&b, *cut);
            }
            Op::Ping(n) => {
                let p = binary((*n as usize % 126).min(c.max_frame.unwrap_or(126) as usize), *n);
                cl.sent.push(sig("ping", &p));
                cl.put(&frame(true, 9, &p), 0);
            }
            Op::Pong(n) => {
                let p = binary((*n as usize % 126).min(c.max_frame.unwrap_or(126) as usize), *n);
                cl.sent.push(sig("pong", &p));
                cl.put(&frame(true, 10, &p), 0);
            }
            Op::Info(what) => {
                let until = Instant::now() + Duration::from_secs(12);
                let pid = loop {
                    if let Some(p) = *cl.rec.pid.lock().unwrap() {
                        break p;
                    }
                    if Instant::now() > until {
                        return Err(format!("connection {i} has no handler process"));
                    }
                    std::thread::sleep(Duration::from_micros(300));
                };
                let m = Info { n: cl.infos.len() as u64, what: what.clone() };
                cl.infos.push(what.clone());
                cl.ending |= what.ends();
                RT.block_on(async move { Process::send(pid, m) });
            }
            Op::Sync => cl.settle(Duration::from_secs(12)).map_err(|e| format!("connection {i}, after step {k}: {e}"))?,
            Op::Close(code) => {
                let (_, n) = close_code(*code);
                cl.sent.push(format!("close {n}"));
                let mut p = n.to_be_bytes().to_vec();
                p.extend(b"done");
                cl.put(&frame(true, 8, &p), 0);
                cl.cause = Some(Cause::Close);
            }
            Op::CloseEmpty => {
                cl.sent.push("close 0".into());
                cl.put(&frame(true, 8, &[]), 0);
                cl.cause = Some(Cause::Close);
            }
            Op::HalfClose => {
                let _ = cl.s.shutdown(Shutdown::Write);
                cl.cause = Some(Cause::Eof);
            }
            Op::Drop => {
                let _ = cl.s.shutdown(Shutdown::Both);
                cl.cause = Some(Cause::Gone);
            }
            Op::Reset => {
                crate::serving::reset_socket(&cl.s);
                let _ = cl.s.shutdown(Shutdown::Both);
                cl.cause = Some(Cause::Gone);
            }
            Op::Kill(r) => {
                let until = Instant::now() + Duration::from_secs(12);
                let pid = loop {
                    if let Some(p) = *cl.rec.pid.lock().unwrap() {
                        break Some(p);
                    }
                    if Instant::now() > until {
                        break None;
                    }
                    std::thread::sleep(Duration::from_micros(300));
                };
                let Some(pid) = pid else { return Err(format!("connection {i} has no handler process")) };
                let r = format!("kill{r}");
                let reason = ExitReason::from(r.clone());
                RT.block_on(async move { in_process(move || Process::exit(pid, reason)).await });
                cl.cause = Some(Cause::Kill(r));
            }
            Op::Malformed(kind) => {
                let b = match kind % 8 {
                    // not masked
                    0 => vec![0x81, 1, b'x'],
                    // reserved bits, reserved opcodes
                    1 => frame(true, 0x41, b"x"),
                    2 => frame(true, 3, b"x"),
                    3 => frame(true, 0xB, b"x"),
                    // a control frame that is fragmented, or too long
                    4 => frame(false, 9, b"x"),
                    5 => frame(true, 9, &[1; 126]),
                    // text that is none, a continuation of nothing
                    6 => frame(true, 1, &[0xff, 0xfe, 0xfd]),
                    _ => frame(true, 0, b"x"),
                };
                cl.put(&b, 0);
                cl.cause = Some(Cause::Malformed);
            }
        }
        if cl.cause.is_some() {
            early += 1;
        }
    }
    let mut bad = Vec::new();
    for (i, cl) in clients.iter().enumerate() {
        if let Some(cl) = cl {
            if let Err(e) = cl.settle(Duration::from_secs(12)) {
                bad.push(format!("connection {i}: {e}"));
            }
        }
    }
    if let Some(b) = bad.first() {
        return Err(b.clone());
    }
    // Handshakes that were not finished.
    for (mut s, t0) in stalled {
        match c.timeout {
            Some(t) => {
                let t = Duration::from_millis(t as u64);
                if until_closed(&mut s, t + Duration::from_secs(10)).is_none() {
                    return Err(format!("an unfinished upgrade is still open after {:?} (timeout {t:?})", t0.elapsed()));
                }
                o = o.class("handshake timeout");
            }
            None => {
                s.set_read_timeout(Some(Duration::from_millis(1))).unwrap();
                let mut b = [0u8; 16];
                match s.read(&mut b) {
                    Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut) => {}
                    r => return Err(format!("an unfinished upgrade without a timeout: {r:?}")),
                }
            }
        }
    }
    // The server still serves.
    let key = NEXT.fetch_add(1, Ordering::SeqCst);
    let mut s = TcpStream::connect(server.addr).map_err(|e| format!("the server does not accept connections any more: {e}"))?;
    let _ = s.write_all(request(key, None).as_bytes());
    match response(&mut s, Duration::from_secs(12)) {
        Ok(Some((h, _))) if h.starts_with("HTTP/1.1 4") => {}
        r => return Err(format!("the server does not serve any more: {r:?}")),
    }
    let handled: usize = clients.iter().flatten().map(|c| c.rec.log.lock().unwrap().len()).sum();
    o.nontrivial = handled > 4 || early > 0;
    for cl in clients.iter().flatten() {
        let _ = cl.s.shutdown(Shutdown::Both);
        if let Some(c) = &cl.cause {
            o = o.class(match c {
                Cause::Close => "closed by the client",
                Cause::Eof => "half-closed",
                Cause::Malformed => "malformed frame",
                Cause::Gone => "lost",
                Cause::Kill(_) => "handler killed",
            });
        } else if cl.ending {
            o = o.class("ended by the handler");
        } else {
            o = o.class("open to the end");
        }
    }
    Ok(o)
}

fn out() -> BoxedStrategy<Out> {
    (any::<bool>(), prop_oneof![6 => 0u16..40, 2 => 100u16..200, 1 => 60_000u16..65_535], any::<u8>()).prop_map(|(binary, len, seed)| Out { binary, len, seed }).boxed()
}
fn doing(ends: u32) -> BoxedStrategy<Do> {
    let outs = || prop::collection::vec(out(), 0..4);
    let base = weighted(vec![
        (6, Just(Do::Nothing).boxed()),
        (6, Just(Do::Echo).boxed()),
        (5, outs().prop_map(Do::Send).boxed()),
        (ends, (outs(), any::<u8>(), any::<u8>(), outs()).prop_map(|(before, code, reason, after)| Do::Close { before, code, reason, after }).boxed()),
        (ends, any::<u8>().prop_map(Do::Err).boxed()),
        (ends, any::<u8>().prop_map(Do::Panic).boxed()),
    ]);
    let slow = (0u8..20, base).prop_map(|(ms, d)| Do::Slow(ms, Box::new(d))).boxed();
    weighted(vec![
        (5, Just(Do::Nothing).boxed()),
        (8, Just(Do::Echo).boxed()),
        (6, outs().prop_map(Do::Send).boxed()),
        (ends, (outs(), any::<u8>(), any::<u8>(), outs()).prop_map(|(before, code, reason, after)| Do::Close { before, code, reason, after }).boxed()),
        (ends, any::<u8>().prop_map(Do::Err).boxed()),
        (ends, any::<u8>().prop_map(Do::Panic).boxed()),
        (3, slow),
    ])
}

fn ops(ends: u32) -> BoxedStrategy<(u8, Op)> {
    let u = any::<u8>;
    let len = prop_oneof![8 => 0u16..50, 2 => 100u16..400, 1 => 4000u16..20000];
    let op = weighted(vec![
        (16, (any::<bool>(), len, u(), prop_oneof![2 => Just(0u8), 1 => u()], any::<bool>(), prop_oneof![3 => Just(0u8), 1 => u()], doing(ends)).prop_map(|(binary, len, seed, frags, ping, cut, what)| Op::Data { binary, len, seed, frags, ping, cut, what }).boxed()),
        (2, u().prop_map(Op::Ping).boxed()),
        (1, u().prop_map(Op::Pong).boxed()),
        (6, doing(ends).prop_map(Op::Info).boxed()),
        (4, Just(Op::Sync).boxed()),
        (1, u().prop_map(Op::Close).boxed()),
        (1, Just(Op::CloseEmpty).boxed()),
        (1, Just(Op::HalfClose).boxed()),
        (1, Just(Op::Drop).boxed()),
        (1, Just(Op::Reset).boxed()),
        (1, u().prop_map(Op::Kill).boxed()),
        (1, u().prop_map(Op::Malformed).boxed()),
    ]);
    (u(), op).boxed()
}

fn wscase() -> BoxedStrategy<WsCase> {
    let shake = || {
        weighted(vec![
            (12, doing(0).prop_map(Shake::Good).boxed()),
            (1, doing(2).prop_map(Shake::Good).boxed()),
            (1, any::<u8>().prop_map(Shake::Reject).boxed()),
            (1, any::<u8>().prop_map(Shake::AcceptPanics).boxed()),
            (1, any::<u8>().prop_map(Shake::Bad).boxed()),
            (1, prop::collection::vec(any::<u8>(), 0..60).prop_map(Shake::Garbage).boxed()),
            (1, any::<u16>().prop_map(Shake::Stall).boxed()),
        ])
    };
    let limit = || prop_oneof![3 => Just(None), 1 => (30u16..300).prop_map(Some)];
    let op = prop_oneof![1 => prop::collection::vec(ops(0), 3..40), 1 => prop::collection::vec(ops(1), 3..40)];
    (prop_oneof![2 => Just(None), 1 => (500u16..900).prop_map(Some)], limit(), limit(), prop::collection::vec(shake(), 1..5), op)
        .prop_map(|(timeout, max_message, max_frame, conns, ops)| WsCase { timeout, max_message, max_frame, conns, ops })
        .boxed()
}

pub fn subs() -> (Vec<Box<dyn DynSub>>, &'static str, Vec<&'static str>) {
    let s = Sub::new("connections", (6_000, 25), wscase, |c: &WsCase| run(c).unwrap_or_else(Outcome::fail)).threads(24).confirm(1).shrink(300).replays(5).boxed();
    (
        vec![s],
        "messages of several kinds were handled, or a connection was ended by its client",
        vec![
            "tls is not exercised (the feature needs certificates and is off by default)",
            "the order between messages of the client and of processes is the handler's (its log); answers are judged by that order",
        ],
    )
}

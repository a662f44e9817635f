//! A node agent: one hydra node in its own OS process, driven by JSON lines on stdin.
use hydra::*;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::io::{BufRead, Write};
use std::net::SocketAddr;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tokio::sync::{mpsc, oneshot};

/// An identifier inside a message.
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum Id {
    P(Pid),
    R(Reference),
    N(Node),
    D(Dest),
}

/// What actors send each other.
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct NMsg {
    pub id: u64,
    pub text: String,
    pub bytes: Vec<u8>,
    pub num: (i64, f64, Option<bool>),
    pub ids: Vec<Id>,
    pub tree: BTreeMap<String, Option<Box<Id>>>,
}

#[derive(Serialize, Deserialize)]
enum SyncMsg {
    Ping(Pid, u64),
    Pong(u64),
}

/// How an actor names a destination (resolved in the agent).
#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Cmd {
    Send { dests: Vec<Value>, msg: MsgSpec, after: Option<u64>, list: bool },
    /// Sends to the k-th identifier of the last message received.
    Reply { k: usize, msg: MsgSpec },
    /// Passes the identifiers of the last message on.
    Forward { dests: Vec<Value>, msg: MsgSpec },
    Link(Value),
    Unlink(Value),
    Monitor(Value),
    MonitorAlias(Value, bool),
    Demonitor(Value),
    /// Monitors and demonitors at once.
    Brief(Value),
    Alias(bool),
    Unalias(Value),
    NodeMonitor(String),
    NodeDemonitor(Value),
    Exit(Value, Value),
    Register(String),
    Unregister(String),
    Trap(bool),
    Connect(String),
    Disconnect(String),
    Call { dest: Value, req: SrvReq, timeout: u64 },
    Cast { dests: Vec<Value>, req: SrvReq },
    /// A local-only value (must fail for several or remote destinations).
    SendLocal { dests: Vec<Value>, n: u64 },
    Return,
    Panic(String),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct MsgSpec {
    pub id: u64,
    pub seed: u64,
    pub size: usize,
    /// {"p":pid} {"r":reference} {"n":"name@addr"|"local"} {"d":dest}
    pub ids: Vec<Value>,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum SrvReq {
    Now(u64),
    Later(u64, u64),
    Never(u64),
    Twice(u64),
    Die(u64, String),
    Note(u64),
    Is(u64),
}

struct Srv {
    log: Arc<Mutex<Vec<Value>>>,
}

impl GenServer for Srv {
    type Message = SrvReq;
    async fn init(&mut self) -> Result<(), ExitReason> {
        Ok(())
    }
    async fn handle_call(&mut self, m: SrvReq, from: From) -> Result<Option<SrvReq>, ExitReason> {
        let v = match &m {
            SrvReq::Now(v) | SrvReq::Later(v, _) | SrvReq::Never(v) | SrvReq::Twice(v) | SrvReq::Die(v, _) | SrvReq::Note(v) | SrvReq::Is(v) => *v,
        };
        self.log.lock().unwrap().push(json!({"t": "call", "v": v}));
        match m {
            SrvReq::Now(v) => Ok(Some(SrvReq::Is(v))),
            SrvReq::Later(v, ms) => {
                Process::spawn(async move {
                    Process::sleep(Duration::from_millis(ms)).await;
                    Srv::reply(from, SrvReq::Is(v));
                });
                Ok(None)
            }
            SrvReq::Twice(v) => {
                Srv::reply(from, SrvReq::Is(v));
                Srv::reply(from, SrvReq::Is(v + 1_000_000));
                Ok(None)
            }
            SrvReq::Die(_, r) => Err(ExitReason::from(r)),
            _ => Ok(None),
        }
    }
    async fn handle_cast(&mut self, m: SrvReq) -> Result<(), ExitReason> {
        if let SrvReq::Note(v) = m {
            self.log.lock().unwrap().push(json!({"t": "cast", "v": v}));
        }
        Ok(())
    }
}

struct Actor {
    pid: Pid,
    log: Arc<Mutex<Vec<Value>>>,
    tx: mpsc::UnboundedSender<(Vec<Cmd>, oneshot::Sender<Vec<Value>>)>,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Req {
    Start { name: String, listen: SocketAddr, broadcast: SocketAddr, hs: Option<u64>, hi: Option<u64>, ht: Option<u64> },
    Stop,
    Cookie(Option<String>),
    Connect(String),
    Disconnect(String),
    Forget(String),
    Spawn { trap: bool, name: Option<String> },
    Serve { name: Option<String> },
    Act { actor: usize, cmds: Vec<Cmd> },
    Snap,
    Sync(Vec<String>),
    Nodes,
    Proc(Value),
    Quit,
}

struct Agent {
    actors: Vec<Actor>,
    listen: Option<SocketAddr>,
    started: Arc<AtomicBool>,
}

fn id_json(i: &Id) -> Value {
    match i {
        Id::P(p) => json!({"p": p, "l": p.is_local()}),
        Id::R(r) => json!({"r": r, "l": r.is_local()}),
        Id::N(n) => json!({"n": n, "l": n.is_local()}),
        Id::D(d) => json!({"d": dest_json(d), "l": d.is_local()}),
    }
}

fn dest_json(d: &Dest) -> Value {
    match d {
        Dest::Pid(p) => json!({"p": p}),
        Dest::Named(n, node) => json!({"name": n, "node": node, "l": node.is_local()}),
        Dest::Alias(r) => json!({"r": r}),
    }
}

fn node_of(s: &str) -> Node {
    Node::from(s)
}

fn pid_of(v: &Value) -> Pid {
    serde_json::from_value(v.clone()).expect("pid")
}
fn ref_of(v: &Value) -> Reference {
    serde_json::from_value(v.clone()).expect("reference")
}
/// {"p":pid} {"r":reference} {"name":..,"node":..}
fn dest_of(v: &Value) -> Dest {
    if let Some(p) = v.get("p") {
        Dest::from(pid_of(p))
    } else if let Some(r) = v.get("r") {
        Dest::from(ref_of(r))
    } else {
        let name = v["name"].as_str().unwrap().to_string();
        match v["node"].as_str() {
            Some("local") | None => Dest::from(name),
            Some(n) => Dest::from((name, n.to_string())),
        }
    }
}
fn id_of(v: &Value) -> Id {
    if let Some(p) = v.get("p") {
        Id::P(pid_of(p))
    } else if let Some(r) = v.get("r") {
        Id::R(ref_of(r))
    } else if let Some(n) = v.get("n") {
        Id::N(node_of(n.as_str().unwrap()))
    } else {
        Id::D(dest_of(&v["d"]))
    }
}

fn reason_of(v: &Value) -> ExitReason {
    match v.as_str().unwrap() {
        "!normal" => ExitReason::Normal,
        "!kill" => ExitReason::Kill,
        "!ignore" => ExitReason::Ignore,
        s => ExitReason::from(s),
    }
}
fn reason_json(r: &ExitReason) -> Value {
    match r {
        ExitReason::Normal => json!("!normal"),
        ExitReason::Kill => json!("!kill"),
        ExitReason::Ignore => json!("!ignore"),
        ExitReason::Custom(s) => json!(s),
    }
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in data {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

/// The data part of a message with the given seed (the same on both sides).
pub fn content(seed: u64, size: usize) -> (String, Vec<u8>, (i64, f64, Option<bool>)) {
    let mut x = seed | 1;
    let mut next = || {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        x
    };
    let pool = ["a", "Z", "\u{0}", "é", "漢", "\u{1F600}", "\"", "\\", "\n", "~"];
    let text: String = (0..(next() % 12)).map(|_| pool[(next() % pool.len() as u64) as usize]).collect();
    let bytes: Vec<u8> = (0..size).map(|_| (next() >> 24) as u8).collect();
    let i = match next() % 4 {
        0 => i64::MIN,
        1 => i64::MAX,
        _ => next() as i64 >> (next() % 60),
    };
    let f = match next() % 4 {
        0 => 0.1,
        1 => -0.0,
        2 => f64::INFINITY,
        _ => (next() as i64) as f64 / 3.0,
    };
    let o = match next() % 3 {
        0 => None,
        1 => Some(true),
        _ => Some(false),
    };
    (text, bytes, (i, f, o))
}

pub fn digest(text: &str, bytes: &[u8], num: &(i64, f64, Option<bool>)) -> u64 {
    let mut all = text.as_bytes().to_vec();
    all.push(0);
    all.extend_from_slice(bytes);
    all.extend_from_slice(&num.0.to_le_bytes());
    all.extend_from_slice(&num.1.to_bits().to_le_bytes());
    all.push(match num.2 {
        None => 0,
        Some(false) => 1,
        Some(true) => 2,
    });
    fnv(&all) >> 12
}

fn message(spec: &MsgSpec, ids: Vec<Id>) -> NMsg {
    let (text, bytes, num) = content(spec.seed, spec.size);
    let tree = ids.iter().enumerate().filter(|(i, _)| (spec.seed >> i) & 1 == 1).map(|(i, id)| (format!("k{i}"), Some(Box::new(id.clone())))).collect();
    NMsg { id: spec.id, text, bytes, num, ids, tree }
}

fn log_message(log: &Mutex<Vec<Value>>, m: &Message<NMsg>) {
    let v = match m {
        Message::User(m) => {
            let mut same = true;
            for (k, v) in &m.tree {
                let i: usize = k[1..].parse().unwrap_or(usize::MAX);
                same &= v.as_ref().map(|b| &**b) == m.ids.get(i);
            }
            json!({"t": "data", "id": m.id, "h": digest(&m.text, &m.bytes, &m.num), "ids": m.ids.iter().map(id_json).collect::<Vec<_>>(), "tree": same})
        }
        Message::System(SystemMessage::Exit(p, r)) => json!({"t": "exit", "p": p, "l": p.is_local(), "reason": reason_json(r)}),
        Message::System(SystemMessage::ProcessDown(d, r, e)) => json!({"t": "down", "d": dest_json(d), "r": r, "reason": reason_json(e)}),
        Message::System(SystemMessage::NodeDown(n, r)) => json!({"t": "nodedown", "n": n, "r": r}),
        #[allow(unreachable_patterns)]
        Message::System(s) => json!({"t": "other", "s": format!("{s:?}")}),
    };
    log.lock().unwrap().push(v);
}

enum Next {
    Go(Value),
    Return,
    Panic(String),
}

async fn run_cmd(cmd: Cmd, last: &Option<NMsg>, log: &Mutex<Vec<Value>>) -> Next {
    let v = match cmd {
        Cmd::Send { dests, msg, after, list } => {
            let ids = msg.ids.iter().map(id_of).collect();
            let m = message(&msg, ids);
            let ds: Vec<Dest> = dests.iter().map(dest_of).collect();
            match after {
                Some(ms) => {
                    let d = if ds.len() == 1 && !list { Dests::from(ds[0].clone()) } else { Dests::from(ds) };
                    json!(Process::send_after(d, m, Duration::from_millis(ms)))
                }
                None => {
                    if ds.len() == 1 && !list {
                        Process::send(ds[0].clone(), m);
                    } else {
                        Process::send(ds, m);
                    }
                    Value::Null
                }
            }
        }
        Cmd::Reply { k, msg } => {
            let Some(last) = last else { return Next::Go(json!("nothing")) };
            let ids = msg.ids.iter().map(id_of).collect();
            let m = message(&msg, ids);
            match last.ids.get(k) {
                Some(Id::P(p)) => Process::send(*p, m),
                Some(Id::R(r)) => Process::send(*r, m),
                Some(Id::D(d)) => Process::send(d.clone(), m),
                Some(Id::N(n)) => Process::send(Dest::from(("nobody".to_string(), n.clone())), m),
                None => return Next::Go(json!("nothing")),
            }
            Value::Null
        }
        Cmd::Forward { dests, msg } => {
            let Some(last) = last else { return Next::Go(json!("nothing")) };
            let m = message(&msg, last.ids.clone());
            let ds: Vec<Dest> = dests.iter().map(dest_of).collect();
            Process::send(ds, m);
            Value::Null
        }
        Cmd::Link(p) => {
            Process::link(pid_of(&p));
            Value::Null
        }
        Cmd::Unlink(p) => {
            Process::unlink(pid_of(&p));
            Value::Null
        }
        Cmd::Monitor(d) => json!(Process::monitor(dest_of(&d))),
        Cmd::MonitorAlias(d, reply) => json!(Process::monitor_alias(dest_of(&d), reply)),
        Cmd::Demonitor(r) => {
            Process::demonitor(ref_of(&r));
            Value::Null
        }
        Cmd::Brief(d) => {
            let r = Process::monitor(dest_of(&d));
            Process::demonitor(r);
            json!(r)
        }
        Cmd::Alias(reply) => json!(Process::alias(reply)),
        Cmd::Unalias(r) => json!(Process::unalias(ref_of(&r))),
        Cmd::NodeMonitor(n) => json!(Node::monitor(node_of(&n))),
        Cmd::NodeDemonitor(r) => {
            Node::demonitor(ref_of(&r));
            Value::Null
        }
        Cmd::Exit(p, r) => {
            Process::exit(pid_of(&p), reason_of(&r));
            Value::Null
        }
        Cmd::Register(n) => json!(Process::register(Process::current(), n).is_ok()),
        Cmd::Unregister(n) => {
            Process::unregister(n);
            Value::Null
        }
        Cmd::Trap(t) => {
            Process::set_flags(if t { ProcessFlags::TRAP_EXIT } else { ProcessFlags::empty() });
            Value::Null
        }
        Cmd::Connect(n) => {
            Node::connect(node_of(&n));
            Value::Null
        }
        Cmd::Disconnect(n) => {
            Node::disconnect(node_of(&n));
            Value::Null
        }
        Cmd::Call { dest, req, timeout } => {
            let start = Instant::now();
            let r = Srv::call(dest_of(&dest), req, Some(Duration::from_millis(timeout))).await;
            let ms = start.elapsed().as_millis() as u64;
            match r {
                Ok(SrvReq::Is(v)) => json!({"ok": v}),
                Ok(_) => json!({"ok": "?"}),
                Err(CallError::Timeout(_)) => json!({"timeout": ms}),
                Err(CallError::ServerDown(r)) => json!({"down": reason_json(&r)}),
            }
        }
        Cmd::Cast { dests, req } => {
            let ds: Vec<Dest> = dests.iter().map(dest_of).collect();
            Srv::cast(ds, req);
            Value::Null
        }
        Cmd::SendLocal { dests, n } => {
            let ds: Vec<Dest> = dests.iter().map(dest_of).collect();
            if ds.len() == 1 {
                Process::send(ds[0].clone(), Local::new(n));
            } else {
                Process::send(ds, Local::new(n));
            }
            Value::Null
        }
        Cmd::Return => return Next::Return,
        Cmd::Panic(s) => return Next::Panic(s),
    };
    let _ = log;
    Next::Go(v)
}

async fn actor(mut rx: mpsc::UnboundedReceiver<(Vec<Cmd>, oneshot::Sender<Vec<Value>>)>, log: Arc<Mutex<Vec<Value>>>) {
    let mut last: Option<NMsg> = None;
    loop {
        tokio::select! {
            cmd = rx.recv() => {
                let Some((cmds, reply)) = cmd else { std::future::pending::<()>().await; unreachable!() };
                let mut out = Vec::new();
                for c in cmds {
                    match run_cmd(c, &last, &log).await {
                        Next::Go(v) => out.push(v),
                        Next::Return => {
                            let _ = reply.send(out);
                            return;
                        }
                        Next::Panic(s) => {
                            let _ = reply.send(out);
                            std::panic::panic_any(s);
                        }
                    }
                }
                let _ = reply.send(out);
            }
            m = Process::receiver().for_message::<NMsg>().receive() => {
                log_message(&log, &m);
                if let Message::User(m) = m {
                    last = Some(m);
                }
            }
        }
    }
}

async fn sync_process() {
    loop {
        if let Message::User(SyncMsg::Ping(p, n)) = Process::receiver().for_message::<SyncMsg>().receive().await {
            Process::send(p, SyncMsg::Pong(n));
        }
    }
}

fn nodes_json() -> Value {
    let s = |v: Vec<Node>| {
        let mut v: Vec<String> = v.iter().map(|n| match n { Node::Local => "local".to_string(), Node::Remote(n, a) => format!("{n}@{a}") }).collect();
        v.sort();
        v
    };
    json!({"alive": Node::alive(), "list": s(Node::list()), "known": s(Node::list_by_state(NodeState::Known)),
           "connected": s(Node::list_by_state(NodeState::Connected)), "pending": s(Node::list_by_state(NodeState::Pending)),
           "current": s(Node::list_by_state(NodeState::Current))})
}

fn sorted(v: Vec<Value>) -> Vec<Value> {
    let mut v: Vec<(String, Value)> = v.into_iter().map(|v| (v.to_string(), v)).collect();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    v.into_iter().map(|v| v.1).collect()
}

async fn accepts(addr: SocketAddr) -> bool {
    tokio::net::TcpStream::connect(addr).await.is_ok()
}

/// Runs `f` in a process (most of the node functions need one).
async fn in_process(f: impl FnOnce() + Send + 'static) -> Value {
    let (t, r) = oneshot::channel();
    Process::spawn(async move {
        f();
        let _ = t.send(());
    });
    match r.await {
        Ok(()) => json!("ok"),
        Err(_) => json!("panicked"),
    }
}

impl Agent {
    async fn handle(&mut self, req: Req) -> Value {
        match req {
            Req::Start { name, listen, broadcast, hs, hi, ht } => {
                let mut o = NodeOptions::new().listen_address(listen).broadcast_address(broadcast);
                if let Some(v) = hs {
                    o = o.handshake_timeout(Duration::from_millis(v));
                }
                if let Some(v) = hi {
                    o = o.heartbeat_interval(Duration::from_millis(v));
                }
                if let Some(v) = ht {
                    o = o.heartbeat_timeout(Duration::from_millis(v));
                }
                if accepts(listen).await {
                    return json!("in use");
                }
                self.listen = Some(listen);
                Node::start(name, o);
                let until = Instant::now() + Duration::from_secs(10);
                while Instant::now() < until {
                    if accepts(listen).await {
                        self.started.store(true, Ordering::SeqCst);
                        return json!("ok");
                    }
                    if !Node::alive() {
                        return json!("died");
                    }
                    tokio::time::sleep(Duration::from_millis(1)).await;
                }
                json!("not listening")
            }
            Req::Stop => {
                in_process(Node::stop).await;
                let until = Instant::now() + Duration::from_secs(10);
                while let Some(l) = self.listen {
                    if !accepts(l).await {
                        return json!("ok");
                    }
                    if Instant::now() > until {
                        return json!("still listening");
                    }
                    tokio::time::sleep(Duration::from_millis(1)).await;
                }
                json!("ok")
            }
            Req::Cookie(c) => {
                match c {
                    Some(c) => Node::set_cookie(c),
                    None => Node::clear_cookie(),
                }
                json!("ok")
            }
            Req::Connect(n) => {
                Node::connect(node_of(&n));
                json!("ok")
            }
            Req::Disconnect(n) => {
                in_process(move || Node::disconnect(node_of(&n))).await
            }
            Req::Forget(n) => {
                in_process(move || Node::forget(node_of(&n))).await
            }
            Req::Spawn { trap, name } => {
                let (tx, rx) = mpsc::unbounded_channel();
                let log = Arc::new(Mutex::new(Vec::new()));
                let l = log.clone();
                let pid = Process::spawn(async move { actor(rx, l).await });
                let a = Actor { pid, log, tx };
                let (t, r) = oneshot::channel();
                let mut cmds = vec![Cmd::Trap(trap)];
                if let Some(n) = &name {
                    cmds.push(Cmd::Register(n.clone()));
                }
                let _ = a.tx.send((cmds, t));
                let out = r.await.unwrap_or_default();
                self.actors.push(a);
                json!({"pid": pid, "out": out})
            }
            Req::Serve { name } => {
                let log = Arc::new(Mutex::new(Vec::new()));
                let l = log.clone();
                let (t, r) = oneshot::channel();
                // The server must survive the process that starts it.
                Process::spawn(async move {
                    let mut o = GenServerOptions::new();
                    if let Some(n) = name {
                        o = o.name(n);
                    }
                    let _ = t.send(Srv { log: l }.start(o).await.unwrap());
                });
                let pid = r.await.unwrap();
                let (tx, _) = mpsc::unbounded_channel();
                self.actors.push(Actor { pid, log, tx });
                json!({"pid": pid})
            }
            Req::Act { actor, cmds } => {
                let (t, r) = oneshot::channel();
                if self.actors[actor].tx.send((cmds, t)).is_err() {
                    return json!({"dead": true});
                }
                match r.await {
                    Ok(v) => json!({"out": v}),
                    Err(_) => json!({"dead": true}),
                }
            }
            Req::Snap => {
                let all: Vec<Pid> = Process::list();
                let actors: Vec<Value> = self
                    .actors
                    .iter()
                    .map(|a| {
                        let info = Process::info(a.pid);
                        json!({"pid": a.pid, "alive": Process::alive(a.pid), "listed": all.contains(&a.pid), "log": *a.log.lock().unwrap(),
                           "links": info.as_ref().map(|i| sorted(i.links.iter().map(|p| json!(p)).collect())),
                           "mons": info.as_ref().map(|i| sorted(i.monitored_by.iter().map(|p| json!(p)).collect())),
                           "name": info.as_ref().and_then(|i| i.registered_name.clone())})
                    })
                    .collect();
                json!({"actors": actors, "nodes": nodes_json(), "procs": all.len()})
            }
            Req::Nodes => nodes_json(),
            Req::Proc(p) => {
                let p = pid_of(&p);
                json!({"local": p.is_local(), "alive": p.is_local() && Process::alive(p)})
            }
            Req::Sync(nodes) => {
                let (t, r) = oneshot::channel();
                Process::spawn(async move {
                    let mut bad = Vec::new();
                    for (i, n) in nodes.iter().enumerate() {
                        Process::send(("sync".to_string(), node_of(n)), SyncMsg::Ping(Process::current(), i as u64));
                        let got = Process::timeout(
                            Duration::from_secs(10),
                            Process::receiver().for_message::<SyncMsg>().select(|m| matches!(m, Message::User(SyncMsg::Pong(k)) if *k == i as u64)),
                        )
                        .await;
                        if got.is_err() {
                            bad.push(n.clone());
                        }
                    }
                    let _ = t.send(bad);
                });
                json!(r.await.unwrap_or_else(|_| vec!["died".into()]))
            }
            Req::Quit => json!("bye"),
        }
    }
}

pub fn main() -> i32 {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let mut agent = Agent { actors: Vec::new(), listen: None, started: Arc::new(AtomicBool::new(false)) };
    rt.block_on(async {
        let p = Process::spawn(sync_process());
        Process::register(p, "sync").unwrap();
    });
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        let req: Req = match serde_json::from_str(&line) {
            Ok(r) => r,
            Err(e) => {
                let mut o = stdout.lock();
                let _ = writeln!(o, "{}", json!({"error": format!("{e}")}));
                let _ = o.flush();
                continue;
            }
        };
        let quit = matches!(req, Req::Quit);
        let v = rt.block_on(agent.handle(req));
        let mut o = stdout.lock();
        if writeln!(o, "{v}").is_err() || o.flush().is_err() {
            break;
        }
        if quit {
            break;
        }
    }
    std::process::exit(0);
}

//! Several hydra nodes (one OS process each) driven by generated histories and compared with a model
//! of the whole cluster (C19-C22, and the remote side of C02, C10, C23).
use crate::agent::{Cmd, MsgSpec, Req, SrvReq, content, digest};
use crate::prop::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::net::{Ipv4Addr, SocketAddr};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::mpsc::{Receiver, channel};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- agents

pub struct AgentProc {
    child: Child,
    stdin: ChildStdin,
    out: Receiver<String>,
}

impl AgentProc {
    pub fn spawn() -> AgentProc {
        let exe = std::env::current_exe().unwrap();
        let mut child = Command::new(exe).arg("agent").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("HARNESS: spawn");
        crate::track_child(child.id());
        let stdin = child.stdin.take().unwrap();
        let stdout = child.stdout.take().unwrap();
        let (tx, out) = channel();
        std::thread::Builder::new()
            .stack_size(128 << 10)
            .spawn(move || {
                for l in BufReader::new(stdout).lines() {
                    let Ok(l) = l else { break };
                    if tx.send(l).is_err() {
                        break;
                    }
                }
            })
            .unwrap();
        AgentProc { child, stdin, out }
    }
    pub fn post(&mut self, req: &Req) -> Result<(), String> {
        let line = serde_json::to_string(req).unwrap();
        writeln!(self.stdin, "{line}").and_then(|_| self.stdin.flush()).map_err(|e| format!("the node died: {e}"))
    }
    pub fn answer(&mut self) -> Result<Value, String> {
        match self.out.recv_timeout(Duration::from_secs(40)) {
            Ok(l) => {
                let v: Value = serde_json::from_str(&l).map_err(|e| format!("{e}"))?;
                if let Some(e) = v.get("error") {
                    panic!("HARNESS: {e}");
                }
                Ok(v)
            }
            Err(std::sync::mpsc::RecvTimeoutError::Timeout) => Err("the node does not answer any more".into()),
            Err(_) => Err("the node died".into()),
        }
    }
    pub fn call(&mut self, req: Req) -> Result<Value, String> {
        self.post(&req)?;
        self.answer()
    }
    pub fn id(&self) -> u32 {
        self.child.id()
    }
    pub fn kill(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        crate::untrack_child(self.child.id());
    }
    pub fn stop_signal(&self, sig: &str) {
        let _ = Command::new("kill").arg(sig).arg(self.child.id().to_string()).status();
    }
}

impl Drop for AgentProc {
    fn drop(&mut self) {
        self.kill();
    }
}

static NEXT_IP: AtomicU32 = AtomicU32::new(0);

/// An address no other case uses.
pub fn fresh_ip() -> Ipv4Addr {
    let n = NEXT_IP.fetch_add(1, Ordering::SeqCst);
    let a = 16 + (std::process::id() % 200) as u8;
    Ipv4Addr::new(127, a, (n >> 8) as u8, (n & 255) as u8)
}

fn trace() -> bool {
    static T: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *T.get_or_init(|| std::env::var("HV_TRACE").is_ok())
}

// ---------------------------------------------------------------- cases

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum D {
    Actor(u8),
    Name(u8, u8),
    Alias(u8),
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum E {
    Actor(u8),
    Alias(u8),
    Node(u8),
    Dest(D),
}

#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq)]
pub enum Mode {
    Now,
    Later,
    Late,
    Never,
    Twice,
    Die,
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum Op {
    Connect(u8, u8),
    Disconnect(u8, u8),
    Forget(u8, u8),
    Stop(u8),
    Start(u8),
    Kill(u8),
    Cookie(u8, u8),
    Spawn(u8, bool, Option<u8>),
    Serve(u8, Option<u8>),
    Send { a: u8, dests: Vec<D>, list: bool, embed: Vec<E>, size: u16, after: Option<u8> },
    Reply(u8, u8),
    Forward(u8, Vec<D>),
    Link(u8, u8),
    Unlink(u8, u8),
    Monitor(u8, D),
    MonitorAlias(u8, D, bool),
    Demonitor(u8, u8),
    /// Monitors and demonitors at once.
    Brief(u8, D),
    Alias(u8, bool),
    Unalias(u8, u8),
    NodeMonitor(u8, u8),
    NodeDemonitor(u8, u8),
    /// 0 normal, 1 kill, 2 ignore, others custom
    Exit(u8, u8, u8),
    Register(u8, u8),
    Unregister(u8),
    Trap(u8, bool),
    Return(u8),
    Panic(u8),
    Call(u8, D, Mode),
    Cast(u8, Vec<D>),
    /// Executed without a pause in between.
    Burst(u8, Vec<Op>),
    /// Several processes send at the same time.
    Storm(Vec<(u8, Vec<D>)>),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Case {
    seed: u64,
    nodes: u8,
    /// bit 0: all nodes have the same name, bit 1: all have the same ip
    ident: u8,
    actors: Vec<(u8, bool, Option<u8>)>,
    servers: Vec<(u8, Option<u8>)>,
    connect: Vec<(u8, u8)>,
    ops: Vec<Op>,
}

// ---------------------------------------------------------------- model

/// A process or reference: the node (index) and its number. `None`: the node is not known any more.
type Cid = (Option<usize>, u64);

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
enum CDest {
    P(Cid),
    R(Cid),
    Name(String, Option<usize>),
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
enum CE {
    P(Cid),
    R(Cid),
    N(Option<usize>),
    D(CDest),
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
enum Ev {
    Data(u64, u64, Vec<CE>),
    Exit(Cid, String),
    Down(CDest, u64, String),
    NodeDown(usize, u64),
    Call(u64),
    Cast(u64),
}

struct MNode {
    name: String,
    addr: SocketAddr,
    started: bool,
    cookie: u8,
    /// the nodes it has heard of; whether it is connected
    known: BTreeMap<usize, bool>,
    /// stopped or forgot a node at some time (ids may then be reported without their node)
    lenient: bool,
    epoch: u32,
    /// number of actors created in this incarnation
    count: usize,
}

struct MActor {
    node: usize,
    idx: usize,
    id: u64,
    alive: bool,
    /// its node was killed
    gone: bool,
    server: bool,
    trap: bool,
    name: Option<String>,
    log: Vec<Vec<Ev>>,
    last: Option<(Vec<CE>, u32)>,
}

struct MMon {
    owner: usize,
    target: usize,
    r: u64,
    dest: CDest,
}

struct MAlias {
    owner: usize,
    r: u64,
    reply: bool,
    active: bool,
    monitor: bool,
    /// created in this incarnation of the node
    gone: bool,
}

struct MNodeMon {
    owner: usize,
    node: usize,
    r: u64,
}

struct World {
    seed: u64,
    agents: Vec<AgentProc>,
    nodes: Vec<MNode>,
    actors: Vec<MActor>,
    links: BTreeSet<(usize, usize)>,
    mons: Vec<MMon>,
    aliases: Vec<MAlias>,
    nodemons: Vec<MNodeMon>,
    next_msg: u64,
    sender_of: BTreeMap<u64, usize>,
    /// nodes that sent something whose arrival cannot be seen, but would matter later
    flush: BTreeSet<usize>,
    stats: Stats,
}

#[derive(Default)]
struct Stats {
    remote_data: u32,
    remote_exit: u32,
    remote_down: u32,
    noconn: u32,
    nodedown: u32,
    lifecycle: u32,
    ids: u32,
    calls: u32,
    autoconnect: u32,
    refused: u32,
}

const COOKIES: [Option<&str>; 3] = [Some("secret"), Some("other"), None];

fn rname(n: u8) -> String {
    format!("p{}", n % 3)
}

fn reason(k: u8) -> (&'static str, Value) {
    match k % 6 {
        0 => ("!normal", json!("!normal")),
        1 => ("!kill", json!("!kill")),
        2 => ("!ignore", json!("!ignore")),
        3 => ("noconnection", json!("noconnection")),
        _ => ("boom", json!("boom")),
    }
}

fn num(v: &Value) -> Option<u64> {
    match v {
        Value::Number(n) => n.as_u64(),
        Value::Array(a) => a.first().and_then(num),
        Value::Object(o) => o.values().next().and_then(num),
        _ => None,
    }
}

impl World {
    fn node_index(&self, name: &str, addr: &str) -> Result<usize, String> {
        self.nodes.iter().position(|n| n.name == name && n.addr.to_string() == addr).ok_or_else(|| format!("unknown node {name}@{addr}"))
    }
    fn label(&self, i: usize) -> String {
        format!("{}@{}", self.nodes[i].name, self.nodes[i].addr)
    }
    /// Parses a process id or reference as serialized by agent `at`.
    fn cid(&self, v: &Value, at: usize) -> Result<Cid, String> {
        let o = v.as_object().and_then(|o| o.iter().next()).ok_or_else(|| format!("strange id {v}"))?;
        let id = num(v).ok_or_else(|| format!("strange id {v}"))?;
        match o.1 {
            Value::Array(a) if a.len() == 3 => Ok((Some(self.node_index(a[1].as_str().unwrap_or("?"), a[2].as_str().unwrap_or("?"))?), id)),
            _ if o.0 == "LocalOnly" => Ok((Some(at), id)),
            _ => Ok((None, id)),
        }
    }
    fn cnode(&self, v: &Value, at: usize) -> Result<Option<usize>, String> {
        match v["address"].as_str() {
            Some(a) => Ok(Some(self.node_index(v["name"].as_str().unwrap_or("?"), a)?)),
            None => Ok(Some(at)),
        }
    }
    fn cdest(&self, v: &Value, at: usize) -> Result<CDest, String> {
        if let Some(p) = v.get("p") {
            Ok(CDest::P(self.cid(p, at)?))
        } else if let Some(r) = v.get("r") {
            Ok(CDest::R(self.cid(r, at)?))
        } else {
            let n = self.cnode(&v["node"], at)?;
            if v["l"].as_bool().is_some_and(|l| l != (n == Some(at))) {
                return Err(format!("destination {v} on node {at}: wrong locality"));
            }
            Ok(CDest::Name(v["name"].as_str().unwrap_or("?").to_string(), n))
        }
    }
    fn event(&self, v: &Value, at: usize) -> Result<Ev, String> {
        let local = |c: &Cid, l: &Value| -> Result<(), String> {
            match (c.0, l.as_bool()) {
                (Some(n), Some(l)) if (n == at) != l => Err(format!("id {c:?} on node {at} reported as {}", if l { "local" } else { "remote" })),
                _ => Ok(()),
            }
        };
        let s = |v: &Value| v.as_str().unwrap_or("?").to_string();
        Ok(match v["t"].as_str().unwrap_or("?") {
            "data" => {
                if v["tree"] != true {
                    return Err("identifiers nested in the message differ from those at its top level".into());
                }
                let mut ids = Vec::new();
                for i in v["ids"].as_array().unwrap() {
                    let l = &i["l"];
                    if let Some(p) = i.get("p") {
                        let c = self.cid(p, at)?;
                        local(&c, l)?;
                        ids.push(CE::P(c));
                    } else if let Some(r) = i.get("r") {
                        let c = self.cid(r, at)?;
                        local(&c, l)?;
                        ids.push(CE::R(c));
                    } else if let Some(n) = i.get("n") {
                        let c = self.cnode(n, at)?;
                        local(&(c, 0), l)?;
                        ids.push(CE::N(c));
                    } else {
                        let d = self.cdest(&i["d"], at)?;
                        match &d {
                            CDest::P(c) | CDest::R(c) => local(c, l)?,
                            CDest::Name(_, n) => local(&(*n, 0), l)?,
                        }
                        ids.push(CE::D(d));
                    }
                }
                Ev::Data(v["id"].as_u64().unwrap(), v["h"].as_u64().unwrap(), ids)
            }
            "exit" => {
                let c = self.cid(&v["p"], at)?;
                local(&c, &v["l"])?;
                Ev::Exit(c, s(&v["reason"]))
            }
            "down" => Ev::Down(self.cdest(&v["d"], at)?, num(&v["r"]).unwrap_or(0), s(&v["reason"])),
            "nodedown" => Ev::NodeDown(self.cnode(&v["n"], at)?.unwrap_or(usize::MAX), num(&v["r"]).unwrap_or(0)),
            "call" => Ev::Call(v["v"].as_u64().unwrap()),
            "cast" => Ev::Cast(v["v"].as_u64().unwrap()),
            _ => return Err(format!("unexpected message {v}")),
        })
    }

    // ---- building arguments

    fn pid_json(&self, t: usize, at: usize) -> Value {
        let a = &self.actors[t];
        self.cid_json((Some(a.node), a.id), at)
    }
    fn cid_json(&self, c: Cid, at: usize) -> Value {
        let n = c.0.unwrap();
        if n == at && !self.nodes[at].started {
            return json!({"LocalOnly": c.1});
        }
        json!({"WithNode": [c.1, self.nodes[n].name, self.nodes[n].addr.to_string()]})
    }
    fn dest_json(&self, d: &CDest, at: usize) -> Value {
        match d {
            CDest::P(c) => json!({"p": self.cid_json(*c, at)}),
            CDest::R(c) => json!({"r": self.cid_json(*c, at)}),
            CDest::Name(n, node) => {
                let node = node.unwrap();
                json!({"name": n, "node": if node == at { "local".to_string() } else { self.label(node) }})
            }
        }
    }
    fn ce_json(&self, e: &CE, at: usize) -> Value {
        match e {
            CE::P(c) => json!({"p": self.cid_json(*c, at)}),
            CE::R(c) => json!({"r": self.cid_json(*c, at)}),
            CE::N(n) => json!({"n": if *n == Some(at) { "local".to_string() } else { self.label(n.unwrap()) }}),
            CE::D(d) => json!({"d": self.dest_json(d, at)}),
        }
    }

    // ---- choosing

    fn node(&self, i: u8) -> usize {
        i as usize % self.nodes.len()
    }
    /// Any process of the current incarnations, dead ones as well.
    fn any(&self, i: u8) -> usize {
        let v: Vec<usize> = (0..self.actors.len()).filter(|k| !self.actors[*k].gone).collect();
        // Mostly living ones.
        let alive: Vec<usize> = v.iter().copied().filter(|k| self.actors[*k].alive).collect();
        if i < 225 && !alive.is_empty() { alive[i as usize % alive.len()] } else { v[i as usize % v.len()] }
    }
    /// A living process that takes commands.
    fn acting(&self, i: u8) -> Option<usize> {
        let v: Vec<usize> = (0..self.actors.len()).filter(|k| self.actors[*k].alive && !self.actors[*k].server).collect();
        if v.is_empty() { None } else { Some(v[i as usize % v.len()]) }
    }
    fn dest(&self, d: &D) -> Option<CDest> {
        Some(match d {
            D::Actor(i) => {
                let a = &self.actors[self.any(*i)];
                CDest::P((Some(a.node), a.id))
            }
            D::Name(n, i) => CDest::Name(rname(*n), Some(self.node(*i))),
            D::Alias(i) => {
                let v: Vec<&MAlias> = self.aliases.iter().filter(|a| !a.gone).collect();
                if v.is_empty() {
                    return None;
                }
                let a = v[*i as usize % v.len()];
                CDest::R((Some(self.actors[a.owner].node), a.r))
            }
        })
    }
    fn embed(&self, e: &E) -> Option<CE> {
        Some(match e {
            E::Actor(i) => {
                let a = &self.actors[self.any(*i)];
                CE::P((Some(a.node), a.id))
            }
            E::Alias(_) => match self.dest(&D::Alias(match e {
                E::Alias(i) => *i,
                _ => 0,
            }))? {
                CDest::R(c) => CE::R(c),
                _ => return None,
            },
            E::Node(i) => CE::N(Some(self.node(*i))),
            E::Dest(d) => CE::D(self.dest(d)?),
        })
    }
    fn dnode(d: &CDest) -> usize {
        match d {
            CDest::P(c) | CDest::R(c) => c.0.unwrap(),
            CDest::Name(_, n) => n.unwrap(),
        }
    }
    fn find(&self, d: &CDest) -> Option<usize> {
        match d {
            CDest::P(c) => self.actors.iter().position(|a| !a.gone && a.alive && Some(a.node) == c.0 && a.id == c.1),
            CDest::Name(n, node) => self.actors.iter().position(|a| !a.gone && a.alive && Some(a.node) == *node && a.name.as_ref() == Some(n)),
            CDest::R(_) => None,
        }
    }

    // ---- effects

    fn connected(&self, i: usize, j: usize) -> bool {
        i == j || self.nodes[i].known.get(&j) == Some(&true)
    }
    fn reachable(&self, i: usize, j: usize) -> bool {
        self.connected(i, j) || (self.nodes[j].started && self.nodes[i].cookie == self.nodes[j].cookie)
    }
    fn heard(&mut self, at: usize, of: usize) {
        if at != of && self.nodes[at].started {
            self.nodes[at].known.entry(of).or_insert(false);
        }
    }
    fn heard_ce(&mut self, at: usize, e: &CE) {
        match e {
            CE::P(c) | CE::R(c) | CE::D(CDest::P(c)) | CE::D(CDest::R(c)) => {
                if let Some(n) = c.0 {
                    self.heard(at, n)
                }
            }
            _ => {}
        }
    }
    fn heard_dest(&mut self, at: usize, d: &CDest) {
        match d {
            CDest::P(c) | CDest::R(c) => self.heard(at, c.0.unwrap()),
            // Only when used.
            CDest::Name(_, n) => self.heard(at, n.unwrap()),
        }
    }
    /// Connects; whether they are connected then.
    fn connect(&mut self, i: usize, j: usize) -> bool {
        if i == j {
            return true;
        }
        if self.connected(i, j) {
            return true;
        }
        self.stats.autoconnect += 1;
        if self.nodes[j].started && self.nodes[i].cookie == self.nodes[j].cookie {
            self.nodes[i].known.insert(j, true);
            self.nodes[j].known.insert(i, true);
            true
        } else {
            self.stats.refused += 1;
            self.nodes[i].known.insert(j, false);
            false
        }
    }
    fn log(&mut self, a: usize, e: Ev) {
        if self.actors[a].alive {
            self.actors[a].log.last_mut().unwrap().push(e);
        }
    }
    fn linkpair(a: usize, b: usize) -> (usize, usize) {
        (a.min(b), a.max(b))
    }
    fn signal_linked(&mut self, p: usize, from: Cid, reason: &str) {
        if !self.actors[p].alive {
            return;
        }
        if from.0 != Some(self.actors[p].node) {
            self.stats.remote_exit += 1;
        }
        if self.actors[p].trap {
            self.log(p, Ev::Exit(from, reason.to_string()));
        } else if reason != "!normal" {
            self.die(p, reason);
        }
    }
    fn die(&mut self, p: usize, reason: &str) {
        if !self.actors[p].alive {
            return;
        }
        self.actors[p].alive = false;
        self.actors[p].name = None;
        let me = (Some(self.actors[p].node), self.actors[p].id);
        for a in self.aliases.iter_mut().filter(|a| a.owner == p) {
            a.active = false;
        }
        self.mons.retain(|m| m.owner != p);
        self.nodemons.retain(|m| m.owner != p);
        let mine: Vec<MMon> = {
            let (x, rest): (Vec<MMon>, Vec<MMon>) = std::mem::take(&mut self.mons).into_iter().partition(|m| m.target == p);
            self.mons = rest;
            x
        };
        for m in mine {
            if self.actors[m.owner].node != self.actors[p].node {
                self.stats.remote_down += 1;
            }
            self.drop_alias(m.owner, m.r);
            self.log(m.owner, Ev::Down(m.dest.clone(), m.r, reason.to_string()));
        }
        let partners: Vec<usize> = self.links.iter().filter(|l| l.0 == p || l.1 == p).map(|l| if l.0 == p { l.1 } else { l.0 }).collect();
        self.links.retain(|l| l.0 != p && l.1 != p);
        for q in partners {
            self.signal_linked(q, me, reason);
        }
    }
    fn drop_alias(&mut self, owner: usize, r: u64) {
        for a in self.aliases.iter_mut().filter(|a| a.owner == owner && a.r == r) {
            a.active = false;
        }
    }
    /// The connection between two nodes is lost (the tables of nodes are changed by the caller).
    fn lost(&mut self, i: usize, j: usize) {
        let across = |w: &World, a: usize, b: usize| {
            let (x, y) = (w.actors[a].node, w.actors[b].node);
            (x == i && y == j) || (x == j && y == i)
        };
        let nm: Vec<MNodeMon> = {
            let (x, rest) = std::mem::take(&mut self.nodemons).into_iter().partition(|m: &MNodeMon| {
                let o = self.actors[m.owner].node;
                (o == i && m.node == j) || (o == j && m.node == i)
            });
            self.nodemons = rest;
            x
        };
        for m in nm {
            self.stats.nodedown += 1;
            self.log(m.owner, Ev::NodeDown(m.node, m.r));
        }
        let mut mons = Vec::new();
        let mut rest = Vec::new();
        for m in std::mem::take(&mut self.mons) {
            if across(self, m.owner, m.target) { mons.push(m) } else { rest.push(m) }
        }
        self.mons = rest;
        for m in mons {
            self.stats.noconn += 1;
            self.drop_alias(m.owner, m.r);
            self.log(m.owner, Ev::Down(m.dest.clone(), m.r, "noconnection".into()));
        }
        let links: Vec<(usize, usize)> = self.links.iter().copied().filter(|l| across(self, l.0, l.1)).collect();
        for l in &links {
            self.links.remove(l);
        }
        for (a, b) in links {
            self.stats.noconn += 1;
            let ca = (Some(self.actors[a].node), self.actors[a].id);
            let cb = (Some(self.actors[b].node), self.actors[b].id);
            let (ga, gb) = (self.actors[a].gone, self.actors[b].gone);
            if !ga {
                self.signal_linked(a, cb, "noconnection");
            }
            if !gb {
                self.signal_linked(b, ca, "noconnection");
            }
        }
    }
    fn deliverable(&self, at: usize, d: &CDest) -> bool {
        self.connected(at, Self::dnode(d))
            && match d {
                CDest::R(c) => self.aliases.iter().any(|a| !a.gone && a.active && a.r == c.1 && Some(self.actors[a.owner].node) == c.0),
                d => self.find(d).is_some(),
            }
    }
    fn deliver(&mut self, from: usize, d: &CDest, id: u64, h: u64, ids: &[CE]) {
        let at = self.actors[from].node;
        let dn = Self::dnode(d);
        self.heard_dest(at, d);
        if !self.connected(at, dn) {
            return;
        }
        let target = match d {
            CDest::R(c) => {
                let Some(k) = self.aliases.iter().position(|a| !a.gone && a.active && a.r == c.1 && Some(self.actors[a.owner].node) == c.0) else { return };
                if self.aliases[k].reply {
                    self.aliases[k].active = false;
                }
                self.aliases[k].owner
            }
            d => match self.find(d) {
                Some(t) => t,
                None => {
                    self.flush.insert(at);
                    return;
                }
            },
        };
        if !self.actors[target].alive || self.actors[target].server {
            return;
        }
        if dn != at {
            self.stats.remote_data += 1;
            self.stats.ids += ids.len() as u32;
        }
        for e in ids {
            self.heard_ce(dn, e);
        }
        self.log(target, Ev::Data(id, h, ids.to_vec()));
        let epoch = self.nodes[dn].epoch;
        self.actors[target].last = Some((ids.to_vec(), epoch));
    }

    // ---- driving

    fn act(&mut self, a: usize, cmds: Vec<Cmd>) -> Result<Vec<Value>, String> {
        let n = cmds.len();
        let idx = self.actors[a].idx;
        let node = self.actors[a].node;
        if trace() {
            eprintln!("  {node}/{a}: {cmds:?}");
        }
        let v = self.agents[node].call(Req::Act { actor: idx, cmds: cmds.clone() })?;
        match v.get("out").and_then(|o| o.as_array()) {
            Some(o) if o.len() == n => Ok(o.clone()),
            Some(o) => Ok(o.clone()),
            None => Err(format!("process {a} (node {node}) is dead, but should be alive (at {cmds:?})")),
        }
    }

    fn spec(&mut self, from: usize, ids: &[CE], size: usize) -> (MsgSpec, u64) {
        self.next_msg += 1;
        let id = self.next_msg;
        self.sender_of.insert(id, from);
        let at = self.actors[from].node;
        let seed = self.seed.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(id.wrapping_mul(0xD1B54A32D192ED03)) | 1;
        let (t, b, n) = content(seed, size);
        (MsgSpec { id, seed, size, ids: ids.iter().map(|e| self.ce_json(e, at)).collect() }, digest(&t, &b, &n))
    }

    /// Whether a destination may be used from a node: a node that is not distributed only has its own processes.
    fn usable(&self, at: usize, d: &CDest) -> bool {
        self.nodes[at].started || Self::dnode(d) == at
    }
    fn usable_ce(&self, at: usize, e: &CE) -> bool {
        self.nodes[at].started
            || match e {
                CE::P(c) | CE::R(c) => c.0 == Some(at),
                CE::N(n) => *n == Some(at),
                CE::D(d) => Self::dnode(d) == at,
            }
    }
    fn remote_frame_to_server(&self, d: &CDest) -> bool {
        self.find(d).is_some_and(|t| self.actors[t].server)
    }

    /// Prepares one operation of a process: the command, and its effect on the model (applied with the result).
    /// Returns None if it makes no sense in this state.
    #[allow(clippy::type_complexity)]
    fn prepare(&mut self, a: usize, op: &Op, burst: bool) -> Option<(Cmd, Box<dyn FnOnce(&mut World, &Value) -> Result<Option<(usize, String)>, String>>)> {
        let at = self.actors[a].node;
        match op {
            Op::Send { dests, list, embed, size, after, .. } => {
                let ds: Vec<CDest> = dests.iter().filter_map(|d| self.dest(d)).filter(|d| self.usable(at, d) && !self.remote_frame_to_server(d)).collect();
                let es: Vec<CE> = embed.iter().filter_map(|e| self.embed(e)).filter(|e| self.usable_ce(at, e)).collect();
                if ds.is_empty() {
                    return None;
                }
                // A delayed message goes where its destinations are when it is sent: only those that stay as they are.
                let now = burst || !ds.iter().all(|d| self.deliverable(at, d));
                let after = if now { None } else { after.map(|m| m as u64 % 16) };
                let (spec, h) = self.spec(a, &es, *size as usize);
                let id = spec.id;
                let cmd = Cmd::Send { dests: ds.iter().map(|d| self.dest_json(d, at)).collect(), msg: spec, after, list: *list };
                Some((
                    cmd,
                    Box::new(move |w, _| {
                        for d in &ds {
                            match d {
                                CDest::P(c) | CDest::R(c) => w.heard(at, c.0.unwrap()),
                                _ => {}
                            }
                        }
                        for e in &es {
                            w.heard_ce(at, e);
                        }
                        for d in &ds {
                            w.deliver(a, d, id, h, &es);
                        }
                        Ok(None)
                    }),
                ))
            }
            Op::Reply(_, k) => {
                let (ids, epoch) = self.actors[a].last.clone()?;
                if ids.is_empty() || epoch != self.nodes[at].epoch || !self.nodes[at].started {
                    return None;
                }
                let k = *k as usize % ids.len();
                let d = match &ids[k] {
                    CE::P(c) => CDest::P(*c),
                    CE::R(c) => CDest::R(*c),
                    CE::D(d) => d.clone(),
                    CE::N(_) => return None,
                };
                if self.remote_frame_to_server(&d) || Self::stale(self, &d) {
                    return None;
                }
                let (spec, h) = self.spec(a, &[], 10);
                let id = spec.id;
                Some((
                    Cmd::Reply { k, msg: spec },
                    Box::new(move |w, _| {
                        w.deliver(a, &d, id, h, &[]);
                        Ok(None)
                    }),
                ))
            }
            Op::Forward(_, dests) => {
                let (ids, epoch) = self.actors[a].last.clone()?;
                if epoch != self.nodes[at].epoch || !self.nodes[at].started {
                    return None;
                }
                let ds: Vec<CDest> = dests.iter().filter_map(|d| self.dest(d)).filter(|d| !self.remote_frame_to_server(d)).collect();
                if ds.is_empty() {
                    return None;
                }
                let (spec, h) = self.spec(a, &[], 10);
                let id = spec.id;
                Some((
                    Cmd::Forward { dests: ds.iter().map(|d| self.dest_json(d, at)).collect(), msg: spec },
                    Box::new(move |w, _| {
                        for d in &ds {
                            if let CDest::P(c) | CDest::R(c) = d {
                                w.heard(at, c.0.unwrap());
                            }
                        }
                        for d in &ds {
                            w.deliver(a, d, id, h, &ids);
                        }
                        Ok(None)
                    }),
                ))
            }
            Op::Link(_, t) => {
                let t = self.any(*t);
                if self.actors[t].server || (!self.nodes[at].started && self.actors[t].node != at) {
                    return None;
                }
                Some((
                    Cmd::Link(self.pid_json(t, at)),
                    Box::new(move |w, _| {
                        if t == a {
                            return Ok(None);
                        }
                        let tn = w.actors[t].node;
                        let tc = (Some(tn), w.actors[t].id);
                        w.heard(at, tn);
                        let ok = w.connect(at, tn);
                        if !ok {
                            return Ok(w.burst_signal(a, tc, "noconnection"));
                        }
                        if !w.actors[t].alive {
                            return Ok(w.burst_signal(a, tc, "noproc"));
                        }
                        if !w.links.insert(Self::linkpair(a, t)) {
                            w.flush.insert(at);
                        }
                        Ok(None)
                    }),
                ))
            }
            Op::Unlink(_, t) => {
                // Mostly something that is linked.
                let linked: Vec<usize> = self.links.iter().filter(|l| l.0 == a || l.1 == a).map(|l| if l.0 == a { l.1 } else { l.0 }).collect();
                let t = if *t < 200 && !linked.is_empty() { linked[*t as usize % linked.len()] } else { self.any(*t) };
                // A link that fails at the same time may be gone before it fails.
                let fails = !self.actors[t].alive || !self.reachable(at, self.actors[t].node);
                if (!self.nodes[at].started && self.actors[t].node != at) || (burst && fails) {
                    return None;
                }
                Some((
                    Cmd::Unlink(self.pid_json(t, at)),
                    Box::new(move |w, _| {
                        let tn = w.actors[t].node;
                        w.heard(at, tn);
                        if !w.links.remove(&Self::linkpair(a, t)) {
                            w.flush.insert(at);
                        }
                        Ok(None)
                    }),
                ))
            }
            Op::Monitor(_, d) | Op::MonitorAlias(_, d, _) => {
                let d = self.dest(d)?;
                if matches!(d, CDest::R(_)) || !self.usable(at, &d) || d == CDest::P((Some(at), self.actors[a].id)) {
                    return None;
                }
                // By its own name: the same panic.
                if self.find(&d) == Some(a) {
                    return None;
                }
                let dj = self.dest_json(&d, at);
                let (cmd, alias) = match op {
                    Op::MonitorAlias(_, _, r) => (Cmd::MonitorAlias(dj, *r), Some(*r)),
                    _ => (Cmd::Monitor(dj), None),
                };
                Some((
                    cmd,
                    Box::new(move |w, v| {
                        let r = num(v).ok_or("no reference")?;
                        w.heard_dest(at, &d);
                        if let Some(reply) = alias {
                            w.aliases.push(MAlias { owner: a, r, reply, active: true, monitor: true, gone: false });
                        }
                        if !w.connect(at, Self::dnode(&d)) {
                            w.stats.noconn += 1;
                            w.drop_alias(a, r);
                            w.log(a, Ev::Down(d.clone(), r, "noconnection".into()));
                        } else if let Some(t) = w.find(&d) {
                            w.mons.push(MMon { owner: a, target: t, r, dest: d.clone() });
                        } else {
                            w.drop_alias(a, r);
                            w.log(a, Ev::Down(d.clone(), r, "noproc".into()));
                        }
                        Ok(None)
                    }),
                ))
            }
            Op::Demonitor(_, k) => {
                let v: Vec<u64> = self.mons.iter().filter(|m| m.owner == a).map(|m| m.r).collect();
                if v.is_empty() {
                    return None;
                }
                let r = v[*k as usize % v.len()];
                Some((
                    Cmd::Demonitor(self.cid_json((Some(at), r), at)),
                    Box::new(move |w, _| {
                        w.mons.retain(|m| !(m.owner == a && m.r == r));
                        w.drop_alias(a, r);
                        Ok(None)
                    }),
                ))
            }
            Op::Brief(_, d) => {
                let d = self.dest(d)?;
                if matches!(d, CDest::R(_)) || !self.usable(at, &d) || d == CDest::P((Some(at), self.actors[a].id)) || self.find(&d) == Some(a) {
                    return None;
                }
                Some((
                    Cmd::Brief(self.dest_json(&d, at)),
                    Box::new(move |w, _| {
                        w.heard_dest(at, &d);
                        w.connect(at, Self::dnode(&d));
                        Ok(None)
                    }),
                ))
            }
            Op::Return(_) => Some((Cmd::Return, Box::new(move |_, _| Ok(Some((a, "!normal".into())))))),
            Op::Panic(_) => Some((Cmd::Panic("boom".into()), Box::new(move |_, _| Ok(Some((a, "boom".into())))))),
            Op::Alias(_, reply) => {
                let reply = *reply;
                Some((
                    Cmd::Alias(reply),
                    Box::new(move |w, v| {
                        let r = num(v).ok_or("no reference")?;
                        w.aliases.push(MAlias { owner: a, r, reply, active: true, monitor: false, gone: false });
                        Ok(None)
                    }),
                ))
            }
            Op::Unalias(_, k) => {
                let v: Vec<(usize, u64)> = self
                    .aliases
                    .iter()
                    .enumerate()
                    .filter(|(_, x)| !x.gone && (self.nodes[at].started || self.actors[x.owner].node == at) && (*k >= 180 || x.owner == a))
                    .map(|(i, x)| (i, x.r))
                    .collect();
                if v.is_empty() {
                    return None;
                }
                let (i, r) = v[*k as usize % v.len()];
                let on = self.actors[self.aliases[i].owner].node;
                Some((
                    Cmd::Unalias(self.cid_json((Some(on), r), at)),
                    Box::new(move |w, v| {
                        w.heard(at, on);
                        let want = w.aliases[i].owner == a && w.aliases[i].active;
                        if want {
                            w.aliases[i].active = false;
                        }
                        if *v != json!(want) {
                            return Err(format!("unalias by process {a} returned {v}, wanted {want}"));
                        }
                        Ok(None)
                    }),
                ))
            }
            Op::NodeMonitor(_, j) => {
                let j = self.node(*j);
                if j == at || !self.nodes[at].started {
                    return None;
                }
                Some((
                    Cmd::NodeMonitor(self.label(j)),
                    Box::new(move |w, v| {
                        let r = num(v).ok_or("no reference")?;
                        if w.connect(at, j) {
                            w.nodemons.push(MNodeMon { owner: a, node: j, r });
                        } else {
                            w.stats.nodedown += 1;
                            w.log(a, Ev::NodeDown(j, r));
                        }
                        Ok(None)
                    }),
                ))
            }
            Op::NodeDemonitor(_, k) => {
                let v: Vec<u64> = self.nodemons.iter().filter(|m| m.owner == a).map(|m| m.r).collect();
                if v.is_empty() {
                    return None;
                }
                let r = v[*k as usize % v.len()];
                Some((
                    Cmd::NodeDemonitor(self.cid_json((Some(at), r), at)),
                    Box::new(move |w, _| {
                        w.nodemons.retain(|m| !(m.owner == a && m.r == r));
                        Ok(None)
                    }),
                ))
            }
            Op::Connect(_, j) => {
                let j = self.node(*j);
                if j == at || !self.nodes[at].started {
                    return None;
                }
                Some((
                    Cmd::Connect(self.label(j)),
                    Box::new(move |w, _| {
                        w.connect(at, j);
                        Ok(None)
                    }),
                ))
            }
            Op::Register(_, n) => {
                let n = rname(*n);
                Some((
                    Cmd::Register(n.clone()),
                    Box::new(move |w, v| {
                        let holder = w.find(&CDest::Name(n.clone(), Some(at)));
                        let want = match holder {
                            Some(h) => h == a,
                            None => w.actors[a].name.is_none(),
                        };
                        if want {
                            w.actors[a].name = Some(n);
                        }
                        if *v != json!(want) {
                            return Err(format!("register by process {a} returned {v}, wanted {want}"));
                        }
                        Ok(None)
                    }),
                ))
            }
            Op::Unregister(_) => {
                let n = self.actors[a].name.clone()?;
                Some((
                    Cmd::Unregister(n),
                    Box::new(move |w, _| {
                        w.actors[a].name = None;
                        Ok(None)
                    }),
                ))
            }
            Op::Trap(_, t) => {
                let t = *t;
                Some((
                    Cmd::Trap(t),
                    Box::new(move |w, _| {
                        w.actors[a].trap = t;
                        Ok(None)
                    }),
                ))
            }
            Op::Cast(_, dests) => {
                let ds: Vec<CDest> = dests.iter().filter_map(|d| self.dest(d)).filter(|d| self.usable(at, d) && self.remote_frame_to_server(d)).collect();
                if ds.is_empty() {
                    return None;
                }
                self.next_msg += 1;
                let v = self.next_msg;
                self.sender_of.insert(v, a);
                Some((
                    Cmd::Cast { dests: ds.iter().map(|d| self.dest_json(d, at)).collect(), req: SrvReq::Note(v) },
                    Box::new(move |w, _| {
                        for d in &ds {
                            w.heard_dest(at, d);
                            if w.connected(at, Self::dnode(d)) {
                                match w.find(d) {
                                    Some(t) => w.log(t, Ev::Cast(v)),
                                    None => {
                                        w.flush.insert(at);
                                    }
                                }
                            }
                        }
                        Ok(None)
                    }),
                ))
            }
            _ => None,
        }
    }

    /// Whether the node of an identifier a process kept has been restarted since.
    fn stale(w: &World, d: &CDest) -> bool {
        match d {
            CDest::P(c) => !w.actors.iter().any(|a| !a.gone && Some(a.node) == c.0 && a.id == c.1),
            CDest::R(c) => !w.aliases.iter().any(|a| !a.gone && Some(w.actors[a.owner].node) == c.0 && a.r == c.1),
            CDest::Name(..) => false,
        }
    }

    /// An exit signal over a link that takes effect when the process has executed its commands.
    fn burst_signal(&mut self, a: usize, from: Cid, reason: &str) -> Option<(usize, String)> {
        if from.0 != Some(self.actors[a].node) {
            self.stats.remote_exit += 1;
            if reason == "noconnection" {
                self.stats.noconn += 1;
            }
        }
        if self.actors[a].trap {
            self.log(a, Ev::Exit(from, reason.to_string()));
            None
        } else {
            Some((a, reason.to_string()))
        }
    }

    fn new_group(&mut self) {
        for a in self.actors.iter_mut().filter(|a| a.alive) {
            if a.log.last().is_none_or(|g| !g.is_empty()) {
                a.log.push(Vec::new());
            }
        }
    }

    fn spawn(&mut self, node: usize, trap: bool, name: Option<String>, server: bool) -> Result<(), String> {
        let taken = name.as_ref().is_some_and(|n| self.find(&CDest::Name(n.clone(), Some(node))).is_some());
        if server && taken {
            return Ok(());
        }
        let v = if server { self.agents[node].call(Req::Serve { name: name.clone() })? } else { self.agents[node].call(Req::Spawn { trap, name: name.clone() })? };
        let id = num(&v["pid"]).ok_or("no pid")?;
        if !server {
            if let Some(n) = &name {
                if v["out"][1] != json!(!taken) {
                    return Err(format!("register {n} returned {}", v["out"][1]));
                }
            }
        }
        let idx = self.nodes[node].count;
        self.nodes[node].count += 1;
        self.actors.push(MActor {
            node,
            idx,
            id,
            alive: true,
            gone: false,
            server,
            trap,
            name: if taken { None } else { name },
            log: vec![Vec::new()],
            last: None,
        });
        Ok(())
    }

    fn start(&mut self, i: usize) -> Result<(), String> {
        let n = &self.nodes[i];
        let req = Req::Start { name: n.name.clone(), listen: n.addr, broadcast: n.addr, hs: None, hi: None, ht: None };
        let c = COOKIES[n.cookie as usize].map(String::from);
        self.agents[i].call(Req::Cookie(c))?;
        let v = self.agents[i].call(req)?;
        if v != "ok" {
            return Err(format!("node {i} does not start: {v}"));
        }
        self.nodes[i].started = true;
        Ok(())
    }

    fn step(&mut self, op: &Op) -> Result<bool, String> {
        if trace() {
            eprintln!("{op:?}");
        }
        self.new_group();
        match op {
            Op::Connect(i, j) | Op::Disconnect(i, j) | Op::Forget(i, j) => {
                let (i, j) = (self.node(*i), self.node(*j));
                if i == j || !self.nodes[i].started {
                    return Ok(false);
                }
                let l = self.label(j);
                self.stats.lifecycle += 1;
                match op {
                    Op::Connect(..) => {
                        self.agents[i].call(Req::Connect(l))?;
                        self.connect(i, j);
                    }
                    Op::Disconnect(..) => {
                        self.agents[i].call(Req::Disconnect(l))?;
                        if self.connected(i, j) {
                            self.nodes[i].known.insert(j, false);
                            self.nodes[j].known.insert(i, false);
                            self.lost(i, j);
                        }
                    }
                    _ => {
                        self.agents[i].call(Req::Forget(l))?;
                        self.nodes[i].lenient = true;
                        self.nodes[i].epoch += 1;
                        if self.nodes[i].known.remove(&j) == Some(true) {
                            self.nodes[j].known.insert(i, false);
                            self.lost(i, j);
                        }
                    }
                }
            }
            Op::Stop(i) => {
                let i = self.node(*i);
                if !self.nodes[i].started {
                    return Ok(false);
                }
                self.stats.lifecycle += 1;
                let v = self.agents[i].call(Req::Stop)?;
                if v != "ok" {
                    return Err(format!("stopped node {i}: {v}"));
                }
                self.nodes[i].started = false;
                self.nodes[i].lenient = true;
                self.nodes[i].epoch += 1;
                let known = std::mem::take(&mut self.nodes[i].known);
                for (j, c) in known {
                    if c {
                        self.nodes[j].known.insert(i, false);
                        self.lost(i, j);
                    }
                }
            }
            Op::Start(i) => {
                let i = self.node(*i);
                if self.nodes[i].started {
                    return Ok(false);
                }
                self.stats.lifecycle += 1;
                self.start(i)?;
            }
            Op::Kill(i) => {
                let i = self.node(*i);
                self.stats.lifecycle += 1;
                self.agents[i].kill();
                // Nothing of it is left.
                for a in 0..self.actors.len() {
                    if self.actors[a].node == i {
                        self.actors[a].gone = true;
                        self.actors[a].alive = false;
                    }
                }
                for k in 0..self.aliases.len() {
                    if self.actors[self.aliases[k].owner].node == i {
                        self.aliases[k].gone = true;
                        self.aliases[k].active = false;
                    }
                }
                self.nodemons.retain(|m| self.actors[m.owner].node != i);
                self.mons.retain(|m| self.actors[m.owner].node != i);
                let known = std::mem::take(&mut self.nodes[i].known);
                for (j, c) in known {
                    if c {
                        self.nodes[j].known.insert(i, false);
                        self.lost(i, j);
                    }
                }
                let here: Vec<(usize, usize)> = self.links.iter().copied().filter(|l| self.actors[l.0].node == i && self.actors[l.1].node == i).collect();
                for l in here {
                    self.links.remove(&l);
                }
                self.mons.retain(|m| self.actors[m.target].node != i);
                let was = self.nodes[i].started;
                self.nodes[i].started = false;
                self.nodes[i].count = 0;
                self.nodes[i].lenient = false;
                // The others notice before it is back.
                self.settle(Some(i))?;
                self.new_group();
                self.agents[i] = AgentProc::spawn();
                if was {
                    self.start(i)?;
                } else {
                    let c = COOKIES[self.nodes[i].cookie as usize].map(String::from);
                    self.agents[i].call(Req::Cookie(c))?;
                }
                self.spawn(i, true, None, false)?;
                self.spawn(i, false, None, false)?;
            }
            Op::Cookie(i, c) => {
                let i = self.node(*i);
                let c = c % COOKIES.len() as u8;
                self.agents[i].call(Req::Cookie(COOKIES[c as usize].map(String::from)))?;
                self.nodes[i].cookie = c;
            }
            Op::Spawn(i, trap, name) => {
                if self.actors.len() > 14 {
                    return Ok(false);
                }
                let i = self.node(*i);
                self.spawn(i, *trap, name.map(rname), false)?;
            }
            Op::Serve(i, name) => {
                if self.actors.len() > 14 {
                    return Ok(false);
                }
                let i = self.node(*i);
                self.spawn(i, false, name.map(rname), true)?;
            }
            Op::Exit(a, t, r) => {
                let Some(a) = self.acting(*a) else { return Ok(false) };
                let t = self.any(*t);
                let (an, tn) = (self.actors[a].node, self.actors[t].node);
                if !self.nodes[an].started && an != tn {
                    return Ok(false);
                }
                let (r, rj) = reason(*r);
                self.flush.insert(an);
                self.act(a, vec![Cmd::Exit(self.pid_json(t, an), rj)])?;
                self.heard(an, tn);
                if self.connected(an, tn) && self.actors[t].alive {
                    if an != tn {
                        self.stats.remote_exit += 1;
                    }
                    let from = (Some(an), self.actors[a].id);
                    match r {
                        "!kill" => self.die(t, r),
                        _ if a == t => self.die(t, r),
                        "!normal" | "!ignore" => {
                            if self.actors[t].trap {
                                self.log(t, Ev::Exit(from, r.to_string()));
                            }
                        }
                        _ => {
                            if self.actors[t].trap {
                                self.log(t, Ev::Exit(from, r.to_string()));
                            } else {
                                self.die(t, r);
                            }
                        }
                    }
                }
            }
            Op::Return(a) => {
                let Some(a) = self.acting(*a) else { return Ok(false) };
                self.act(a, vec![Cmd::Return])?;
                self.die(a, "!normal");
            }
            Op::Panic(a) => {
                let Some(a) = self.acting(*a) else { return Ok(false) };
                self.act(a, vec![Cmd::Panic("boom".into())])?;
                self.die(a, "boom");
            }
            Op::Call(a, d, mode) => {
                let Some(a) = self.acting(*a) else { return Ok(false) };
                let at = self.actors[a].node;
                let Some(d) = self.dest(d) else { return Ok(false) };
                if matches!(d, CDest::R(_)) || !self.usable(at, &d) {
                    return Ok(false);
                }
                let t = self.find(&d);
                if t.is_some_and(|t| !self.actors[t].server) {
                    return Ok(false);
                }
                self.next_msg += 1;
                let v = self.next_msg;
                let (req, timeout) = match mode {
                    Mode::Now => (SrvReq::Now(v), 9000),
                    Mode::Later => (SrvReq::Later(v, 5), 9000),
                    Mode::Late => (SrvReq::Later(v, 90), 20),
                    Mode::Never => (SrvReq::Never(v), 30),
                    Mode::Twice => (SrvReq::Twice(v), 9000),
                    Mode::Die => (SrvReq::Die(v, "stopped".into()), 9000),
                };
                self.stats.calls += 1;
                let out = self.act(a, vec![Cmd::Call { dest: self.dest_json(&d, at), req, timeout }])?;
                let got = out.first().cloned().unwrap_or(Value::Null);
                self.heard_dest(at, &d);
                let want = if !self.connect(at, Self::dnode(&d)) {
                    json!({"down": "noconnection"})
                } else if let Some(t) = t {
                    self.log(t, Ev::Call(v));
                    match mode {
                        Mode::Now | Mode::Later | Mode::Twice => json!({"ok": v}),
                        Mode::Late | Mode::Never => json!({"timeout": timeout}),
                        Mode::Die => {
                            self.die(t, "stopped");
                            json!({"down": "stopped"})
                        }
                    }
                } else {
                    json!({"down": "noproc"})
                };
                let same = match (got["timeout"].as_u64(), want["timeout"].as_u64()) {
                    // The resolution of the timer.
                    (Some(g), Some(w)) => g + 2 >= w,
                    _ => got == want,
                };
                if !same {
                    return Err(format!("call of process {a} to {d:?} ({mode:?}) returned {got}, wanted {want}"));
                }
                if *mode == Mode::Late && t.is_some() {
                    // The late reply must be gone (or at least not harm anyone).
                    std::thread::sleep(Duration::from_millis(80));
                }
            }
            Op::Burst(a, ops) => {
                let Some(a) = self.acting(*a) else { return Ok(false) };
                let mut todo = Vec::new();
                let mut death = None;
                // The effects are applied in order; identifiers made in the burst cannot be used in it.
                let mut snapshot = Vec::new();
                let mut demonitored = BTreeSet::new();
                let mut failing = BTreeSet::new();
                let mut doomed = false;
                for op in ops {
                    // Two links to the same process that both fail may fail as one.
                    if let Op::Link(_, t) = op {
                        let t = self.any(*t);
                        let (i, j) = (self.actors[a].node, self.actors[t].node);
                        let ok = self.reachable(i, j) && self.actors[t].alive;
                        if !ok && !failing.insert(t) {
                            continue;
                        }
                        doomed |= !ok;
                    }
                    let last = matches!(op, Op::Return(_) | Op::Panic(_));
                    if last && doomed {
                        continue;
                    }
                    if let Op::Demonitor(_, k) = op {
                        let v: Vec<u64> = self.mons.iter().filter(|m| m.owner == a).map(|m| m.r).collect();
                        if v.is_empty() || !demonitored.insert(v[*k as usize % v.len()]) {
                            continue;
                        }
                    }
                    if let Some((cmd, eff)) = self.prepare(a, op, true) {
                        // Links and monitors to processes that a later step of this burst affects would race.
                        todo.push(cmd);
                        snapshot.push(eff);
                        if last {
                            break;
                        }
                    }
                }
                if todo.is_empty() {
                    return Ok(false);
                }
                let out = self.act(a, todo)?;
                for (k, eff) in snapshot.into_iter().enumerate() {
                    if let Some(d) = eff(self, out.get(k).unwrap_or(&Value::Null))? {
                        death.get_or_insert(d);
                    }
                }
                if let Some((a, r)) = death {
                    self.die(a, &r);
                }
            }
            Op::Storm(list) => {
                let mut per: BTreeMap<usize, Vec<D>> = BTreeMap::new();
                for (a, d) in list {
                    if let Some(a) = self.acting(*a) {
                        per.entry(a).or_default().extend(d.clone());
                    }
                }
                let mut posted: Vec<usize> = Vec::new();
                let mut effects = Vec::new();
                for (a, ds) in &per {
                    let at = self.actors[*a].node;
                    let mut cmds = Vec::new();
                    for d in ds {
                        let op = if self.dest(d).is_some_and(|d| self.remote_frame_to_server(&d)) {
                            Op::Cast(0, vec![d.clone()])
                        } else {
                            Op::Send { a: 0, dests: vec![d.clone()], list: false, embed: vec![], size: 40, after: None }
                        };
                        // One-shot aliases may be used by one of several senders only.
                        if let D::Alias(_) = d {
                            if let Some(CDest::R(c)) = self.dest(d) {
                                if self.aliases.iter().any(|x| x.reply && x.r == c.1) {
                                    continue;
                                }
                            }
                        }
                        if let Some((c, e)) = self.prepare(*a, &op, true) {
                            cmds.push(c);
                            effects.push(e);
                        }
                    }
                    let idx = self.actors[*a].idx;
                    self.agents[at].post(&Req::Act { actor: idx, cmds })?;
                    posted.push(at);
                }
                for at in posted {
                    let v = self.agents[at].answer()?;
                    if v.get("out").is_none() {
                        return Err(format!("a process on node {at} is dead, but should be alive"));
                    }
                }
                for e in effects {
                    e(self, &Value::Null)?;
                }
            }
            op => {
                let a = match op {
                    Op::Send { a, .. } => *a,
                    Op::Reply(a, _) | Op::Forward(a, _) | Op::Link(a, _) | Op::Unlink(a, _) | Op::Monitor(a, _) | Op::MonitorAlias(a, _, _) | Op::Brief(a, _) => *a,
                    Op::Demonitor(a, _) | Op::Alias(a, _) | Op::Unalias(a, _) | Op::NodeMonitor(a, _) | Op::NodeDemonitor(a, _) => *a,
                    Op::Register(a, _) | Op::Unregister(a) | Op::Trap(a, _) | Op::Cast(a, _) => *a,
                    _ => unreachable!(),
                };
                let Some(a) = self.acting(a) else { return Ok(false) };
                let Some((cmd, eff)) = self.prepare(a, op, false) else { return Ok(false) };
                let out = self.act(a, vec![cmd])?;
                if let Some((a, r)) = eff(self, out.first().unwrap_or(&Value::Null))? {
                    self.die(a, &r);
                }
            }
        }
        self.settle(None)?;
        for i in std::mem::take(&mut self.flush) {
            self.sync(i)?;
        }
        Ok(true)
    }

    // ---- comparing

    /// `lenient`: the node that compares; ids of other nodes may have lost their node.
    fn same_cid(want: &Cid, got: &Cid, lenient: Option<usize>) -> bool {
        want == got || (lenient.is_some_and(|me| want.0 != Some(me)) && got.0.is_none() && want.1 == got.1)
    }
    fn same_ev(want: &Ev, got: &Ev, lenient: Option<usize>) -> bool {
        match (want, got) {
            (Ev::Exit(a, r), Ev::Exit(b, s)) => r == s && Self::same_cid(a, b, lenient),
            (Ev::Down(CDest::P(a), r, x), Ev::Down(CDest::P(b), s, y)) => r == s && x == y && Self::same_cid(a, b, lenient),
            (a, b) => a == b,
        }
    }

    /// Compares a log with what is expected. Ok(true): equal, Ok(false): something is missing, Err: something is wrong.
    fn compare_log(&self, a: usize, got: &[Ev]) -> Result<bool, String> {
        let actor = &self.actors[a];
        let lenient = self.nodes[actor.node].lenient.then_some(actor.node);
        let mut pos = 0;
        for (gi, group) in actor.log.iter().enumerate() {
            let n = group.len();
            let part = &got[pos.min(got.len())..(pos + n).min(got.len())];
            let mut left: Vec<&Ev> = group.iter().collect();
            let mut rest: Vec<&Ev> = Vec::new();
            for e in part {
                match left.iter().position(|w| *w == e) {
                    Some(k) => {
                        left.remove(k);
                    }
                    None => rest.push(e),
                }
            }
            for e in rest {
                match left.iter().position(|w| Self::same_ev(w, e, lenient)) {
                    Some(k) => {
                        left.remove(k);
                    }
                    None => return Err(format!("process {a} (node {}) received {e:?}, expected {left:?} (step group {gi})", actor.node)),
                }
            }
            // Messages of one sender arrive in order.
            let mut last: BTreeMap<usize, u64> = BTreeMap::new();
            for e in part {
                if let Ev::Data(id, ..) | Ev::Cast(id) = e {
                    if let Some(s) = self.sender_of.get(id) {
                        if last.insert(*s, *id).is_some_and(|p| p > *id) {
                            return Err(format!("process {a} (node {}) received message {id} of process {s} after a later one", actor.node));
                        }
                    }
                }
            }
            pos += n;
            if part.len() < n {
                return Ok(false);
            }
        }
        if got.len() > pos {
            return Err(format!("process {a} (node {}) received {:?}, which nobody sent to it", actor.node, &got[pos..]));
        }
        Ok(true)
    }

    /// Err: definitely wrong. Ok(Some): not (yet) as expected.
    fn compare(&mut self, skip: Option<usize>) -> Result<Option<String>, String> {
        let mut diff: Vec<String> = Vec::new();
        for i in 0..self.agents.len() {
            if Some(i) == skip {
                continue;
            }
            let s = self.agents[i].call(Req::Snap)?;
            let label: Vec<String> = (0..self.nodes.len()).map(|k| self.label(k)).collect();
            let n = &self.nodes[i];
            let names = |f: &dyn Fn(bool) -> bool| {
                let mut v: Vec<String> = n.known.iter().filter(|(_, c)| f(**c)).map(|(k, _)| label[*k].clone()).collect();
                v.sort();
                v
            };
            let want = json!({"alive": n.started, "list": names(&|_| true), "known": names(&|c| !c), "connected": names(&|c| c), "pending": [],
                              "current": if n.started { vec![label[i].clone()] } else { vec![] }});
            if s["nodes"] != want {
                diff.push(format!("nodes of node {i}: {}, expected {want}", s["nodes"]));
            }
            let list = s["actors"].as_array().ok_or("no actors")?;
            for a in 0..self.actors.len() {
                let actor = &self.actors[a];
                if actor.node != i || actor.gone {
                    continue;
                }
                let Some(g) = list.get(actor.idx) else { return Err(format!("process {a} is missing")) };
                if g["alive"] != json!(actor.alive) || g["listed"] != json!(actor.alive) {
                    diff.push(format!("process {a} (node {i}): alive {} listed {}, expected {}", g["alive"], g["listed"], actor.alive));
                    continue;
                }
                if !actor.alive {
                    continue;
                }
                if self.cid(&g["pid"], i)? != (Some(i), actor.id) {
                    return Err(format!("the pid of process {a} reads {}", g["pid"]));
                }
                let got: Vec<Ev> = g["log"].as_array().unwrap().iter().map(|v| self.event(v, i)).collect::<Result<_, _>>()?;
                if !self.compare_log(a, &got)? {
                    diff.push(format!("process {a} (node {i}) received only {got:?} of {:?}", actor.log));
                    continue;
                }
                let ids = |v: &Value| -> Result<Vec<Cid>, String> {
                    let mut v: Vec<Cid> = v.as_array().map(|v| v.iter().map(|p| self.cid(p, i)).collect::<Result<Vec<Cid>, String>>()).unwrap_or(Ok(vec![]))?;
                    v.sort();
                    Ok(v)
                };
                let mut links: Vec<Cid> = self
                    .links
                    .iter()
                    .filter(|l| l.0 == a || l.1 == a)
                    .map(|l| if l.0 == a { l.1 } else { l.0 })
                    .map(|p| (Some(self.actors[p].node), self.actors[p].id))
                    .collect();
                links.sort();
                let got = ids(&g["links"])?;
                if got != links {
                    diff.push(format!("links of process {a} (node {i}): {got:?}, expected {links:?}"));
                    continue;
                }
                let mut mons: Vec<Cid> = self.mons.iter().filter(|m| m.target == a).map(|m| (Some(self.actors[m.owner].node), self.actors[m.owner].id)).collect();
                mons.sort();
                let got = ids(&g["mons"])?;
                if got != mons {
                    diff.push(format!("process {a} (node {i}) is monitored by {got:?}, expected {mons:?}"));
                    continue;
                }
                if g["name"] != json!(actor.name) {
                    diff.push(format!("name of process {a}: {}, expected {:?}", g["name"], actor.name));
                }
            }
        }
        Ok((!diff.is_empty()).then(|| diff.join("; ")))
    }

    fn settle(&mut self, skip: Option<usize>) -> Result<(), String> {
        let until = Instant::now() + Duration::from_secs(10);
        let mut pause = 200;
        loop {
            match self.compare(skip)? {
                None => return Ok(()),
                Some(d) => {
                    if Instant::now() > until {
                        return Err(format!("after 10 s: {d}"));
                    }
                }
            }
            std::thread::sleep(Duration::from_micros(pause));
            pause = (pause * 2).min(5000);
        }
    }

    /// Everything a node has sent has been handled.
    fn sync(&mut self, i: usize) -> Result<(), String> {
        let to: Vec<String> = self.nodes[i].known.iter().filter(|(_, c)| **c).map(|(j, _)| self.label(*j)).collect();
        if !to.is_empty() {
            let bad = self.agents[i].call(Req::Sync(to))?;
            if bad != json!([]) {
                return Err(format!("node {i} cannot reach {bad} any more"));
            }
        }
        Ok(())
    }

    /// Everything in flight has been handled, then nothing may have changed.
    fn finish(&mut self) -> Result<(), String> {
        for _ in 0..2 {
            for i in 0..self.nodes.len() {
                self.sync(i)?;
            }
        }
        self.settle(None)
    }
}

pub fn run(case: &Case) -> Result<Outcome, String> {
    let n = 2 + case.nodes as usize % 2;
    let ip = fresh_ip();
    let mut nodes = Vec::new();
    let mut agents = Vec::new();
    for i in 0..n {
        let name = if case.ident & 1 == 1 { "node".to_string() } else { ["a", "b", "c"][i].to_string() };
        let addr = if case.ident & 2 == 2 { SocketAddr::from((ip, 21000 + i as u16)) } else { SocketAddr::from((fresh_ip(), 21000)) };
        nodes.push(MNode { name, addr, started: false, cookie: 0, known: BTreeMap::new(), lenient: false, epoch: 0, count: 0 });
        agents.push(AgentProc::spawn());
    }
    let mut w = World {
        seed: case.seed,
        agents,
        nodes,
        actors: Vec::new(),
        links: BTreeSet::new(),
        mons: Vec::new(),
        aliases: Vec::new(),
        nodemons: Vec::new(),
        next_msg: 0,
        sender_of: BTreeMap::new(),
        flush: BTreeSet::new(),
        stats: Stats::default(),
    };
    for i in 0..n {
        w.start(i)?;
    }
    for i in 0..n {
        // At least one on every node.
        w.spawn(i, i != 0, None, false)?;
    }
    for (i, trap, name) in &case.actors {
        let i = w.node(*i);
        w.spawn(i, *trap, name.map(rname), false)?;
    }
    for (i, name) in &case.servers {
        let i = w.node(*i);
        w.spawn(i, false, name.map(rname), true)?;
    }
    for (i, j) in &case.connect {
        w.step(&Op::Connect(*i, *j)).map_err(|e| format!("initial connect: {e}"))?;
    }
    let mut done = 0;
    for (k, op) in case.ops.iter().enumerate() {
        if w.step(op).map_err(|e| format!("op {k} {op:?}: {e}"))? {
            done += 1;
        }
    }
    w.finish().map_err(|e| format!("at the end: {e}"))?;
    let s = &w.stats;
    let mut out = Outcome::ok(done >= 3 && s.remote_data + s.remote_exit + s.remote_down + s.noconn + s.nodedown + s.lifecycle + s.calls > 0);
    for (n, c) in [
        (s.remote_data, "remote message"),
        (s.remote_exit, "remote exit signal"),
        (s.remote_down, "remote down message"),
        (s.noconn, "noconnection report"),
        (s.nodedown, "node down"),
        (s.lifecycle, "lifecycle operation"),
        (s.ids, "identifier across nodes"),
        (s.calls, "call"),
        (s.autoconnect, "connection attempt"),
        (s.refused, "unreachable node"),
    ] {
        if n > 0 {
            out = out.class(c);
        }
    }
    Ok(out)
}

// ---------------------------------------------------------------- generators

/// Weights of the groups of operations.
#[derive(Clone, Copy)]
pub struct Mix {
    pub life: u32,
    pub down: u32,
    pub cookie: u32,
    pub send: u32,
    pub ident: u32,
    pub link: u32,
    pub monitor: u32,
    pub nodemon: u32,
    pub exit: u32,
    pub name: u32,
    pub call: u32,
    pub burst: u32,
    pub ops: usize,
}

fn dest() -> BoxedStrategy<D> {
    weighted(vec![(6, any::<u8>().prop_map(D::Actor).boxed()), (2, (0u8..3, 0u8..6).prop_map(|(a, b)| D::Name(a, b)).boxed()), (2, any::<u8>().prop_map(D::Alias).boxed())])
}

fn proc_dest() -> BoxedStrategy<D> {
    weighted(vec![(3, any::<u8>().prop_map(D::Actor).boxed()), (2, (0u8..3, 0u8..6).prop_map(|(a, b)| D::Name(a, b)).boxed())])
}

fn embed() -> BoxedStrategy<E> {
    weighted(vec![
        (4, any::<u8>().prop_map(E::Actor).boxed()),
        (2, any::<u8>().prop_map(E::Alias).boxed()),
        (1, any::<u8>().prop_map(E::Node).boxed()),
        (2, dest().prop_map(E::Dest).boxed()),
    ])
}

fn send(ids: bool) -> BoxedStrategy<Op> {
    let n = if ids { 1..5usize } else { 0..2 };
    (
        any::<u8>(),
        weighted(vec![(3, prop::collection::vec(dest(), 1..2).boxed()), (2, prop::collection::vec(dest(), 2..7).boxed())]),
        any::<bool>(),
        prop::collection::vec(embed(), n),
        weighted(vec![(8, (0u16..60).boxed()), (1, (1000u16..20000).boxed()), (1, Just(65535u16).boxed())]),
        weighted(vec![(9, Just(None).boxed()), (1, any::<u8>().prop_map(Some).boxed())]),
    )
        .prop_map(|(a, dests, list, embed, size, after)| Op::Send { a, dests, list, embed, size, after })
        .boxed()
}

fn op(m: Mix, nested: bool) -> BoxedStrategy<Op> {
    let u = any::<u8>();
    let n = || 0u8..6;
    let once = |w: u32| if nested { 0 } else { w };
    let mut parts = vec![
        (m.life * 3, (u, n()).prop_map(|(i, j)| Op::Connect(i, j)).boxed()),
        (once(m.life * 2), (n(), n()).prop_map(|(i, j)| Op::Disconnect(i, j)).boxed()),
        (once(m.life), (n(), n()).prop_map(|(i, j)| Op::Forget(i, j)).boxed()),
        (once(m.down), n().prop_map(Op::Stop).boxed()),
        (once(m.down * 2), n().prop_map(Op::Start).boxed()),
        (once(m.down), n().prop_map(Op::Kill).boxed()),
        (once(m.cookie), (n(), 0u8..3).prop_map(|(i, c)| Op::Cookie(i, c)).boxed()),
        (once(m.send.max(m.link) / 4), (n(), any::<bool>(), proptest::option::of(0u8..3)).prop_map(|(i, t, n)| Op::Spawn(i, t, n)).boxed()),
        (once(m.call / 3), (n(), proptest::option::of(0u8..3)).prop_map(|(i, n)| Op::Serve(i, n)).boxed()),
        (m.send * 2, send(false)),
        (m.ident * 2, send(true)),
        (once(m.ident), (u, u).prop_map(|(a, k)| Op::Reply(a, k)).boxed()),
        (once(m.ident), (u, prop::collection::vec(dest(), 1..4)).prop_map(|(a, d)| Op::Forward(a, d)).boxed()),
        (m.link * 3, (u, u).prop_map(|(a, b)| Op::Link(a, b)).boxed()),
        (m.link, (u, u).prop_map(|(a, b)| Op::Unlink(a, b)).boxed()),
        (m.monitor * 2, (u, proc_dest()).prop_map(|(a, d)| Op::Monitor(a, d)).boxed()),
        (m.monitor, (u, proc_dest(), any::<bool>()).prop_map(|(a, d, r)| Op::MonitorAlias(a, d, r)).boxed()),
        (m.monitor, (u, u).prop_map(|(a, k)| Op::Demonitor(a, k)).boxed()),
        (m.ident.max(m.send) / 2, (u, any::<bool>()).prop_map(|(a, r)| Op::Alias(a, r)).boxed()),
        (once(m.ident.max(m.send) / 3), (u, u).prop_map(|(a, k)| Op::Unalias(a, k)).boxed()),
        (m.nodemon * 2, (u, n()).prop_map(|(a, j)| Op::NodeMonitor(a, j)).boxed()),
        (once(m.nodemon), (u, u).prop_map(|(a, k)| Op::NodeDemonitor(a, k)).boxed()),
        (once(m.exit * 2), (u, u, u).prop_map(|(a, b, r)| Op::Exit(a, b, r)).boxed()),
        (m.exit, u.prop_map(Op::Return).boxed()),
        (m.exit, u.prop_map(Op::Panic).boxed()),
        (m.monitor, (u, proc_dest()).prop_map(|(a, d)| Op::Brief(a, d)).boxed()),
        (once(m.exit), (u, any::<bool>()).prop_map(|(a, t)| Op::Trap(a, t)).boxed()),
        (once(m.name), (u, 0u8..3).prop_map(|(a, n)| Op::Register(a, n)).boxed()),
        (once(m.name), u.prop_map(Op::Unregister).boxed()),
        (
            once(m.call * 2),
            (
                u,
                proc_dest(),
                weighted(vec![
                    (6, Just(Mode::Now).boxed()),
                    (2, Just(Mode::Later).boxed()),
                    (1, Just(Mode::Late).boxed()),
                    (1, Just(Mode::Never).boxed()),
                    (2, Just(Mode::Twice).boxed()),
                    (1, Just(Mode::Die).boxed()),
                ]),
            )
                .prop_map(|(a, d, m)| Op::Call(a, d, m))
                .boxed(),
        ),
        (m.call, (u, prop::collection::vec(proc_dest(), 1..4)).prop_map(|(a, d)| Op::Cast(a, d)).boxed()),
    ];
    if !nested {
        parts.push((m.burst, (u, prop::collection::vec(op(m, true), 2..9)).prop_map(|(a, o)| Op::Burst(a, o)).boxed()));
        parts.push((if m.send > 0 { m.burst } else { 0 }, prop::collection::vec((u, prop::collection::vec(dest(), 1..12)), 2..6).prop_map(Op::Storm).boxed()));
    }
    weighted(parts)
}

pub fn case(m: Mix) -> BoxedStrategy<Case> {
    let name = || proptest::option::weighted(0.4, 0u8..3);
    (
        any::<u64>(),
        any::<u8>(),
        weighted(vec![(3, Just(0u8).boxed()), (1, Just(1u8).boxed()), (1, Just(2u8).boxed())]),
        prop::collection::vec((0u8..6, any::<bool>(), name()), 1..5),
        prop::collection::vec((0u8..6, name()), if m.call > 0 { 1..4usize } else { 0..1 }),
        prop::collection::vec((0u8..3, 0u8..3), 0..4),
        prop::collection::vec(op(m, false), 4..m.ops),
    )
        .prop_map(|(seed, nodes, ident, actors, servers, connect, ops)| Case { seed, nodes, ident, actors, servers, connect, ops })
        .boxed()
}

pub fn sub(name: &'static str, cases: (u32, u32), m: Mix) -> Box<dyn DynSub> {
    Sub::new(name, cases, move || case(m), |c| Outcome::from(run(c))).threads(8).confirm(0).shrink(60).boxed()
}

const BASE: Mix = Mix { life: 0, down: 0, cookie: 0, send: 0, ident: 0, link: 0, monitor: 0, nodemon: 0, exit: 0, name: 0, call: 0, burst: 0, ops: 26 };

/// The part of a property that is about several nodes.
pub fn nodes_sub(id: &str) -> Box<dyn DynSub> {
    match id {
        "C02" => sub("nodes", (4_000, 25), Mix { send: 5, ident: 5, name: 2, burst: 1, exit: 1, ..BASE }),
        "C10" => sub("nodes", (6_000, 25), Mix { call: 8, name: 1, exit: 1, life: 1, down: 1, burst: 1, ..BASE }),
        "C19" => sub("secrets", (5_000, 25), Mix { cookie: 5, life: 8, send: 2, nodemon: 2, link: 1, monitor: 1, ..BASE }),
        _ => unreachable!(),
    }
}

type Subs = (Vec<Box<dyn DynSub>>, &'static str, Vec<&'static str>);
const RULE: &str = "the history executed at least three operations and had an effect across nodes (a message, exit, down, node-down, call or lifecycle change)";

pub fn subs(id: &str) -> Subs {
    let mut assume = vec![
        "2-3 nodes on the loopback interface, one OS process each; operations are issued one at a time (bursts and storms excepted) and the cluster is compared with the model after each",
        "process ids and references are only used while the incarnation of the node that made them runs; reconnects happen after both sides noticed the loss",
    ];
    let v = match id {
        "C20" => vec![
            sub("messages", (8_000, 25), Mix { send: 6, ident: 2, name: 2, life: 1, burst: 4, exit: 1, ..BASE }),
            sub("identifiers", (8_000, 25), Mix { send: 1, ident: 8, name: 2, life: 1, burst: 2, ..BASE }),
        ],
        "C21" => vec![
            sub("signals", (9_000, 25), Mix { link: 5, monitor: 5, exit: 4, name: 2, life: 1, burst: 2, send: 1, ..BASE }),
            sub("loss", (8_000, 25), Mix { link: 6, monitor: 6, exit: 1, name: 1, life: 3, down: 2, burst: 2, ..BASE }),
        ],
        "C22" => vec![
            sub("lifecycle", (8_000, 25), Mix { life: 6, down: 2, nodemon: 4, send: 2, cookie: 1, ident: 1, ..BASE }),
            sub("monitors", (8_000, 25), Mix { life: 3, down: 2, nodemon: 6, link: 1, monitor: 1, burst: 2, exit: 1, ..BASE }),
            crate::beats::making_sub(),
        ],
        _ => unreachable!(),
    };
    if id == "C20" {
        assume.push("messages to a node that is not connected are dropped");
    }
    (v, RULE, assume)
}

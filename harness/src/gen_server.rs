//! C10, C11: GenServers against a reference model of servers, clients and calls.
//!
//! Clients and servers share one paused-clock runtime; after each operation the runtime runs until it is idle, so
//! the model knows what must have happened.  Call and init timeouts run in real time: the model accepts a timeout
//! only when the measured time reached it, and the `Expire` operation waits for the outstanding ones.
use crate::prop::*;
use hydra::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tokio::sync::{Semaphore, mpsc};

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum Act {
    /// Reply to a call, accept a cast.
    Fine,
    Defer,
    ReplyTwice,
    ManualReply,
    SpawnReply,
    Err(u8),
    Panic,
    Block(Box<Act>),
    /// Replies to an earlier, deferred call.
    ReplyTo(u8),
    /// Calls another server from inside the callback.
    Nested { server: u8, defer: bool },
    None,
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum InitK {
    Fine { generous_timeout: bool, casts: u8 },
    Err(u8),
    Panic,
    Block(Box<InitK>),
    TooSlow,
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum Target {
    Server(u8),
    Name(u8),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Op {
    Start { client: u8, name: Option<u8>, link: bool, trap: bool, info_err: bool, init: InitK },
    Call { client: u8, to: Target, act: Act, short: bool },
    Casts { client: u8, to: Target, acts: Vec<Act> },
    CastMany { client: u8, to: Vec<Target>, act: Act },
    CastAfter { client: u8, to: Target, act: Act, delay: u8 },
    Advance(u8),
    Reply { call: u8 },
    Stop { client: u8, to: Target, reason: u8, short: bool },
    ExitServer { server: u8, reason: u8 },
    ExitClient { client: u8, reason: u8 },
    QuitClient(u8),
    OpenGate(u8),
    Expire,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Case {
    traps: Vec<bool>,
    ops: Vec<Op>,
}

const SHORT: Duration = Duration::from_millis(20);
const SLACK: Duration = Duration::from_millis(2);
const NAMES: usize = 3;

// ---------------------------------------------------------------- the real side

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct SMsg {
    id: u64,
    act: SAct,
    body: String,
}

/// Acts with everything resolved.
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
enum SAct {
    Fine,
    Defer,
    ReplyTwice,
    ManualReply,
    SpawnReply,
    Err(ExitReason),
    Panic,
    Block(Box<SAct>),
    ReplyTo(u64, u64),
    /// target server, id of the inner call, whether the inner call is deferred
    Nested(usize, u64, bool),
    Value,
}

fn body(id: u64) -> String {
    "ß".repeat((id % 7) as usize * 3)
}
fn msg(id: u64, act: SAct) -> SMsg {
    SMsg { id, act, body: body(id) }
}
fn value(v: u64) -> SMsg {
    msg(v, SAct::Value)
}
fn reason(k: u8) -> ExitReason {
    match k % 5 {
        0 => ExitReason::Normal,
        1 => ExitReason::from("bad"),
        2 => ExitReason::from("worse"),
        3 => ExitReason::Kill,
        _ => ExitReason::from("shutdown"),
    }
}
/// Reasons for callbacks and init errors.
fn err_reason(k: u8) -> ExitReason {
    match k % 4 {
        0 => ExitReason::Normal,
        1 => ExitReason::from("cb"),
        2 => ExitReason::from("shutdown"),
        _ => ExitReason::from(""),
    }
}

#[derive(Debug, Clone, PartialEq)]
enum Ev {
    Init,
    Cast(u64),
    Call(u64),
    InfoUser(u64),
    InfoExit(ExitReason),
    InfoOther,
    Terminate(ExitReason),
    /// A callback ran while another one was running.
    Overlap,
    /// A message was not the one sent.
    Garbled,
}

#[derive(Debug, Clone, PartialEq)]
enum R {
    Value(u64),
    Garbled,
    Down(ExitReason),
    Timeout,
    Started(Option<Pid>),
    NotStarted(ExitReason),
    Stopped,
    StopErr(ExitReason),
}

#[derive(Default)]
struct WorldIn {
    clients: Vec<Option<mpsc::UnboundedSender<CC>>>,
    client_pids: Vec<Pid>,
    server_pids: Vec<Option<Pid>>,
    logs: Vec<Vec<Ev>>,
    running: Vec<bool>,
    gates: Vec<Arc<Semaphore>>,
    froms: HashMap<u64, From>,
    results: BTreeMap<u64, (R, Duration)>,
    prefix: String,
}
type World = Arc<Mutex<WorldIn>>;

struct Server {
    id: usize,
    w: World,
    trap: bool,
    info_err: bool,
    init: InitK,
}

struct Running(World, usize);
impl Server {
    fn enter(&self, ev: Ev) -> Running {
        let mut g = self.w.lock().unwrap();
        if g.running[self.id] {
            g.logs[self.id].push(Ev::Overlap);
        }
        g.running[self.id] = true;
        g.logs[self.id].push(ev);
        Running(self.w.clone(), self.id)
    }
    async fn gate(&self) {
        let gate = self.w.lock().unwrap().gates[self.id].clone();
        gate.acquire().await.unwrap().forget();
    }
    fn reply_to(&self, call: u64, v: u64) {
        let from = self.w.lock().unwrap().froms.get(&call).copied();
        if let Some(from) = from {
            Server::reply(from, value(v));
        }
    }
    async fn act(&self, id: u64, act: SAct, from: Option<From>) -> Result<Option<SMsg>, ExitReason> {
        let mut act = act;
        while let SAct::Block(inner) = act {
            self.gate().await;
            act = *inner;
        }
        match act {
            SAct::Fine => return Ok(from.map(|_| value(id * 16 + 1))),
            SAct::Defer => {}
            SAct::ReplyTwice => {
                if let Some(from) = from {
                    Server::reply(from, value(id * 16 + 1));
                    return Ok(Some(value(id * 16 + 2)));
                }
            }
            SAct::ManualReply => {
                if let Some(from) = from {
                    Server::reply(from, value(id * 16 + 3));
                }
            }
            SAct::SpawnReply => {
                if let Some(from) = from {
                    Process::spawn(async move { Server::reply(from, value(id * 16 + 4)) });
                }
            }
            SAct::Err(r) => return Err(r),
            SAct::Panic => panic!("callback panics"),
            SAct::ReplyTo(call, v) => self.reply_to(call, v),
            SAct::Nested(target, inner, defer) => {
                let pid = self.w.lock().unwrap().server_pids[target];
                if let Some(pid) = pid {
                    let started = Instant::now();
                    let r = Server::call(pid, msg(inner, if defer { SAct::Defer } else { SAct::Fine }), None).await;
                    self.w.lock().unwrap().results.insert(inner, (call_result(r), started.elapsed()));
                }
                return Ok(from.map(|_| value(id * 16 + 1)));
            }
            SAct::Block(_) | SAct::Value => unreachable!(),
        }
        Ok(None)
    }
}
impl Drop for Running {
    fn drop(&mut self) {
        self.0.lock().unwrap().running[self.1] = false;
    }
}

impl GenServer for Server {
    type Message = SMsg;
    async fn init(&mut self) -> Result<(), ExitReason> {
        {
            let mut g = self.w.lock().unwrap();
            g.server_pids[self.id] = Some(Process::current());
        }
        let _r = self.enter(Ev::Init);
        if self.trap {
            Process::set_flags(ProcessFlags::TRAP_EXIT);
        }
        let mut k = self.init.clone();
        while let InitK::Block(inner) = k {
            self.gate().await;
            k = *inner;
        }
        match k {
            InitK::Fine { casts, .. } => {
                for i in 0..casts % 3 {
                    Server::cast(Process::current(), msg(1_000_000 + self.id as u64 * 10 + i as u64, SAct::Fine));
                }
                Ok(())
            }
            InitK::Err(r) => Err(err_reason(r)),
            InitK::Panic => panic!("init panics"),
            _ => std::future::pending().await,
        }
    }
    async fn terminate(&mut self, reason: ExitReason) {
        let _r = self.enter(Ev::Terminate(reason));
        tokio::task::yield_now().await;
    }
    async fn handle_cast(&mut self, m: SMsg) -> Result<(), ExitReason> {
        let _r = self.enter(if m.body == body(m.id) { Ev::Cast(m.id) } else { Ev::Garbled });
        self.act(m.id, m.act, None).await.map(|_| ())
    }
    async fn handle_call(&mut self, m: SMsg, from: From) -> Result<Option<SMsg>, ExitReason> {
        let _r = self.enter(if m.body == body(m.id) { Ev::Call(m.id) } else { Ev::Garbled });
        self.w.lock().unwrap().froms.insert(m.id, from);
        self.act(m.id, m.act, Some(from)).await
    }
    async fn handle_info(&mut self, m: Message<SMsg>) -> Result<(), ExitReason> {
        let (ev, err) = match m {
            Message::User(m) => (if m.body == body(m.id) { Ev::InfoUser(m.id) } else { Ev::Garbled }, false),
            Message::System(SystemMessage::Exit(_, r)) => (Ev::InfoExit(r), self.info_err),
            _ => (Ev::InfoOther, false),
        };
        let _r = self.enter(ev);
        if err { Err(ExitReason::from("info")) } else { Ok(()) }
    }
}

fn call_result(r: Result<SMsg, CallError>) -> R {
    match r {
        Ok(m) if m == value(m.id) => R::Value(m.id),
        Ok(_) => R::Garbled,
        Err(CallError::ServerDown(r)) => R::Down(r),
        Err(CallError::Timeout(_)) => R::Timeout,
    }
}

#[derive(Clone, Debug)]
enum CTo {
    Pid(Pid),
    Name(String),
}
impl std::convert::From<CTo> for Dest {
    fn from(v: CTo) -> Dest {
        match v {
            CTo::Pid(p) => Dest::from(p),
            CTo::Name(n) => Dest::from(n),
        }
    }
}

enum CC {
    Start { id: u64, server: Box<Server>, options: GenServerOptions, link: bool },
    Call { id: u64, to: CTo, msg: SMsg, timeout: Option<Duration> },
    Stop { id: u64, to: CTo, reason: ExitReason, timeout: Option<Duration> },
    Casts(Vec<(CTo, SMsg)>),
    CastMany(Vec<CTo>, SMsg),
    CastAfter(CTo, SMsg, Duration),
    Reply(From, SMsg),
}

async fn client(w: World, mut rx: mpsc::UnboundedReceiver<CC>, trap: bool) {
    if trap {
        Process::set_flags(ProcessFlags::TRAP_EXIT);
    }
    while let Some(cmd) = rx.recv().await {
        let started = Instant::now();
        let (id, r) = match cmd {
            CC::Start { id, server, options, link } => {
                let r = if link { server.start_link(options).await } else { server.start(options).await };
                (id, match r {
                    Ok(p) => R::Started(Some(p)),
                    Err(e) => R::NotStarted(e),
                })
            }
            CC::Call { id, to, msg, timeout } => (id, call_result(Server::call(to, msg, timeout).await)),
            CC::Stop { id, to, reason, timeout } => (id, match Server::stop(to, reason, timeout).await {
                Ok(()) => R::Stopped,
                Err(e) => R::StopErr(e),
            }),
            CC::Casts(c) => {
                for (to, m) in c {
                    Server::cast(Dest::from(to), m);
                }
                continue;
            }
            CC::CastMany(to, m) => {
                Server::cast(to.into_iter().map(Dest::from).collect::<Vec<_>>(), m);
                continue;
            }
            CC::CastAfter(to, m, d) => {
                Server::cast_after(Dest::from(to), m, d);
                continue;
            }
            CC::Reply(from, m) => {
                Server::reply(from, m);
                continue;
            }
        };
        w.lock().unwrap().results.insert(id, (r, started.elapsed()));
    }
}

// ---------------------------------------------------------------- the model

#[derive(Clone, Debug, PartialEq)]
enum Q {
    Cast(u64, SAct),
    Call(u64, SAct),
    Stop(ExitReason),
    /// from the parent?
    Exit(bool, ExitReason),
}

#[derive(Clone, Debug)]
enum St {
    /// start op, what init does once the gates are open
    Init(u64, InitK),
    Idle,
    /// The current message, blocked before `SAct`; call id if it is a call.
    Blocked(u64, SAct, bool),
    /// Waiting for an inner call on behalf of a message.
    Nested(u64, u64, bool),
    Dead(ExitReason),
}

struct Sv {
    name: Option<usize>,
    trap: bool,
    info_err: bool,
    parent: Option<usize>,
    st: St,
    q: VecDeque<Q>,
    log: Vec<Ev>,
    never_ran: bool,
}
impl Sv {
    fn dead(&self) -> bool {
        matches!(self.st, St::Dead(_))
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Who {
    Client(usize),
    Server(usize),
}

#[derive(Clone, Debug, PartialEq)]
enum Kind {
    Call,
    Stop(ExitReason),
    Start,
}

#[derive(Debug)]
struct OpM {
    who: Who,
    server: Option<usize>,
    kind: Kind,
    short: bool,
    expect: Option<R>,
    /// A timeout is acceptable too (if the time had passed).
    or_timeout: bool,
    /// Answered by another process, possibly after the server died.
    or_down: bool,
    deferred: bool,
    replies: u64,
    seen: bool,
}

struct Cl {
    trap: bool,
    alive: bool,
    busy: Option<u64>,
}

#[derive(Default)]
struct Model {
    clients: Vec<Cl>,
    servers: Vec<Sv>,
    ops: BTreeMap<u64, OpM>,
    names: HashMap<usize, usize>,
    timers: Vec<(u64, CastTimer)>,
    cls: BTreeSet<&'static str>,
    cut: bool,
    ready: VecDeque<(usize, u64)>,
    /// Nested calls and deaths of this step: their order is not known.
    nested_now: BTreeSet<usize>,
    died_now: BTreeSet<usize>,
}
type CastTimer = (Option<usize>, u64, SAct, Option<usize>);

impl Model {
    fn alive(&self, who: Who) -> bool {
        match who {
            Who::Client(c) => self.clients[c].alive,
            Who::Server(s) => !self.servers[s].dead(),
        }
    }
    fn finish(&mut self, id: u64, r: R) {
        let op = self.ops.get_mut(&id).unwrap();
        if op.expect.is_some() {
            return;
        }
        op.or_timeout = op.short && op.kind != Kind::Start;
        op.expect = Some(r);
        let who = op.who;
        match who {
            Who::Client(c) => {
                if self.clients[c].busy == Some(id) {
                    self.clients[c].busy = None;
                }
            }
            Who::Server(s) => {
                // It goes on once the servers that run now have nothing left to do.
                self.ready.push_back((s, id));
            }
        }
    }
    fn drain(&mut self) {
        while let Some((s, id)) = self.ready.pop_front() {
            if let St::Nested(inner, outer, is_call) = self.servers[s].st {
                if inner == id {
                    self.servers[s].st = St::Idle;
                    if is_call {
                        self.reply(outer, outer * 16 + 1);
                    }
                    self.run(s);
                }
            }
        }
    }
    fn reply(&mut self, call: u64, v: u64) {
        let op = self.ops.get_mut(&call).unwrap();
        op.replies += 1;
        if op.expect.is_none() && self.alive(self.ops[&call].who) {
            self.finish(call, R::Value(v));
        } else {
            self.cls.insert("late_or_second_reply");
        }
    }
    fn log(&mut self, s: usize, e: Ev) {
        self.servers[s].log.push(e);
    }
    fn terminate(&mut self, s: usize, r: ExitReason) {
        self.cls.insert("terminate");
        self.log(s, Ev::Terminate(r.clone()));
        self.server_dies(s, r);
    }
    fn server_dies(&mut self, s: usize, r: ExitReason) {
        if self.servers[s].dead() {
            return;
        }
        let was = std::mem::replace(&mut self.servers[s].st, St::Dead(r.clone()));
        self.died_now.insert(s);
        self.cut |= self.nested_now.contains(&s) || self.ready.iter().any(|x| x.0 == s);
        self.servers[s].q.clear();
        if let Some(n) = self.servers[s].name {
            if self.names.get(&n) == Some(&s) {
                self.names.remove(&n);
            }
        }
        if let St::Init(start, _) = was {
            if self.ops[&start].expect.is_none() {
                self.finish(start, R::NotStarted(ExitReason::from("unknown")));
            }
        }
        // The linked starter.
        if let Some(c) = self.servers[s].parent {
            if !r.is_normal() && !self.clients[c].trap {
                self.cls.insert("starter_dies_with_server");
                self.client_dies(c, r.clone());
            }
        }
        let waiting: Vec<(u64, Kind)> =
            self.ops.iter().filter(|(_, o)| o.server == Some(s) && o.expect.is_none()).map(|(i, o)| (*i, o.kind.clone())).collect();
        for (id, kind) in waiting {
            if !self.alive(self.ops[&id].who) {
                continue;
            }
            match kind {
                Kind::Call => {
                    self.cls.insert("server_dies_during_call");
                    self.finish(id, R::Down(r.clone()))
                }
                Kind::Stop(want) => {
                    let ok = want == r;
                    self.cls.insert(if ok { "stopped" } else { "stop_but_other_reason" });
                    self.finish(id, if ok { R::Stopped } else { R::StopErr(r.clone()) })
                }
                Kind::Start => {}
            }
        }
    }
    fn client_dies(&mut self, c: usize, r: ExitReason) {
        if !self.clients[c].alive {
            return;
        }
        self.clients[c].alive = false;
        if let Some(id) = self.clients[c].busy.take() {
            // What becomes of a server whose starter dies during init is not specified.
            self.cut |= self.ops[&id].kind == Kind::Start && self.ops[&id].expect.is_none();
        }
        for s in 0..self.servers.len() {
            if self.servers[s].parent == Some(c) && !self.servers[s].dead() {
                if self.servers[s].trap {
                    self.servers[s].q.push_back(Q::Exit(true, r.clone()));
                    self.run(s);
                } else if !r.is_normal() {
                    self.cls.insert("server_dies_with_starter");
                    self.server_dies(s, r.clone());
                }
            }
        }
    }
    /// Runs the rest of a message's handler.
    fn act(&mut self, s: usize, id: u64, act: SAct, is_call: bool) {
        match act {
            SAct::Block(inner) => {
                self.cls.insert("blocked_callback");
                self.servers[s].st = St::Blocked(id, *inner, is_call);
                return;
            }
            SAct::Fine if is_call => self.reply(id, id * 16 + 1),
            SAct::ReplyTwice if is_call => {
                self.reply(id, id * 16 + 1);
                self.reply(id, id * 16 + 2);
            }
            SAct::ManualReply if is_call => self.reply(id, id * 16 + 3),
            SAct::SpawnReply if is_call => {
                self.ops.get_mut(&id).unwrap().or_down = true;
                self.reply(id, id * 16 + 4)
            }
            SAct::Defer if is_call => self.ops.get_mut(&id).unwrap().deferred = true,
            SAct::Err(r) => return self.terminate(s, r),
            SAct::Panic => {
                self.cls.insert("callback_panics");
                return self.server_dies(s, ExitReason::from("callback panics"));
            }
            SAct::ReplyTo(call, v) => self.reply(call, v),
            SAct::Nested(target, inner, defer) => {
                self.cls.insert("nested_call");
                self.servers[s].st = St::Nested(inner, id, is_call);
                self.nested_now.extend([s, target]);
                self.cut |= self.died_now.contains(&target);
                self.ops.insert(inner, OpM {
                    who: Who::Server(s),
                    server: Some(target),
                    kind: Kind::Call,
                    short: false,
                    expect: None,
                    or_timeout: false,
 or_down: false,
                    deferred: false,
                    replies: 0,
                    seen: false,
                });
                if let St::Dead(_) = self.servers[target].st {
                    self.finish(inner, R::Down(ExitReason::from("noproc")));
                } else {
                    self.servers[target].q.push_back(Q::Call(inner, if defer { SAct::Defer } else { SAct::Fine }));
                    self.run(target);
                }
                return;
            }
            _ => {}
        }
    }
    fn run(&mut self, s: usize) {
        loop {
            if !matches!(self.servers[s].st, St::Idle) {
                return;
            }
            let Some(q) = self.servers[s].q.pop_front() else { return };
            match q {
                Q::Cast(id, act) => {
                    self.log(s, Ev::Cast(id));
                    self.act(s, id, act, false);
                }
                Q::Call(id, act) => {
                    self.log(s, Ev::Call(id));
                    self.act(s, id, act, true);
                }
                Q::Stop(r) => self.terminate(s, r),
                Q::Exit(true, r) => {
                    self.cls.insert("starter_exit_terminates");
                    self.terminate(s, r)
                }
                Q::Exit(false, r) => {
                    self.log(s, Ev::InfoExit(r));
                    if self.servers[s].info_err {
                        self.terminate(s, ExitReason::from("info"));
                    }
                }
            }
        }
    }
    fn init(&mut self, s: usize) {
        let St::Init(start, k) = self.servers[s].st.clone() else { return };
        match k {
            InitK::Block(_) | InitK::TooSlow => {}
            InitK::Fine { casts, .. } => {
                for i in 0..casts % 3 {
                    self.servers[s].q.push_back(Q::Cast(1_000_000 + s as u64 * 10 + i as u64, SAct::Fine));
                }
                self.servers[s].st = St::Idle;
                self.finish(start, R::Started(None));
                self.run(s);
            }
            InitK::Err(r) => {
                self.cls.insert("init_fails");
                self.finish(start, R::NotStarted(err_reason(r)));
                self.server_dies(s, err_reason(r));
            }
            InitK::Panic => {
                self.cls.insert("init_panics");
                self.finish(start, R::NotStarted(ExitReason::from("unknown")));
                self.server_dies(s, ExitReason::from("init panics"));
            }
        }
    }
}

// ---------------------------------------------------------------- the driver

struct Driver {
    w: World,
    m: Model,
    next: u64,
    inconclusive: bool,
    ops: usize,
    start: tokio::time::Instant,
}

async fn settle() {
    tokio::time::sleep(Duration::from_nanos(1)).await;
    tokio::time::sleep(Duration::from_millis(1)).await;
}

impl Driver {
    fn id(&mut self) -> u64 {
        self.next += 1;
        self.next
    }
    fn free_client(&self, sel: u8) -> Option<usize> {
        let c: Vec<usize> = (0..self.m.clients.len()).filter(|c| self.m.clients[*c].alive && self.m.clients[*c].busy.is_none()).collect();
        (!c.is_empty()).then(|| c[sel as usize % c.len()])
    }
    fn server_pid(&self, s: usize) -> Option<Pid> {
        self.w.lock().unwrap().server_pids[s]
    }
    fn name(&self, n: usize) -> String {
        format!("{}{}", self.w.lock().unwrap().prefix, n)
    }
    /// The destination, and the live server it designates.
    fn target(&self, t: &Target) -> Option<(CTo, Option<usize>)> {
        match t {
            Target::Server(i) => {
                // Prefer live servers, newest first now and then.
                let have: Vec<usize> = (0..self.m.servers.len()).filter(|s| !self.m.servers[*s].never_ran).collect();
                let live: Vec<usize> = have.iter().copied().filter(|s| !self.m.servers[*s].dead()).collect();
                let s = if *i % 8 != 7 && !live.is_empty() {
                    live[*i as usize % live.len()]
                } else if !have.is_empty() {
                    have[*i as usize % have.len()]
                } else {
                    return None;
                };
                Some((CTo::Pid(self.server_pid(s)?), (!self.m.servers[s].dead()).then_some(s)))
            }
            Target::Name(n) => {
                let n = *n as usize % NAMES;
                Some((CTo::Name(self.name(n)), self.m.names.get(&n).copied()))
            }
        }
    }
    /// Resolves an act for a server (the one that will run it).
    fn resolve(&mut self, act: &Act, server: Option<usize>) -> SAct {
        match act {
            Act::Fine | Act::None => SAct::Fine,
            Act::Defer => SAct::Defer,
            Act::ReplyTwice => SAct::ReplyTwice,
            Act::ManualReply => SAct::ManualReply,
            Act::SpawnReply => SAct::SpawnReply,
            Act::Err(r) => SAct::Err(err_reason(*r)),
            Act::Panic => SAct::Panic,
            Act::Block(inner) => match self.resolve(inner, server) {
                // The call a blocked handler answers later may be gone from the list of open ones by then.
                SAct::ReplyTo(..) => SAct::Fine,
                a => SAct::Block(Box::new(a)),
            },
            Act::ReplyTo(c) => match self.open_call(*c) {
                Some(c) if server.is_some_and(|s| matches!(self.m.servers[s].st, St::Idle)) => {
                    let k = self.m.ops[&c].replies;
                    SAct::ReplyTo(c, c * 16 + 5 + k.min(9))
                }
                _ => SAct::Fine,
            },
            Act::Nested { server: t, defer } => {
                let Some(s) = server else { return SAct::Fine };
                let c: Vec<usize> = (s + 1..self.m.servers.len())
                    .filter(|t| !self.m.servers[*t].never_ran && self.server_pid(*t).is_some())
                    .collect();
                if c.is_empty() {
                    return SAct::Fine;
                }
                let t = c[*t as usize % c.len()];
                let inner = self.id();
                SAct::Nested(t, inner, *defer)
            }
        }
    }
    /// A deferred call that can be replied to (again) without a race with its timeout.
    fn open_call(&self, sel: u8) -> Option<u64> {
        let c: Vec<u64> = self
            .m
            .ops
            .iter()
            .filter(|(_, o)| o.kind == Kind::Call && o.deferred && o.replies < 3)
            .filter(|(_, o)| !(matches!(o.who, Who::Server(_)) && o.short && o.expect.is_none()))
            .map(|(i, _)| *i)
            .collect();
        // Mostly the recent ones.
        (!c.is_empty()).then(|| c[c.len() - 1 - (sel as usize % c.len().min(4))])
    }
    fn add_op(&mut self, id: u64, client: usize, server: Option<usize>, kind: Kind, short: bool) {
        self.m.ops.insert(id, OpM {
            who: Who::Client(client),
            server,
            kind,
            short,
            expect: None,
            or_timeout: false,
 or_down: false,
            deferred: false,
            replies: 0,
            seen: false,
        });
        self.m.clients[client].busy = Some(id);
    }
    fn command(&self, client: usize, c: CC) {
        let g = self.w.lock().unwrap();
        let _ = g.clients[client].as_ref().unwrap().send(c);
    }
    fn cast(&mut self, t: Option<usize>, id: u64, act: SAct) {
        if let Some(t) = t {
            self.m.servers[t].q.push_back(Q::Cast(id, act));
            self.m.run(t);
        }
    }

    fn now(&self) -> u64 {
        self.start.elapsed().as_millis() as u64
    }
    /// Lets the timers up to `to` fire, one after the other.
    async fn timers(&mut self, to: u64) {
        loop {
            self.m.timers.sort_by_key(|t| t.0);
            let Some((at, _)) = self.m.timers.first() else { return };
            if *at > to {
                return;
            }
            let wait = (*at + 15).saturating_sub(self.now());
            tokio::time::sleep(Duration::from_millis(wait)).await;
            let (_, (t, id, act, named)) = self.m.timers.remove(0);
            let t = match named {
                Some(n) => self.m.names.get(&n).copied(),
                None => t.filter(|t| !self.m.servers[*t].dead()),
            };
            self.cast(t, id, act);
            self.m.drain();
        }
    }

    async fn step(&mut self, op: &Op) -> Result<(), String> {
        self.m.nested_now.clear();
        self.m.died_now.clear();
        // No timer fires in the middle of an operation.
        self.timers(self.now() + 20).await;
        match op {
            Op::Start { client, name, link, trap, info_err, init } => {
                let Some(c) = self.free_client(*client) else { return Ok(()) };
                if self.m.servers.len() >= 6 {
                    return Ok(());
                }
                let name = name.map(|n| n as usize % NAMES);
                let id = self.id();
                let s = self.m.servers.len();
                let taken = name.is_some_and(|n| self.m.names.contains_key(&n));
                let mut k = init.clone();
                // One level of blocking; a slow init is never let through.
                if let InitK::Block(inner) = &k {
                    k = match &**inner {
                        InitK::Block(_) | InitK::TooSlow => InitK::TooSlow,
                        i => InitK::Block(Box::new(i.clone())),
                    };
                }
                {
                    let mut g = self.w.lock().unwrap();
                    g.server_pids.push(None);
                    g.logs.push(vec![]);
                    g.running.push(false);
                    g.gates.push(Arc::new(Semaphore::new(0)));
                }
                self.m.servers.push(Sv {
                    name,
                    trap: *trap,
                    info_err: *info_err,
                    parent: link.then_some(c),
                    st: if taken { St::Dead(ExitReason::Normal) } else { St::Init(id, k.clone()) },
                    q: VecDeque::new(),
                    log: vec![],
                    never_ran: taken,
                });
                let mut options = GenServerOptions::new();
                if let Some(n) = name {
                    options = options.name(self.name(n));
                }
                let too_slow = k == InitK::TooSlow;
                if too_slow {
                    options = options.timeout(SHORT);
                } else if let InitK::Fine { generous_timeout: true, .. } = k {
                    options = options.timeout(Duration::from_secs(20));
                }
                self.add_op(id, c, None, Kind::Start, too_slow);
                let server = Box::new(Server { id: s, w: self.w.clone(), trap: *trap, info_err: *info_err, init: k });
                self.command(c, CC::Start { id, server, options, link: *link });
                if taken {
                    self.m.cls.insert("name_taken");
                    self.m.finish(id, R::NotStarted(ExitReason::from("already_started")));
                } else {
                    if let Some(n) = name {
                        self.m.names.insert(n, s);
                    }
                    self.m.log(s, Ev::Init);
                    self.m.init(s);
                }
            }
            Op::Call { client, to, act, short } => {
                let Some(c) = self.free_client(*client) else { return Ok(()) };
                let Some((to, t)) = self.target(to) else { return Ok(()) };
                let act = self.resolve(act, t);
                let id = self.id();
                self.add_op(id, c, t, Kind::Call, *short);
                self.command(c, CC::Call { id, to, msg: msg(id, act.clone()), timeout: short.then_some(SHORT) });
                match t {
                    None => {
                        self.m.cls.insert("call_to_dead");
                        self.m.finish(id, R::Down(ExitReason::from("noproc")));
                    }
                    Some(t) => {
                        self.m.servers[t].q.push_back(Q::Call(id, act));
                        self.m.run(t);
                    }
                }
            }
            Op::Casts { client, to, acts } => {
                let Some(c) = self.free_client(*client) else { return Ok(()) };
                let mut list = vec![];
                let mut model = vec![];
                let Some((to, t)) = self.target(to) else { return Ok(()) };
                for act in acts {
                    // Several messages at once: only acts that do not depend on what the earlier ones do.
                    let act = match self.resolve(act, t) {
                        SAct::ReplyTo(..) | SAct::Nested(..) => SAct::Fine,
                        SAct::Block(b) if matches!(*b, SAct::Nested(..)) => SAct::Fine,
                        a => a,
                    };
                    let id = self.id();
                    list.push((to.clone(), msg(id, act.clone())));
                    model.push((t, id, act));
                }
                self.command(c, CC::Casts(list));
                // All of them are queued before a server runs.
                let mut touched = BTreeSet::new();
                for (t, id, act) in model {
                    if let Some(t) = t {
                        self.m.servers[t].q.push_back(Q::Cast(id, act));
                        touched.insert(t);
                    }
                }
                for t in touched {
                    self.m.run(t);
                }
            }
            Op::CastMany { client, to, act } => {
                let Some(c) = self.free_client(*client) else { return Ok(()) };
                let targets: Vec<(CTo, Option<usize>)> = to.iter().filter_map(|t| self.target(t)).collect();
                let several = targets.iter().any(|t| t.1 != targets[0].1);
                let act = match self.resolve(act, None) {
                    SAct::Block(_) => SAct::Fine,
                    // Deaths of several processes at once have no fixed order.
                    SAct::Err(_) | SAct::Panic if several => SAct::Fine,
                    a => a,
                };
                let id = self.id();
                self.command(c, CC::CastMany(targets.iter().map(|t| t.0.clone()).collect(), msg(id, act.clone())));
                let mut touched = BTreeSet::new();
                for (_, t) in targets {
                    if let Some(t) = t {
                        self.m.servers[t].q.push_back(Q::Cast(id, act.clone()));
                        touched.insert(t);
                    }
                }
                for t in touched {
                    self.m.run(t);
                }
            }
            Op::CastAfter { client, to, act, delay } => {
                let Some(c) = self.free_client(*client) else { return Ok(()) };
                let Some((cto, t)) = self.target(to) else { return Ok(()) };
                let act = match self.resolve(act, None) {
                    SAct::Block(_) => SAct::Fine,
                    a => a,
                };
                let id = self.id();
                let delay = 1000 + *delay as u64 * 50;
                // Every deadline is distinct, so that the order is known.
                let at = self.now() + delay;
                if self.m.timers.iter().any(|x| x.0.abs_diff(at) < 40) {
                    return Ok(());
                }
                let named = match to {
                    Target::Name(n) => Some(*n as usize % NAMES),
                    _ => None,
                };
                self.command(c, CC::CastAfter(cto, msg(id, act.clone()), Duration::from_millis(delay)));
                self.m.timers.push((at, (t, id, act, named)));
                self.m.cls.insert("cast_after");
            }
            Op::Advance(n) => {
                let to = self.now() + 200 + *n as u64 * 60;
                self.timers(to).await;
                let left = to.saturating_sub(self.now());
                tokio::time::sleep(Duration::from_millis(left)).await;
            }
            Op::Reply { call } => {
                let Some(call) = self.open_call(*call) else { return Ok(()) };
                let Some(c) = self.free_client(call as u8) else { return Ok(()) };
                let Some(from) = self.w.lock().unwrap().froms.get(&call).copied() else {
                    return Err(format!("call {call} was deferred but never seen"));
                };
                let v = call * 16 + 5 + self.m.ops[&call].replies.min(9);
                self.command(c, CC::Reply(from, value(v)));
                self.m.cls.insert("deferred_reply");
                self.m.reply(call, v);
            }
            Op::Stop { client, to, reason: r, short } => {
                let Some(c) = self.free_client(*client) else { return Ok(()) };
                let Some((to, t)) = self.target(to) else { return Ok(()) };
                let r = reason(*r);
                let id = self.id();
                self.add_op(id, c, t, Kind::Stop(r.clone()), *short);
                self.command(c, CC::Stop { id, to, reason: r.clone(), timeout: short.then_some(SHORT) });
                match t {
                    None => self.m.finish(id, R::StopErr(ExitReason::from("noproc"))),
                    Some(t) => {
                        self.m.servers[t].q.push_back(Q::Stop(r));
                        self.m.run(t);
                    }
                }
            }
            Op::ExitServer { server, reason: r } => {
                let Some((_, Some(s))) = self.target(&Target::Server(*server)) else { return Ok(()) };
                let pid = self.server_pid(s).unwrap();
                let r = reason(*r);
                let r2 = r.clone();
                Process::spawn(async move { Process::exit(pid, r2) });
                if r.is_kill() {
                    self.m.server_dies(s, r);
                } else if self.m.servers[s].trap {
                    self.m.cls.insert("trapped_exit_info");
                    self.m.servers[s].q.push_back(Q::Exit(false, r));
                    self.m.run(s);
                } else if !r.is_normal() {
                    self.m.server_dies(s, r);
                }
            }
            Op::ExitClient { client, reason: r } => {
                let alive: Vec<usize> = (0..self.m.clients.len()).filter(|c| self.m.clients[*c].alive).collect();
                if alive.len() < 3 {
                    return Ok(());
                }
                let c = alive[*client as usize % alive.len()];
                if self.starting(c) {
                    return Ok(());
                }
                let pid = self.w.lock().unwrap().client_pids[c];
                let r = reason(*r);
                let r2 = r.clone();
                Process::spawn(async move { Process::exit(pid, r2) });
                if r.is_kill() || (!self.m.clients[c].trap && !r.is_normal()) {
                    self.m.client_dies(c, r);
                }
            }
            Op::QuitClient(client) => {
                let Some(c) = self.free_client(*client) else { return Ok(()) };
                if self.m.clients.iter().filter(|c| c.alive).count() < 3 {
                    return Ok(());
                }
                self.w.lock().unwrap().clients[c] = None;
                self.m.client_dies(c, ExitReason::Normal);
            }
            Op::OpenGate(sel) => {
                let c: Vec<usize> = (0..self.m.servers.len())
                    .filter(|s| match &self.m.servers[*s].st {
                        St::Blocked(..) => true,
                        St::Init(_, InitK::Block(_)) => true,
                        _ => false,
                    })
                    .collect();
                if c.is_empty() {
                    return Ok(());
                }
                let s = c[*sel as usize % c.len()];
                self.w.lock().unwrap().gates[s].add_permits(1);
                match self.m.servers[s].st.clone() {
                    St::Blocked(id, act, is_call) => {
                        self.m.servers[s].st = St::Idle;
                        self.m.act(s, id, act, is_call);
                        self.m.run(s);
                    }
                    St::Init(op, InitK::Block(inner)) => {
                        self.m.cls.insert("blocked_init");
                        self.m.servers[s].st = St::Init(op, *inner);
                        self.m.init(s);
                    }
                    _ => unreachable!(),
                }
            }
            Op::Expire => {
                let mut short: Vec<u64> = self
                    .m
                    .ops
                    .iter()
                    .filter(|(_, o)| o.short && o.expect.is_none() && self.m.alive(o.who))
                    .map(|(i, _)| *i)
                    .collect();
                if short.is_empty() {
                    return Ok(());
                }
                let since = Instant::now();
                loop {
                    settle().await;
                    let missing = {
                        let g = self.w.lock().unwrap();
                        short.iter().any(|i| !g.results.contains_key(i))
                    };
                    if !missing {
                        break;
                    }
                    // Starters that die with their server do not report.
                    let dead_starters = short.iter().all(|i| match self.m.ops[i].who {
                        Who::Client(c) => {
                            let pid = self.w.lock().unwrap().client_pids[c];
                            self.w.lock().unwrap().results.contains_key(i) || !Process::alive(pid)
                        }
                        _ => true,
                    });
                    if dead_starters {
                        break;
                    }
                    if since.elapsed() > Duration::from_secs(10) {
                        return Err(format!("no timeout although 10s have passed: {short:?}"));
                    }
                    std::thread::sleep(Duration::from_millis(2));
                }
                short.sort_by_key(|id| self.m.ops[id].kind != Kind::Start);
                for id in short {
                    self.m.drain();
                    if self.m.ops[&id].expect.is_some() {
                        continue;
                    }
                    match self.m.ops[&id].kind.clone() {
                        Kind::Call => {
                            self.m.cls.insert("call_times_out");
                            self.m.finish(id, R::Timeout)
                        }
                        Kind::Stop(_) => {
                            self.m.cls.insert("stop_times_out");
                            self.m.finish(id, R::StopErr(ExitReason::from("timeout")))
                        }
                        Kind::Start => {
                            self.m.cls.insert("init_times_out");
                            let s = (0..self.m.servers.len())
                                .find(|s| matches!(self.m.servers[*s].st, St::Init(o, _) if o == id))
                                .unwrap();
                            self.m.finish(id, R::NotStarted(ExitReason::from("timeout")));
                            self.m.server_dies(s, ExitReason::from("timeout"));
                        }
                    }
                }
            }
        }
        self.m.drain();
        settle().await;
        if self.m.cut {
            return Ok(());
        }
        self.compare()
    }

    fn starting(&self, c: usize) -> bool {
        self.m.clients[c].busy.is_some_and(|id| self.m.ops[&id].kind == Kind::Start)
    }

    fn compare(&mut self) -> Result<(), String> {
        // Slow starts may run into their timeout at any time.
        let results: Vec<(u64, R, Duration)> =
            self.w.lock().unwrap().results.iter().filter(|(i, _)| !self.m.ops[i].seen).map(|(i, (r, d))| (*i, r.clone(), *d)).collect();
        for (id, r, elapsed) in &results {
            let timed_out = match r {
                R::Timeout => true,
                R::StopErr(e) | R::NotStarted(e) => *e == "timeout",
                _ => false,
            };
            let op = &self.m.ops[id];
            if timed_out && op.expect.is_none() {
                let want = if op.short { SHORT } else { Duration::from_secs(5) };
                if matches!(op.kind, Kind::Stop(_) | Kind::Start) && !op.short {
                    return Err(format!("operation {id} timed out although it has no timeout"));
                }
                if *elapsed + SLACK < want {
                    return Err(format!("operation {id} timed out after {elapsed:?} of {want:?}"));
                }
                if !op.short {
                    self.inconclusive = true;
                    return Ok(());
                }
                match op.kind.clone() {
                    Kind::Call => self.m.finish(*id, R::Timeout),
                    Kind::Stop(_) => self.m.finish(*id, R::StopErr(ExitReason::from("timeout"))),
                    Kind::Start => {
                        let s = (0..self.m.servers.len()).find(|s| matches!(self.m.servers[*s].st, St::Init(o, _) if o == *id)).unwrap();
                        self.m.finish(*id, R::NotStarted(ExitReason::from("timeout")));
                        self.m.server_dies(s, ExitReason::from("timeout"));
                    }
                }
            }
        }
        // A slow start may also have killed its starter before that could report.
        for s in 0..self.m.servers.len() {
            if let St::Init(id, InitK::TooSlow) = self.m.servers[s].st {
                if self.server_pid(s).is_some_and(|p| !Process::alive(p)) {
                    self.m.finish(id, R::NotStarted(ExitReason::from("timeout")));
                    self.m.server_dies(s, ExitReason::from("timeout"));
                }
            }
        }
        self.m.drain();
        let g = self.w.lock().unwrap();
        for (id, op) in self.m.ops.iter_mut() {
            if op.seen {
                continue;
            }
            let got = g.results.get(id);
            let who_alive = match op.who {
                Who::Client(c) => self.m.clients[c].alive,
                Who::Server(s) => !self.m.servers[s].dead(),
            };
            match (&op.expect, got) {
                (None, None) => {}
                (None, Some((r, _))) if who_alive => {
                    return Err(format!("operation {id} ({:?}) should still be waiting, but it returned {r:?}", op.kind));
                }
                (None, Some(_)) => {}
                (Some(e), None) => {
                    if who_alive {
                        return Err(format!("operation {id} ({:?}) should have returned {e:?}", op.kind));
                    }
                }
                (Some(e), Some((r, elapsed))) => {
                    let timed_out = matches!(r, R::Timeout) || *r == R::StopErr(ExitReason::from("timeout"));
                    let same = match (e, r) {
                        (R::Started(_), R::Started(p)) => {
                            let s = self.m.servers.iter().enumerate().position(|(i, _)| g.server_pids[i] == *p);
                            s.is_some()
                        }
                        _ => e == r,
                    };
                    let late = *e == R::Timeout || *e == R::StopErr(ExitReason::from("timeout")) || *e == R::NotStarted(ExitReason::from("timeout"));
                    if late && *elapsed + SLACK < SHORT {
                        return Err(format!("operation {id} timed out after {elapsed:?} of {SHORT:?}"));
                    }
                    let down = op.or_down && matches!(r, R::Down(x) if op.server.is_some_and(|s| matches!(&self.m.servers[s].st, St::Dead(y) if x == y)));
                    if !same && !down && !(op.or_timeout && timed_out && *elapsed + SLACK >= SHORT) && who_alive {
                        return Err(format!("operation {id} ({:?}) should have returned {e:?} but returned {r:?}", op.kind));
                    }
                    op.seen = true;
                }
            }
        }
        for (s, sv) in self.m.servers.iter().enumerate() {
            let log: Vec<Ev> = g.logs[s].iter().filter(|e| !matches!(e, Ev::InfoUser(_))).cloned().collect();
            if log != sv.log {
                return Err(format!("server {s} ran {log:?}, expected {:?}", sv.log));
            }
            for e in &g.logs[s] {
                if let Ev::InfoUser(v) = e {
                    let call = v / 16;
                    if !self.m.ops.get(&call).is_some_and(|o| o.who == Who::Server(s) && o.replies > 0) {
                        return Err(format!("server {s} got {v}, which is nobody's reply to it"));
                    }
                }
            }
            if let Some(pid) = g.server_pids[s] {
                if Process::alive(pid) == sv.dead() {
                    return Err(format!("server {s}: alive is {}, expected {}", sv.dead(), !sv.dead()));
                }
                if !sv.dead() {
                    // Calls and stops in flight are the only monitors.
                    let mut want: Vec<Pid> = self
                        .m
                        .ops
                        .iter()
                        .filter(|(_, o)| o.server == Some(s) && o.expect.is_none())
                        .filter_map(|(_, o)| match o.who {
                            Who::Client(c) => self.m.clients[c].alive.then(|| g.client_pids[c]),
                            Who::Server(c) => (!self.m.servers[c].dead()).then(|| g.server_pids[c].unwrap()),
                        })
                        .collect();
                    let mut got = Process::info(pid).map(|i| i.monitored_by).unwrap_or_default();
                    want.sort();
                    got.sort();
                    if want != got {
                        return Err(format!("server {s} is monitored by {got:?}, expected {want:?}"));
                    }
                }
            } else if !sv.never_ran {
                return Err(format!("server {s} never ran init"));
            }
        }
        for (c, cl) in self.m.clients.iter().enumerate() {
            if Process::alive(g.client_pids[c]) != cl.alive {
                return Err(format!("client {c}: alive is {}, expected {}", !cl.alive, cl.alive));
            }
        }
        for n in 0..NAMES {
            let got = Process::whereis(format!("{}{}", g.prefix, n));
            let want = self.m.names.get(&n).and_then(|s| g.server_pids[*s]);
            if got != want {
                return Err(format!("name {n} belongs to {got:?}, expected {want:?}"));
            }
        }
        Ok(())
    }
}

static CASES: AtomicU64 = AtomicU64::new(0);

fn run(case: &Case) -> Outcome {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
    let out = rt.block_on(async {
        let w: World = Default::default();
        w.lock().unwrap().prefix = format!("gs{}-", CASES.fetch_add(1, Ordering::Relaxed));
        let mut d = Driver { w: w.clone(), m: Model::default(), next: 0, inconclusive: false, ops: 0, start: tokio::time::Instant::now() };
        for i in 0..4 {
            let trap = case.traps.get(i).copied().unwrap_or(false);
            let (tx, rx) = mpsc::unbounded_channel();
            let pid = Process::spawn(client(w.clone(), rx, trap));
            let mut g = w.lock().unwrap();
            g.clients.push(Some(tx));
            g.client_pids.push(pid);
            drop(g);
            d.m.clients.push(Cl { trap, alive: true, busy: None });
        }
        settle().await;
        let mut result = Ok(());
        for (i, op) in case.ops.iter().enumerate() {
            if let Err(e) = d.step(op).await {
                result = Err(format!("op {i} {op:?}: {e}"));
                break;
            }
            if d.inconclusive || d.m.cut {
                break;
            }
            d.ops = i + 1;
        }
        // Clean up.
        let pids: Vec<Pid> = {
            let mut g = w.lock().unwrap();
            g.clients.clear();
            g.client_pids.iter().copied().chain(g.server_pids.iter().flatten().copied()).collect()
        };
        let (tx, rx) = tokio::sync::oneshot::channel::<()>();
        Process::spawn(async move {
            for p in pids {
                Process::exit(p, ExitReason::Kill);
            }
            let _ = tx.send(());
        });
        let _ = rx.await;
        settle().await;
        // Pending timers would outlive the runtime.
        tokio::time::sleep(Duration::from_secs(60)).await;
        (result, d)
    });
    let (result, d) = out;
    let mut o = match result {
        Ok(()) => Outcome::ok(d.m.cls.len() >= 3 && d.m.ops.values().any(|o| o.kind == Kind::Call && matches!(o.expect, Some(R::Value(_))))),
        Err(e) => Outcome::fail(e),
    };
    o.inconclusive = d.inconclusive;
    o.classes = d.m.cls.into_iter().collect();
    o
}

fn act(depth: u32) -> BoxedStrategy<Act> {
    let leaf = prop_oneof![
        6 => Just(Act::Fine),
        4 => Just(Act::Defer),
        2 => Just(Act::ReplyTwice),
        2 => Just(Act::ManualReply),
        2 => Just(Act::SpawnReply),
        1 => any::<u8>().prop_map(Act::Err),
        1 => Just(Act::Panic),
        2 => any::<u8>().prop_map(Act::ReplyTo),
        2 => (any::<u8>(), any::<bool>()).prop_map(|(server, defer)| Act::Nested { server, defer }),
    ];
    if depth == 0 {
        leaf.boxed()
    } else {
        prop_oneof![5 => leaf, 1 => act(depth - 1).prop_map(|a| Act::Block(Box::new(a)))].boxed()
    }
}

fn init(depth: u32, slow: u32) -> BoxedStrategy<InitK> {
    let mut parts = vec![
        (12, (any::<bool>(), any::<u8>()).prop_map(|(generous_timeout, casts)| InitK::Fine { generous_timeout, casts }).boxed()),
        (2, any::<u8>().prop_map(InitK::Err).boxed()),
        (1, Just(InitK::Panic).boxed()),
        (slow, Just(InitK::TooSlow).boxed()),
    ];
    if depth > 0 {
        parts.push((3, init(depth - 1, 0).prop_map(|i| InitK::Block(Box::new(i))).boxed()));
    }
    weighted(parts)
}

fn target() -> BoxedStrategy<Target> {
    prop_oneof![3 => any::<u8>().prop_map(Target::Server), 1 => any::<u8>().prop_map(Target::Name)].boxed()
}

fn start_op(slow: u32) -> BoxedStrategy<Op> {
    (any::<u8>(), proptest::option::weighted(0.6, any::<u8>()), any::<bool>(), any::<bool>(), proptest::bool::weighted(0.2), init(1, slow))
        .prop_map(|(client, name, link, trap, info_err, init)| Op::Start { client, name, link, trap, info_err, init })
        .boxed()
}

fn ops(lifecycle: bool, real_time: bool) -> BoxedStrategy<Case> {
    let short = if real_time { 0.3 } else { 0.0 };
    let k = if lifecycle { 3 } else { 1 };
    let op = weighted(vec![
        (2 * k, start_op(if real_time { 2 } else { 0 })),
        (8, (any::<u8>(), target(), act(1), proptest::bool::weighted(short)).prop_map(|(client, to, act, short)| Op::Call { client, to, act, short }).boxed()),
        (2 * k, (any::<u8>(), target(), proptest::collection::vec(act(1), 1..4)).prop_map(|(client, to, acts)| Op::Casts { client, to, acts }).boxed()),
        (1, (any::<u8>(), proptest::collection::vec(target(), 0..4), act(0)).prop_map(|(client, to, act)| Op::CastMany { client, to, act }).boxed()),
        (1, (any::<u8>(), target(), act(0), any::<u8>()).prop_map(|(client, to, act, delay)| Op::CastAfter { client, to, act, delay }).boxed()),
        (1, any::<u8>().prop_map(Op::Advance).boxed()),
        (6, any::<u8>().prop_map(|call| Op::Reply { call }).boxed()),
        (k, (any::<u8>(), target(), any::<u8>(), proptest::bool::weighted(short)).prop_map(|(client, to, reason, short)| Op::Stop { client, to, reason, short }).boxed()),
        (k, (any::<u8>(), any::<u8>()).prop_map(|(server, reason)| Op::ExitServer { server, reason }).boxed()),
        (k, (any::<u8>(), any::<u8>()).prop_map(|(client, reason)| Op::ExitClient { client, reason }).boxed()),
        (if lifecycle { 1 } else { 0 }, any::<u8>().prop_map(Op::QuitClient).boxed()),
        (4, any::<u8>().prop_map(Op::OpenGate).boxed()),
        (if real_time { 2 } else { 0 }, Just(Op::Expire).boxed()),
    ]);
    let first = proptest::collection::vec(start_op(0), 1..3);
    (proptest::collection::vec(any::<bool>(), 4), first, proptest::collection::vec(op, 4..30))
        .prop_map(|(traps, first, rest)| Case { traps, ops: first.into_iter().chain(rest).collect() })
        .boxed()
}

// ---------------------------------------------------------------- real parallelism

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct ParCase {
    workers: u8,
    servers: u8,
    callers: u8,
    calls: u8,
    chaos: u16,
    seed: u64,
}

struct ParServer {
    seed: u64,
    held: Vec<(From, PMsg)>,
    casts: HashMap<u64, u64>,
    bad: Arc<Mutex<Vec<String>>>,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
enum PMsg {
    Ask { caller: u64, n: u64 },
    Tell { caller: u64, n: u64 },
    Answer { caller: u64, n: u64, server: u64 },
    Casts { caller: u64 },
    Count(u64),
    Flush,
}

fn mix(a: u64, b: u64, c: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0x9E3779B97F4A7C15) ^ c.wrapping_mul(0xD6E8FEB86659FD93);
    x ^= x >> 32;
    x = x.wrapping_mul(0xD6E8FEB86659FD93);
    x ^ (x >> 29)
}

impl GenServer for ParServer {
    type Message = PMsg;
    async fn init(&mut self) -> Result<(), ExitReason> {
        Ok(())
    }
    async fn handle_cast(&mut self, m: PMsg) -> Result<(), ExitReason> {
        if let PMsg::Tell { caller, n } = m {
            let next = self.casts.entry(caller).or_default();
            if *next != n {
                self.bad.lock().unwrap().push(format!("cast {n} of caller {caller} arrived when {next} was due"));
            }
            *next += 1;
        } else {
            for (from, answer) in self.held.drain(..).rev() {
                ParServer::reply(from, answer);
            }
        }
        Ok(())
    }
    async fn handle_call(&mut self, m: PMsg, from: From) -> Result<Option<PMsg>, ExitReason> {
        match m {
            PMsg::Casts { caller } => return Ok(Some(PMsg::Count(self.casts.get(&caller).copied().unwrap_or(0)))),
            PMsg::Ask { caller, n } => {
                let answer = PMsg::Answer { caller, n, server: self.seed };
                match mix(self.seed, caller, n) % 6 {
                    0 | 1 => return Ok(Some(answer)),
                    2 => ParServer::reply(from, answer),
                    3 => {
                        Process::spawn(async move {
                            tokio::task::yield_now().await;
                            ParServer::reply(from, answer)
                        });
                    }
                    4 => {
                        ParServer::reply(from, answer.clone());
                        return Ok(Some(answer));
                    }
                    // Answered later, the last one first.
                    _ => {
                        ParServer::cast_after(Process::current(), PMsg::Flush, Duration::from_micros(300));
                        self.held.push((from, answer));
                    }
                }
                Ok(None)
            }
            _ => Ok(None),
        }
    }
}

fn run_parallel(case: &ParCase) -> Outcome {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2 + case.workers as usize % 6).enable_all().build().unwrap();
    let case = case.clone();
    let prefix = format!("gp{}-", CASES.fetch_add(1, Ordering::Relaxed));
    hydra::verif::set_chaos(case.chaos as u64 % 64, case.seed);
    let out = rt.block_on(async move {
        let bad: Arc<Mutex<Vec<String>>> = Default::default();
        let servers = 1 + case.servers as usize % 3;
        let callers = 2 + case.callers as u64 % 10;
        let calls = 5 + case.calls as u64 % 30;
        let mut pids = vec![];
        for s in 0..servers {
            let bad = bad.clone();
            let prefix = prefix.clone();
            let (tx, rx) = tokio::sync::oneshot::channel();
            Process::spawn(async move {
                let r = ParServer { seed: s as u64, held: vec![], casts: HashMap::new(), bad }
                    .start(GenServerOptions::new().name(format!("{prefix}{s}")))
                    .await;
                let _ = tx.send(r);
            });
            match rx.await {
                Ok(Ok(p)) => pids.push(p),
                r => return Outcome::fail(format!("starting server {s}: {r:?}")),
            }
        }
        let mut waits = vec![];
        for c in 0..callers {
            let (tx, rx) = tokio::sync::oneshot::channel();
            let (pids, bad, prefix) = (pids.clone(), bad.clone(), prefix.clone());
            Process::spawn(async move {
                let mut told = vec![0u64; pids.len()];
                for n in 0..calls {
                    let h = mix(case.seed, c, n);
                    let s = (h % pids.len() as u64) as usize;
                    let to: Dest = if h & 256 == 0 { pids[s].into() } else { Dest::from(format!("{prefix}{s}")) };
                    for _ in 0..(h >> 10) % 3 {
                        ParServer::cast(to.clone(), PMsg::Tell { caller: c, n: told[s] });
                        told[s] += 1;
                    }
                    match ParServer::call(to, PMsg::Ask { caller: c, n }, Some(Duration::from_secs(60))).await {
                        Ok(PMsg::Answer { caller, n: m, server }) if caller == c && m == n && server == s as u64 => {}
                        r => bad.lock().unwrap().push(format!("caller {c} call {n} to server {s} got {r:?}")),
                    }
                }
                for (s, pid) in pids.iter().enumerate() {
                    match ParServer::call(*pid, PMsg::Casts { caller: c }, Some(Duration::from_secs(60))).await {
                        Ok(PMsg::Count(n)) if n == told[s] => {}
                        r => bad.lock().unwrap().push(format!("caller {c} cast {} to server {s}, it saw {r:?}", told[s])),
                    }
                }
                let _ = tx.send(());
            });
            waits.push(rx);
        }
        for (c, w) in waits.into_iter().enumerate() {
            if w.await.is_err() {
                return Outcome::fail(format!("caller {c} died"));
            }
        }
        if let Some(b) = bad.lock().unwrap().first() {
            return Outcome::fail(b.clone());
        }
        for (s, p) in pids.iter().enumerate() {
            match Process::info(*p) {
                Some(i) if i.monitored_by.is_empty() => {}
                i => return Outcome::fail(format!("server {s} after all calls: {i:?}")),
            }
        }
        let (tx, rx) = tokio::sync::oneshot::channel();
        Process::spawn(async move {
            let mut r = vec![];
            for p in pids {
                r.push((ParServer::stop(p, ExitReason::from("done"), None).await, Process::alive(p)));
            }
            let _ = tx.send(r);
        });
        for (r, alive) in rx.await.unwrap() {
            if r.is_err() || alive {
                return Outcome::fail(format!("stop returned {r:?}, alive afterwards: {alive}"));
            }
        }
        Outcome::ok(callers >= 3 && calls >= 8)
    });
    hydra::verif::set_chaos(0, 0);
    rt.shutdown_background();
    out
}

// ---------------------------------------------------------------- the default timeout

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct DefCase {
    delays: Vec<u16>,
}

struct DefServer;
impl GenServer for DefServer {
    type Message = u64;
    async fn init(&mut self) -> Result<(), ExitReason> {
        Ok(())
    }
    async fn handle_call(&mut self, delay: u64, from: From) -> Result<Option<u64>, ExitReason> {
        Process::spawn(async move {
            Process::sleep(Duration::from_millis(delay)).await;
            DefServer::reply(from, delay + 1);
        });
        Ok(None)
    }
}

fn run_default(case: &DefCase) -> Outcome {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    let delays: Vec<u64> = case.delays.iter().map(|d| *d as u64).collect();
    let out = rt.block_on(async move {
        let (tx, mut rx) = mpsc::unbounded_channel();
        let n = delays.len();
        Process::spawn(async move {
            let pid = DefServer.start(GenServerOptions::new()).await.unwrap();
            for d in delays {
                let tx = tx.clone();
                // Each call with its own explicit timeout (even), or the default one (odd).
                Process::spawn(async move {
                    let timeout = d.is_multiple_of(2).then(|| Duration::from_millis(d / 2 + 200));
                    let since = Instant::now();
                    let r = DefServer::call(pid, d, timeout).await;
                    let _ = tx.send((d, timeout, r.map_err(|e| format!("{e:?}")), since.elapsed()));
                });
            }
        });
        for _ in 0..n {
            let Some((d, timeout, r, took)) = rx.recv().await else { return Outcome::fail("a caller died") };
            let limit = timeout.unwrap_or(Duration::from_secs(5));
            let delay = Duration::from_millis(d);
            match r {
                Ok(v) if v == d + 1 => {
                    if took + SLACK < delay {
                        return Outcome::fail(format!("the reply after {delay:?} arrived after {took:?}"));
                    }
                    if delay > limit + Duration::from_millis(700) {
                        return Outcome::fail(format!("a reply after {delay:?} was accepted although the timeout is {limit:?}"));
                    }
                }
                Err(e) if e.starts_with("Timeout") => {
                    if took + SLACK < limit {
                        return Outcome::fail(format!("timed out after {took:?} of {limit:?}"));
                    }
                    if took < delay.saturating_sub(Duration::from_millis(1)) && took > limit + Duration::from_secs(5) {
                        return Outcome::fail(format!("timed out only after {took:?} of {limit:?}"));
                    }
                }
                r => return Outcome::fail(format!("call with delay {delay:?}: {r:?}")),
            }
        }
        Outcome::ok(true)
    });
    rt.shutdown_background();
    out
}

pub fn subs(id: &str) -> (Vec<Box<dyn DynSub>>, &'static str, Vec<&'static str>) {
    let lifecycle = id == "C11";
    let history = Sub::new("history", (400_000, 15), move || ops(lifecycle, false), run).hang_violates(Duration::from_secs(60));
    let timed = Sub::new("timeouts", (60_000, 15), move || ops(lifecycle, true), run).threads(32).shrink(200).hang_violates(Duration::from_secs(60));
    let mut v = vec![history.boxed(), timed.boxed()];
    if id == "C10" {
        v.push(crate::cluster::nodes_sub(id));
        v.push(
            Sub::new(
                "parallel",
                (3000, 15),
                || {
                    (any::<u8>(), any::<u8>(), any::<u8>(), any::<u8>(), any::<u16>(), any::<u64>())
                        .prop_map(|(workers, servers, callers, calls, chaos, seed)| ParCase { workers, servers, callers, calls, chaos, seed })
                        .boxed()
                },
                run_parallel,
            )
            .threads(3)
            .shrink(60)
            .boxed(),
        );
        v.push(
            Sub::new(
                "delays",
                (8, 8),
                || proptest::collection::vec(prop_oneof![0u16..4800, 0u16..800], 60).prop_map(|delays| DefCase { delays }).boxed(),
                run_default,
            )
            .shrink(2)
            .boxed(),
        );
    }
    (
        v,
        "history, timeouts: at least one call got its reply and three of the interesting situations (classes) occurred; parallel: at least three callers making eight calls each at the same time; delays: always",
        vec![
            "timeouts may fire up to 2 ms early (resolution of the timer) and must fire within 10 s",
            "a late or repeated reply to a local caller may reach its handle_info, never a call",
            "callbacks and init failing with Ignore are not generated",
        ],
    )
}

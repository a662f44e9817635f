//! Stateful model-based testing of the local process layer (C01-C09).
//!
//! A case is a history of operations.  Each operation hands a batch of commands to one actor process, which runs
//! them without yielding (so the batch is atomic), after which the paused-clock runtime runs until it is idle.  A
//! reference model predicts every return value, every message and the state of every process.
use crate::prop::*;
use hydra::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::future::{Future, poll_fn};
use std::pin::pin;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::Poll;
use std::time::Duration;
use tokio::sync::mpsc;

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum DestSel {
    Pid(u8),
    Name(u8),
    Alias(u8),
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum Filter {
    Any,
    User,
    System,
    Odd,
    Mod3,
    Exit,
    Down(u8),
    None,
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum Cmd {
    Send { to: DestSel, ty: u8 },
    SendMany { to: Vec<DestSel>, form: u8, ty: u8 },
    SendAfter { to: Vec<DestSel>, single: bool, ty: u8, delay: u16 },
    Cancel(u8),
    ReadTimer(u8),
    Spawn { kind: u8, body: u8, trap: bool },
    Link(u8),
    Unlink(u8),
    Monitor(DestSel),
    MonitorAlias(DestSel, bool),
    Demonitor(u8),
    Alias(bool),
    Unalias(u8),
    Trap(bool),
    Exit(u8, u8),
    Alive(u8),
    Register(u8, u8),
    Unregister(u8),
    Whereis(u8),
    Recv { ty: u8, filter: Filter, strict: bool },
    Remove { ty: u8, filter: Filter },
    Wait { ty: u8, filter: Filter, strict: bool, timeout: u8 },
    Return,
    Panic(u8),
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum Op {
    Act { actor: u8, cmds: Vec<Cmd> },
    Advance(u16),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Case {
    pub traps: Vec<bool>,
    pub ops: Vec<Op>,
}

// ---------------------------------------------------------------- messages

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct MA {
    a_id: u32,
    a_text: String,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct MB {
    b_id: u32,
    b_list: Vec<Option<(i64, f64)>>,
    b_map: BTreeMap<String, Vec<u8>>,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct MC {
    c_id: u32,
    c_pid: Pid,
    c_refs: Vec<Reference>,
    c_dest: Vec<Dest>,
    c_nodes: (Node, Option<Node>),
    c_nested: Option<Box<MC>>,
}

const UNBLOCK: u32 = u32::MAX;

fn content_a(id: u32) -> MA {
    MA { a_id: id, a_text: "é\u{0}x".repeat((id % 5) as usize) }
}
fn content_b(id: u32) -> MB {
    MB {
        b_id: id,
        b_list: (0..id % 4).map(|i| if i == 2 { None } else { Some((-(id as i64) << (i * 9), i as f64 / 3.0)) }).collect(),
        b_map: (0..id % 3).map(|i| (format!("k{i}"), vec![id as u8; i as usize * 40])).collect(),
    }
}

trait Msg: Receivable + Clone + PartialEq {
    fn id(&self) -> u32;
}
impl Msg for MA {
    fn id(&self) -> u32 {
        self.a_id
    }
}
impl Msg for MB {
    fn id(&self) -> u32 {
        self.b_id
    }
}
impl Msg for MC {
    fn id(&self) -> u32 {
        self.c_id
    }
}

// ---------------------------------------------------------------- concrete commands and results

#[derive(Clone, Debug, PartialEq)]
enum CDest {
    Pid(usize),
    Name(usize),
    Ref(usize),
}

#[derive(Clone, Debug)]
enum CFilter {
    Any,
    User,
    System,
    Odd,
    Mod3,
    Exit,
    Down(Option<usize>),
    None,
}

#[derive(Clone, Debug)]
enum CCmd {
    Send(CDest, u8, u32),
    SendMany(Vec<CDest>, u8, u8, u32),
    SendAfter(Vec<CDest>, bool, u8, u32, u64),
    Cancel(usize),
    ReadTimer(usize),
    Spawn { kind: u8, body: u8, trap: bool },
    Link(usize),
    Unlink(usize),
    Monitor(CDest),
    MonitorAlias(CDest, bool),
    Demonitor(usize),
    Alias(bool),
    Unalias(usize),
    Trap(bool),
    Exit(usize, ExitReason),
    Alive(usize),
    Register(usize, usize),
    Unregister(usize),
    Whereis(usize),
    Recv(u8, CFilter, bool),
    Remove(u8, CFilter),
    Wait(u8, CFilter, bool, u64),
    Return,
    Panic(u8),
    Drain,
}

#[derive(Clone, Debug)]
enum Obs {
    User { ty: u8, id: u32, intact: bool },
    Exit(Pid, ExitReason),
    Down(Dest, Reference, ExitReason),
    Node,
}

#[derive(Clone, Debug)]
enum Res {
    Unit,
    Bool(bool),
    Whereis(Option<Pid>),
    Timer(Option<Duration>),
    Recv(Option<Obs>),
    Drained(Vec<Vec<Obs>>),
    Flags(bool),
}

/// Things that exist in the case, by index.
struct World {
    pids: Vec<Pid>,
    refs: Vec<Reference>,
    timers: Vec<Reference>,
    sent_c: HashMap<u32, MC>,
    results: Vec<Res>,
    waits: HashMap<usize, Option<Obs>>,
    prefix: String,
    ctl: Vec<Option<mpsc::UnboundedSender<Vec<CCmd>>>>,
}
type W = Arc<Mutex<World>>;

impl World {
    fn name(&self, n: usize) -> String {
        format!("{}n{}", self.prefix, n)
    }
    fn dest(&self, d: &CDest) -> Dest {
        match d {
            CDest::Pid(p) => Dest::from(self.pids[*p]),
            CDest::Name(n) => Dest::from(self.name(*n)),
            CDest::Ref(r) => Dest::from(self.refs[*r]),
        }
    }
}

fn obs_user<T: Msg>(ty: u8, w: &W, m: T) -> Obs {
    let id = m.id();
    let any: &dyn std::any::Any = &m;
    let intact = if let Some(a) = any.downcast_ref::<MA>() {
        *a == content_a(id)
    } else if let Some(b) = any.downcast_ref::<MB>() {
        *b == content_b(id)
    } else if let Some(c) = any.downcast_ref::<MC>() {
        id == UNBLOCK || w.lock().unwrap().sent_c.get(&id) == Some(c)
    } else {
        false
    };
    Obs::User { ty, id, intact }
}

fn obs<T: Msg>(ty: u8, w: &W, m: Message<T>) -> Obs {
    match m {
        Message::User(m) => obs_user(ty, w, m),
        Message::System(SystemMessage::Exit(p, r)) => Obs::Exit(p, r),
        Message::System(SystemMessage::ProcessDown(d, r, e)) => Obs::Down(d, r, e),
        Message::System(SystemMessage::NodeDown(..)) => Obs::Node,
    }
}

fn accept<T: Msg>(f: &CFilter, refs: &[Reference], m: &Message<&T>) -> bool {
    if let Message::User(u) = m {
        if u.id() == UNBLOCK {
            return true;
        }
    }
    match (f, m) {
        (CFilter::None, _) => false,
        (CFilter::Any, _) => true,
        (CFilter::User, Message::User(_)) => true,
        (CFilter::System, Message::System(_)) => true,
        (CFilter::Odd, Message::User(u)) => u.id() % 2 == 1,
        (CFilter::Mod3, Message::User(u)) => u.id() % 3 == 0,
        (CFilter::Exit, Message::System(SystemMessage::Exit(..))) => true,
        (CFilter::Down(Some(r)), Message::System(SystemMessage::ProcessDown(_, x, _))) => refs[*r] == *x,
        _ => false,
    }
}

fn receiver<T: Msg>(strict: bool) -> ProcessReceiver<T> {
    let r = Process::receiver();
    if strict { r.strict_type_checking().for_message::<T>() } else { r.for_message::<T>() }
}

/// Polls a receive exactly once.
async fn recv_once<T: Msg>(ty: u8, w: &W, f: &CFilter, strict: bool) -> Option<Obs> {
    let refs = w.lock().unwrap().refs.clone();
    let mut fut = pin!(receiver::<T>(strict).select(move |m| accept(f, &refs, m)));
    let got = poll_fn(|cx| {
        Poll::Ready(match fut.as_mut().poll(cx) {
            Poll::Ready(m) => Some(m),
            Poll::Pending => None,
        })
    })
    .await;
    got.map(|m| obs(ty, w, m))
}

async fn recv_wait<T: Msg>(ty: u8, w: &W, f: &CFilter, strict: bool, timeout: u64) -> Option<Obs> {
    let refs = w.lock().unwrap().refs.clone();
    let fut = async move {
        if strict && matches!(f, CFilter::Any) {
            Process::receive::<T>().await
        } else {
            receiver::<T>(strict).select(move |m| accept(f, &refs, m)).await
        }
    };
    let got = if timeout == 0 {
        Some(fut.await)
    } else {
        tokio::time::timeout(Duration::from_millis(timeout), fut).await.ok()
    };
    got.map(|m| obs(ty, w, m))
}

fn remove<T: Msg>(w: &W, f: &CFilter) {
    let refs = w.lock().unwrap().refs.clone();
    receiver::<T>(false).remove(|m| accept(f, &refs, m));
}

fn send_form<M: Msg>(w: &W, to: &[CDest], form: u8, m: M) {
    let dests: Vec<Dest> = { let g = w.lock().unwrap(); to.iter().map(|d| g.dest(d)).collect() };
    let all_pids: Option<Vec<Pid>> = dests.iter().map(|d| if let Dest::Pid(p) = d { Some(*p) } else { None }).collect();
    match (form % 7, all_pids) {
        (3, Some(p)) => Process::send(p, m),
        (4, Some(p)) => Process::send(&p[..], m),
        (5, Some(p)) => Process::send(&p, m),
        (6, Some(p)) => Process::send(p.into_iter().collect::<Dests>(), m),
        (1, _) => Process::send(&dests[..], m),
        (2, _) => Process::send(dests.into_iter().collect::<Dests>(), m),
        _ => Process::send(dests, m),
    }
}

fn build_c(w: &W, id: u32) -> MC {
    let mut g = w.lock().unwrap();
    let pid = g.pids[id as usize % g.pids.len()];
    let refs: Vec<Reference> = g.refs.iter().copied().take(id as usize % 4).collect();
    let ghost = Node::from(("ghost", "127.0.0.1:9".parse::<std::net::SocketAddr>().unwrap()));
    let mut m = MC {
        c_id: id,
        c_pid: pid,
        c_refs: refs.clone(),
        c_dest: std::iter::once(Dest::from(pid))
            .chain(refs.iter().map(|r| Dest::from(*r)))
            .chain(std::iter::once(Dest::from(("some name".to_string(), if id % 2 == 0 { Node::Local } else { ghost.clone() }))))
            .collect(),
        c_nodes: (Node::Local, if id % 3 == 0 { None } else { Some(ghost) }),
        c_nested: None,
    };
    if id % 5 == 0 {
        m.c_nested = Some(Box::new(m.clone()));
    }
    g.sent_c.insert(id, m.clone());
    m
}

fn do_send(w: &W, d: &CDest, ty: u8, id: u32) {
    let dest = w.lock().unwrap().dest(d);
    match ty {
        0 => Process::send(dest, content_a(id)),
        1 => Process::send(dest, content_b(id)),
        _ => {
            let m = build_c(w, id);
            match dest {
                Dest::Pid(p) => Process::send(p, m),
                Dest::Alias(r) => Process::send(r, m),
                Dest::Named(n, _) => Process::send(n.into_owned(), m),
            }
        }
    }
}

fn body_reason(body: u8) -> Option<(ExitReason, bool)> {
    // (reason, exact)
    match body {
        1 => Some((ExitReason::Normal, true)),
        2 => Some((ExitReason::from("static boom"), true)),
        3 => Some((ExitReason::from("boom 42"), true)),
        4 => Some((ExitReason::from("Unknown error!"), false)),
        5 => Some((ExitReason::from("self"), true)),
        6 => Some((ExitReason::Kill, true)),
        _ => None,
    }
}

fn panic_kind(kind: u8) {
    match kind {
        0 => panic!("static boom"),
        1 => std::panic::panic_any(format!("boom {}", 42)),
        _ => std::panic::panic_any(42u64),
    }
}

fn spawn_body(w: &W, idx: usize, body: u8, trap: bool, rx: mpsc::UnboundedReceiver<Vec<CCmd>>) -> impl Future<Output = ()> + Send + 'static {
    let w = w.clone();
    async move {
        if trap {
            Process::set_flags(ProcessFlags::TRAP_EXIT);
        }
        match body {
            1 => {}
            2 => panic_kind(0),
            3 => panic_kind(1),
            4 => panic_kind(2),
            5 => {
                Process::exit(Process::current(), "self");
                tokio::task::yield_now().await;
            }
            6 => {
                Process::exit(Process::current(), ExitReason::Kill);
                tokio::task::yield_now().await;
            }
            _ => actor(w, idx, rx).await,
        }
    }
}

async fn actor(w: W, idx: usize, mut rx: mpsc::UnboundedReceiver<Vec<CCmd>>) {
    while let Some(cmds) = rx.recv().await {
        for cmd in cmds {
            let res = match &cmd {
                CCmd::Send(d, ty, id) => {
                    do_send(&w, d, *ty, *id);
                    Res::Unit
                }
                CCmd::SendMany(to, form, ty, id) => {
                    match ty {
                        0 => send_form(&w, to, *form, content_a(*id)),
                        1 => send_form(&w, to, *form, content_b(*id)),
                        _ => {
                            let m = build_c(&w, *id);
                            send_form(&w, to, *form, m)
                        }
                    }
                    Res::Unit
                }
                CCmd::SendAfter(to, single, ty, id, delay) => {
                    let dests: Vec<Dest> = { let g = w.lock().unwrap(); to.iter().map(|d| g.dest(d)).collect() };
                    let d = Duration::from_millis(*delay);
                    let r = match (ty, *single) {
                        (0, true) => Process::send_after(dests[0].clone(), content_a(*id), d),
                        (0, _) => Process::send_after(dests, content_a(*id), d),
                        (_, true) => Process::send_after(dests[0].clone(), content_b(*id), d),
                        (_, _) => Process::send_after(dests, content_b(*id), d),
                    };
                    w.lock().unwrap().timers.push(r);
                    Res::Unit
                }
                CCmd::Cancel(t) => {
                    let r = w.lock().unwrap().timers[*t];
                    Process::cancel_timer(r);
                    Res::Unit
                }
                CCmd::ReadTimer(t) => {
                    let r = w.lock().unwrap().timers[*t];
                    Res::Timer(Process::read_timer(r))
                }
                CCmd::Spawn { kind, body, trap } => {
                    let (tx, rx) = mpsc::unbounded_channel();
                    let idx = w.lock().unwrap().pids.len();
                    let fut = spawn_body(&w, idx, *body, *trap, rx);
                    let (pid, r) = match kind {
                        0 => (Process::spawn(fut), None),
                        1 => (Process::spawn_link(fut), None),
                        _ => {
                            let (p, r) = Process::spawn_monitor(fut);
                            (p, Some(r))
                        }
                    };
                    let mut g = w.lock().unwrap();
                    g.pids.push(pid);
                    g.ctl.push(Some(tx));
                    if let Some(r) = r {
                        g.refs.push(r);
                    }
                    Res::Unit
                }
                CCmd::Link(p) => {
                    let p = w.lock().unwrap().pids[*p];
                    Process::link(p);
                    Res::Unit
                }
                CCmd::Unlink(p) => {
                    let p = w.lock().unwrap().pids[*p];
                    Process::unlink(p);
                    Res::Unit
                }
                CCmd::Monitor(d) => {
                    let d = w.lock().unwrap().dest(d);
                    let r = Process::monitor(d);
                    w.lock().unwrap().refs.push(r);
                    Res::Unit
                }
                CCmd::MonitorAlias(d, reply) => {
                    let d = w.lock().unwrap().dest(d);
                    let r = Process::monitor_alias(d, *reply);
                    w.lock().unwrap().refs.push(r);
                    Res::Unit
                }
                CCmd::Demonitor(r) => {
                    let r = w.lock().unwrap().refs[*r];
                    Process::demonitor(r);
                    Res::Unit
                }
                CCmd::Alias(reply) => {
                    let r = Process::alias(*reply);
                    w.lock().unwrap().refs.push(r);
                    Res::Unit
                }
                CCmd::Unalias(r) => {
                    let r = w.lock().unwrap().refs[*r];
                    Res::Bool(Process::unalias(r))
                }
                CCmd::Trap(on) => {
                    Process::set_flags(if *on { ProcessFlags::TRAP_EXIT } else { ProcessFlags::empty() });
                    Res::Flags(Process::flags().contains(ProcessFlags::TRAP_EXIT))
                }
                CCmd::Exit(p, reason) => {
                    let p = w.lock().unwrap().pids[*p];
                    Process::exit(p, reason.clone());
                    Res::Unit
                }
                CCmd::Alive(p) => {
                    let p = w.lock().unwrap().pids[*p];
                    Res::Bool(Process::alive(p))
                }
                CCmd::Register(p, n) => {
                    let (p, n) = { let g = w.lock().unwrap(); (g.pids[*p], g.name(*n)) };
                    Res::Bool(Process::register(p, n).is_ok())
                }
                CCmd::Unregister(n) => {
                    let n = w.lock().unwrap().name(*n);
                    Process::unregister(n);
                    Res::Unit
                }
                CCmd::Whereis(n) => {
                    let n = w.lock().unwrap().name(*n);
                    Res::Whereis(Process::whereis(n))
                }
                CCmd::Recv(ty, f, strict) => Res::Recv(match ty {
                    0 => recv_once::<MA>(0, &w, f, *strict).await,
                    1 => recv_once::<MB>(1, &w, f, *strict).await,
                    _ => recv_once::<MC>(2, &w, f, *strict).await,
                }),
                CCmd::Remove(ty, f) => {
                    match ty {
                        0 => remove::<MA>(&w, f),
                        1 => remove::<MB>(&w, f),
                        _ => remove::<MC>(&w, f),
                    }
                    Res::Unit
                }
                CCmd::Wait(ty, f, strict, timeout) => {
                    let got = match ty {
                        0 => recv_wait::<MA>(0, &w, f, *strict, *timeout).await,
                        1 => recv_wait::<MB>(1, &w, f, *strict, *timeout).await,
                        _ => recv_wait::<MC>(2, &w, f, *strict, *timeout).await,
                    };
                    w.lock().unwrap().waits.insert(idx, got);
                    continue;
                }
                CCmd::Return => return,
                CCmd::Panic(k) => {
                    panic_kind(*k);
                    Res::Unit
                }
                CCmd::Drain => {
                    let mut all = Vec::new();
                    for ty in 0..3u8 {
                        let mut got = Vec::new();
                        loop {
                            let o = match ty {
                                0 => recv_once::<MA>(0, &w, &CFilter::Any, false).await,
                                1 => recv_once::<MB>(1, &w, &CFilter::Any, false).await,
                                _ => recv_once::<MC>(2, &w, &CFilter::Any, false).await,
                            };
                            match o {
                                Some(o) => got.push(o),
                                None => break,
                            }
                        }
                        all.push(got);
                    }
                    Res::Drained(all)
                }
            };
            w.lock().unwrap().results.push(res);
        }
    }
}

// ---------------------------------------------------------------- model

type Cands = Vec<ExitReason>;
const ANY: &str = "\u{1}any custom reason";

fn matches_reason(c: &Cands, r: &ExitReason) -> bool {
    c.iter().any(|c| c == r || (*c == ANY && r.is_custom()))
}

#[derive(Clone, Debug)]
enum Kind {
    User { ty: u8, id: u32 },
    Exit(usize, Cands),
    Down { mon: usize, reason: Cands },
}

#[derive(Clone, Debug)]
struct Entry {
    kind: Kind,
    epoch: u64,
}

#[derive(Clone, Debug)]
struct WaitM {
    ty: u8,
    filter: CFilter,
    strict: bool,
    deadline: u64, // 0: none
}

#[derive(Clone, Debug, Default)]
struct MProc {
    alive: bool,
    /// Flagged by a direct signal (reason final).
    direct: Option<ExitReason>,
    /// Will end by itself when it runs next.
    will_end: Option<ExitReason>,
    trap: bool,
    /// Told to trap exits once it runs.
    want_trap: bool,
    name: Option<usize>,
    mailbox: Vec<Entry>,
    links: BTreeSet<usize>,
    wait: Option<WaitM>,
    actor: bool,
    probed: bool,
}

#[derive(Clone, Debug)]
struct MRef {
    owner: usize,
    monitor: Option<MMon>,
    alias: Option<MAlias>,
}
#[derive(Clone, Debug)]
struct MMon {
    target: Option<usize>,
    dest: CDest,
    active: bool,
    or_noproc: bool,
}
#[derive(Clone, Debug)]
struct MAlias {
    reply: bool,
    active: bool,
}
#[derive(Clone, Debug)]
struct MTimer {
    to: Vec<CDest>,
    ty: u8,
    id: u32,
    deadline: u64,
    delay: u64,
    pending: bool,
}

#[derive(Debug)]
enum Expect {
    Any,
    Unit,
    Bool(bool),
    Whereis(Option<usize>),
    Timer(Option<u64>),
    Recv(Vec<Option<Entry>>),
}

#[derive(Default)]
struct Model {
    procs: Vec<MProc>,
    refs: Vec<MRef>,
    timers: Vec<MTimer>,
    names: BTreeMap<usize, usize>,
    epoch: u64,
    now: u64,
    next_id: u32,
    ambiguous: bool,
    /// Down reasons expected by the probe: pid index -> candidates.
    probe: BTreeMap<usize, Cands>,
    /// Results expected from waits that completed: proc -> candidates (None: timed out).
    wait_done: Vec<(usize, Vec<Option<Entry>>)>,
    cls: BTreeSet<&'static str>,
}

enum Pick {
    Nothing,
    Panic,
    Some(Vec<usize>),
}

impl Model {
    fn dying(&self, p: usize) -> bool {
        self.procs[p].direct.is_some()
    }
    fn exists(&self, p: usize) -> bool {
        self.procs[p].alive
    }
    fn fmatch(&self, f: &CFilter, e: &Entry) -> bool {
        match (f, &e.kind) {
            (_, Kind::User { id, .. }) if *id == UNBLOCK => true,
            (CFilter::None, _) => false,
            (CFilter::Any, _) => true,
            (CFilter::User, Kind::User { .. }) => true,
            (CFilter::System, Kind::Exit(..) | Kind::Down { .. }) => true,
            (CFilter::Odd, Kind::User { id, .. }) => id % 2 == 1,
            (CFilter::Mod3, Kind::User { id, .. }) => id % 3 == 0,
            (CFilter::Exit, Kind::Exit(..)) => true,
            (CFilter::Down(Some(m)), Kind::Down { mon, .. }) => mon == m,
            _ => false,
        }
    }
    fn typed(ty: u8, e: &Entry) -> bool {
        match e.kind {
            Kind::User { ty: t, .. } => t == ty,
            _ => true,
        }
    }
    /// Which entries a receive may take.
    fn pick(&mut self, p: usize, ty: u8, f: &CFilter, strict: bool) -> Pick {
        let mb = &self.procs[p].mailbox;
        for (i, e) in mb.iter().enumerate() {
            if !Self::typed(ty, e) {
                if strict {
                    // Another entry of the same epoch may come first.
                    if mb.iter().enumerate().any(|(j, o)| j != i && o.epoch == e.epoch) {
                        self.ambiguous = true;
                    }
                    return Pick::Panic;
                }
                continue;
            }
            if self.fmatch(f, e) {
                let epoch = e.epoch;
                let all: Vec<usize> =
                    (i..mb.len()).filter(|j| mb[*j].epoch == epoch && Self::typed(ty, &mb[*j]) && self.fmatch(f, &mb[*j])).collect();
                if strict && mb.iter().any(|o| o.epoch == epoch && !Self::typed(ty, o)) {
                    self.ambiguous = true;
                }
                return Pick::Some(all);
            }
        }
        Pick::Nothing
    }
    fn push(&mut self, p: usize, kind: Kind, epoch: u64) {
        if self.procs[p].alive {
            self.procs[p].mailbox.push(Entry { kind, epoch });
        }
    }
    fn resolve(&mut self, d: &CDest) -> Option<usize> {
        match d {
            CDest::Pid(p) => self.exists(*p).then_some(*p),
            CDest::Name(n) => self.names.get(n).copied(),
            CDest::Ref(r) => {
                let r = &mut self.refs[*r];
                let a = r.alias.as_mut()?;
                if !a.active {
                    return None;
                }
                if a.reply {
                    a.active = false;
                }
                Some(r.owner)
            }
        }
    }
    fn deliver(&mut self, d: &CDest, ty: u8, id: u32, epoch: u64) {
        if let Some(p) = self.resolve(d) {
            if matches!(d, CDest::Ref(_)) {
                self.cls.insert("alias_delivery");
            }
            self.push(p, Kind::User { ty, id }, epoch);
        }
    }
    fn flag(&mut self, p: usize, r: ExitReason) {
        if self.procs[p].alive && self.procs[p].direct.is_none() {
            self.procs[p].direct = Some(r);
        }
    }
    fn tick_epoch(&mut self) -> u64 {
        self.epoch += 1;
        self.epoch
    }
    fn new_monitor(&mut self, owner: usize, dest: CDest, alias: Option<bool>) {
        let target = match &dest {
            CDest::Pid(p) => self.exists(*p).then_some(*p),
            CDest::Name(n) => self.names.get(n).copied(),
            _ => unreachable!(),
        };
        let or_noproc = target.is_some_and(|t| self.dying(t));
        let idx = self.refs.len();
        self.refs.push(MRef {
            owner,
            monitor: Some(MMon { target, dest, active: target.is_some(), or_noproc }),
            alias: alias.map(|reply| MAlias { reply, active: target.is_some() }),
        });
        if target.is_none() {
            self.cls.insert("monitor_noproc");
            let e = self.tick_epoch();
            self.push(owner, Kind::Down { mon: idx, reason: vec![ExitReason::from("noproc")] }, e);
        }
    }

    /// Everything that happens once the actor yields; `epoch` groups the effects.
    fn settle(&mut self, epoch: u64) {
        // Waiting receivers run: complete or panic.
        for p in 0..self.procs.len() {
            if !self.procs[p].alive || self.procs[p].direct.is_some() {
                continue;
            }
            self.try_wait(p);
        }
        // Closure of deaths.
        let n = self.procs.len();
        let mut cands: Vec<Option<Cands>> = vec![None; n];
        let mut open = vec![true; n];
        for p in 0..n {
            let q = &self.procs[p];
            if !q.alive {
                continue;
            }
            if let Some(r) = &q.direct {
                cands[p] = Some(vec![r.clone()]);
                open[p] = false;
            } else if let Some(r) = &q.will_end {
                cands[p] = Some(vec![r.clone()]);
            }
        }
        loop {
            let mut changed = false;
            for p in 0..n {
                let Some(cp) = cands[p].clone() else { continue };
                for q in self.procs[p].links.clone() {
                    if !self.procs[q].alive || self.procs[q].trap || !open[q] {
                        continue;
                    }
                    for r in cp.iter().filter(|r| !r.is_normal()) {
                        let cq = cands[q].get_or_insert_with(Vec::new);
                        if !cq.contains(r) {
                            cq.push(r.clone());
                            changed = true;
                            self.cls.insert("link_cascade");
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
        let dead: Vec<usize> = (0..n).filter(|p| cands[*p].is_some()).collect();
        for &p in &dead {
            self.procs[p].alive = false;
        }
        for &p in &dead {
            let c = cands[p].clone().unwrap();
            let links = std::mem::take(&mut self.procs[p].links);
            for q in links {
                self.procs[q].links.remove(&p);
                if self.procs[q].alive && self.procs[q].trap {
                    self.cls.insert("link_trapped");
                    self.push(q, Kind::Exit(p, c.clone()), epoch);
                }
            }
            if let Some(name) = self.procs[p].name.take() {
                if self.names.get(&name) == Some(&p) {
                    self.names.remove(&name);
                    self.cls.insert("name_freed_by_death");
                }
            }
            for m in 0..self.refs.len() {
                let owner = self.refs[m].owner;
                let mut fire = None;
                if let Some(mon) = &mut self.refs[m].monitor {
                    if mon.active && mon.target == Some(p) {
                        mon.active = false;
                        let mut c = c.clone();
                        if mon.or_noproc {
                            c.push(ExitReason::from("noproc"));
                        }
                        fire = Some(c);
                    }
                    if owner == p {
                        mon.active = false;
                    }
                }
                if fire.is_some() || owner == p {
                    if let Some(a) = &mut self.refs[m].alias {
                        a.active = false;
                    }
                }
                if let Some(c) = fire {
                    self.cls.insert("down_delivered");
                    self.push(owner, Kind::Down { mon: m, reason: c }, epoch);
                }
            }
            if self.procs[p].probed {
                self.probe.insert(p, c);
            }
            self.procs[p].mailbox.clear();
            self.procs[p].wait = None;
            self.procs[p].will_end = None;
        }
        // Messages of the deaths may complete waits.
        for p in 0..self.procs.len() {
            if self.procs[p].alive {
                self.try_wait(p);
            }
        }
    }

    fn try_wait(&mut self, p: usize) {
        let Some(w) = self.procs[p].wait.clone() else { return };
        match self.pick(p, w.ty, &w.filter, w.strict) {
            Pick::Nothing => {}
            Pick::Panic => {
                self.cls.insert("strict_panic");
                self.procs[p].will_end = Some(ExitReason::from(ANY));
            }
            Pick::Some(c) => {
                if c.len() > 1 {
                    // Resolved when the result is known.
                    self.ambiguous_wait(p, &c);
                } else {
                    let e = self.procs[p].mailbox.remove(c[0]);
                    self.wait_done.push((p, vec![Some(e)]));
                }
                self.cls.insert("wait_completed");
                self.procs[p].wait = None;
            }
        }
    }
    fn ambiguous_wait(&mut self, _p: usize, _c: &[usize]) {
        // Two effects of one instant both match a waiting receive: which comes first is not specified.
        self.ambiguous = true;
    }
}

// ---------------------------------------------------------------- driver

static CASE_NO: AtomicU64 = AtomicU64::new(0);

struct Driver {
    w: W,
    m: Model,
    probe_ctl: mpsc::UnboundedSender<Pid>,
    probe_log: Arc<Mutex<Vec<(Pid, ExitReason)>>>,
    probe_pid: Pid,
    all_pids: Vec<Pid>,
}

const NAMES: usize = 4;
const TICK: u64 = 2;

async fn quiesce(ms: u64) {
    tokio::time::sleep(Duration::from_millis(ms)).await;
}

impl Driver {
    fn pid_index(&self, p: &Pid) -> Option<usize> {
        self.w.lock().unwrap().pids.iter().position(|x| x == p)
    }
    fn check_entry(&self, e: &Entry, o: &Obs) -> bool {
        match (&e.kind, o) {
            (Kind::User { ty, id }, Obs::User { ty: t, id: i, intact }) => ty == t && id == i && *intact,
            (Kind::Exit(p, c), Obs::Exit(pid, r)) => self.pid_index(pid) == Some(*p) && matches_reason(c, r),
            (Kind::Down { mon, reason }, Obs::Down(d, rf, r)) => {
                let g = self.w.lock().unwrap();
                let m = self.m.refs[*mon].monitor.as_ref().unwrap();
                g.refs[*mon] == *rf && *d == g.dest(&m.dest) && matches_reason(reason, r)
            }
            _ => false,
        }
    }

    fn reason(sel: u8) -> ExitReason {
        match sel % 12 {
            0 | 1 => ExitReason::Normal,
            2 => ExitReason::Ignore,
            3 => ExitReason::Kill,
            4 => ExitReason::from("kill"),
            5 => ExitReason::from("normal"),
            6 => ExitReason::from(""),
            7 => ExitReason::from("shutdown"),
            n => ExitReason::from(format!("reason {n}")),
        }
    }

    /// Resolves a symbolic command against the model, predicts its result and updates the model.
    /// Returns None when the command has no meaning here.
    fn step(&mut self, me: usize, cmd: &Cmd) -> Option<(CCmd, Expect)> {
        let np = self.m.procs.len();
        let nr = self.m.refs.len();
        let nt = self.m.timers.len();
        let cd = |d: &DestSel| -> Option<CDest> {
            Some(match d {
                DestSel::Pid(p) => CDest::Pid(*p as usize % np),
                DestSel::Name(n) => CDest::Name(*n as usize % (NAMES + 1)),
                DestSel::Alias(r) => {
                    if nr == 0 {
                        return None;
                    }
                    CDest::Ref(*r as usize % nr)
                }
            })
        };
        let cf = |f: &Filter| match f {
            Filter::Any => CFilter::Any,
            Filter::User => CFilter::User,
            Filter::System => CFilter::System,
            Filter::Odd => CFilter::Odd,
            Filter::Mod3 => CFilter::Mod3,
            Filter::Exit => CFilter::Exit,
            Filter::Down(m) => CFilter::Down((nr > 0).then(|| *m as usize % nr)),
            Filter::None => CFilter::None,
        };
        let m = &mut self.m;
        Some(match cmd {
            Cmd::Send { to, ty } => {
                let d = cd(to)?;
                let (ty, id) = (*ty % 3, m.next_id);
                m.next_id += 1;
                let e = m.tick_epoch();
                m.deliver(&d, ty, id, e);
                (CCmd::Send(d, ty, id), Expect::Unit)
            }
            Cmd::SendMany { to, form, ty } => {
                let to: Vec<CDest> = to.iter().filter_map(cd).collect();
                let (ty, id) = (*ty % 3, m.next_id);
                m.next_id += 1;
                let e = m.tick_epoch();
                let mut distinct = BTreeSet::new();
                for d in &to {
                    if let CDest::Pid(p) = d {
                        distinct.insert(*p);
                    }
                    m.deliver(d, ty, id, e);
                }
                if to.len() >= 2 {
                    m.cls.insert("multi_send");
                    if distinct.len() < to.len() {
                        m.cls.insert("multi_send_repeated_or_named");
                    }
                    if ty == 2 {
                        m.cls.insert("multi_send_identifiers");
                    }
                }
                (CCmd::SendMany(to, *form, ty, id), Expect::Unit)
            }
            Cmd::SendAfter { to, single, ty, delay } => {
                let mut to: Vec<CDest> = to.iter().filter_map(cd).collect();
                if to.is_empty() {
                    return None;
                }
                if *single {
                    to.truncate(1);
                }
                let (ty, id) = (*ty % 2, m.next_id);
                m.next_id += 1;
                // Even instants belong to the driver, odd ones to timers.
                let delay = if *delay % 8 == 0 { 0 } else { (*delay as u64 % 400) | 1 };
                m.timers.push(MTimer { to: to.clone(), ty, id, deadline: m.now + delay, delay, pending: true });
                (CCmd::SendAfter(to, *single, ty, id, delay), Expect::Unit)
            }
            Cmd::Cancel(t) => {
                if nt == 0 {
                    return None;
                }
                let t = *t as usize % nt;
                if m.timers[t].pending {
                    m.cls.insert("cancelled_pending");
                } else {
                    m.cls.insert("cancelled_fired");
                }
                m.timers[t].pending = false;
                (CCmd::Cancel(t), Expect::Unit)
            }
            Cmd::ReadTimer(t) => {
                if nt == 0 {
                    return None;
                }
                let t = *t as usize % nt;
                let e = m.timers[t].pending.then_some(m.timers[t].delay);
                (CCmd::ReadTimer(t), Expect::Timer(e))
            }
            Cmd::Spawn { kind, body, trap } => {
                if np >= 14 {
                    return None;
                }
                let (kind, body) = (*kind % 3, *body % 7);
                let we = body_reason(body);
                let idx = np;
                m.procs.push(MProc {
                    alive: true,
                    // The flag is set by the process itself once it runs.
                    trap: false,
                    actor: we.is_none(),
                    will_end: we.map(|(r, exact)| if exact { r } else { ExitReason::from(ANY) }),
                    ..Default::default()
                });
                m.procs[idx].want_trap = *trap && body == 0;
                if kind == 1 {
                    m.procs[idx].links.insert(me);
                    m.procs[me].links.insert(idx);
                }
                if kind == 2 {
                    m.refs.push(MRef {
                        owner: me,
                        monitor: Some(MMon { target: Some(idx), dest: CDest::Pid(idx), active: true, or_noproc: false }),
                        alias: None,
                    });
                }
                (CCmd::Spawn { kind, body, trap: false }, Expect::Unit)
            }
            Cmd::Link(p) => {
                let p = *p as usize % np;
                if p != me {
                    if m.dying(p) {
                        return None;
                    }
                    if m.exists(p) {
                        if m.procs[me].links.contains(&p) {
                            m.cls.insert("linked_twice");
                        }
                        m.procs[me].links.insert(p);
                        m.procs[p].links.insert(me);
                    } else {
                        m.cls.insert("link_noproc");
                        if m.dying(me) {
                            // The reason is already decided.
                        } else if m.procs[me].trap {
                            let e = m.tick_epoch();
                            m.push(me, Kind::Exit(p, vec![ExitReason::from("noproc")]), e);
                        } else {
                            m.flag(me, ExitReason::from("noproc"));
                        }
                    }
                }
                (CCmd::Link(p), Expect::Unit)
            }
            Cmd::Unlink(p) => {
                let p = *p as usize % np;
                if m.procs[me].links.contains(&p) {
                    m.cls.insert("unlinked");
                }
                m.procs[me].links.remove(&p);
                m.procs[p].links.remove(&me);
                (CCmd::Unlink(p), Expect::Unit)
            }
            Cmd::Monitor(d) | Cmd::MonitorAlias(d, _) => {
                let d = cd(d)?;
                match &d {
                    CDest::Pid(p) if *p == me => return None,
                    CDest::Name(n) if m.names.get(n) == Some(&me) => return None,
                    CDest::Ref(_) => return None,
                    _ => {}
                }
                if let Cmd::MonitorAlias(_, reply) = cmd {
                    m.new_monitor(me, d.clone(), Some(*reply));
                    (CCmd::MonitorAlias(d, *reply), Expect::Unit)
                } else {
                    m.new_monitor(me, d.clone(), None);
                    (CCmd::Monitor(d), Expect::Unit)
                }
            }
            Cmd::Demonitor(r) => {
                if nr == 0 {
                    return None;
                }
                let r = *r as usize % nr;
                if m.refs[r].owner == me && m.refs[r].monitor.is_some() {
                    let mon = m.refs[r].monitor.as_mut().unwrap();
                    let was_active = mon.active;
                    mon.active = false;
                    let before = m.procs[me].mailbox.len();
                    m.procs[me].mailbox.retain(|e| !matches!(e.kind, Kind::Down { mon, .. } if mon == r));
                    if m.procs[me].mailbox.len() < before {
                        m.cls.insert("demonitor_after_down");
                    }
                    if was_active {
                        m.cls.insert("demonitor_active");
                        if let Some(a) = &mut m.refs[r].alias {
                            a.active = false;
                        }
                    }
                } else {
                    m.cls.insert("demonitor_foreign");
                }
                (CCmd::Demonitor(r), Expect::Unit)
            }
            Cmd::Alias(reply) => {
                m.refs.push(MRef { owner: me, monitor: None, alias: Some(MAlias { reply: *reply, active: true }) });
                (CCmd::Alias(*reply), Expect::Unit)
            }
            Cmd::Unalias(r) => {
                if nr == 0 {
                    return None;
                }
                let r = *r as usize % nr;
                let mine = m.refs[r].owner == me;
                let mut hit = false;
                if let Some(a) = &mut m.refs[r].alias {
                    hit = mine && a.active;
                    if hit {
                        a.active = false;
                    }
                }
                m.cls.insert(if hit { "unalias_hit" } else { "unalias_miss" });
                (CCmd::Unalias(r), Expect::Bool(hit))
            }
            Cmd::Trap(on) => {
                m.procs[me].trap = *on;
                (CCmd::Trap(*on), Expect::Bool(*on))
            }
            Cmd::Exit(p, sel) => {
                let p = *p as usize % np;
                let r = Self::reason(*sel);
                // A process that has not run yet may or may not trap exits.
                if m.procs[p].alive && !m.procs[p].probed && p != me && !r.is_kill() {
                    return None;
                }
                if m.procs[p].alive && m.procs[p].direct.is_none() {
                    let kills = r.is_kill() || p == me || (r.is_custom() && !m.procs[p].trap);
                    if kills {
                        m.cls.insert(if p == me { "self_exit" } else { "exit_kills" });
                        m.flag(p, r.clone());
                    } else if m.procs[p].trap {
                        m.cls.insert("exit_trapped");
                        let e = m.tick_epoch();
                        m.push(p, Kind::Exit(me, vec![r.clone()]), e);
                    } else {
                        m.cls.insert("exit_ignored");
                    }
                }
                (CCmd::Exit(p, r), Expect::Unit)
            }
            Cmd::Alive(p) => {
                let p = *p as usize % np;
                let e = m.procs[p].alive && m.procs[p].direct.is_none();
                (CCmd::Alive(p), Expect::Bool(e))
            }
            Cmd::Register(p, n) => {
                let (p, n) = (*p as usize % np, *n as usize % NAMES);
                if m.dying(p) || m.names.get(&n).is_some_and(|o| m.dying(*o)) {
                    return None;
                }
                let ok = match m.names.get(&n) {
                    Some(o) => *o == p,
                    None => m.exists(p) && m.procs[p].name.is_none(),
                };
                m.cls.insert(if ok { "register_ok" } else { "register_err" });
                if ok {
                    m.names.insert(n, p);
                    m.procs[p].name = Some(n);
                }
                (CCmd::Register(p, n), Expect::Bool(ok))
            }
            Cmd::Unregister(n) => {
                let n = *n as usize % NAMES;
                let o = *m.names.get(&n)?;
                if m.dying(o) {
                    return None;
                }
                m.names.remove(&n);
                m.procs[o].name = None;
                m.cls.insert("unregister");
                (CCmd::Unregister(n), Expect::Unit)
            }
            Cmd::Whereis(n) => {
                let n = *n as usize % NAMES;
                let o = m.names.get(&n).copied();
                if o.is_some_and(|o| m.dying(o)) {
                    return None;
                }
                (CCmd::Whereis(n), Expect::Whereis(o))
            }
            Cmd::Recv { ty, filter, strict } => {
                let (ty, f) = (*ty % 3, cf(filter));
                match m.pick(me, ty, &f, *strict) {
                    Pick::Nothing => (CCmd::Recv(ty, f, *strict), Expect::Recv(vec![None])),
                    Pick::Panic => {
                        m.cls.insert("strict_panic");
                        m.flag(me, ExitReason::from(ANY));
                        (CCmd::Recv(ty, f, *strict), Expect::Any)
                    }
                    Pick::Some(c) => {
                        if c[0] > 0 {
                            m.cls.insert("selective_skip");
                        }
                        let all: Vec<Option<Entry>> = c.iter().map(|i| Some(m.procs[me].mailbox[*i].clone())).collect();
                        if all.len() > 1 && all.iter().any(|e| !same(e.as_ref().unwrap(), all[0].as_ref().unwrap())) {
                            // The choice is only known when the result is: stop the batch here.
                            return Some((CCmd::Recv(ty, f, *strict), Expect::Recv(all)));
                        }
                        m.procs[me].mailbox.remove(c[0]);
                        (CCmd::Recv(ty, f, *strict), Expect::Recv(all))
                    }
                }
            }
            Cmd::Remove { ty, filter } => {
                let (ty, f) = (*ty % 3, cf(filter));
                let mb = std::mem::take(&mut m.procs[me].mailbox);
                let n = mb.len();
                let keep: Vec<Entry> = mb.into_iter().filter(|e| !(Model::typed(ty, e) && m.fmatch(&f, e))).collect();
                if keep.len() < n && !keep.is_empty() {
                    m.cls.insert("selective_remove");
                }
                m.procs[me].mailbox = keep;
                (CCmd::Remove(ty, f), Expect::Unit)
            }
            Cmd::Wait { ty, filter, strict, timeout } => {
                let (ty, f) = (*ty % 3, cf(filter));
                let t = if *timeout % 3 == 0 { 0 } else { (*timeout as u64) | 1 };
                m.procs[me].wait =
                    Some(WaitM { ty, filter: f.clone(), strict: *strict, deadline: if t == 0 { 0 } else { m.now + t } });
                (CCmd::Wait(ty, f, *strict, t), Expect::Any)
            }
            Cmd::Return => {
                m.flag(me, ExitReason::Normal);
                (CCmd::Return, Expect::Any)
            }
            Cmd::Panic(k) => {
                let k = *k % 3;
                let r = match k {
                    0 => "static boom",
                    1 => "boom 42",
                    _ => ANY,
                };
                m.flag(me, ExitReason::from(r));
                m.cls.insert("panic");
                (CCmd::Panic(k), Expect::Any)
            }
        })
    }

    /// Advances virtual time to `to`, firing timers and expiring waits in the model.
    fn model_time(&mut self, to: u64) {
        loop {
            let next_t = self.m.timers.iter().filter(|t| t.pending && t.deadline < to).map(|t| t.deadline).min();
            let next_w = self
                .m
                .procs
                .iter()
                .filter(|p| p.alive)
                .filter_map(|p| p.wait.as_ref())
                .filter(|w| w.deadline != 0 && w.deadline < to)
                .map(|w| w.deadline)
                .min();
            let Some(at) = [next_t, next_w].into_iter().flatten().min() else { break };
            let both = next_t == next_w;
            let epoch = self.m.tick_epoch();
            let waiting: Vec<usize> = (0..self.m.procs.len())
                .filter(|p| self.m.procs[*p].alive && self.m.procs[*p].wait.as_ref().is_some_and(|w| w.deadline == at))
                .collect();
            if next_t == Some(at) {
                for t in 0..self.m.timers.len() {
                    if self.m.timers[t].pending && self.m.timers[t].deadline == at {
                        self.m.timers[t].pending = false;
                        let (to, ty, id) = (self.m.timers[t].to.clone(), self.m.timers[t].ty, self.m.timers[t].id);
                        self.m.cls.insert("timer_fired");
                        for d in &to {
                            self.m.deliver(d, ty, id, epoch);
                        }
                    }
                }
            }
            if both {
                // A message and the expiry of a wait at one instant: either may win.
                self.m.settle(epoch);
                if waiting.iter().any(|p| !self.m.procs[*p].alive || self.m.procs[*p].wait.is_none()) {
                    self.m.ambiguous = true;
                }
            } else {
                self.m.settle(epoch);
            }
            for p in waiting {
                if self.m.procs[p].alive && self.m.procs[p].wait.as_ref().is_some_and(|w| w.deadline == at) {
                    self.m.procs[p].wait = None;
                    self.m.wait_done.push((p, vec![None]));
                    self.m.cls.insert("wait_timed_out");
                }
            }
        }
        self.m.now = to;
    }

    fn compare(&mut self, expect: &[Expect], me: usize) -> Result<(), String> {
        let results = std::mem::take(&mut self.w.lock().unwrap().results);
        let mut it = results.iter();
        for (i, e) in expect.iter().enumerate() {
            if matches!(e, Expect::Any) {
                continue;
            }
            let Some(r) = it.next() else {
                return Err(format!("command {i} of the batch was not executed by process {me}"));
            };
            let ok = match (e, r) {
                (Expect::Unit, _) => true,
                (Expect::Bool(b), Res::Bool(x) | Res::Flags(x)) => b == x,
                (Expect::Whereis(p), Res::Whereis(x)) => p.map(|p| self.w.lock().unwrap().pids[p]) == *x,
                (Expect::Timer(t), Res::Timer(x)) => match (t, x) {
                    (None, None) => true,
                    (Some(t), Some(x)) => *x <= Duration::from_millis(*t),
                    _ => false,
                },
                (Expect::Recv(c), Res::Recv(o)) => {
                    let hit = c.iter().position(|c| match (c, o) {
                        (None, None) => true,
                        (Some(e), Some(o)) => self.check_entry(e, o),
                        _ => false,
                    });
                    if let Some(h) = hit {
                        // An ambiguous choice is resolved now.
                        if c.len() > 1 && c.iter().any(|e| !same(e.as_ref().unwrap(), c[0].as_ref().unwrap())) {
                            let chosen = c[h].clone().unwrap();
                            let mb = &mut self.m.procs[me].mailbox;
                            if let Some(i) = mb.iter().position(|e| e.epoch == chosen.epoch && same(e, &chosen)) {
                                mb.remove(i);
                            }
                        }
                    }
                    hit.is_some()
                }
                _ => false,
            };
            if !ok {
                return Err(format!("command {i} of process {me}: expected {}, got {r:?}", show_expect(e)));
            }
        }
        Ok(())
    }

    async fn after(&mut self) -> Result<(), String> {
        // Probe every process that is new.
        let mut fresh = false;
        for p in 0..self.m.procs.len() {
            if !self.m.procs[p].probed && self.m.procs[p].alive {
                let pid = self.w.lock().unwrap().pids[p];
                let _ = self.probe_ctl.send(pid);
                self.m.procs[p].probed = true;
                fresh = true;
                if self.m.procs[p].want_trap {
                    let tx = self.w.lock().unwrap().ctl[p].clone().unwrap();
                    let _ = tx.send(vec![CCmd::Trap(true)]);
                    self.m.procs[p].trap = true;
                }
            }
        }
        if fresh {
            quiesce(TICK).await;
            self.w.lock().unwrap().results.clear();
            let to = self.m.now + TICK;
            self.model_time(to);
        }
        if self.m.ambiguous {
            return Ok(());
        }
        // Reasons reported to the probe.
        let log = std::mem::take(&mut *self.probe_log.lock().unwrap());
        let mut expected = std::mem::take(&mut self.m.probe);
        for (pid, reason) in log {
            let Some(p) = self.pid_index(&pid) else { return Err("down message for an unknown process".into()) };
            match expected.remove(&p) {
                None => return Err(format!("process {p} terminated unexpectedly with {reason:?} (or was reported down twice)")),
                Some(c) if !matches_reason(&c, &reason) => {
                    return Err(format!("process {p} terminated with {reason:?} instead of {c:?}"));
                }
                _ => {}
            }
        }
        if let Some((p, c)) = expected.into_iter().next() {
            return Err(format!("process {p} should have terminated with {c:?} but no down message arrived"));
        }
        // Completed waits.
        let mut waits = std::mem::take(&mut self.w.lock().unwrap().waits);
        for (p, c) in std::mem::take(&mut self.m.wait_done) {
            if !self.m.procs[p].alive {
                waits.remove(&p);
                continue;
            }
            let Some(o) = waits.remove(&p) else {
                return Err(format!("the waiting receive of process {p} did not complete, expected {c:?}"));
            };
            let ok = c.iter().any(|c| match (c, &o) {
                (None, None) => true,
                (Some(e), Some(o)) => self.check_entry(e, o),
                _ => false,
            });
            if !ok {
                return Err(format!("the waiting receive of process {p} returned {o:?}, expected {c:?}"));
            }
        }
        waits.retain(|p, _| self.m.procs[*p].alive);
        if let Some((p, o)) = waits.into_iter().next() {
            return Err(format!("the waiting receive of process {p} returned {o:?} although nothing matches"));
        }
        // The visible state of every process and name.
        let list: BTreeSet<Pid> = Process::list().into_iter().collect();
        let (pids, names) = {
            let g = self.w.lock().unwrap();
            (g.pids.clone(), (0..NAMES).map(|n| g.name(n)).collect::<Vec<_>>())
        };
        for (p, mp) in self.m.procs.iter().enumerate() {
            let pid = pids[p];
            if Process::alive(pid) != mp.alive {
                return Err(format!("process {p}: alive() is {} but should be {}", !mp.alive, mp.alive));
            }
            if list.contains(&pid) != mp.alive {
                return Err(format!("process {p}: listed {} but alive {}", !mp.alive, mp.alive));
            }
            let info = Process::info(pid);
            if info.is_some() != mp.alive {
                return Err(format!("process {p}: info present {} but alive {}", info.is_some(), mp.alive));
            }
            if let Some(info) = info {
                let want_name = mp.name.map(|n| names[n].clone());
                if info.registered_name != want_name {
                    return Err(format!("process {p}: info name {:?} instead of {want_name:?}", info.registered_name));
                }
                if info.trap_exit != mp.trap {
                    return Err(format!("process {p}: info trap_exit {} instead of {}", info.trap_exit, mp.trap));
                }
                let links: BTreeSet<usize> = info.links.iter().map(|l| pids.iter().position(|x| x == l).unwrap_or(999)).collect();
                if links != mp.links || info.links.len() != mp.links.len() {
                    return Err(format!("process {p}: info links {links:?} instead of {:?}", mp.links));
                }
                let mut by: Vec<usize> = info
                    .monitored_by
                    .iter()
                    .filter(|l| **l != self.probe_pid)
                    .map(|l| pids.iter().position(|x| x == l).unwrap_or(999))
                    .collect();
                by.sort();
                let mut want: Vec<usize> = self
                    .m
                    .refs
                    .iter()
                    .filter(|r| r.monitor.as_ref().is_some_and(|m| m.active && m.target == Some(p)))
                    .map(|r| r.owner)
                    .collect();
                want.sort();
                if by != want {
                    return Err(format!("process {p}: info monitored_by {by:?} instead of {want:?}"));
                }
            }
        }
        let registered = Process::registered();
        for (n, name) in names.iter().enumerate() {
            let want = self.m.names.get(&n).map(|p| pids[*p]);
            if Process::whereis(name) != want {
                return Err(format!("name {n}: whereis {:?} instead of {want:?}", Process::whereis(name)));
            }
            if registered.iter().filter(|r| *r == name).count() != want.is_some() as usize {
                return Err(format!("name {n}: registered() disagrees with whereis"));
            }
        }
        Ok(())
    }

    async fn act(&mut self, actor: u8, cmds: &[Cmd]) -> Result<(), String> {
        let ready: Vec<usize> =
            (0..self.m.procs.len()).filter(|p| self.m.procs[*p].alive && self.m.procs[*p].actor && self.m.procs[*p].wait.is_none()).collect();
        if ready.is_empty() {
            return Ok(());
        }
        let me = ready[actor as usize % ready.len()];
        let mut batch = Vec::new();
        let mut expect = Vec::new();
        for cmd in cmds {
            let Some((c, e)) = self.step(me, cmd) else { continue };
            let stop = match (&c, &e) {
                (CCmd::Wait(..) | CCmd::Return | CCmd::Panic(_), _) => true,
                (CCmd::Recv(..), Expect::Any) => true,
                (CCmd::Recv(..), Expect::Recv(all)) => {
                    all.len() > 1 && all.iter().any(|x| !same(x.as_ref().unwrap(), all[0].as_ref().unwrap()))
                }
                _ => false,
            };
            batch.push(c);
            expect.push(e);
            if stop {
                break;
            }
        }
        if batch.is_empty() {
            return Ok(());
        }
        // A wait after a signal that terminates the actor never runs.
        let tx = self.w.lock().unwrap().ctl[me].clone().unwrap();
        tx.send(batch).map_err(|_| format!("process {me} does not run although it should"))?;
        quiesce(TICK).await;
        let from = self.m.now;
        let epoch = self.m.tick_epoch();
        // Timers without delay fire within this instant.
        for t in 0..self.m.timers.len() {
            if self.m.timers[t].pending && self.m.timers[t].deadline == from {
                self.m.timers[t].pending = false;
                let (to, ty, id) = (self.m.timers[t].to.clone(), self.m.timers[t].ty, self.m.timers[t].id);
                self.m.cls.insert("timer_fired");
                if to.iter().any(|d| self.racy_dest(d)) {
                    self.m.ambiguous = true;
                }
                for d in &to {
                    self.m.deliver(d, ty, id, epoch);
                }
            }
        }
        self.m.settle(epoch);
        self.model_time(from + TICK);
        // Ambiguous single receives are resolved in compare, which needs the mailbox as of now.
        self.compare(&expect, me)?;
        self.after().await
    }

    /// Whether a destination is affected by a death that happens at this very instant.
    fn racy_dest(&self, d: &CDest) -> bool {
        let dying = |p: usize| self.m.procs[p].direct.is_some() || self.m.procs[p].will_end.is_some();
        let any_dying = (0..self.m.procs.len()).any(|p| self.m.procs[p].alive && dying(p));
        match d {
            CDest::Pid(_) => false,
            _ => any_dying,
        }
    }

    async fn finish(&mut self) -> Result<(), String> {
        for p in 0..self.m.procs.len() {
            if !(self.m.procs[p].alive && self.m.procs[p].actor) || self.m.procs[p].wait.is_some() {
                continue;
            }
            let tx = self.w.lock().unwrap().ctl[p].clone().unwrap();
            let _ = tx.send(vec![CCmd::Drain]);
            quiesce(TICK).await;
            let res = std::mem::take(&mut self.w.lock().unwrap().results);
            let Some(Res::Drained(all)) = res.into_iter().next() else {
                return Err(format!("process {p} did not answer"));
            };
            // No time passes in the model: timers that fired meanwhile only add messages, so drain what was due.
            let mut mb = self.m.procs[p].mailbox.clone();
            for (ty, got) in all.iter().enumerate() {
                for o in got {
                    let first = mb.iter().position(|e| Model::typed(ty as u8, e));
                    let Some(f) = first else {
                        return Err(format!("process {p} had an unexpected message {o:?}"));
                    };
                    let epoch = mb[f].epoch;
                    let hit = (f..mb.len()).find(|j| mb[*j].epoch == epoch && Model::typed(ty as u8, &mb[*j]) && self.check_entry(&mb[*j], o));
                    match hit {
                        Some(j) => {
                            mb.remove(j);
                        }
                        None => return Err(format!("process {p}: next message is {o:?}, expected {:?}", mb[f])),
                    }
                }
            }
            if let Some(e) = mb.first() {
                return Err(format!("process {p} never received {e:?}"));
            }
        }
        Ok(())
    }
}

fn same(a: &Entry, b: &Entry) -> bool {
    match (&a.kind, &b.kind) {
        (Kind::User { ty, id }, Kind::User { ty: t, id: i }) => ty == t && id == i,
        (Kind::Down { mon, reason }, Kind::Down { mon: m, reason: r }) => mon == m && reason == r,
        (Kind::Exit(p, c), Kind::Exit(q, d)) => p == q && c == d,
        _ => false,
    }
}

fn show_expect(e: &Expect) -> String {
    format!("{e:?}")
}

pub fn run_case(case: &Case, own: &'static [&'static str]) -> Outcome {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
    let out = rt.block_on(run_inner(case, own));
    drop(rt);
    out
}

async fn run_inner(case: &Case, own: &'static [&'static str]) -> Outcome {
    let no = CASE_NO.fetch_add(1, Ordering::Relaxed);
    let w: W = Arc::new(Mutex::new(World {
        pids: vec![],
        refs: vec![],
        timers: vec![],
        sent_c: HashMap::new(),
        results: vec![],
        waits: HashMap::new(),
        prefix: format!("c{no}-"),
        ctl: vec![],
    }));
    let probe_log = Arc::new(Mutex::new(Vec::new()));
    let (probe_ctl, mut probe_rx) = mpsc::unbounded_channel::<Pid>();
    let plog = probe_log.clone();
    let probe_pid = Process::spawn(async move {
        loop {
            tokio::select! {
                biased;
                m = Process::receiver().for_message::<()>().receive() => {
                    if let Message::System(SystemMessage::ProcessDown(Dest::Pid(p), _, r)) = m {
                        plog.lock().unwrap().push((p, r));
                    }
                }
                c = probe_rx.recv() => {
                    match c {
                        Some(p) => { Process::monitor(p); }
                        None => return,
                    }
                }
            }
        }
    });
    let mut d = Driver {
        w: w.clone(),
        m: Model { next_id: 1, ..Default::default() },
        probe_ctl,
        probe_log,
        probe_pid,
        all_pids: vec![],
    };
    for trap in case.traps.iter().take(6) {
        let (tx, rx) = mpsc::unbounded_channel();
        let idx = d.m.procs.len();
        let pid = Process::spawn(spawn_body(&w, idx, 0, *trap, rx));
        {
            let mut g = w.lock().unwrap();
            g.pids.push(pid);
            g.ctl.push(Some(tx));
        }
        d.m.procs.push(MProc { alive: true, trap: *trap, actor: true, ..Default::default() });
    }
    quiesce(TICK).await;
    d.m.now += TICK;
    let mut result = d.after().await;
    let mut executed = 0;
    if result.is_ok() {
        for (i, op) in case.ops.iter().enumerate() {
            let r = match op {
                Op::Act { actor, cmds } => d.act(*actor, cmds).await,
                Op::Advance(ms) => {
                    let ms = (*ms as u64 % 500 + 2) & !1;
                    quiesce(ms).await;
                    let to = d.m.now + ms;
                    d.model_time(to);
                    d.after().await
                }
            };
            executed = i + 1;
            if let Err(e) = r {
                result = Err(format!("operation {i}: {e}"));
                break;
            }
            if d.m.ambiguous {
                break;
            }
        }
    }
    if result.is_ok() && !d.m.ambiguous {
        // Let every timer fire, then look at what is left in every mailbox.
        quiesce(1000).await;
        let to = d.m.now + 1000;
        d.model_time(to);
        result = d.after().await;
        if result.is_ok() && !d.m.ambiguous {
            result = d.finish().await.map_err(|e| format!("at the end: {e}"));
        }
    }
    let mut out = Outcome::default();
    if d.m.ambiguous {
        out.classes.push("cut_short_at_unspecified_order");
        // Nothing that was compared after the cut counts.
        if executed > case.ops.len() / 2 || result.is_err() {
            out.inconclusive = result.is_err();
        }
        result = Ok(());
    }
    // Clean up: let the processes end and the runtime settle.
    w.lock().unwrap().ctl.clear();
    let pids = w.lock().unwrap().pids.clone();
    let (tx, rx) = tokio::sync::oneshot::channel::<()>();
    Process::spawn(async move {
        for p in pids {
            Process::exit(p, ExitReason::Kill);
        }
        let _ = tx.send(());
    });
    let _ = rx.await;
    d.all_pids.clear();
    drop(d.probe_ctl);
    quiesce(TICK).await;
    out.classes.extend(d.m.cls.iter());
    let hits = own.iter().filter(|c| d.m.cls.contains(**c)).count();
    out.nontrivial = hits >= 2;
    out.failure = result.err();
    out
}

// ---------------------------------------------------------------- generators

#[derive(Clone, Copy, Default)]
pub struct Weights {
    send: u32,
    many: u32,
    after: u32,
    cancel: u32,
    spawn: u32,
    link: u32,
    monitor: u32,
    monalias: u32,
    alias: u32,
    trap: u32,
    exit: u32,
    name: u32,
    recv: u32,
    strict: u32,
    wait: u32,
    end: u32,
    advance: u32,
    batch: usize,
    ops: usize,
    /// Bias of indices towards recent things.
    ty_c: bool,
}

fn dest_sel(w: Weights) -> BoxedStrategy<DestSel> {
    weighted(vec![
        (6, any::<u8>().prop_map(DestSel::Pid).boxed()),
        (if w.name > 0 { 3 } else { 1 }, (0u8..5).prop_map(DestSel::Name).boxed()),
        (if w.alias + w.monalias > 0 { 5 } else { 1 }, any::<u8>().prop_map(DestSel::Alias).boxed()),
    ])
}

fn filter() -> BoxedStrategy<Filter> {
    prop_oneof![
        5 => Just(Filter::Any),
        2 => Just(Filter::User),
        2 => Just(Filter::System),
        2 => Just(Filter::Odd),
        2 => Just(Filter::Mod3),
        1 => Just(Filter::Exit),
        2 => any::<u8>().prop_map(Filter::Down),
        1 => Just(Filter::None),
    ]
    .boxed()
}

fn cmd(w: Weights) -> BoxedStrategy<Cmd> {
    let ty = move || if w.ty_c { prop_oneof![2 => 0u8..2, 3 => Just(2u8)].boxed() } else { (0u8..3).boxed() };
    let strict = w.strict;
    weighted(vec![
        (w.send, (dest_sel(w), ty()).prop_map(|(to, ty)| Cmd::Send { to, ty }).boxed()),
        (w.many, (prop::collection::vec(dest_sel(w), 0..7), any::<u8>(), ty()).prop_map(|(to, form, ty)| Cmd::SendMany { to, form, ty }).boxed()),
        (
            w.after,
            (prop::collection::vec(dest_sel(w), 1..4), any::<bool>(), 0u8..2, any::<u16>())
                .prop_map(|(to, single, ty, delay)| Cmd::SendAfter { to, single, ty, delay })
                .boxed(),
        ),
        (w.cancel, any::<u8>().prop_map(Cmd::Cancel).boxed()),
        (w.cancel, any::<u8>().prop_map(Cmd::ReadTimer).boxed()),
        (w.spawn, (0u8..3, prop_oneof![3 => Just(0u8), 4 => 1u8..7], any::<bool>()).prop_map(|(kind, body, trap)| Cmd::Spawn { kind, body, trap }).boxed()),
        (w.link * 2, any::<u8>().prop_map(Cmd::Link).boxed()),
        (w.link, any::<u8>().prop_map(Cmd::Unlink).boxed()),
        (w.monitor * 2, dest_sel(w).prop_map(Cmd::Monitor).boxed()),
        (w.monitor + w.monalias, any::<u8>().prop_map(Cmd::Demonitor).boxed()),
        (w.monalias, (dest_sel(w), any::<bool>()).prop_map(|(d, r)| Cmd::MonitorAlias(d, r)).boxed()),
        (w.alias * 2, any::<bool>().prop_map(Cmd::Alias).boxed()),
        (w.alias, any::<u8>().prop_map(Cmd::Unalias).boxed()),
        (w.trap, any::<bool>().prop_map(Cmd::Trap).boxed()),
        (w.exit, (any::<u8>(), any::<u8>()).prop_map(|(p, r)| Cmd::Exit(p, r)).boxed()),
        (w.exit, any::<u8>().prop_map(Cmd::Alive).boxed()),
        (w.name * 3, (any::<u8>(), any::<u8>()).prop_map(|(p, n)| Cmd::Register(p, n)).boxed()),
        (w.name, any::<u8>().prop_map(Cmd::Unregister).boxed()),
        (w.name, any::<u8>().prop_map(Cmd::Whereis).boxed()),
        (
            w.recv * 3,
            (ty(), filter(), prop::bool::weighted((strict as f64 / 20.0).min(0.9)))
                .prop_map(|(ty, filter, strict)| Cmd::Recv { ty, filter, strict })
                .boxed(),
        ),
        (w.recv, (ty(), filter()).prop_map(|(ty, filter)| Cmd::Remove { ty, filter }).boxed()),
        (
            w.wait,
            (ty(), filter(), prop::bool::weighted((strict as f64 / 20.0).min(0.9)), any::<u8>())
                .prop_map(|(ty, filter, strict, timeout)| Cmd::Wait { ty, filter, strict, timeout })
                .boxed(),
        ),
        (w.end, Just(Cmd::Return).boxed()),
        (w.end, (0u8..3).prop_map(Cmd::Panic).boxed()),
    ])
}

pub fn case_strategy(w: Weights) -> BoxedStrategy<Case> {
    let op = weighted(vec![
        (
            20,
            (any::<u8>(), prop::collection::vec(cmd(w), 1..=w.batch)).prop_map(|(actor, cmds)| Op::Act { actor, cmds }).boxed(),
        ),
        (w.advance, any::<u16>().prop_map(Op::Advance).boxed()),
    ]);
    (prop::collection::vec(any::<bool>(), 2..6), prop::collection::vec(op, 1..w.ops))
        .prop_map(|(traps, ops)| Case { traps, ops })
        .boxed()
}

fn sub(name: &'static str, cases: (u32, u32), w: Weights, own: &'static [&'static str]) -> Box<dyn DynSub> {
    Sub::new(name, cases, move || case_strategy(w), move |c| run_case(c, own)).hang_violates(Duration::from_secs(100)).boxed()
}

fn base() -> Weights {
    Weights { send: 2, spawn: 1, recv: 1, advance: 1, batch: 4, ops: 30, ..Default::default() }
}

pub fn subs(id: &str) -> (Vec<Box<dyn DynSub>>, &'static str, Vec<&'static str>) {
    let w = match id {
        "C01" => Weights { send: 8, many: 2, after: 1, alias: 1, name: 1, recv: 4, strict: 1, wait: 2, monitor: 1, exit: 1, end: 0, trap: 1, ..base() },
        "C02" => Weights { send: 2, many: 8, alias: 2, name: 2, recv: 2, wait: 1, ty_c: true, monalias: 1, exit: 1, ..base() },
        "C03" => Weights { link: 6, trap: 2, exit: 3, end: 1, spawn: 3, monitor: 1, recv: 1, ..base() },
        "C04" => Weights { exit: 8, trap: 3, end: 2, spawn: 3, link: 1, monitor: 1, wait: 1, recv: 1, ..base() },
        "C05" => Weights { monitor: 6, monalias: 2, exit: 2, end: 1, spawn: 3, name: 2, recv: 3, wait: 1, link: 1, ..base() },
        "C06" => Weights { alias: 5, monalias: 4, send: 6, many: 2, after: 1, exit: 2, spawn: 2, end: 1, recv: 2, ..base() },
        "C07" => Weights { name: 6, exit: 2, spawn: 3, end: 1, send: 3, monitor: 1, recv: 1, ..base() },
        "C08" => Weights { spawn: 6, exit: 3, end: 2, link: 2, monitor: 2, name: 2, alias: 1, send: 2, many: 1, after: 1, trap: 1, ..base() },
        "C09" => Weights { after: 6, cancel: 3, advance: 6, name: 1, alias: 2, exit: 1, end: 1, recv: 2, wait: 2, ..base() },
        _ => unreachable!(),
    };
    // The behaviours that make a case count for the property (two of them are needed).
    let own: &'static [&'static str] = match id {
        "C01" => &["selective_skip", "selective_remove", "strict_panic", "wait_completed", "wait_timed_out", "timer_fired"],
        "C02" => &["multi_send", "multi_send_identifiers", "multi_send_repeated_or_named", "alias_delivery"],
        "C03" => &["link_cascade", "link_trapped", "link_noproc", "linked_twice", "unlinked"],
        "C04" => &["self_exit", "exit_kills", "exit_trapped", "exit_ignored", "panic", "link_cascade", "link_trapped"],
        "C05" => &["down_delivered", "monitor_noproc", "demonitor_active", "demonitor_after_down", "demonitor_foreign"],
        "C06" => &["alias_delivery", "unalias_hit", "unalias_miss", "down_delivered", "demonitor_active"],
        "C07" => &["register_ok", "register_err", "unregister", "name_freed_by_death"],
        "C08" => &["down_delivered", "link_trapped", "link_cascade", "panic", "self_exit", "exit_kills", "name_freed_by_death", "link_noproc", "monitor_noproc"],
        _ => &["timer_fired", "cancelled_pending", "cancelled_fired"],
    };
    let mut v: Vec<Box<dyn DynSub>> = vec![
        sub("history", (200_000, 40), w, own),
        sub("long-history", (15_000, 40), Weights { ops: 150, batch: 3, ..w }, own),
    ];
    if id != "C02" {
        v.push(crate::stress::sub(id, 12_000));
    } else {
        v.push(crate::cluster::nodes_sub(id));
    }
    (
        v,
        "A case is a generated history (batches of commands executed atomically by actor processes, virtual time in between) compared step by step with a reference model; it is non-trivial when it exercised at least two of the behaviours the property is about (C01: selective skip/remove, strict panic, waits, timers; C02: multi-destination sends, identifiers in the payload; C03: link events; C04: kinds of termination; C05: monitor events; C06: alias events; C07: registration events; C08: deaths with something attached; C09: timer events; see classes). concurrent: generated scripts run by several processes at the same time on several threads, with delays injected between the steps of the library, judged once everything is quiet; non-trivial when several processes acted and one died. nodes: generated histories over 2-3 nodes compared with a model of the cluster; non-trivial when at least three operations were executed and something crossed nodes.",
        vec!["tokio's current-thread runtime with a paused clock reaches quiescence before the clock moves", "concurrent: schedules are sampled, not enumerated"],
    )
}

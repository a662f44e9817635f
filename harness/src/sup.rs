//! C12-C15: supervisors against a reference model.
//!
//! Supervisor, children, parent and callers share one paused-clock runtime; after each operation the runtime runs
//! until it is idle.  Start routines and stopping children can be made to wait for a gate, so the order in which the
//! supervisor receives things while it is busy is known.
use crate::prop::*;
use hydra::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::future::{Future, poll_fn};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::task::Poll;
use std::time::{Duration, Instant};
use tokio::sync::{Semaphore, mpsc, oneshot};

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum StartK {
    Fine,
    Ignore,
    Err(u8),
    /// A linked process is started, dies, and the start fails.
    ErrLinked(u8),
    /// The child is dead before its start returns.
    DeadOnArrival(u8),
    Block(Box<StartK>),
}

#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq, Eq)]
pub enum Kind {
    Plain,
    /// Traps exits and stops as soon as it is told to.
    Trap,
    /// Traps exits and stops once its gate is open.
    Slow,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct SpecGen {
    id: u8,
    restart: u8,
    significant: bool,
    supervisor: bool,
    shutdown: u8,
    plan: Vec<StartK>,
    kind: Kind,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Op {
    /// The process of a child ends.
    End { which: u8, how: u8 },
    StartChild(SpecGen),
    Terminate(u8),
    Restart(u8),
    Delete(u8),
    Which,
    Count,
    OpenStart,
    OpenStop(u8),
    /// how: stop request, exit sent by the parent, parent ends, kill
    StopSup { how: u8, reason: u8 },
    /// Exit signals from a stranger do not stop a supervisor.
    Stray(u8),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Case {
    strategy: u8,
    auto: u8,
    max_restarts: u8,
    link: bool,
    children: Vec<SpecGen>,
    ops: Vec<Op>,
}

fn reason(k: u8) -> ExitReason {
    match k % 4 {
        0 => ExitReason::Normal,
        1 => ExitReason::from("bad"),
        2 => ExitReason::from("shutdown"),
        _ => ExitReason::from("worse"),
    }
}
/// Never Ignore, which is not an error.
fn err_reason(k: u8) -> ExitReason {
    match k % 4 {
        0 => ExitReason::Normal,
        1 => ExitReason::from("nope"),
        2 => ExitReason::from("shutdown"),
        _ => ExitReason::Kill,
    }
}
fn id_of(k: u8) -> String {
    ["a", "b", "c", "d", "e", ""][k as usize % 6].to_string()
}
fn restart_of(k: u8) -> Restart {
    match k % 3 {
        0 => Restart::Permanent,
        1 => Restart::Transient,
        _ => Restart::Temporary,
    }
}

// ---------------------------------------------------------------- the real side

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
enum Ev {
    Start(usize, usize),
    Stop(usize),
    Got(usize, String),
    SupDown(String),
}

fn rs(r: &ExitReason) -> String {
    format!("{r:?}")
}

enum ChildCmd {
    Return,
    Panic,
    Exit(ExitReason),
}

#[derive(Debug, Clone, PartialEq)]
struct Info {
    id: String,
    inc: Option<usize>,
    supervisor: bool,
    restarting: bool,
}

#[derive(Debug, Clone, PartialEq)]
enum Res {
    Child(Option<usize>),
    Fine,
    Err(&'static str),
    StartErr(String),
    Down(String),
    Which(Vec<Info>),
    Count(usize, usize, usize, usize),
    Started,
    NotStarted(String),
    Odd(String),
}

struct Slot {
    plan: Vec<StartK>,
    kind: Kind,
    attempts: usize,
}

struct Inc {
    pid: Option<Pid>,
    tx: Option<mpsc::UnboundedSender<ChildCmd>>,
    stop: Arc<Semaphore>,
    down: Option<ExitReason>,
    ready: Option<oneshot::Sender<()>>,
    dead: Option<oneshot::Sender<()>>,
}

struct WorldIn {
    log: Vec<Ev>,
    slots: Vec<Slot>,
    incs: Vec<Inc>,
    gate: Arc<Semaphore>,
    results: BTreeMap<u64, Res>,
    sup: Option<Pid>,
    sup_down: Option<ExitReason>,
    observer: Option<Pid>,
    watched: Option<oneshot::Sender<()>>,
}
type World = Arc<Mutex<WorldIn>>;

#[derive(Serialize, Deserialize, Debug)]
struct Watch {
    pid: Pid,
    inc: Option<usize>,
}

async fn observer(w: World) {
    let mut refs: Vec<(Reference, Option<usize>)> = Vec::new();
    loop {
        match Process::receive::<Watch>().await {
            Message::User(Watch { pid, inc }) => {
                let r = Process::monitor(pid);
                refs.push((r, inc));
                if let Some(inc) = inc {
                    if let Some(tx) = w.lock().unwrap().incs[inc].ready.take() {
                        let _ = tx.send(());
                    }
                } else if let Some(tx) = w.lock().unwrap().watched.take() {
                    let _ = tx.send(());
                }
            }
            Message::System(SystemMessage::ProcessDown(_, r, reason)) => {
                let Some((_, inc)) = refs.iter().find(|x| x.0 == r) else { continue };
                let mut g = w.lock().unwrap();
                match inc {
                    Some(i) => {
                        g.incs[*i].down = Some(reason);
                        if let Some(tx) = g.incs[*i].dead.take() {
                            let _ = tx.send(());
                        }
                    }
                    None => {
                        g.log.push(Ev::SupDown(rs(&reason)));
                        g.sup_down = Some(reason);
                    }
                }
            }
            _ => {}
        }
    }
}

struct StopGuard(World, usize);
impl Drop for StopGuard {
    fn drop(&mut self) {
        self.0.lock().unwrap().log.push(Ev::Stop(self.1));
    }
}

async fn child(w: World, inc: usize, kind: Kind, mut rx: mpsc::UnboundedReceiver<ChildCmd>, stop: Arc<Semaphore>, up: oneshot::Sender<()>, quick: Option<ExitReason>) {
    let guard = StopGuard(w.clone(), inc);
    if kind != Kind::Plain {
        Process::set_flags(ProcessFlags::TRAP_EXIT);
    }
    let _ = up.send(());
    if let Some(reason) = quick {
        Process::exit(Process::current(), reason);
        std::future::pending::<()>().await;
    }
    loop {
        tokio::select! {
            Some(cmd) = rx.recv() => match cmd {
                ChildCmd::Return => break,
                ChildCmd::Panic => panic!("child panics"),
                ChildCmd::Exit(r) => {
                    Process::exit(Process::current(), r);
                    std::future::pending::<()>().await;
                }
            },
            m = Process::receive::<()>() => {
                if let Message::System(SystemMessage::Exit(_, r)) = m {
                    w.lock().unwrap().log.push(Ev::Got(inc, rs(&r)));
                    if kind == Kind::Slow {
                        stop.acquire().await.unwrap().forget();
                    }
                    Process::exit(Process::current(), r);
                    std::future::pending::<()>().await;
                }
            }
        }
    }
    drop(guard);
}

async fn start_routine(w: World, slot: usize) -> Result<Pid, ExitReason> {
    let (mut k, kind, gate, observer) = {
        let mut g = w.lock().unwrap();
        let n = g.slots[slot].attempts;
        g.slots[slot].attempts += 1;
        g.log.push(Ev::Start(slot, n));
        (g.slots[slot].plan.get(n).cloned().unwrap_or(StartK::Fine), g.slots[slot].kind, g.gate.clone(), g.observer.unwrap())
    };
    let watched = {
        let mut g = w.lock().unwrap();
        let me = Process::current();
        (g.sup != Some(me)).then(|| {
            g.sup = Some(me);
            let (tx, rx) = oneshot::channel();
            g.watched = Some(tx);
            Process::send(observer, Watch { pid: me, inc: None });
            rx
        })
    };
    if let Some(rx) = watched {
        let _ = rx.await;
    }
    while let StartK::Block(inner) = k {
        gate.acquire().await.unwrap().forget();
        k = *inner;
    }
    let quick = match k {
        StartK::Ignore => return Err(ExitReason::Ignore),
        StartK::Err(r) => return Err(err_reason(r)),
        StartK::ErrLinked(r) => {
            let (tx, rx) = oneshot::channel::<()>();
            let r2 = err_reason(r);
            Process::spawn_link(async move {
                let _tx = tx;
                Process::exit(Process::current(), r2);
                std::future::pending::<()>().await;
            });
            let _ = rx.await;
            return Err(err_reason(r));
        }
        StartK::Fine => None,
        StartK::DeadOnArrival(r) => Some(err_reason(r)),
        StartK::Block(_) => unreachable!(),
    };
    let (tx, rx) = mpsc::unbounded_channel();
    let (ready, watched) = oneshot::channel();
    let (dead, gone) = oneshot::channel();
    let (up, is_up) = oneshot::channel();
    let (hold, go) = oneshot::channel::<()>();
    let stop = Arc::new(Semaphore::new(0));
    let wait = quick.is_some();
    let inc = {
        let mut g = w.lock().unwrap();
        g.incs.push(Inc { pid: None, tx: Some(tx), stop: stop.clone(), down: None, ready: Some(ready), dead: Some(dead) });
        g.incs.len() - 1
    };
    let w2 = w.clone();
    let pid = Process::spawn_link(async move {
        let _ = go.await;
        child(w2, inc, kind, rx, stop, up, quick).await
    });
    w.lock().unwrap().incs[inc].pid = Some(pid);
    Process::send(observer, Watch { pid, inc: Some(inc) });
    let _ = watched.await;
    let _ = hold.send(());
    let _ = is_up.await;
    if wait {
        let _ = gone.await;
    }
    Ok(pid)
}

fn spec(w: &World, slot: usize, s: &SpecGen) -> ChildSpec {
    let w = w.clone();
    let mut c = ChildSpec::new("?")
        .id(id_of(s.id))
        .restart(restart_of(s.restart))
        .start(move || start_routine(w.clone(), slot))
        .child_type(if s.supervisor { ChildType::Supervisor } else { ChildType::Worker });
    if s.restart % 3 != 0 {
        c = c.significant(s.significant);
    }
    match s.shutdown % 4 {
        0 => {}
        1 => c = c.shutdown(Shutdown::BrutalKill),
        2 => c = c.shutdown(Duration::from_secs(60)),
        _ => c = c.shutdown(Shutdown::Infinity),
    }
    c
}

enum ParentCmd {
    SendExit(ExitReason),
    End(ExitReason),
}

fn inc_of(w: &World, pid: &str) -> Option<usize> {
    w.lock().unwrap().incs.iter().position(|i| i.pid.is_some_and(|p| serde_json::to_string(&p).unwrap() == pid))
}

fn result(w: &World, r: Result<Option<Pid>, SupervisorError>) -> Res {
    match r {
        Ok(None) => Res::Child(None),
        Ok(Some(p)) => match inc_of(w, &serde_json::to_string(&p).unwrap()) {
            Some(i) => Res::Child(Some(i)),
            None => Res::Odd(format!("unknown process {p:?}")),
        },
        Err(e) => error(e),
    }
}
fn error(e: SupervisorError) -> Res {
    match e {
        SupervisorError::CallError(CallError::ServerDown(r)) => Res::Down(rs(&r)),
        SupervisorError::StartError(r) => Res::StartErr(rs(&r)),
        SupervisorError::AlreadyStarted => Res::Err("AlreadyStarted"),
        SupervisorError::AlreadyPresent => Res::Err("AlreadyPresent"),
        SupervisorError::NotFound => Res::Err("NotFound"),
        SupervisorError::Running => Res::Err("Running"),
        SupervisorError::Restarting => Res::Err("Restarting"),
        e => Res::Odd(format!("{e:?}")),
    }
}

enum Admin {
    Start(ChildSpec),
    Terminate(String),
    Restart(String),
    Delete(String),
    Which,
    Count,
}

fn admin(w: &World, id: u64, what: Admin) {
    let w = w.clone();
    let sup = w.lock().unwrap().sup.unwrap();
    Process::spawn(async move {
        let r = match what {
            Admin::Start(s) => {
                let r = Supervisor::start_child(sup, s).await;
                result(&w, r)
            }
            Admin::Terminate(i) => Supervisor::terminate_child(sup, i).await.map(|_| Res::Fine).unwrap_or_else(error),
            Admin::Restart(i) => {
                let r = Supervisor::restart_child(sup, i).await;
                result(&w, r)
            }
            Admin::Delete(i) => Supervisor::delete_child(sup, i).await.map(|_| Res::Fine).unwrap_or_else(error),
            Admin::Count => match Supervisor::count_children(sup).await {
                Ok(c) => Res::Count(c.specs, c.active, c.supervisors, c.workers),
                Err(e) => error(e),
            },
            Admin::Which => match Supervisor::which_children(sup).await {
                Ok(v) => {
                    let v = serde_json::to_value(&v).unwrap();
                    let mut out = Vec::new();
                    let mut odd = None;
                    for c in v.as_array().unwrap() {
                        let inc = if c["child"].is_null() { None } else {
                            let i = inc_of(&w, &c["child"].to_string());
                            if i.is_none() {
                                odd = Some(Res::Odd(format!("unknown child process {}", c["child"])));
                            }
                            i
                        };
                        out.push(Info { id: c["id"].as_str().unwrap().into(), inc, supervisor: c["child_type"] == "Supervisor", restarting: c["restarting"].as_bool().unwrap() });
                    }
                    odd.unwrap_or(Res::Which(out))
                }
                Err(e) => error(e),
            },
        };
        w.lock().unwrap().results.insert(id, r);
    });
}

// ---------------------------------------------------------------- the model

#[derive(Clone, Debug)]
struct MSlot {
    s: SpecGen,
    attempts: usize,
}

#[derive(Clone, Debug)]
struct MInc {
    slot: usize,
    alive: bool,
    /// Told to stop with this reason, waits for its gate.
    stopping: Option<ExitReason>,
    down: Option<ExitReason>,
}

#[derive(Clone, Debug)]
struct MChild {
    slot: usize,
    inc: Option<usize>,
    restarting: bool,
}

#[derive(Clone, Debug)]
enum Msg {
    Exit(usize, ExitReason),
    ParentExit(ExitReason),
    Stop(ExitReason),
    Again(String),
    Start(u64, usize),
    Terminate(u64, String),
    Restart(u64, String),
    Delete(u64, String),
    Which(u64),
    Count(u64),
}
impl Msg {
    fn call(&self) -> Option<u64> {
        match self {
            Msg::Start(i, _) | Msg::Terminate(i, _) | Msg::Restart(i, _) | Msg::Delete(i, _) | Msg::Which(i) | Msg::Count(i) => Some(*i),
            _ => None,
        }
    }
}

#[derive(Default)]
struct Model {
    slots: Vec<MSlot>,
    incs: Vec<MInc>,
    /// Events of one non-zero group may come in any order.
    log: Vec<(u32, Ev)>,
    group: u32,
    groups: u32,
    mailbox: VecDeque<Msg>,
    current_call: Option<u64>,
    children: Vec<MChild>,
    restarts: usize,
    strategy: u8,
    auto: u8,
    max_restarts: usize,
    permits: usize,
    results: BTreeMap<u64, Res>,
    sup_dead: Option<ExitReason>,
    idle: bool,
    cls: BTreeSet<&'static str>,
    recoveries: usize,
    given_up: bool,
}
type M = Rc<RefCell<Model>>;

impl Model {
    fn spec(&self, c: usize) -> &SpecGen {
        &self.slots[self.children[c].slot].s
    }
    fn ev(&mut self, e: Ev) {
        self.log.push((self.group, e));
    }
    fn grouped<R>(&mut self, f: impl FnOnce(&mut Self) -> R) -> R {
        self.groups += 1;
        self.group = self.groups;
        let r = f(self);
        self.group = 0;
        r
    }
    fn die(&mut self, inc: usize, r: ExitReason) {
        if !self.incs[inc].alive {
            return;
        }
        self.incs[inc].alive = false;
        self.incs[inc].stopping = None;
        self.incs[inc].down = Some(r.clone());
        self.ev(Ev::Stop(inc));
        if self.sup_dead.is_none() {
            self.mailbox.push_back(Msg::Exit(inc, r));
        }
    }
    fn kind(&self, inc: usize) -> Kind {
        self.slots[self.incs[inc].slot].s.kind
    }
    /// An exit signal of another process (`link`: of a linked one).
    fn signal(&mut self, inc: usize, r: ExitReason, link: bool) {
        let i = &self.incs[inc];
        if !i.alive {
            return;
        }
        if r == ExitReason::Kill && !link {
            return self.die(inc, r);
        }
        match self.kind(inc) {
            Kind::Plain => {
                if !r.is_normal() && (link || !r.is_ignore()) {
                    self.die(inc, r);
                }
            }
            _ if i.stopping.is_some() => {}
            Kind::Trap => {
                self.ev(Ev::Got(inc, rs(&r)));
                self.die(inc, r);
            }
            Kind::Slow => {
                self.ev(Ev::Got(inc, rs(&r)));
                self.incs[inc].stopping = Some(r);
            }
        }
    }
    /// The supervisor process ends.
    fn sup_dies(&mut self, r: ExitReason) {
        let calls: Vec<u64> = self.current_call.take().into_iter().chain(self.mailbox.iter().filter_map(|m| m.call())).collect();
        self.mailbox.clear();
        for c in calls {
            self.results.insert(c, Res::Down(rs(&r)));
        }
        self.sup_dead = Some(r.clone());
        self.grouped(|m| {
            m.ev(Ev::SupDown(rs(&r)));
            for i in 0..m.incs.len() {
                m.signal(i, r.clone(), true);
            }
        });
    }
    fn find(&self, id: &str) -> Option<usize> {
        (0..self.children.len()).find(|c| id_of(self.spec(*c).id) == id)
    }
    fn temporary(&self, c: usize) -> bool {
        self.spec(c).restart % 3 == 2
    }
    fn add_restart(&mut self) -> bool {
        self.restarts += 1;
        if self.restarts > self.max_restarts {
            self.given_up = true;
            self.cls.insert("gave-up");
        }
        self.restarts > self.max_restarts
    }
    fn auto_shutdown(&self, slot: usize) -> bool {
        let sig = |s: &SpecGen| s.significant && s.restart % 3 != 0;
        if self.auto % 3 == 0 || !sig(&self.slots[slot].s) {
            return false;
        }
        if self.auto % 3 == 1 {
            return true;
        }
        !(0..self.children.len()).any(|c| sig(self.spec(c)) && (self.children[c].inc.is_some() || self.children[c].restarting))
    }
    fn info(&self) -> Vec<Info> {
        (0..self.children.len())
            .map(|c| Info { id: id_of(self.spec(c).id), inc: self.children[c].inc, supervisor: self.spec(c).supervisor, restarting: self.children[c].restarting })
            .collect()
    }
    fn count(&self) -> Res {
        let n = self.children.len();
        let s = (0..n).filter(|c| self.spec(*c).supervisor).count();
        Res::Count(n, self.children.iter().filter(|c| c.inc.is_some()).count(), s, n - s)
    }
}

async fn until(m: &M, mut f: impl FnMut(&mut Model) -> bool) {
    poll_fn(|_| if f(&mut m.borrow_mut()) { Poll::Ready(()) } else { Poll::Pending }).await
}

async fn m_start(m: &M, c: usize) -> Result<Option<usize>, ExitReason> {
    let slot = m.borrow().children[c].slot;
    m_start_slot(m, slot).await
}

async fn m_start_slot(m: &M, slot: usize) -> Result<Option<usize>, ExitReason> {
    let mut k = {
        let mut m = m.borrow_mut();
        let n = m.slots[slot].attempts;
        m.slots[slot].attempts += 1;
        m.ev(Ev::Start(slot, n));
        m.slots[slot].s.plan.get(n).cloned().unwrap_or(StartK::Fine)
    };
    while let StartK::Block(inner) = k {
        until(m, |m| {
            let ok = m.permits > 0;
            if ok {
                m.permits -= 1;
            }
            ok
        })
        .await;
        k = *inner;
    }
    let mut m = m.borrow_mut();
    let quick = match k {
        StartK::Ignore => {
            m.cls.insert("ignored-start");
            return Ok(None);
        }
        StartK::Err(r) | StartK::ErrLinked(r) => {
            m.cls.insert("failed-start");
            return Err(err_reason(r));
        }
        StartK::Fine => None,
        StartK::DeadOnArrival(r) => Some(err_reason(r)),
        StartK::Block(_) => unreachable!(),
    };
    m.incs.push(MInc { slot, alive: true, stopping: None, down: None });
    let inc = m.incs.len() - 1;
    if let Some(r) = quick {
        m.die(inc, r);
    }
    Ok(Some(inc))
}

/// Stops a process according to the policy of its child.
async fn m_shutdown(m: &M, inc: usize, group: bool) {
    {
        let mut m = m.borrow_mut();
        let old = m.group;
        if group {
            m.group = m.groups;
        }
        let s = m.slots[m.incs[inc].slot].s.clone();
        if s.shutdown % 4 == 1 {
            m.signal(inc, ExitReason::Kill, false);
        } else {
            m.signal(inc, ExitReason::from("shutdown"), false);
        }
        m.group = old;
    }
    until(m, |m| !m.incs[inc].alive).await;
}

async fn m_terminate(m: &M, c: usize, group: bool) {
    let inc = {
        let mut m = m.borrow_mut();
        m.children[c].restarting = false;
        m.children[c].inc.take()
    };
    if let Some(inc) = inc {
        m_shutdown(m, inc, group).await;
    }
}

async fn m_terminate_all(m: &M) {
    let n = m.borrow().children.len();
    for c in (0..n).rev() {
        m_terminate(m, c, false).await;
    }
}

async fn m_restart(m: &M, c: usize) {
    let strategy = m.borrow().strategy % 3;
    let failed = if strategy == 0 {
        match m_start(m, c).await {
            Ok(inc) => {
                let mut m = m.borrow_mut();
                m.children[c].inc = inc;
                m.children[c].restarting = false;
                None
            }
            Err(_) => Some(c),
        }
    } else {
        let first = if strategy == 1 { 0 } else { c };
        m.borrow_mut().groups += 1;
        m.borrow_mut().children[c].inc = None;
        let slots: Vec<usize> = m.borrow().children[first..].iter().map(|c| c.slot).collect();
        let me = m.borrow().children[c].slot;
        for slot in slots {
            let c = m.borrow().children.iter().position(|x| x.slot == slot).unwrap();
            if slot == me {
                continue;
            }
            m_terminate(m, c, true).await;
            if m.borrow().temporary(c) {
                m.borrow_mut().children.remove(c);
            }
        }
        let mut failed = None;
        let n = m.borrow().children.len();
        for c in first..n {
            match m_start(m, c).await {
                Ok(inc) => {
                    let mut m = m.borrow_mut();
                    m.children[c].inc = inc;
                    m.children[c].restarting = false;
                }
                Err(_) => {
                    failed = Some(c);
                    break;
                }
            }
        }
        failed
    };
    let mut m = m.borrow_mut();
    m.recoveries += 1;
    if let Some(c) = failed {
        m.cls.insert("failed-restart");
        m.children[c].inc = None;
        m.children[c].restarting = true;
        let id = id_of(m.spec(c).id);
        m.mailbox.push_back(Msg::Again(id));
    }
}

/// Handles one message; an error ends the supervisor.
async fn m_handle(m: &M, msg: Msg) -> Result<(), ExitReason> {
    let give_up = Err(ExitReason::from("shutdown"));
    match msg {
        Msg::Exit(inc, r) => {
            let Some(c) = m.borrow().children.iter().position(|c| c.inc == Some(inc)) else { return Ok(()) };
            let kind = m.borrow().spec(c).restart % 3;
            let fine = r.is_normal() || r == "shutdown";
            if kind == 0 || (kind == 1 && !fine) {
                m.borrow_mut().cls.insert(if kind == 0 { "permanent-restart" } else { "transient-restart" });
                if m.borrow_mut().add_restart() {
                    return give_up;
                }
                m_restart(m, c).await;
                return Ok(());
            }
            let mut m = m.borrow_mut();
            m.cls.insert("forgotten");
            let child = m.children.remove(c);
            if m.auto_shutdown(child.slot) {
                m.cls.insert("auto-shutdown");
                return give_up;
            }
            if m.auto % 3 != 0 {
                m.cls.insert("no-auto-shutdown");
            }
        }
        Msg::ParentExit(r) | Msg::Stop(r) => return Err(r),
        Msg::Again(id) => {
            let Some(c) = m.borrow().find(&id) else { return Ok(()) };
            if !m.borrow().children[c].restarting {
                return Ok(());
            }
            if m.borrow_mut().add_restart() {
                return give_up;
            }
            m_restart(m, c).await;
        }
        msg => {
            let id = msg.call().unwrap();
            m.borrow_mut().current_call = Some(id);
            let res = m_admin(m, msg).await;
            let mut m = m.borrow_mut();
            m.cls.insert(match &res {
                Res::Child(_) => "child-result",
                Res::Fine => "ok-result",
                Res::Err(e) => e,
                Res::StartErr(_) => "StartError",
                _ => "info",
            });
            m.results.insert(id, res);
            m.current_call = None;
        }
    }
    Ok(())
}

async fn m_admin(m: &M, msg: Msg) -> Res {
    match msg {
        Msg::Which(_) => Res::Which(m.borrow().info()),
        Msg::Count(_) => m.borrow().count(),
        Msg::Start(_, slot) => {
            let id = id_of(m.borrow().slots[slot].s.id);
            if let Some(c) = m.borrow().find(&id) {
                return Res::Err(if m.borrow().children[c].inc.is_some() { "AlreadyStarted" } else { "AlreadyPresent" });
            }
            // While it starts nobody can look at the supervisor.
            m.borrow_mut().children.push(MChild { slot, inc: None, restarting: false });
            let c = m.borrow().children.len() - 1;
            match m_start(m, c).await {
                Ok(inc) => {
                    let mut m = m.borrow_mut();
                    m.children[c].inc = inc;
                    if inc.is_none() && m.temporary(c) {
                        m.children.remove(c);
                    }
                    Res::Child(inc)
                }
                Err(r) => {
                    m.borrow_mut().children.remove(c);
                    Res::StartErr(rs(&r))
                }
            }
        }
        Msg::Terminate(_, id) => {
            let Some(c) = m.borrow().find(&id) else { return Res::Err("NotFound") };
            m_terminate(m, c, false).await;
            if m.borrow().temporary(c) {
                m.borrow_mut().children.remove(c);
            }
            Res::Fine
        }
        Msg::Restart(_, id) => {
            let Some(c) = m.borrow().find(&id) else { return Res::Err("NotFound") };
            if m.borrow().children[c].restarting {
                return Res::Err("Restarting");
            }
            if m.borrow().children[c].inc.is_some() {
                return Res::Err("Running");
            }
            match m_start(m, c).await {
                Ok(inc) => {
                    m.borrow_mut().children[c].inc = inc;
                    Res::Child(inc)
                }
                Err(r) => Res::StartErr(rs(&r)),
            }
        }
        Msg::Delete(_, id) => {
            let Some(c) = m.borrow().find(&id) else { return Res::Err("NotFound") };
            if m.borrow().children[c].restarting {
                return Res::Err("Restarting");
            }
            if m.borrow().children[c].inc.is_some() {
                return Res::Err("Running");
            }
            m.borrow_mut().children.remove(c);
            Res::Fine
        }
        _ => unreachable!(),
    }
}

async fn m_supervisor(m: M) {
    let n = m.borrow().children.len();
    for c in 0..n {
        match m_start(&m, c).await {
            Ok(inc) => m.borrow_mut().children[c].inc = inc,
            Err(_) => {
                m.borrow_mut().cls.insert("start-failed");
                if c > 0 {
                    m.borrow_mut().cls.insert("start-failed-with-children");
                }
                m_terminate_all(&m).await;
                let r = ExitReason::from("failed_to_start_child");
                let mut m = m.borrow_mut();
                m.results.insert(0, Res::NotStarted(rs(&r)));
                m.sup_dies(r);
                return;
            }
        }
    }
    {
        let mut g = m.borrow_mut();
        for c in (0..n).rev() {
            if g.temporary(c) && g.children[c].inc.is_none() {
                g.children.remove(c);
            }
        }
        g.results.insert(0, Res::Started);
    }
    loop {
        m.borrow_mut().idle = true;
        until(&m, |m| !m.mailbox.is_empty()).await;
        m.borrow_mut().idle = false;
        let msg = m.borrow_mut().mailbox.pop_front().unwrap();
        if let Err(r) = m_handle(&m, msg).await {
            let running = m.borrow().children.iter().filter(|c| c.inc.is_some_and(|i| m.borrow().incs[i].alive)).count();
            if running >= 2 {
                m.borrow_mut().cls.insert("stopped-with-children");
            }
            m_terminate_all(&m).await;
            m.borrow_mut().sup_dies(r);
            return;
        }
    }
}

// ---------------------------------------------------------------- driver

async fn settle() {
    tokio::time::sleep(Duration::from_nanos(1)).await;
    tokio::time::sleep(Duration::from_millis(1)).await;
}

struct Driver {
    w: World,
    m: M,
    sup: Option<Pin<Box<dyn Future<Output = ()>>>>,
    parent: mpsc::UnboundedSender<ParentCmd>,
    parent_alive: bool,
    link: bool,
    next: u64,
    checked: usize,
}

impl Driver {
    fn poll_model(&mut self) {
        if let Some(f) = &mut self.sup {
            let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
            if f.as_mut().poll(&mut cx).is_ready() {
                self.sup = None;
            }
        }
    }

    async fn compare(&mut self) -> Result<(), String> {
        self.poll_model();
        settle().await;
        let g = self.w.lock().unwrap();
        let m = self.m.borrow();
        let show = |from: usize| format!("expected {:?}\n  happened {:?}", m.log[from.min(m.log.len())..].iter().map(|e| &e.1).collect::<Vec<_>>(), &g.log[from.min(g.log.len())..]);
        let mut i = self.checked;
        while i < m.log.len() {
            let group = m.log[i].0;
            let mut j = i + 1;
            while group != 0 && j < m.log.len() && m.log[j].0 == group {
                j += 1;
            }
            let mut want: Vec<Ev> = m.log[i..j].iter().map(|e| e.1.clone()).collect();
            let Some(have) = g.log.get(i..j) else { return Err(show(self.checked)) };
            let mut have = have.to_vec();
            want.sort();
            have.sort();
            if want != have {
                return Err(show(self.checked));
            }
            i = j;
        }
        if g.log.len() != m.log.len() {
            return Err(show(self.checked));
        }
        if m.incs.len() != g.incs.len() {
            return Err(format!("expected {} children to have started, {} did", m.incs.len(), g.incs.len()));
        }
        for (i, (mi, gi)) in m.incs.iter().zip(g.incs.iter()).enumerate() {
            if mi.down != gi.down {
                return Err(format!("child process {i} (of {}): expected exit reason {:?}, was {:?}", m.slots[mi.slot].s.id, mi.down, gi.down));
            }
        }
        if m.sup_dead != g.sup_down {
            return Err(format!("supervisor: expected exit reason {:?}, was {:?}", m.sup_dead, g.sup_down));
        }
        for (k, v) in &m.results {
            if g.results.get(k) != Some(v) {
                return Err(format!("call {k}: expected {v:?}, got {:?}", g.results.get(k)));
            }
        }
        if let Some(k) = g.results.keys().find(|k| !m.results.contains_key(k)) {
            return Err(format!("call {k} returned {:?}, but must wait", g.results[k]));
        }
        self.checked = m.log.len();
        Ok(())
    }

    fn call(&mut self, a: Admin, msg: impl FnOnce(u64) -> Msg) {
        self.next += 1;
        let id = self.next;
        let dead = self.m.borrow().sup_dead.is_some();
        admin(&self.w, id, a);
        if dead {
            self.m.borrow_mut().results.insert(id, Res::Down(rs(&ExitReason::from("noproc"))));
        } else {
            self.m.borrow_mut().mailbox.push_back(msg(id));
        }
    }

    async fn step(&mut self, op: &Op) -> Result<(), String> {
        match op {
            Op::End { which, how } => {
                let m = self.m.clone();
                let mut m = m.borrow_mut();
                let alive: Vec<usize> = (0..m.incs.len()).filter(|i| m.incs[*i].alive).collect();
                if alive.is_empty() {
                    return Ok(());
                }
                let inc = alive[*which as usize % alive.len()];
                let busy = m.incs[inc].stopping.is_some();
                let g = self.w.lock().unwrap();
                let i = &g.incs[inc];
                let pid = i.pid.unwrap();
                let external = |r: ExitReason| {
                    Process::spawn(async move { Process::exit(pid, r) });
                };
                match how % 8 {
                    0 if !busy => {
                        let _ = i.tx.as_ref().unwrap().send(ChildCmd::Return);
                        m.die(inc, ExitReason::Normal);
                    }
                    1 if !busy => {
                        let _ = i.tx.as_ref().unwrap().send(ChildCmd::Panic);
                        m.die(inc, ExitReason::from("child panics"));
                    }
                    2 | 3 if !busy => {
                        let r = reason(how / 8);
                        let _ = i.tx.as_ref().unwrap().send(ChildCmd::Exit(r.clone()));
                        m.die(inc, r);
                    }
                    4 | 5 => {
                        let r = reason(how / 8);
                        external(r.clone());
                        m.signal(inc, r, false);
                    }
                    _ => {
                        external(ExitReason::Kill);
                        m.signal(inc, ExitReason::Kill, false);
                    }
                }
            }
            Op::StartChild(s) => {
                let slot = {
                    let mut g = self.w.lock().unwrap();
                    g.slots.push(Slot { plan: s.plan.clone(), kind: s.kind, attempts: 0 });
                    self.m.borrow_mut().slots.push(MSlot { s: s.clone(), attempts: 0 });
                    g.slots.len() - 1
                };
                self.call(Admin::Start(spec(&self.w, slot, s)), |id| Msg::Start(id, slot));
            }
            Op::Terminate(i) => self.call(Admin::Terminate(id_of(*i)), |id| Msg::Terminate(id, id_of(*i))),
            Op::Restart(i) => self.call(Admin::Restart(id_of(*i)), |id| Msg::Restart(id, id_of(*i))),
            Op::Delete(i) => self.call(Admin::Delete(id_of(*i)), |id| Msg::Delete(id, id_of(*i))),
            Op::Which => self.call(Admin::Which, Msg::Which),
            Op::Count => self.call(Admin::Count, Msg::Count),
            Op::OpenStart => {
                self.m.borrow_mut().permits += 1;
                self.w.lock().unwrap().gate.add_permits(1);
            }
            Op::OpenStop(which) => {
                let mut m = self.m.borrow_mut();
                let stopping: Vec<usize> = (0..m.incs.len()).filter(|i| m.incs[*i].alive && m.incs[*i].stopping.is_some()).collect();
                if stopping.is_empty() {
                    return Ok(());
                }
                let inc = stopping[*which as usize % stopping.len()];
                self.w.lock().unwrap().incs[inc].stop.add_permits(1);
                let r = m.incs[inc].stopping.clone().unwrap();
                m.die(inc, r);
            }
            Op::StopSup { how, reason: r } => {
                let r = reason(*r);
                let Some(sup) = self.w.lock().unwrap().sup else { return Ok(()) };
                let dead = self.m.borrow().sup_dead.is_some();
                match how % 8 {
                    0..=2 => {
                        let r2 = r.clone();
                        Process::spawn(async move {
                            let _ = Supervisor::stop(sup, r2, None).await;
                        });
                        if !dead {
                            self.m.borrow_mut().mailbox.push_back(Msg::Stop(r));
                        }
                    }
                    3 | 4 if self.link && self.parent_alive => {
                        let _ = self.parent.send(ParentCmd::SendExit(r.clone()));
                        if !dead {
                            self.m.borrow_mut().mailbox.push_back(Msg::ParentExit(r));
                        }
                    }
                    5 | 6 if self.link && self.parent_alive => {
                        let _ = self.parent.send(ParentCmd::End(r.clone()));
                        self.parent_alive = false;
                        if !dead {
                            self.m.borrow_mut().mailbox.push_back(Msg::ParentExit(r));
                        }
                    }
                    7 => {
                        Process::spawn(async move { Process::exit(sup, ExitReason::Kill) });
                        if !dead {
                            self.sup = None;
                            self.m.borrow_mut().cls.insert("killed");
                            self.m.borrow_mut().sup_dies(ExitReason::Kill);
                        }
                    }
                    _ => return Ok(()),
                }
            }
            Op::Stray(r) => {
                let Some(sup) = self.w.lock().unwrap().sup else { return Ok(()) };
                let r = reason(*r);
                Process::spawn(async move { Process::exit(sup, r) });
            }
        }
        self.compare().await?;
        // The supervisor's own view, whenever it can answer.
        if self.m.borrow().idle && self.m.borrow().sup_dead.is_none() {
            self.call(Admin::Which, Msg::Which);
            self.call(Admin::Count, Msg::Count);
            self.compare().await?;
        }
        Ok(())
    }
}

fn new_world() -> World {
    Arc::new(Mutex::new(WorldIn {
        log: vec![],
        slots: vec![],
        incs: vec![],
        gate: Arc::new(Semaphore::new(0)),
        results: BTreeMap::new(),
        sup: None,
        sup_down: None,
        observer: None,
        watched: None,
    }))
}

fn normalize(case: &Case) -> Case {
    let mut case = case.clone();
    // The order in which the others are stopped for a restart is not specified.
    if case.strategy % 3 != 0 {
        let all = case.children.iter_mut().chain(case.ops.iter_mut().filter_map(|o| match o {
            Op::StartChild(s) => Some(s),
            _ => None,
        }));
        for s in all {
            if s.kind == Kind::Slow {
                s.kind = Kind::Trap;
            }
        }
    }
    let mut seen = BTreeSet::new();
    case.children.retain(|c| seen.insert(id_of(c.id)));
    case
}

fn run(case: &Case, profile: &'static str) -> Outcome {
    let case = normalize(case);
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
    let local = tokio::task::LocalSet::new();
    let (result, model) = local.block_on(&rt, async {
        let w = new_world();
        let obs = Process::spawn(observer(w.clone()));
        let m: M = Default::default();
        {
            let mut g = w.lock().unwrap();
            g.observer = Some(obs);
            let mut m = m.borrow_mut();
            (m.strategy, m.auto, m.max_restarts) = (case.strategy, case.auto, case.max_restarts as usize);
            for (slot, s) in case.children.iter().enumerate() {
                g.slots.push(Slot { plan: s.plan.clone(), kind: s.kind, attempts: 0 });
                m.slots.push(MSlot { s: s.clone(), attempts: 0 });
                m.children.push(MChild { slot, inc: None, restarting: false });
            }
        }
        let (parent, mut prx) = mpsc::unbounded_channel();
        let sup = Supervisor::with_children(case.children.iter().enumerate().map(|(i, s)| spec(&w, i, s)))
            .strategy(match case.strategy % 3 {
                0 => SupervisionStrategy::OneForOne,
                1 => SupervisionStrategy::OneForAll,
                _ => SupervisionStrategy::RestForOne,
            })
            .auto_shutdown(match case.auto % 3 {
                0 => AutoShutdown::Never,
                1 => AutoShutdown::AnySignificant,
                _ => AutoShutdown::AllSignificant,
            })
            .max_restarts(case.max_restarts as usize)
            .max_duration(if case.max_restarts % 2 == 0 { Duration::from_secs(3600) } else { Duration::MAX });
        let link = case.link;
        let w2 = w.clone();
        let parent_pid = Process::spawn(async move {
            Process::set_flags(ProcessFlags::TRAP_EXIT);
            let r = if link { sup.start_link(SupervisorOptions::new()).await } else { sup.start(SupervisorOptions::new()).await };
            match r {
                Ok(p) => {
                    if w2.lock().unwrap().sup != Some(p) {
                        w2.lock().unwrap().sup = Some(p);
                        let obs = w2.lock().unwrap().observer.unwrap();
                        Process::send(obs, Watch { pid: p, inc: None });
                    }
                    w2.lock().unwrap().results.insert(0, Res::Started);
                }
                Err(r) => {
                    w2.lock().unwrap().results.insert(0, Res::NotStarted(rs(&r)));
                }
            }
            while let Some(c) = prx.recv().await {
                match c {
                    ParentCmd::SendExit(r) => {
                        let sup = w2.lock().unwrap().sup;
                        if let Some(p) = sup {
                            Process::exit(p, r);
                        }
                    }
                    ParentCmd::End(r) => {
                        Process::exit(Process::current(), r);
                        std::future::pending::<()>().await;
                    }
                }
            }
        });
        let fut = Box::pin(m_supervisor(m.clone()));
        let mut d = Driver { w: w.clone(), m: m.clone(), sup: Some(fut), parent, parent_alive: true, link, next: 0, checked: 0 };
        let mut result = d.compare().await.map_err(|e| format!("start: {e}"));
        if result.is_ok() {
            // Starting may wait for gates.
            for _ in 0..40 {
                if m.borrow().results.contains_key(&0) {
                    break;
                }
                let mut open = vec![Op::OpenStart];
                open.push(Op::OpenStop(0));
                for op in open {
                    result = d.step_quiet(&op).await.map_err(|e| format!("start: {e}"));
                    if result.is_err() {
                        break;
                    }
                }
                if result.is_err() {
                    break;
                }
            }
        }
        if result.is_ok() && m.borrow().sup_dead.is_none() {
            for (i, op) in case.ops.iter().enumerate() {
                if let Err(e) = d.step(op).await {
                    result = Err(format!("op {i} {op:?}: {e}"));
                    break;
                }
            }
            // Let everything that still waits go on.
            for _ in 0..60 {
                if result.is_err() || (m.borrow().idle && m.borrow().mailbox.is_empty()) || m.borrow().sup_dead.is_some() && !m.borrow().incs.iter().any(|i| i.stopping.is_some()) {
                    break;
                }
                for op in [Op::OpenStart, Op::OpenStop(0)] {
                    if result.is_ok() {
                        result = d.step(&op).await.map_err(|e| format!("at the end, {op:?}: {e}"));
                    }
                }
            }
        }
        // Clean up.
        let pids: Vec<Pid> = {
            let mut g = w.lock().unwrap();
            g.gate.add_permits(1000);
            for i in &mut g.incs {
                i.tx = None;
                i.stop.add_permits(1000);
            }
            g.sup.into_iter().chain([parent_pid]).chain(g.incs.iter().filter_map(|i| i.pid)).chain([obs]).collect()
        };
        Process::spawn(async move {
            for p in pids {
                Process::exit(p, ExitReason::Kill);
            }
        });
        settle().await;
        w.lock().unwrap().slots.clear();
        settle().await;
        drop(d);
        (result, Rc::try_unwrap(m).ok().expect("HARNESS: model").into_inner())
    });
    let mut o = match result {
        Ok(()) => Outcome::ok(false),
        Err(e) => Outcome::fail(e),
    };
    let c = &model.cls;
    o.nontrivial |= match profile {
        "restarts" => model.recoveries > 0 && model.slots.len() > 1,
        "intensity" => model.restarts > 1,
        "admin" => ["child-result", "ok-result"].iter().any(|k| c.contains(k)) && ["AlreadyStarted", "AlreadyPresent", "NotFound", "Running", "Restarting", "StartError"].iter().any(|k| c.contains(k)),
        _ => ["stopped-with-children", "start-failed-with-children", "auto-shutdown", "no-auto-shutdown"].iter().any(|k| c.contains(k)),
    };
    o.classes = model.cls.into_iter().collect();
    o
}

impl Driver {
    /// A step before the supervisor has started.
    async fn step_quiet(&mut self, op: &Op) -> Result<(), String> {
        match op {
            Op::OpenStart => {
                self.m.borrow_mut().permits += 1;
                self.w.lock().unwrap().gate.add_permits(1);
            }
            Op::OpenStop(_) => {
                let mut m = self.m.borrow_mut();
                if let Some(inc) = (0..m.incs.len()).find(|i| m.incs[*i].alive && m.incs[*i].stopping.is_some()) {
                    self.w.lock().unwrap().incs[inc].stop.add_permits(1);
                    let r = m.incs[inc].stopping.clone().unwrap();
                    m.die(inc, r);
                }
            }
            _ => unreachable!(),
        }
        self.compare().await
    }
}

// ---------------------------------------------------------------- generators

fn start_k(bad: u32, block: u32) -> BoxedStrategy<StartK> {
    let leaf = move || {
        weighted(vec![
            (10, Just(StartK::Fine).boxed()),
            (bad, Just(StartK::Ignore).boxed()),
            (bad * 2, any::<u8>().prop_map(StartK::Err).boxed()),
            (bad, any::<u8>().prop_map(StartK::ErrLinked).boxed()),
            (bad, any::<u8>().prop_map(StartK::DeadOnArrival).boxed()),
        ])
    };
    weighted(vec![(20, leaf()), (block, leaf().prop_map(|k| StartK::Block(Box::new(k))).boxed())])
}

fn spec_gen(bad: u32, block: u32) -> BoxedStrategy<SpecGen> {
    (
        0u8..6,
        0u8..3,
        any::<bool>(),
        proptest::bool::weighted(0.3),
        0u8..4,
        proptest::collection::vec(start_k(bad, block), 0..5),
        prop_oneof![4 => Just(Kind::Plain), 3 => Just(Kind::Trap), 2 => Just(Kind::Slow)],
    )
        .prop_map(|(id, restart, significant, supervisor, shutdown, plan, kind)| SpecGen { id, restart, significant, supervisor, shutdown, plan, kind })
        .boxed()
}

struct Profile {
    name: &'static str,
    end: u32,
    admin: u32,
    stop: u32,
    bad: u32,
    init_bad: u32,
    block: u32,
    limit: BoxedStrategy<u8>,
    auto: BoxedStrategy<u8>,
    ops: usize,
}

fn case(p: Profile) -> BoxedStrategy<Case> {
    let (bad, block) = (p.bad, p.block);
    // The first start of an initial child usually works.
    let init_bad = p.init_bad;
    let initial = (spec_gen(bad, block), start_k(init_bad, 1)).prop_map(|(mut s, k)| {
        s.plan.insert(0, k);
        s
    });
    let id = || 0u8..6;
    let op = weighted(vec![
        (p.end, (any::<u8>(), any::<u8>()).prop_map(|(which, how)| Op::End { which, how }).boxed()),
        (p.admin * 2, spec_gen(bad, block).prop_map(Op::StartChild).boxed()),
        (p.admin * 2, id().prop_map(Op::Terminate).boxed()),
        (p.admin * 2, id().prop_map(Op::Restart).boxed()),
        (p.admin * 2, id().prop_map(Op::Delete).boxed()),
        (2, Just(Op::Which).boxed()),
        (1, Just(Op::Count).boxed()),
        (3, Just(Op::OpenStart).boxed()),
        (3, any::<u8>().prop_map(Op::OpenStop).boxed()),
        (p.stop, (any::<u8>(), any::<u8>()).prop_map(|(how, reason)| Op::StopSup { how, reason }).boxed()),
        (1, any::<u8>().prop_map(Op::Stray).boxed()),
    ]);
    (0u8..3, p.auto, p.limit, any::<bool>(), proptest::collection::vec(initial, 0..6), proptest::collection::vec(op, 0..p.ops))
        .prop_map(|(strategy, auto, max_restarts, link, children, ops)| Case { strategy, auto, max_restarts, link, children, ops })
        .boxed()
}

fn profile(name: &'static str) -> Profile {
    let many = || Just(200u8).boxed();
    let auto = || prop_oneof![2 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)].boxed();
    match name {
        "restarts" => Profile { name, end: 30, admin: 1, stop: 0, bad: 1, init_bad: 0, block: 3, limit: many(), auto: Just(0u8).boxed(), ops: 24 },
        "intensity" => Profile { name, end: 30, admin: 1, stop: 0, bad: 2, init_bad: 0, block: 2, limit: (0u8..8).boxed(), auto: Just(0u8).boxed(), ops: 24 },
        "admin" => Profile { name, end: 8, admin: 5, stop: 1, bad: 2, init_bad: 0, block: 2, limit: prop_oneof![3 => Just(200u8), 1 => 0u8..6].boxed(), auto: auto(), ops: 30 },
        _ => Profile { name, end: 14, admin: 1, stop: 5, bad: 1, init_bad: 1, block: 2, limit: prop_oneof![2 => Just(200u8), 1 => 0u8..4].boxed(), auto: (0u8..3).boxed(), ops: 14 },
    }
}

fn history(name: &'static str, n: u32) -> Box<dyn DynSub> {
    Sub::new(name, (n, 12), move || case(profile(name)), move |c| run(c, name)).hang_violates(Duration::from_secs(60)).boxed()
}

// ---------------------------------------------------------------- restart intensity in real time

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct WindowCase {
    limit: u8,
    duration: u8,
    /// Milliseconds before the next crash, failing starts after it.
    crashes: Vec<(u8, u8)>,
}

fn window(case: &WindowCase) -> Outcome {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let limit = case.limit as usize;
    let d = Duration::from_millis(case.duration as u64);
    let t0 = Instant::now();
    // When starts happened, the current child, and how many of the next starts fail.
    #[derive(Default)]
    struct S {
        starts: Vec<Duration>,
        pid: Option<Pid>,
        fail: usize,
    }
    let s: Arc<Mutex<S>> = Default::default();
    let out = rt.block_on(async {
        let s2 = s.clone();
        let spec = ChildSpec::new("c").start(move || {
            let s = s2.clone();
            async move {
                let mut g = s.lock().unwrap();
                g.starts.push(t0.elapsed());
                if g.fail > 0 {
                    g.fail -= 1;
                    return Err(ExitReason::from("no"));
                }
                let p = Process::spawn_link(std::future::pending::<()>());
                g.pid = Some(p);
                Ok(p)
            }
        });
        let sup = Supervisor::with_children([spec]).max_restarts(limit).max_duration(d);
        let (tx, rx) = oneshot::channel();
        let down: Arc<Mutex<Option<(ExitReason, Duration)>>> = Default::default();
        let down2 = down.clone();
        let watcher = Process::spawn(async move {
            let p = sup.start(SupervisorOptions::new()).await.unwrap();
            Process::monitor(p);
            let _ = tx.send(p);
            loop {
                if let Message::System(SystemMessage::ProcessDown(_, _, r)) = Process::receive::<()>().await {
                    *down2.lock().unwrap() = Some((r, t0.elapsed()));
                }
            }
        });
        let sup = rx.await.unwrap();
        // Interval in which each counted restart happened.
        let mut counted: Vec<(Duration, Duration)> = Vec::new();
        let mut decided = (0, 0, 0);
        let mut result = Ok(());
        'all: for (gap, fails) in &case.crashes {
            tokio::time::sleep(Duration::from_millis(*gap as u64)).await;
            let (pid, before) = {
                let mut g = s.lock().unwrap();
                g.fail = *fails as usize % 3;
                (g.pid.unwrap(), g.starts.len())
            };
            let attempts = *fails as usize % 3 + 1;
            let from = t0.elapsed();
            Process::spawn(async move { Process::exit(pid, ExitReason::from("crash")) });
            let mut spins = 0u32;
            while down.lock().unwrap().is_none() && s.lock().unwrap().starts.len() < before + attempts {
                spins += 1;
                if spins > 40_000 {
                    result = Err(format!("no restart and no exit after crash at {from:?}"));
                    break 'all;
                }
                if spins < 200 { tokio::task::yield_now().await } else { tokio::time::sleep(Duration::from_micros(500)).await }
            }
            let (starts, dead) = (s.lock().unwrap().starts[before..].to_vec(), down.lock().unwrap().clone());
            let mut low = from;
            for k in 0..attempts {
                // The k-th attempt is counted, then made.
                let high = starts.get(k).copied().or(dead.as_ref().map(|x| x.1)).unwrap_or_else(|| t0.elapsed());
                let sure = 1 + counted.iter().filter(|(a, _)| high - *a <= d).count();
                let possible = 1 + counted.iter().filter(|(_, b)| low.saturating_sub(*b) <= d).count();
                counted.push((low, high));
                if k < starts.len() {
                    if sure > limit {
                        result = Err(format!("restarted although {sure} restarts happened within {d:?} (limit {limit}): {counted:?}"));
                        break 'all;
                    }
                    decided.0 += 1;
                    if possible > limit { decided.2 += 1; } else if counted.len() > limit { decided.1 += 1; }
                    low = starts[k];
                } else {
                    let (r, _) = dead.unwrap();
                    if possible <= limit {
                        result = Err(format!("gave up although only {possible} restarts happened within {d:?} (limit {limit}): {counted:?}"));
                    } else if r != "shutdown" {
                        result = Err(format!("gave up with reason {r:?}"));
                    }
                    decided.0 += 100;
                    break 'all;
                }
            }
        }
        Process::spawn(async move {
            Process::exit(sup, ExitReason::Kill);
            Process::exit(watcher, ExitReason::Kill);
        });
        tokio::time::sleep(Duration::from_millis(1)).await;
        for _ in 0..20 { tokio::task::yield_now().await; }
        (result, decided)
    });
    let (result, decided) = out;
    let mut o = match result {
        Ok(()) => Outcome::ok(decided.0 >= 2),
        Err(e) => Outcome::fail(e),
    };
    if decided.0 >= 100 { o = o.class("gave-up"); }
    if decided.1 > 0 { o = o.class("old-restarts-forgotten"); }
    if decided.2 > 0 { o = o.class("too-close-to-call"); }
    o
}

// ---------------------------------------------------------------- shutdown of trees in real time

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Node {
    /// delay: 255 never stops on its own
    Worker { trap: bool, delay: u8, policy: u8, timeout: u8 },
    Tree { children: Vec<Node>, policy: u8, strategy: u8 },
    /// A worker that does not start.
    Fails,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct TreeCase {
    root: Vec<Node>,
    how: u8,
    reason: u8,
}

#[derive(Debug, Clone, PartialEq)]
enum TEv {
    Up(usize),
    Got(usize, String),
    Stop(usize),
    Down(usize, String),
}
type TLog = Arc<Mutex<Vec<(TEv, Duration)>>>;

struct TGuard(TLog, usize, Instant);
impl Drop for TGuard {
    fn drop(&mut self) {
        self.0.lock().unwrap().push((TEv::Stop(self.1), self.2.elapsed()));
    }
}

#[derive(Clone)]
struct TNode {
    id: usize,
    node: Node,
    children: Vec<TNode>,
}

fn number(nodes: &[Node], next: &mut usize) -> Vec<TNode> {
    nodes
        .iter()
        .map(|n| {
            let id = *next;
            *next += 1;
            TNode { id, node: n.clone(), children: if let Node::Tree { children, .. } = n { number(children, next) } else { vec![] } }
        })
        .collect()
}

#[derive(Serialize, Deserialize, Debug)]
struct TWatch {
    pid: Pid,
    id: usize,
}

fn tree_spec(n: &TNode, log: &TLog, obs: Pid, t0: Instant) -> ChildSpec {
    let (id, node, log) = (n.id, n.node.clone(), log.clone());
    match node {
        Node::Fails => ChildSpec::new(format!("{id}")).start(|| async { Err(ExitReason::from("fails")) }),
        Node::Worker { trap, delay, policy, timeout } => {
            let mut c = ChildSpec::new(format!("{id}")).restart(Restart::Temporary).start(move || {
                let log = log.clone();
                async move {
                    let (up, is_up) = oneshot::channel();
                    let p = Process::spawn_link(async move {
                        let _g = TGuard(log.clone(), id, t0);
                        if trap {
                            Process::set_flags(ProcessFlags::TRAP_EXIT);
                        }
                        log.lock().unwrap().push((TEv::Up(id), t0.elapsed()));
                        let _ = up.send(());
                        loop {
                            if let Message::System(SystemMessage::Exit(_, r)) = Process::receive::<()>().await {
                                log.lock().unwrap().push((TEv::Got(id, rs(&r)), t0.elapsed()));
                                if delay != 255 {
                                    tokio::time::sleep(Duration::from_millis(delay as u64)).await;
                                    Process::exit(Process::current(), r);
                                }
                                std::future::pending::<()>().await;
                            }
                        }
                    });
                    Process::send(obs, TWatch { pid: p, id });
                    let _ = is_up.await;
                    Ok(p)
                }
            });
            c = match policy % 4 {
                0 => c,
                1 => c.shutdown(Shutdown::BrutalKill),
                2 => c.shutdown(Duration::from_millis(timeout as u64)),
                _ => c.shutdown(Shutdown::Infinity),
            };
            c
        }
        Node::Tree { policy, strategy, .. } => {
            let specs: Vec<ChildSpec> = n.children.iter().map(|c| tree_spec(c, &log, obs, t0)).collect();
            let sup = Supervisor::with_children(specs).strategy(match strategy % 3 {
                0 => SupervisionStrategy::OneForOne,
                1 => SupervisionStrategy::OneForAll,
                _ => SupervisionStrategy::RestForOne,
            });
            let mut c = if policy % 2 == 0 {
                sup.child_spec(SupervisorOptions::new()).id(format!("{id}"))
            } else {
                ChildSpec::new(format!("{id}"))
                    .child_type(ChildType::Supervisor)
                    .start(move || {
                        let sup = sup.clone();
                        async move {
                            let p = sup.start_link(SupervisorOptions::new()).await?;
                            Process::send(obs, TWatch { pid: p, id });
                            Ok(p)
                        }
                    })
            };
            match policy % 3 {
                0 => {}
                1 => c = c.shutdown(Shutdown::Infinity),
                _ => c = c.shutdown(Duration::from_secs(60)),
            }
            c
        }
    }
}

/// Which nodes were started before the first failing one; true if all of them.
fn started(nodes: &[TNode], out: &mut Vec<usize>) -> bool {
    for n in nodes {
        match &n.node {
            Node::Fails => return false,
            Node::Worker { .. } => out.push(n.id),
            Node::Tree { .. } => {
                if !started(&n.children, out) {
                    return false;
                }
            }
        }
    }
    true
}

fn workers<'a>(nodes: &'a [TNode], out: &mut BTreeMap<usize, &'a TNode>) {
    for n in nodes {
        out.insert(n.id, n);
        workers(&n.children, out);
    }
}

fn tree(case: &TreeCase) -> Outcome {
    let mut next = 1;
    let nodes = number(&case.root, &mut next);
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let t0 = Instant::now();
    let log: TLog = Default::default();
    let result = rt.block_on(async {
        let log2 = log.clone();
        let (otx, orx) = oneshot::channel::<()>();
        let obs = Process::spawn(async move {
            let mut refs: Vec<(Reference, usize)> = Vec::new();
            let mut otx = Some(otx);
            loop {
                match Process::receive::<TWatch>().await {
                    Message::User(TWatch { pid, id }) => refs.push((Process::monitor(pid), id)),
                    Message::System(SystemMessage::ProcessDown(_, r, reason)) => {
                        let id = refs.iter().find(|x| x.0 == r).unwrap().1;
                        log2.lock().unwrap().push((TEv::Down(id, rs(&reason)), t0.elapsed()));
                        if id == 0 {
                            if let Some(tx) = otx.take() {
                                let _ = tx.send(());
                            }
                        }
                    }
                    _ => {}
                }
            }
        });
        let root = Supervisor::with_children(nodes.iter().map(|n| tree_spec(n, &log, obs, t0)));
        let (tx, rx) = oneshot::channel();
        let (how, r) = (case.how % 4, reason(case.reason));
        let (stx, srx) = oneshot::channel::<()>();
        let log3 = log.clone();
        let parent = Process::spawn(async move {
            Process::set_flags(ProcessFlags::TRAP_EXIT);
            let start = root.start_link(SupervisorOptions::new()).await;
            match start {
                Ok(p) => {
                    Process::send(obs, TWatch { pid: p, id: 0 });
                    let _ = tx.send(Ok(p));
                    let _ = srx.await;
                    match how {
                        0 => {
                            let _ = Supervisor::stop(p, r, None).await;
                        }
                        1 => Process::exit(p, r),
                        2 => Process::exit(Process::current(), r),
                        _ => return,
                    }
                    std::future::pending::<()>().await;
                }
                Err(e) => {
                    log3.lock().unwrap().push((TEv::Down(0, rs(&e)), t0.elapsed()));
                    let _ = tx.send(Err(e));
                }
            }
        });
        let mut expect_up = Vec::new();
        let all = started(&nodes, &mut expect_up);
        let res = rx.await.map_err(|_| "the parent died".to_string());
        let check = async {
            match res? {
                Ok(_) if !all => return Err("the supervisor started although a child failed".into()),
                Ok(_) => {
                    for _ in 0..5 {
                        tokio::task::yield_now().await;
                    }
                    let ups: Vec<TEv> = log.lock().unwrap().iter().map(|e| e.0.clone()).collect();
                    let want: Vec<TEv> = expect_up.iter().map(|i| TEv::Up(*i)).collect();
                    if ups != want {
                        return Err(format!("starts: expected {want:?}, happened {ups:?}"));
                    }
                    let _ = stx.send(());
                    let _ = orx.await;
                }
                Err(e) if all => return Err(format!("the supervisor failed to start: {e:?}")),
                Err(e) if e != "failed_to_start_child" => return Err(format!("the start failed with {e:?}")),
                Err(_) => {}
            }
            // Reasons of the children may be told to the observer a bit later.
            for _ in 0..50 {
                tokio::task::yield_now().await;
            }
            judge(&nodes, &expect_up, &log.lock().unwrap(), all, case)
        };
        let out: Result<(), String> = check.await;
        Process::spawn(async move {
            Process::exit(parent, ExitReason::Kill);
            Process::exit(obs, ExitReason::Kill);
        });
        tokio::time::sleep(Duration::from_millis(1)).await;
        out
    });
    match result {
        Ok(()) => {
            let mut up = Vec::new();
            let all = started(&nodes, &mut up);
            let mut o = Outcome::ok(up.len() >= 2);
            o.classes.push(if all { "stopped" } else { "start-failed" });
            let l = log.lock().unwrap();
            if l.iter().any(|e| matches!(&e.0, TEv::Down(i, r) if *i != 0 && r == "Kill")) {
                o.classes.push("killed-children");
            }
            o
        }
        Err(e) => Outcome::fail(e),
    }
}

fn judge(nodes: &[TNode], ups: &[usize], log: &[(TEv, Duration)], all: bool, case: &TreeCase) -> Result<(), String> {
    let mut by_id = BTreeMap::new();
    workers(nodes, &mut by_id);
    let end = log.iter().position(|e| matches!(e.0, TEv::Down(0, _))).ok_or("the supervisor did not end")?;
    // Everything has stopped before the supervisor has, one child at a time, last started first.
    let events: Vec<&(TEv, Duration)> = log[..end].iter().filter(|e| matches!(e.0, TEv::Got(..) | TEv::Stop(_))).collect();
    let show = || format!("{log:?}");
    let mut at = 0;
    for id in ups.iter().rev() {
        let Node::Worker { trap, delay, policy, timeout } = by_id[id].node else { unreachable!() };
        let brutal = policy % 4 == 1;
        let mut told = None;
        if trap && !brutal {
            match events.get(at) {
                Some((TEv::Got(i, r), t)) if i == id && *r == rs(&ExitReason::from("shutdown")) => told = Some(*t),
                e => return Err(format!("child {id} must be asked to shut down next, but {e:?} in {}", show())),
            }
            at += 1;
        }
        let Some((TEv::Stop(i), t)) = events.get(at) else { return Err(format!("child {id} must stop next, but {:?} in {}", events.get(at), show())) };
        if i != id {
            return Err(format!("child {id} must stop next, but {i} did in {}", show()));
        }
        at += 1;
        let kill = rs(&ExitReason::Kill);
        let down = log.iter().find_map(|e| match &e.0 {
            TEv::Down(i, r) if i == id => Some(r.clone()),
            _ => None,
        });
        let shut = rs(&ExitReason::from("shutdown"));
        let (d, x) = (Duration::from_millis(delay as u64), Duration::from_millis(timeout as u64));
        let down = down.ok_or_else(|| format!("no word of the end of child {id}"))?;
        let want_kill = if brutal {
            Some(true)
        } else if !trap {
            Some(false)
        } else if policy % 4 == 2 {
            if delay == 255 || d > x + Duration::from_millis(250) { Some(true) } else if down == shut { Some(false) } else if d >= x { None } else {
                // Killed although it would have stopped in time: only if the sleep was late.
                None
            }
        } else {
            Some(false)
        };
        if down != kill && down != shut {
            return Err(format!("child {id} ended with {down}"));
        }
        if let Some(k) = want_kill {
            if (down == kill) != k {
                return Err(format!("child {id} ({:?}) ended with {down}: {}", by_id[id].node, show()));
            }
        }
        if down == kill && !brutal {
            let took = *t - told.unwrap();
            if took + Duration::from_millis(2) < x {
                return Err(format!("child {id} was killed {took:?} after it was asked to stop, timeout {x:?}"));
            }
        }
    }
    if at != events.len() {
        return Err(format!("unexpected {:?} in {}", events[at], show()));
    }
    let TEv::Down(_, r) = &log[end].0 else { unreachable!() };
    let want = if !all { rs(&ExitReason::from("failed_to_start_child")) } else if case.how % 4 == 3 { rs(&ExitReason::Normal) } else { rs(&reason(case.reason)) };
    if *r != want {
        return Err(format!("the supervisor ended with {r}, expected {want}"));
    }
    if let Some(e) = log[end..].iter().find(|e| matches!(e.0, TEv::Up(_) | TEv::Got(..) | TEv::Stop(_))) {
        return Err(format!("{e:?} after the supervisor ended"));
    }
    Ok(())
}

fn tree_case() -> BoxedStrategy<TreeCase> {
    let worker = (any::<bool>(), prop_oneof![3 => 0u8..8, 1 => Just(255u8)], 0u8..4, prop_oneof![1 => 0u8..25, 1 => 60u8..90])
        .prop_map(|(trap, delay, policy, timeout)| {
            // A child that never stops needs a timeout.
            let delay = if trap && policy % 4 != 2 && policy % 4 != 1 && delay == 255 { 3 } else { delay };
            // A child that stops in time has plenty of it, or none at all.
            let (timeout, delay) = if policy % 4 == 2 && delay != 255 && timeout < 60 { (timeout, if timeout % 2 == 0 { 255 } else { 0 }) } else { (timeout, delay) };
            Node::Worker { trap, delay, policy, timeout }
        });
    let leaf = |fails: u32| weighted(vec![(12, worker.clone().boxed()), (fails, Just(Node::Fails).boxed())]);
    let sub = |inner: BoxedStrategy<Node>| {
        (proptest::collection::vec(inner, 0..4), 0u8..6, 0u8..3).prop_map(|(children, policy, strategy)| Node::Tree { children, policy, strategy }).boxed()
    };
    let with = |fails: u32| {
        let l1 = weighted(vec![(3, leaf(fails)), (1, sub(leaf(fails)))]);
        let l2 = weighted(vec![(3, leaf(fails)), (2, sub(l1))]);
        (proptest::collection::vec(l2, 1..5), 0u8..4, 0u8..4).prop_map(|(root, how, reason)| TreeCase { root, how, reason }).boxed()
    };
    weighted(vec![(3, with(0)), (2, with(2))])
}

pub fn subs(id: &str) -> (Vec<Box<dyn DynSub>>, &'static str, Vec<&'static str>) {
    let assumptions = vec![
        "the clock of the runtime is paused and the runtime idle between operations, so the order of what the supervisor receives is known",
        "start routines link the process they start and do not panic",
    ];
    let name = match id {
        "C12" => "restarts",
        "C13" => "intensity",
        "C14" => "admin",
        _ => "shutdown",
    };
    let mut subs = vec![history(name, 300_000)];
    if id == "C13" {
        subs.push(
            Sub::new(
                "window",
                (8000, 10),
                || {
                    (0u8..5, prop_oneof![1 => Just(0u8), 6 => 5u8..40], proptest::collection::vec((prop_oneof![3 => Just(0u8), 2 => 0u8..12, 1 => 0u8..45], prop_oneof![3 => Just(0u8), 1 => any::<u8>()]), 1..9))
                        .prop_map(|(limit, duration, crashes)| WindowCase { limit, duration, crashes })
                        .boxed()
                },
                window,
            )
            .threads(32)
            .confirm(2)
            .shrink(200)
            .boxed(),
        );
    }
    if id == "C15" {
        subs.push(Sub::new("tree", (20000, 10), tree_case, tree).threads(32).confirm(2).shrink(300).boxed());
    }
    let rule = match id {
        "C12" => "restarts: the supervisor has more than one child and recovered at least once",
        "C13" => "intensity: at least two restarts were counted; window: at least two decisions to restart, or giving up",
        "C14" => "admin: at least one call succeeded and at least one was refused",
        _ => "shutdown: the supervisor stopped (or failed to start) with children running, or decided about automatic shutdown; tree: at least two workers had started",
    };
    (subs, rule, assumptions)
}

//! C16: registries against a reference model, and concurrent callers in real parallelism.
use crate::prop::*;
use hydra::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::future::{Future, poll_fn};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::Poll;
use std::time::{Duration, Instant};
use tokio::sync::{Semaphore, mpsc, oneshot};

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum StartK {
    Fine,
    Err(u8),
    ErrLinked(u8),
    DeadOnArrival(u8),
    Block(Box<StartK>),
}

#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq, Eq)]
pub enum Kind {
    Plain,
    Trap,
    Slow,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct RegGen {
    shutdown: u8,
    startable: bool,
    link: bool,
    plan: Vec<(StartK, Kind)>,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Call {
    Lookup(u8),
    LookupOrStart(u8),
    Start(u8),
    Stop(u8),
    Remove(u8),
    Count,
    List,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Op {
    Call { reg: u8, by_pid: bool, call: Call },
    Batch { reg: u8, by_pid: bool, key: u8, or_lookup: bool, n: u8 },
    End { which: u8, how: u8 },
    OpenStart(u8),
    OpenStop(u8),
    StopReg { reg: u8, how: u8, reason: u8 },
    Stray { reg: u8, reason: u8 },
    /// Another registry with the name, from a clone or a new value.
    Duplicate { reg: u8, clone: bool },
    DropClone(u8),
    Reopen(u8),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Case {
    regs: Vec<RegGen>,
    ops: Vec<Op>,
}

/// Keys that look alike.
fn key(k: u8) -> RegistryKey {
    match k % 9 {
        0 => 1i32.into(),
        1 => 1i64.into(),
        2 => 1i128.into(),
        3 => 1u32.into(),
        4 => 1u64.into(),
        5 => 1u128.into(),
        6 => "1".into(),
        7 => "".into(),
        _ => String::from("1 ").into(),
    }
}
fn reason(k: u8) -> ExitReason {
    match k % 4 {
        0 => ExitReason::Normal,
        1 => ExitReason::from("bad"),
        2 => ExitReason::from("shutdown"),
        _ => ExitReason::from("worse"),
    }
}
fn err_reason(k: u8) -> ExitReason {
    match k % 5 {
        0 => ExitReason::Normal,
        1 => ExitReason::from("nope"),
        2 => ExitReason::from("shutdown"),
        3 => ExitReason::Ignore,
        _ => ExitReason::Kill,
    }
}
fn dead_reason(k: u8) -> ExitReason {
    reason(k)
}
fn rs(r: &ExitReason) -> String {
    format!("{r:?}")
}

// ---------------------------------------------------------------- the real side

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
enum Ev {
    Start(usize, String),
    Stop(usize),
    Got(usize, String),
    Down(usize, String),
}

enum ChildCmd {
    Return,
    Panic,
    Exit(ExitReason),
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
enum Res {
    Pid(Option<usize>),
    Started(usize),
    Fine,
    Already(usize),
    NotSupported,
    NotFound,
    StartErr(String),
    Down(String),
    Count(usize),
    List(Vec<(String, usize)>),
    Odd(String),
}

struct Inc {
    pid: Option<Pid>,
    tx: Option<mpsc::UnboundedSender<ChildCmd>>,
    stop: Arc<Semaphore>,
    down: Option<ExitReason>,
    ready: Option<oneshot::Sender<()>>,
    dead: Option<oneshot::Sender<()>>,
}

#[derive(Default)]
struct RegW {
    attempts: usize,
    gate: Option<Arc<Semaphore>>,
    plan: Vec<(StartK, Kind)>,
    pid: Option<Pid>,
    parent: Option<mpsc::UnboundedSender<ParentCmd>>,
    parents: Vec<Pid>,
    clone: Option<Registry>,
}

#[derive(Default)]
struct WorldIn {
    log: Vec<Ev>,
    regs: Vec<RegW>,
    incs: Vec<Inc>,
    results: BTreeMap<u64, Res>,
    observer: Option<Pid>,
    duplicates: Vec<String>,
}
type World = Arc<Mutex<WorldIn>>;

#[derive(Serialize, Deserialize, Debug)]
enum Watch {
    Inc(Pid, usize),
    Reg(Pid, usize),
}

async fn observer(w: World) {
    let mut incs: Vec<(Reference, usize)> = Vec::new();
    let mut regs: Vec<(Reference, usize)> = Vec::new();
    loop {
        match Process::receive::<Watch>().await {
            Message::User(Watch::Inc(pid, inc)) => {
                incs.push((Process::monitor(pid), inc));
                if let Some(tx) = w.lock().unwrap().incs[inc].ready.take() {
                    let _ = tx.send(());
                }
            }
            Message::User(Watch::Reg(pid, reg)) => regs.push((Process::monitor(pid), reg)),
            Message::System(SystemMessage::ProcessDown(_, r, reason)) => {
                let mut g = w.lock().unwrap();
                if let Some((_, i)) = incs.iter().find(|x| x.0 == r) {
                    g.incs[*i].down = Some(reason);
                    if let Some(tx) = g.incs[*i].dead.take() {
                        let _ = tx.send(());
                    }
                } else if let Some((_, i)) = regs.iter().find(|x| x.0 == r) {
                    g.log.push(Ev::Down(*i, rs(&reason)));
                }
            }
            _ => {}
        }
    }
}

struct StopGuard(World, usize);
impl Drop for StopGuard {
    fn drop(&mut self) {
        self.0.lock().unwrap().log.push(Ev::Stop(self.1));
    }
}

async fn child(w: World, inc: usize, kind: Kind, mut rx: mpsc::UnboundedReceiver<ChildCmd>, stop: Arc<Semaphore>, up: oneshot::Sender<()>, quick: Option<ExitReason>) {
    let _guard = StopGuard(w.clone(), inc);
    if kind != Kind::Plain {
        Process::set_flags(ProcessFlags::TRAP_EXIT);
    }
    let _ = up.send(());
    if let Some(reason) = quick {
        Process::exit(Process::current(), reason);
        std::future::pending::<()>().await;
    }
    loop {
        tokio::select! {
            Some(cmd) = rx.recv() => match cmd {
                ChildCmd::Return => break,
                ChildCmd::Panic => panic!("child panics"),
                ChildCmd::Exit(r) => {
                    Process::exit(Process::current(), r);
                    std::future::pending::<()>().await;
                }
            },
            m = Process::receive::<()>() => {
                if let Message::System(SystemMessage::Exit(_, r)) = m {
                    w.lock().unwrap().log.push(Ev::Got(inc, rs(&r)));
                    if kind == Kind::Slow {
                        stop.acquire().await.unwrap().forget();
                    }
                    Process::exit(Process::current(), r);
                    std::future::pending::<()>().await;
                }
            }
        }
    }
}

async fn start_routine(w: World, reg: usize, k: RegistryKey) -> Result<Pid, ExitReason> {
    let ((mut step, kind), gate, observer) = {
        let mut g = w.lock().unwrap();
        g.log.push(Ev::Start(reg, format!("{k:?}")));
        let r = &mut g.regs[reg];
        let n = r.attempts;
        r.attempts += 1;
        let x = r.plan.get(n).cloned().unwrap_or((StartK::Fine, Kind::Plain));
        (x, r.gate.clone().unwrap(), g.observer.unwrap())
    };
    while let StartK::Block(inner) = step {
        gate.acquire().await.unwrap().forget();
        step = *inner;
    }
    let quick = match step {
        StartK::Err(r) => return Err(err_reason(r)),
        StartK::ErrLinked(r) => {
            let (tx, rx) = oneshot::channel::<()>();
            let r2 = err_reason(r);
            Process::spawn_link(async move {
                let _tx = tx;
                Process::exit(Process::current(), r2);
                std::future::pending::<()>().await;
            });
            let _ = rx.await;
            return Err(err_reason(r));
        }
        StartK::Fine => None,
        StartK::DeadOnArrival(r) => Some(dead_reason(r)),
        StartK::Block(_) => unreachable!(),
    };
    let (tx, rx) = mpsc::unbounded_channel();
    let (ready, watched) = oneshot::channel();
    let (dead, gone) = oneshot::channel();
    let (up, is_up) = oneshot::channel();
    let (hold, go) = oneshot::channel::<()>();
    let stop = Arc::new(Semaphore::new(0));
    let wait = quick.is_some();
    let inc = {
        let mut g = w.lock().unwrap();
        g.incs.push(Inc { pid: None, tx: Some(tx), stop: stop.clone(), down: None, ready: Some(ready), dead: Some(dead) });
        g.incs.len() - 1
    };
    let w2 = w.clone();
    let pid = Process::spawn_link(async move {
        let _ = go.await;
        child(w2, inc, kind, rx, stop, up, quick).await
    });
    w.lock().unwrap().incs[inc].pid = Some(pid);
    Process::send(observer, Watch::Inc(pid, inc));
    let _ = watched.await;
    let _ = hold.send(());
    let _ = is_up.await;
    if wait {
        let _ = gone.await;
    }
    Ok(pid)
}

enum ParentCmd {
    SendExit(ExitReason),
    End(ExitReason),
}

fn inc_of(w: &World, pid: Pid) -> Option<usize> {
    w.lock().unwrap().incs.iter().position(|i| i.pid == Some(pid))
}
fn found(w: &World, pid: Pid, f: impl Fn(usize) -> Res) -> Res {
    inc_of(w, pid).map(f).unwrap_or_else(|| Res::Odd(format!("unknown process {pid:?}")))
}
fn error(w: &World, e: RegistryError) -> Res {
    match e {
        RegistryError::CallError(CallError::ServerDown(r)) => Res::Down(rs(&r)),
        RegistryError::CallError(e) => Res::Odd(format!("{e:?}")),
        RegistryError::StartError(r) => Res::StartErr(rs(&r)),
        RegistryError::StartNotSupported => Res::NotSupported,
        RegistryError::AlreadyStarted(p) => found(w, p, Res::Already),
        RegistryError::NotFound => Res::NotFound,
    }
}

async fn perform(w: &World, to: Dest, call: Call) -> Res {
    match call {
        Call::Lookup(k) => match Registry::lookup(to, key(k), None).await {
            Ok(None) => Res::Pid(None),
            Ok(Some(p)) => found(w, p, |i| Res::Pid(Some(i))),
            Err(e) => error(w, e),
        },
        Call::LookupOrStart(k) => match Registry::lookup_or_start(to, key(k), None).await {
            Ok(p) => found(w, p, Res::Started),
            Err(e) => error(w, e),
        },
        Call::Start(k) => match Registry::start_process(to, key(k), None).await {
            Ok(p) => found(w, p, Res::Started),
            Err(e) => error(w, e),
        },
        Call::Stop(k) => Registry::stop_process(to, key(k), None).await.map(|_| Res::Fine).unwrap_or_else(|e| error(w, e)),
        Call::Remove(k) => match Registry::remove(to, key(k), None).await {
            Ok(None) => Res::Pid(None),
            Ok(Some(p)) => found(w, p, |i| Res::Pid(Some(i))),
            Err(e) => error(w, e),
        },
        Call::Count => Registry::count(to, None).await.map(Res::Count).unwrap_or_else(|e| error(w, e)),
        Call::List => match Registry::list(to, None).await {
            Ok(l) => {
                let mut v: Vec<(String, usize)> = l.into_iter().map(|(k, p)| (format!("{k:?}"), inc_of(w, p).unwrap_or(usize::MAX))).collect();
                v.sort();
                Res::List(v)
            }
            Err(e) => error(w, e),
        },
    }
}

// ---------------------------------------------------------------- the model

#[derive(Clone, Debug)]
struct MInc {
    reg: usize,
    kind: Kind,
    alive: bool,
    stopping: Option<ExitReason>,
    down: Option<ExitReason>,
    linked: bool,
}

#[derive(Clone, Debug)]
enum Msg {
    Exit(usize, ExitReason),
    ParentExit(ExitReason),
    Stop(ExitReason),
    RemoveLookup(usize),
    Call(u64, Call),
}

#[derive(Default)]
struct MReg {
    plan: Vec<(StartK, Kind)>,
    startable: bool,
    shutdown: u8,
    attempts: usize,
    permits: usize,
    table: BTreeMap<String, usize>,
    lookup: BTreeMap<usize, String>,
    mailbox: VecDeque<Msg>,
    current: Option<u64>,
    alive: bool,
    idle: bool,
}

#[derive(Default)]
struct Model {
    incs: Vec<MInc>,
    regs: Vec<MReg>,
    log: Vec<Ev>,
    /// (registry, process): the process has stopped before the registry has.
    before: Vec<(usize, usize)>,
    results: BTreeMap<u64, Res>,
    cls: BTreeSet<&'static str>,
    cut: bool,
}
type M = Rc<RefCell<Model>>;

impl Model {
    fn ev(&mut self, e: Ev) {
        self.log.push(e);
    }
    fn die(&mut self, inc: usize, r: ExitReason) {
        let i = &mut self.incs[inc];
        if !i.alive {
            return;
        }
        i.alive = false;
        i.stopping = None;
        i.down = Some(r.clone());
        let (reg, linked) = (i.reg, i.linked);
        self.ev(Ev::Stop(inc));
        if linked && self.regs[reg].alive {
            self.regs[reg].mailbox.push_back(Msg::Exit(inc, r));
        }
    }
    fn signal(&mut self, inc: usize, r: ExitReason, link: bool) {
        let i = &self.incs[inc];
        if !i.alive {
            return;
        }
        if r == ExitReason::Kill && !link {
            return self.die(inc, r);
        }
        match i.kind {
            Kind::Plain => {
                if !r.is_normal() && (link || !r.is_ignore()) {
                    self.die(inc, r);
                }
            }
            _ if i.stopping.is_some() => {}
            Kind::Trap => {
                self.ev(Ev::Got(inc, rs(&r)));
                self.die(inc, r);
            }
            Kind::Slow => {
                self.ev(Ev::Got(inc, rs(&r)));
                self.incs[inc].stopping = Some(r);
            }
        }
    }
    /// The registry process ends, and what it still has is killed.
    fn reg_dies(&mut self, reg: usize, r: ExitReason) {
        let g = &mut self.regs[reg];
        if g.mailbox.iter().any(|m| matches!(m, Msg::RemoveLookup(_))) {
            // Removed from the table while the registry was already going down: either way is fine.
            self.cut = true;
        }
        let calls: Vec<u64> = g
            .current
            .take()
            .into_iter()
            .chain(g.mailbox.iter().filter_map(|m| match m {
                Msg::Call(id, _) => Some(*id),
                _ => None,
            }))
            .collect();
        g.mailbox.clear();
        g.table.clear();
        g.alive = false;
        let lookup = std::mem::take(&mut g.lookup);
        for c in calls {
            self.results.insert(c, Res::Down(rs(&r)));
        }
        self.ev(Ev::Down(reg, rs(&r)));
        for inc in lookup.keys() {
            self.incs[*inc].linked = false;
            self.signal(*inc, ExitReason::Kill, false);
        }
        for inc in 0..self.incs.len() {
            if self.incs[inc].reg == reg && self.incs[inc].linked {
                self.incs[inc].linked = false;
                self.signal(inc, r.clone(), true);
            }
        }
    }
    /// What a call by name answers without asking the registry.
    fn local(&mut self, reg: usize, c: &Call) -> Option<Res> {
        let g = &mut self.regs[reg];
        match c {
            Call::Lookup(k) => Some(Res::Pid(g.table.get(&ks(*k)).copied())),
            Call::LookupOrStart(k) => g.table.get(&ks(*k)).map(|i| Res::Started(*i)),
            Call::Start(k) => g.table.get(&ks(*k)).map(|i| Res::Already(*i)),
            Call::Stop(k) => (!g.table.contains_key(&ks(*k))).then_some(Res::NotFound),
            Call::Remove(k) => {
                let inc = g.table.remove(&ks(*k));
                if let Some(inc) = inc {
                    if g.alive {
                        g.mailbox.push_back(Msg::RemoveLookup(inc));
                    }
                }
                Some(Res::Pid(inc))
            }
            Call::Count => Some(Res::Count(g.table.len())),
            Call::List => Some(Res::List(g.table.clone().into_iter().collect())),
        }
    }
}

fn ks(k: u8) -> String {
    format!("{:?}", key(k))
}

async fn until(m: &M, mut f: impl FnMut(&mut Model) -> bool) {
    poll_fn(|_| if f(&mut m.borrow_mut()) { Poll::Ready(()) } else { Poll::Pending }).await
}

async fn m_start(m: &M, reg: usize, k: u8) -> Result<usize, Res> {
    if !m.borrow().regs[reg].startable {
        return Err(Res::NotSupported);
    }
    let (mut step, kind) = {
        let mut m = m.borrow_mut();
        m.ev(Ev::Start(reg, ks(k)));
        let r = &mut m.regs[reg];
        let n = r.attempts;
        r.attempts += 1;
        r.plan.get(n).cloned().unwrap_or((StartK::Fine, Kind::Plain))
    };
    while let StartK::Block(inner) = step {
        until(m, |m| {
            let ok = m.regs[reg].permits > 0;
            if ok {
                m.regs[reg].permits -= 1;
            }
            ok
        })
        .await;
        step = *inner;
    }
    let mut m = m.borrow_mut();
    let quick = match step {
        StartK::Err(r) | StartK::ErrLinked(r) => {
            m.cls.insert("failed-start");
            return Err(Res::StartErr(rs(&err_reason(r))));
        }
        StartK::Fine => None,
        StartK::DeadOnArrival(r) => Some(dead_reason(r)),
        StartK::Block(_) => unreachable!(),
    };
    m.incs.push(MInc { reg, kind, alive: true, stopping: None, down: None, linked: true });
    let inc = m.incs.len() - 1;
    if let Some(r) = quick {
        m.cls.insert("dead-on-arrival");
        m.die(inc, r);
    }
    m.regs[reg].table.insert(ks(k), inc);
    m.regs[reg].lookup.insert(inc, ks(k));
    m.cls.insert("started");
    Ok(inc)
}

async fn m_call(m: &M, reg: usize, c: Call) -> Res {
    let get = |k: u8| m.borrow().regs[reg].table.get(&ks(k)).copied();
    match c {
        Call::Lookup(k) => Res::Pid(get(k)),
        Call::LookupOrStart(k) => match get(k) {
            Some(i) => Res::Started(i),
            None => m_start(m, reg, k).await.map(Res::Started).unwrap_or_else(|e| e),
        },
        Call::Start(k) => match get(k) {
            Some(i) => Res::Already(i),
            None => m_start(m, reg, k).await.map(Res::Started).unwrap_or_else(|e| e),
        },
        Call::Stop(k) => match get(k) {
            None => Res::NotFound,
            Some(i) => {
                let mut m = m.borrow_mut();
                m.cls.insert("stopped");
                m.incs[i].linked = false;
                m.signal(i, ExitReason::from("shutdown"), false);
                m.regs[reg].lookup.remove(&i);
                m.regs[reg].table.remove(&ks(k));
                Res::Fine
            }
        },
        Call::Remove(k) => {
            let mut m = m.borrow_mut();
            let i = m.regs[reg].table.remove(&ks(k));
            if let Some(i) = i {
                m.cls.insert("removed");
                m.incs[i].linked = false;
                m.regs[reg].lookup.remove(&i);
            }
            Res::Pid(i)
        }
        Call::Count => Res::Count(m.borrow().regs[reg].table.len()),
        Call::List => Res::List(m.borrow().regs[reg].table.clone().into_iter().collect()),
    }
}

async fn m_registry(m: M, reg: usize) {
    loop {
        m.borrow_mut().regs[reg].idle = true;
        until(&m, |m| !m.regs[reg].mailbox.is_empty()).await;
        m.borrow_mut().regs[reg].idle = false;
        let msg = m.borrow_mut().regs[reg].mailbox.pop_front().unwrap();
        match msg {
            Msg::Exit(inc, _) => {
                let mut m = m.borrow_mut();
                let g = &mut m.regs[reg];
                if let Some(k) = g.lookup.remove(&inc) {
                    if g.table.get(&k) == Some(&inc) {
                        g.table.remove(&k);
                    }
                    m.cls.insert("freed");
                }
            }
            Msg::RemoveLookup(inc) => {
                let mut m = m.borrow_mut();
                m.cls.insert("removed");
                m.incs[inc].linked = false;
                m.regs[reg].lookup.remove(&inc);
            }
            Msg::Call(id, c) => {
                m.borrow_mut().regs[reg].current = Some(id);
                let r = m_call(&m, reg, c).await;
                let mut m = m.borrow_mut();
                m.regs[reg].current = None;
                m.results.insert(id, r);
            }
            Msg::Stop(r) | Msg::ParentExit(r) => {
                if m.borrow().regs[reg].shutdown % 3 != 0 {
                    let incs: Vec<usize> = {
                        let mut g = m.borrow_mut();
                        let table = std::mem::take(&mut g.regs[reg].table);
                        let incs: Vec<usize> = g.regs[reg].lookup.iter().filter(|(_, k)| table.contains_key(*k)).map(|x| *x.0).collect();
                        if incs.len() >= 2 {
                            g.cls.insert("orderly-stop");
                        }
                        for i in &incs {
                            g.signal(*i, ExitReason::from("shutdown"), false);
                        }
                        incs
                    };
                    until(&m, |m| incs.iter().all(|i| !m.incs[*i].alive)).await;
                    m.borrow_mut().regs[reg].lookup.clear();
                    m.borrow_mut().before.extend(incs.iter().map(|i| (reg, *i)));
                }
                m.borrow_mut().cls.insert("registry-stopped");
                m.borrow_mut().reg_dies(reg, r);
                return;
            }
        }
    }
}

// ---------------------------------------------------------------- driver

static CASES: AtomicU64 = AtomicU64::new(0);

async fn settle() {
    tokio::time::sleep(Duration::from_nanos(1)).await;
    tokio::time::sleep(Duration::from_millis(1)).await;
}

struct Driver {
    w: World,
    m: M,
    name: String,
    gens: Vec<RegGen>,
    futs: Vec<Option<Pin<Box<dyn Future<Output = ()>>>>>,
    parents: Vec<bool>,
    next: u64,
    batches: Vec<Vec<u64>>,
    checked: usize,
}

impl Driver {
    fn reg_name(&self, reg: usize) -> String {
        format!("{}-{reg}", self.name)
    }

    fn value(&self, reg: usize) -> Registry {
        let g = &self.gens[reg];
        let w = self.w.clone();
        let mut r = Registry::new(self.reg_name(reg));
        if g.startable {
            r = r.with_start(move |k| start_routine(w.clone(), reg, k));
        }
        match g.shutdown % 3 {
            0 => r,
            1 => r.with_shutdown(Shutdown::Infinity),
            _ => r.with_shutdown(Shutdown::Duration(Duration::from_secs(60))),
        }
    }

    /// Starts the registry and its parent.
    async fn open(&mut self, reg: usize) -> Result<(), String> {
        let value = self.value(reg);
        let clone = value.clone();
        let link = self.gens[reg].link;
        let (tx, mut rx) = mpsc::unbounded_channel();
        let w = self.w.clone();
        let (done, ok) = oneshot::channel();
        let parent = Process::spawn(async move {
            Process::set_flags(ProcessFlags::TRAP_EXIT);
            let r = if link { value.start_link(RegistryOptions::new()).await } else { value.start(RegistryOptions::new()).await };
            let pid = match r {
                Ok(p) => p,
                Err(e) => {
                    let _ = done.send(Err(e));
                    return;
                }
            };
            w.lock().unwrap().regs[reg].pid = Some(pid);
            let obs = w.lock().unwrap().observer.unwrap();
            Process::send(obs, Watch::Reg(pid, reg));
            let _ = done.send(Ok(()));
            while let Some(c) = rx.recv().await {
                match c {
                    ParentCmd::SendExit(r) => Process::exit(pid, r),
                    ParentCmd::End(r) => {
                        Process::exit(Process::current(), r);
                        std::future::pending::<()>().await;
                    }
                }
            }
        });
        {
            let mut g = self.w.lock().unwrap();
            g.regs[reg].parent = Some(tx);
            g.regs[reg].parents.push(parent);
            g.regs[reg].clone = Some(clone);
        }
        self.parents[reg] = true;
        ok.await.map_err(|_| "parent died".to_string())?.map_err(|e| format!("registry {reg} did not start: {e:?}"))?;
        let mut m = self.m.borrow_mut();
        m.regs[reg].alive = true;
        drop(m);
        self.futs[reg] = Some(Box::pin(m_registry(self.m.clone(), reg)));
        Ok(())
    }

    async fn compare(&mut self) -> Result<(), String> {
        for f in &mut self.futs {
            if let Some(fut) = f {
                let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
                if fut.as_mut().poll(&mut cx).is_ready() {
                    *f = None;
                }
            }
        }
        settle().await;
        if self.m.borrow().cut {
            return Ok(());
        }
        let g = self.w.lock().unwrap();
        let m = self.m.borrow();
        let show = |from: usize| format!("expected {:?}\n  happened {:?}", &m.log[from.min(m.log.len())..], &g.log[from.min(g.log.len())..]);
        if g.log.len() != m.log.len() {
            return Err(show(self.checked));
        }
        // Signals take effect asynchronously: only starts are ordered, and what must come before the end of a registry.
        let mut want: Vec<Ev> = m.log[self.checked..].to_vec();
        let mut have: Vec<Ev> = g.log[self.checked..].to_vec();
        let starts = |v: &[Ev], reg: usize| v.iter().filter(|e| matches!(e, Ev::Start(r, _) if *r == reg)).cloned().collect::<Vec<_>>();
        for reg in 0..m.regs.len() {
            if starts(&want, reg) != starts(&have, reg) {
                return Err(show(self.checked));
            }
        }
        for (reg, inc) in &m.before {
            let down = g.log.iter().rposition(|e| matches!(e, Ev::Down(r, _) if r == reg));
            let stop = g.log.iter().position(|e| *e == Ev::Stop(*inc));
            if down.is_none() || stop.is_none() || stop > down {
                return Err(format!("process {inc} must stop before registry {reg} does: {}", show(self.checked)));
            }
        }
        want.sort();
        have.sort();
        if want != have {
            return Err(show(self.checked));
        }
        if m.incs.len() != g.incs.len() {
            return Err(format!("expected {} processes to have started, {} did", m.incs.len(), g.incs.len()));
        }
        for (i, (mi, gi)) in m.incs.iter().zip(g.incs.iter()).enumerate() {
            if mi.down != gi.down {
                return Err(format!("process {i}: expected exit reason {:?}, was {:?}", mi.down, gi.down));
            }
        }
        let batched: BTreeSet<u64> = self.batches.iter().flatten().copied().collect();
        for (k, v) in &m.results {
            if !batched.contains(k) && g.results.get(k) != Some(v) {
                return Err(format!("call {k}: expected {v:?}, got {:?}", g.results.get(k)));
            }
        }
        for b in &self.batches {
            let mut want: Vec<Option<&Res>> = b.iter().map(|k| m.results.get(k)).collect();
            let mut have: Vec<Option<&Res>> = b.iter().map(|k| g.results.get(k)).collect();
            want.sort();
            have.sort();
            if want != have {
                return Err(format!("concurrent calls: expected {want:?}, got {have:?}"));
            }
        }
        if let Some(k) = g.results.keys().find(|k| !batched.contains(k) && !m.results.contains_key(k)) {
            return Err(format!("call {k} returned {:?}, but must wait", g.results[k]));
        }
        if !g.duplicates.is_empty() {
            return Err(g.duplicates[0].clone());
        }
        self.checked = m.log.len();
        drop(m);
        self.m.borrow_mut().before.clear();
        Ok(())
    }

    fn call(&mut self, reg: usize, by_pid: bool, call: &Call) -> u64 {
        self.next += 1;
        let id = self.next;
        let pid = self.w.lock().unwrap().regs[reg].pid;
        let dest = match pid {
            Some(p) if by_pid => Dest::from(p),
            _ => Dest::from(self.reg_name(reg)),
        };
        let by_pid = by_pid && pid.is_some();
        let (w, c) = (self.w.clone(), call.clone());
        Process::spawn(async move {
            let r = perform(&w, dest, c).await;
            w.lock().unwrap().results.insert(id, r);
        });
        let mut m = self.m.borrow_mut();
        let local = if by_pid { None } else { m.local(reg, call) };
        match local {
            Some(r) => {
                m.results.insert(id, r);
            }
            None if m.regs[reg].alive => m.regs[reg].mailbox.push_back(Msg::Call(id, call.clone())),
            None => {
                m.results.insert(id, Res::Down(rs(&ExitReason::from("noproc"))));
            }
        }
        id
    }

    async fn step(&mut self, op: &Op) -> Result<(), String> {
        let n = self.gens.len();
        match op {
            Op::Call { reg, by_pid, call } => {
                self.call(*reg as usize % n, *by_pid, call);
            }
            Op::Batch { reg, by_pid, key, or_lookup, n: count } => {
                let reg = *reg as usize % n;
                let call = if *or_lookup { Call::LookupOrStart(*key) } else { Call::Start(*key) };
                let doa = {
                    let m = self.m.borrow();
                    let r = &m.regs[reg];
                    r.plan.iter().skip(r.attempts.saturating_sub(1)).any(|p| {
                        let mut k = &p.0;
                        while let StartK::Block(i) = k {
                            k = i;
                        }
                        matches!(k, StartK::DeadOnArrival(_))
                    })
                };
                let count = if doa { 1 } else { *count % 5 + 2 };
                let ids: Vec<u64> = (0..count).map(|_| self.call(reg, *by_pid, &call)).collect();
                if count > 1 {
                    self.batches.push(ids);
                    self.m.borrow_mut().cls.insert("concurrent-starts");
                }
            }
            Op::End { which, how } => {
                let m = self.m.clone();
                let mut m = m.borrow_mut();
                let alive: Vec<usize> = (0..m.incs.len()).filter(|i| m.incs[*i].alive).collect();
                if alive.is_empty() {
                    return Ok(());
                }
                let inc = alive[*which as usize % alive.len()];
                let busy = m.incs[inc].stopping.is_some();
                let g = self.w.lock().unwrap();
                let i = &g.incs[inc];
                let pid = i.pid.unwrap();
                let external = |r: ExitReason| {
                    Process::spawn(async move { Process::exit(pid, r) });
                };
                match how % 8 {
                    0 if !busy => {
                        let _ = i.tx.as_ref().unwrap().send(ChildCmd::Return);
                        m.die(inc, ExitReason::Normal);
                    }
                    1 if !busy => {
                        let _ = i.tx.as_ref().unwrap().send(ChildCmd::Panic);
                        m.die(inc, ExitReason::from("child panics"));
                    }
                    2 | 3 if !busy => {
                        let r = reason(how / 8);
                        let _ = i.tx.as_ref().unwrap().send(ChildCmd::Exit(r.clone()));
                        m.die(inc, r);
                    }
                    4 | 5 => {
                        let r = reason(how / 8);
                        external(r.clone());
                        m.signal(inc, r, false);
                    }
                    _ => {
                        external(ExitReason::Kill);
                        m.signal(inc, ExitReason::Kill, false);
                    }
                }
            }
            Op::OpenStart(reg) => {
                let reg = *reg as usize % n;
                self.m.borrow_mut().regs[reg].permits += 1;
                self.w.lock().unwrap().regs[reg].gate.as_ref().unwrap().add_permits(1);
            }
            Op::OpenStop(which) => {
                let mut m = self.m.borrow_mut();
                let stopping: Vec<usize> = (0..m.incs.len()).filter(|i| m.incs[*i].alive && m.incs[*i].stopping.is_some()).collect();
                if stopping.is_empty() {
                    return Ok(());
                }
                let inc = stopping[*which as usize % stopping.len()];
                self.w.lock().unwrap().incs[inc].stop.add_permits(1);
                let r = m.incs[inc].stopping.clone().unwrap();
                m.die(inc, r);
            }
            Op::StopReg { reg, how, reason: r } => {
                let reg = *reg as usize % n;
                let r = reason(*r);
                let Some(pid) = self.w.lock().unwrap().regs[reg].pid else { return Ok(()) };
                let alive = self.m.borrow().regs[reg].alive;
                match how % 8 {
                    0..=2 => {
                        let r2 = r.clone();
                        Process::spawn(async move {
                            let _ = Registry::stop(pid, r2, None).await;
                        });
                        if alive {
                            self.m.borrow_mut().regs[reg].mailbox.push_back(Msg::Stop(r));
                        }
                    }
                    h @ 3..=6 if self.gens[reg].link && self.parents[reg] => {
                        let cmd = if h < 5 { ParentCmd::SendExit(r.clone()) } else { ParentCmd::End(r.clone()) };
                        self.parents[reg] = h < 5;
                        let _ = self.w.lock().unwrap().regs[reg].parent.as_ref().unwrap().send(cmd);
                        if alive {
                            self.m.borrow_mut().regs[reg].mailbox.push_back(Msg::ParentExit(r));
                        }
                    }
                    7 => {
                        Process::spawn(async move { Process::exit(pid, ExitReason::Kill) });
                        if alive {
                            self.futs[reg] = None;
                            let mut m = self.m.borrow_mut();
                            m.cls.insert("registry-killed");
                            m.reg_dies(reg, ExitReason::Kill);
                        }
                    }
                    _ => return Ok(()),
                }
            }
            Op::Stray { reg, reason: r } => {
                let Some(pid) = self.w.lock().unwrap().regs[*reg as usize % n].pid else { return Ok(()) };
                let r = reason(*r);
                Process::spawn(async move { Process::exit(pid, r) });
            }
            Op::Duplicate { reg, clone } => {
                let reg = *reg as usize % n;
                if !self.m.borrow().regs[reg].alive {
                    return Ok(());
                }
                let value = if *clone { self.w.lock().unwrap().regs[reg].clone.as_ref().unwrap().clone() } else { self.value(reg) };
                let w = self.w.clone();
                self.m.borrow_mut().cls.insert("duplicate");
                Process::spawn(async move {
                    let r = value.start(RegistryOptions::new()).await;
                    if r.as_ref().err().is_none_or(|e| *e != "already_started") {
                        w.lock().unwrap().duplicates.push(format!("a second registry of the name started: {r:?}"));
                    }
                });
            }
            Op::DropClone(reg) => {
                let c = self.w.lock().unwrap().regs[*reg as usize % n].clone.take();
                if let Some(c) = c {
                    self.w.lock().unwrap().regs[*reg as usize % n].clone = Some(c.clone());
                    self.m.borrow_mut().cls.insert("dropped-clone");
                    if self.next % 2 == 0 {
                        drop(c);
                    } else {
                        // Inside a process.
                        Process::spawn(async move { drop(c) });
                    }
                }
            }
            Op::Reopen(reg) => {
                let reg = *reg as usize % n;
                if self.m.borrow().regs[reg].alive {
                    return Ok(());
                }
                {
                    let mut m = self.m.borrow_mut();
                    let r = &mut m.regs[reg];
                    if r.mailbox.iter().any(|_| true) {
                        return Err("HARNESS: mailbox of a dead registry".into());
                    }
                    m.cls.insert("reopened");
                }
                self.open(reg).await?;
            }
        }
        self.compare().await?;
        for reg in 0..n {
            if self.m.borrow().cut {
                return Ok(());
            }
            let by_pid = self.next % 2 == 0 && self.m.borrow().regs[reg].alive && self.m.borrow().regs[reg].idle;
            self.call(reg, by_pid, &Call::List);
            self.call(reg, by_pid, &Call::Count);
        }
        self.compare().await
    }
}

fn run(case: &Case) -> Outcome {
    if case.regs.is_empty() {
        return Outcome::ok(false);
    }
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
    let (result, model) = rt.block_on(async {
        let w: World = Default::default();
        let obs = Process::spawn(observer(w.clone()));
        let m: M = Default::default();
        {
            let mut g = w.lock().unwrap();
            g.observer = Some(obs);
            for r in &case.regs {
                g.regs.push(RegW { gate: Some(Arc::new(Semaphore::new(0))), plan: r.plan.clone(), ..Default::default() });
                m.borrow_mut().regs.push(MReg { plan: r.plan.clone(), startable: r.startable, shutdown: r.shutdown, ..Default::default() });
            }
        }
        let n = case.regs.len();
        let mut d = Driver {
            w: w.clone(),
            m: m.clone(),
            name: format!("reg{}", CASES.fetch_add(1, Ordering::Relaxed)),
            gens: case.regs.clone(),
            futs: (0..n).map(|_| None).collect(),
            parents: vec![false; n],
            next: 0,
            batches: vec![],
            checked: 0,
        };
        let mut result = Ok(());
        for reg in 0..n {
            if let Err(e) = d.open(reg).await {
                result = Err(e);
            }
        }
        if result.is_ok() {
            result = d.compare().await;
        }
        if result.is_ok() {
            for (i, op) in case.ops.iter().enumerate() {
                if let Err(e) = d.step(op).await {
                    result = Err(format!("op {i} {op:?}: {e}"));
                    break;
                }
                if m.borrow().cut {
                    break;
                }
            }
            for i in 0..40 {
                if result.is_err() || m.borrow().cut || (m.borrow().regs.iter().all(|r| !r.alive || r.idle && r.mailbox.is_empty()) && !m.borrow().incs.iter().any(|i| i.stopping.is_some())) {
                    break;
                }
                for op in [Op::OpenStart(i), Op::OpenStop(0)] {
                    if result.is_ok() && !m.borrow().cut {
                        result = d.step(&op).await.map_err(|e| format!("at the end, {op:?}: {e}"));
                    }
                }
            }
        }
        let pids: Vec<Pid> = {
            let mut g = w.lock().unwrap();
            for i in &mut g.incs {
                i.tx = None;
                i.stop.add_permits(1000);
            }
            for r in &mut g.regs {
                r.gate.as_ref().unwrap().add_permits(1000);
                r.parent = None;
            }
            g.regs.iter().flat_map(|r| r.pid.into_iter().chain(r.parents.iter().copied())).chain(g.incs.iter().filter_map(|i| i.pid)).chain([obs]).collect()
        };
        Process::spawn(async move {
            for p in pids {
                Process::exit(p, ExitReason::Kill);
            }
        });
        settle().await;
        let clones: Vec<Option<Registry>> = w.lock().unwrap().regs.iter_mut().map(|r| r.clone.take()).collect();
        drop(clones);
        settle().await;
        drop(d);
        (result, Rc::try_unwrap(m).ok().expect("HARNESS: model").into_inner())
    });
    let mut o = match result {
        Ok(()) => Outcome::ok(model.cls.contains("started") && ["freed", "stopped", "removed", "registry-stopped", "registry-killed", "concurrent-starts"].iter().filter(|c| model.cls.contains(*c)).count() >= 2),
        Err(e) => Outcome::fail(e),
    };
    if model.cut {
        o.classes.push("cut");
    }
    o.classes.extend(model.cls);
    o
}

fn start_k() -> BoxedStrategy<(StartK, Kind)> {
    let leaf = || {
        prop_oneof![
            12 => Just(StartK::Fine),
            2 => any::<u8>().prop_map(StartK::Err),
            1 => any::<u8>().prop_map(StartK::ErrLinked),
            1 => any::<u8>().prop_map(StartK::DeadOnArrival),
        ]
    };
    (prop_oneof![6 => leaf(), 1 => leaf().prop_map(|k| StartK::Block(Box::new(k)))], prop_oneof![4 => Just(Kind::Plain), 2 => Just(Kind::Trap), 2 => Just(Kind::Slow)]).boxed()
}

fn case() -> BoxedStrategy<Case> {
    let reg = (0u8..3, proptest::bool::weighted(0.9), any::<bool>(), proptest::collection::vec(start_k(), 0..10)).prop_map(|(shutdown, startable, link, plan)| RegGen { shutdown, startable, link, plan });
    let k = || 0u8..9;
    let few = || prop_oneof![3 => 0u8..3, 1 => k()];
    let call = prop_oneof![
        2 => few().prop_map(Call::Lookup),
        5 => few().prop_map(Call::LookupOrStart),
        5 => few().prop_map(Call::Start),
        2 => few().prop_map(Call::Stop),
        2 => few().prop_map(Call::Remove),
        1 => Just(Call::Count),
        1 => Just(Call::List),
    ];
    let op = prop_oneof![
        16 => (any::<u8>(), any::<bool>(), call).prop_map(|(reg, by_pid, call)| Op::Call { reg, by_pid, call }),
        3 => (any::<u8>(), any::<bool>(), few(), any::<bool>(), any::<u8>()).prop_map(|(reg, by_pid, key, or_lookup, n)| Op::Batch { reg, by_pid, key, or_lookup, n }),
        8 => (any::<u8>(), any::<u8>()).prop_map(|(which, how)| Op::End { which, how }),
        3 => any::<u8>().prop_map(Op::OpenStart),
        3 => any::<u8>().prop_map(Op::OpenStop),
        2 => (any::<u8>(), any::<u8>(), any::<u8>()).prop_map(|(reg, how, reason)| Op::StopReg { reg, how, reason }),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(reg, reason)| Op::Stray { reg, reason }),
        1 => (any::<u8>(), any::<bool>()).prop_map(|(reg, clone)| Op::Duplicate { reg, clone }),
        1 => any::<u8>().prop_map(Op::DropClone),
        2 => any::<u8>().prop_map(Op::Reopen),
    ];
    (proptest::collection::vec(reg, 1..3), proptest::collection::vec(op, 1..40)).prop_map(|(regs, ops)| Case { regs, ops }).boxed()
}

// ---------------------------------------------------------------- concurrent callers

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct ParCase {
    seed: u64,
    chance: u16,
    /// Per caller: key, what to do
    callers: Vec<Vec<(u8, u8)>>,
}

fn parallel(case: &ParCase) -> Outcome {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    hydra::verif::set_chaos(case.chance as u64, case.seed);
    let name = format!("par{}", CASES.fetch_add(1, Ordering::Relaxed));
    // key -> (pid, told to end), every process started so far
    type Started = Arc<Mutex<BTreeMap<u8, Vec<(Pid, bool)>>>>;
    let started: Started = Default::default();
    let bad: Arc<Mutex<Option<String>>> = Default::default();
    let out: Result<(usize, usize), String> = rt.block_on(async {
        let (s2, b2) = (started.clone(), bad.clone());
        let reg = Registry::new(name.clone()).with_start(move |k| {
            let (s, b) = (s2.clone(), b2.clone());
            async move {
                let RegistryKey::UInteger32(k) = k else { unreachable!() };
                let k = k as u8;
                {
                    let g = s.lock().unwrap();
                    if let Some((p, false)) = g.get(&k).and_then(|v| v.last()) {
                        *b.lock().unwrap() = Some(format!("key {k} was started again although its process {p:?} still runs"));
                    }
                }
                tokio::task::yield_now().await;
                let p = Process::spawn_link(std::future::pending::<()>());
                s.lock().unwrap().entry(k).or_default().push((p, false));
                Ok(p)
            }
        });
        let pid = reg.start(RegistryOptions::new()).await.map_err(|e| format!("{e:?}"))?;
        let mut handles = Vec::new();
        for calls in case.callers.clone() {
            let (name, started, bad) = (name.clone(), started.clone(), bad.clone());
            let (tx, rx) = oneshot::channel::<()>();
            Process::spawn(async move {
                for (k, what) in calls {
                    let k = k % 3;
                    let dest = || if what & 128 == 0 { Dest::from(name.clone()) } else { Dest::from(pid) };
                    let known = |p: Pid| started.lock().unwrap().get(&k).is_some_and(|v| v.iter().any(|x| x.0 == p));
                    let fail = |s: String| *bad.lock().unwrap() = Some(s);
                    match what % 8 {
                        0..=2 => match Registry::lookup_or_start(dest(), k as u32, None).await {
                            Ok(p) if known(p) => {}
                            r => fail(format!("lookup_or_start({k}): {r:?}")),
                        },
                        3 | 4 => match Registry::start_process(dest(), k as u32, None).await {
                            Ok(p) | Err(RegistryError::AlreadyStarted(p)) if known(p) => {}
                            r => fail(format!("start_process({k}): {r:?}")),
                        },
                        5 => match Registry::lookup(dest(), k as u32, None).await {
                            Ok(None) => {}
                            Ok(Some(p)) if known(p) => {}
                            r => fail(format!("lookup({k}): {r:?}")),
                        },
                        6 => {
                            let p = {
                                let mut g = started.lock().unwrap();
                                g.get_mut(&k).and_then(|v| v.last_mut()).filter(|x| !x.1).map(|x| {
                                    x.1 = true;
                                    x.0
                                })
                            };
                            if let Some(p) = p {
                                Process::exit(p, if what & 64 == 0 { ExitReason::Kill } else { ExitReason::from("end") });
                            }
                        }
                        _ => tokio::task::yield_now().await,
                    }
                }
                let _ = tx.send(());
            });
            handles.push(rx);
        }
        for h in handles {
            h.await.map_err(|_| "a caller died".to_string())?;
        }
        // Once everything is quiet the table has exactly the processes that run.
        let mut last = String::new();
        let mut ok = false;
        let from = Instant::now();
        while from.elapsed() < Duration::from_secs(5) {
            let (tx, rx) = oneshot::channel();
            let n2 = name.clone();
            Process::spawn(async move {
                let _ = tx.send((Registry::list(n2.clone(), None).await, Registry::count(pid, None).await));
            });
            let (l, c) = rx.await.map_err(|_| "list".to_string())?;
            let mut l: Vec<(u8, Pid)> = l
                .map_err(|e| format!("{e:?}"))?
                .into_iter()
                .map(|(k, p)| match k {
                    RegistryKey::UInteger32(k) => (k as u8, p),
                    _ => (255, p),
                })
                .collect();
            l.sort();
            let g = started.lock().unwrap();
            let mut want: Vec<(u8, Pid)> = g.iter().filter_map(|(k, v)| v.last().filter(|x| !x.1).map(|x| (*k, x.0))).collect();
            want.sort();
            let c = c.map_err(|e| format!("{e:?}"))?;
            if l == want && c == want.len() && g.values().all(|v| v.iter().all(|x| x.1 != Process::alive(x.0))) {
                ok = true;
                break;
            }
            last = format!("the registry has {l:?} (count {c}), running are {want:?}");
            drop(g);
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
        let (tx, rx) = oneshot::channel();
        Process::spawn(async move {
            let _ = Registry::stop(pid, ExitReason::Normal, None).await;
            let _ = tx.send(());
        });
        let _ = rx.await;
        if !ok {
            return Err(last);
        }
        let from = Instant::now();
        while started.lock().unwrap().values().flatten().any(|x| Process::alive(x.0)) {
            if from.elapsed() > Duration::from_secs(5) {
                return Err("a process outlives the registry".into());
            }
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
        let g = started.lock().unwrap();
        Ok((g.values().map(|v| v.len()).sum(), g.len()))
    });
    rt.shutdown_background();
    if let Some(b) = bad.lock().unwrap().take() {
        return Outcome::fail(b);
    }
    match out {
        Ok((n, k)) => Outcome::ok(n > k && k > 1),
        Err(e) => Outcome::fail(e),
    }
}

// ---------------------------------------------------------------- shutdown timeouts in real time

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct StopCase {
    timeout: u8,
    how: u8,
    /// trap, stops by itself
    children: Vec<(bool, bool)>,
}

fn stop(case: &StopCase) -> Outcome {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let log: Arc<Mutex<Vec<(String, Instant)>>> = Default::default();
    let name = format!("stop{}", CASES.fetch_add(1, Ordering::Relaxed));
    struct G(Arc<Mutex<Vec<(String, Instant)>>>, u32);
    impl Drop for G {
        fn drop(&mut self) {
            self.0.lock().unwrap().push((format!("stop {}", self.1), Instant::now()));
        }
    }
    let timeout = Duration::from_millis(case.timeout as u64);
    let result: Result<(), String> = rt.block_on(async {
        let (l2, children) = (log.clone(), case.children.clone());
        let reg = Registry::new(name.clone()).with_shutdown(Shutdown::Duration(timeout)).with_start(move |k| {
            let RegistryKey::UInteger32(k) = k else { unreachable!() };
            let (l, c) = (l2.clone(), children[k as usize]);
            async move {
                let (tx, rx) = oneshot::channel();
                let p = Process::spawn_link(async move {
                    let _g = G(l.clone(), k);
                    if c.0 {
                        Process::set_flags(ProcessFlags::TRAP_EXIT);
                    }
                    let _ = tx.send(());
                    loop {
                        if let Message::System(SystemMessage::Exit(_, r)) = Process::receive::<()>().await {
                            l.lock().unwrap().push((format!("told {k} {r:?}"), Instant::now()));
                            if c.1 {
                                return;
                            }
                        }
                    }
                });
                let _ = rx.await;
                Ok(p)
            }
        });
        let n = case.children.len() as u32;
        let (done, wait) = oneshot::channel();
        let (l3, how) = (log.clone(), case.how % 3);
        Process::spawn(async move {
            Process::set_flags(ProcessFlags::TRAP_EXIT);
            let pid = reg.start_link(RegistryOptions::new()).await.unwrap();
            for k in 0..n {
                Registry::start_process(pid, k, None).await.unwrap();
            }
            let m = Process::monitor(pid);
            l3.lock().unwrap().push(("begin".into(), Instant::now()));
            match how {
                0 => {
                    Process::spawn(async move {
                        let _ = Registry::stop(pid, ExitReason::from("x"), Some(Duration::from_secs(20))).await;
                    });
                }
                _ => Process::exit(pid, ExitReason::from("x")),
            }
            loop {
                match Process::receive::<()>().await {
                    Message::System(SystemMessage::ProcessDown(_, r, reason)) if r == m => {
                        l3.lock().unwrap().push((format!("down {reason:?}"), Instant::now()));
                        break;
                    }
                    _ => {}
                }
            }
            let _ = done.send(());
        });
        wait.await.map_err(|_| "the parent died".to_string())
    });
    if let Err(e) = result {
        return Outcome::fail(e);
    }
    let log = log.lock().unwrap().clone();
    let show = || format!("{:?}", log.iter().map(|x| (&x.0, x.1 - log[0].1)).collect::<Vec<_>>());
    let pos = |s: String| log.iter().position(|x| x.0 == s);
    let Some(down) = pos(format!("down {:?}", ExitReason::from("x"))) else { return Outcome::fail(format!("the registry did not end as asked: {}", show())) };
    let mut stubborn = 0;
    for (k, (trap, ends)) in case.children.iter().enumerate() {
        let told = pos(format!("told {k} {:?}", ExitReason::from("shutdown")));
        let Some(stop) = pos(format!("stop {k}")) else { return Outcome::fail(format!("process {k} did not stop: {}", show())) };
        if stop > down {
            return Outcome::fail(format!("process {k} stopped after the registry: {}", show()));
        }
        if *trap && told.is_none() {
            return Outcome::fail(format!("process {k} was not told to stop: {}", show()));
        }
        if *trap && !*ends {
            stubborn += 1;
            let took = log[stop].1 - log[told.unwrap()].1;
            if took + Duration::from_millis(2) < timeout {
                return Outcome::fail(format!("process {k} was killed after {took:?}, timeout {timeout:?}: {}", show()));
            }
        }
    }
    Outcome::ok(stubborn > 0 && case.children.len() > 1)
}

pub fn subs() -> (Vec<Box<dyn DynSub>>, &'static str, Vec<&'static str>) {
    (
        vec![
            Sub::new("history", (300_000, 12), case, run).hang_violates(Duration::from_secs(60)).boxed(),
            Sub::new(
                "parallel",
                (4000, 12),
                || {
                    (any::<u64>(), 0u16..600, proptest::collection::vec(proptest::collection::vec((any::<u8>(), any::<u8>()), 1..25), 1..7))
                        .prop_map(|(seed, chance, callers)| ParCase { seed, chance, callers })
                        .boxed()
                },
                parallel,
            )
            .threads(4)
            .shrink(300)
            .hang_violates(Duration::from_secs(60))
            .boxed(),
            Sub::new(
                "stop",
                (2000, 10),
                || (0u8..40, any::<u8>(), proptest::collection::vec((any::<bool>(), any::<bool>()), 0..5)).prop_map(|(timeout, how, children)| StopCase { timeout, how, children }).boxed(),
                stop,
            )
            .threads(32)
            .confirm(2)
            .shrink(300)
            .boxed(),
        ],
        "history: a process was started and at least two different kinds of removal, stop, exit or concurrent start happened; parallel: more starts than keys, several keys; stop: several processes, at least one killed after the timeout",
        vec!["start routines link the process they start", "the registry is started under its own name", "history: the runtime is idle between operations"],
    )
}

//! Processes that act on each other at the same time on several threads (C29, and the concurrent side of C03-C09).
use crate::prop::*;
use hydra::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, OnceLock, RwLock};
use std::time::{Duration, Instant};

#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq)]
pub enum Kind {
    Custom,
    Kill,
    Ignore,
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum Op {
    Send(u8),
    SendName(u8),
    SendAlias(u8),
    SendMany(Vec<u8>),
    Link(u8),
    Unlink(u8),
    Monitor(u8),
    MonitorName(u8),
    MonitorAlias(u8, bool),
    Demonitor(u8),
    Exit(u8, Kind),
    Register(u8, u8),
    Unregister,
    Whereis(u8),
    Alive(u8),
    Info(u8),
    Alias(bool),
    Unalias(u8),
    /// 0 plain, 1 linked, 2 monitored; turns it takes, how it ends
    Spawn(u8, u8, End),
    Timer(u8, u8),
    Cancel(u8),
    Drain,
    Yield,
    Spin(u16),
}

#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq)]
pub enum End {
    Stay,
    Return,
    Panic,
    Exit,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct ProcGen {
    trap: bool,
    script: Vec<Op>,
    end: End,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Case {
    seed: u64,
    chance: u16,
    procs: Vec<ProcGen>,
}

#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
struct SMsg {
    from: u32,
    n: u32,
}

/// Where a message went.
#[derive(Debug, Clone, PartialEq)]
enum To {
    Proc(usize),
    Name(usize),
    Alias(usize),
}

#[derive(Debug, Clone)]
enum Rec {
    Send(SMsg, Vec<To>),
    Link(usize),
    Unlink(usize),
    /// reference, the process, the alias slot (monitor alias)
    Mon(Reference, Option<usize>, Option<usize>, Option<usize>),
    Demon(Reference),
    Exit(usize, ExitReason),
    Reg(usize, usize, Result<(), String>),
    Unreg(usize),
    Whereis(usize, Option<Pid>),
    Alive(usize, bool),
    Alias(usize, bool),
    Unalias(usize, bool),
    Spawn(usize, u8, Option<Reference>),
    Timer(SMsg, usize, u8, Instant),
    Cancel(SMsg),
    End(ExitReason),
    Got(SMsg, Instant),
    GotExit(Pid, ExitReason),
    GotDown(Dest, Reference, ExitReason),
}

#[derive(Debug, Clone)]
struct Entry {
    start: u64,
    end: u64,
    rec: Rec,
}

struct Proc {
    pid: Pid,
    trap: bool,
    log: Mutex<Vec<Entry>>,
    done: AtomicBool,
}

#[derive(Clone)]
struct AliasInfo {
    owner: usize,
    reference: Reference,
    reply: bool,
    /// A monitor alias.
    monitor: bool,
}

struct World {
    id: u64,
    clock: AtomicU64,
    procs: RwLock<Vec<Arc<Proc>>>,
    aliases: RwLock<Vec<AliasInfo>>,
    go: AtomicBool,
    ready: AtomicUsize,
}

impl World {
    fn now(&self) -> u64 {
        self.clock.fetch_add(1, Ordering::SeqCst)
    }
    fn name(&self, n: usize) -> String {
        format!("st{}-{n}", self.id)
    }
    fn pick(&self, t: u8) -> (usize, Arc<Proc>) {
        let g = self.procs.read().unwrap();
        // Low numbers are the actors, high ones the processes spawned most recently.
        let i = if t >= 128 { g.len() - 1 - (t as usize - 128) % g.len().min(3) } else { t as usize % g.len() };
        (i, g[i].clone())
    }
}

const NAMES: usize = 2;
static CASES: AtomicU64 = AtomicU64::new(0);

fn rt() -> &'static tokio::runtime::Runtime {
    static RT: OnceLock<tokio::runtime::Runtime> = OnceLock::new();
    RT.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(8).enable_all().build().unwrap())
}

fn push(w: &World, me: &Proc, start: u64, rec: Rec) {
    let end = w.now();
    me.log.lock().unwrap().push(Entry { start, end, rec });
}

fn log_message(w: &World, me: &Proc, m: Message<&SMsg>) {
    let at = Instant::now();
    let start = w.now();
    let rec = match m {
        Message::User(m) => Rec::Got(*m, at),
        Message::System(SystemMessage::Exit(p, r)) => Rec::GotExit(p, r),
        Message::System(SystemMessage::ProcessDown(d, r, e)) => Rec::GotDown(d, r, e),
        Message::System(s) => panic!("unexpected {s:?}"),
    };
    push(w, me, start, rec);
}

fn drain(w: &World, me: &Proc) {
    Process::receiver().for_message::<SMsg>().remove(|m| {
        let m = match m {
            Message::User(u) => Message::User(*u),
            Message::System(s) => Message::System(s.clone()),
        };
        log_message(w, me, m);
        true
    });
}

async fn finish(w: &World, me: &Proc, idx: usize, end: End) {
    match end {
        End::Stay => {
            me.done.store(true, Ordering::SeqCst);
            loop {
                let m = Process::receiver().for_message::<SMsg>().receive().await;
                match &m {
                    Message::User(u) => log_message(w, me, Message::User(u)),
                    Message::System(s) => log_message(w, me, Message::System(s.clone())),
                }
            }
        }
        End::Return => {
            drain(w, me);
            let s = w.now();
            push(w, me, s, Rec::End(ExitReason::Normal));
        }
        End::Panic => {
            drain(w, me);
            let s = w.now();
            let text = format!("p{idx}");
            push(w, me, s, Rec::End(ExitReason::from(text.clone())));
            std::panic::resume_unwind(Box::new(text));
        }
        End::Exit => {
            drain(w, me);
            let s = w.now();
            let r = ExitReason::from(format!("e{idx}"));
            push(w, me, s, Rec::End(r.clone()));
            Process::exit(Process::current(), r);
        }
    }
    me.done.store(true, Ordering::SeqCst);
}

async fn actor(w: Arc<World>, idx: usize, gen_: ProcGen) {
    if gen_.trap {
        Process::set_flags(ProcessFlags::TRAP_EXIT);
    }
    w.ready.fetch_add(1, Ordering::SeqCst);
    while !w.go.load(Ordering::SeqCst) {
        tokio::task::yield_now().await;
    }
    let me = w.procs.read().unwrap()[idx].clone();
    let mut n = 0u32;
    let mut mine_aliases: Vec<usize> = vec![];
    let mut mine_monitors: Vec<Reference> = vec![];
    let mut mine_timers: Vec<(SMsg, Reference)> = vec![];
    let mut my_name: Option<usize> = None;
    for op in &gen_.script {
        n += 1;
        let msg = SMsg { from: idx as u32, n };
        match op {
            Op::Yield => tokio::task::yield_now().await,
            Op::Spin(k) => {
                for _ in 0..*k {
                    std::hint::spin_loop();
                }
            }
            Op::Drain => drain(&w, &me),
            Op::Send(t) => {
                let (i, p) = w.pick(*t);
                let s = w.now();
                Process::send(p.pid, msg);
                push(&w, &me, s, Rec::Send(msg, vec![To::Proc(i)]));
            }
            Op::SendName(k) => {
                let k = *k as usize % NAMES;
                let name = w.name(k);
                let s = w.now();
                Process::send(name, msg);
                push(&w, &me, s, Rec::Send(msg, vec![To::Name(k)]));
            }
            Op::SendAlias(k) => {
                let a = {
                    let g = w.aliases.read().unwrap();
                    if g.is_empty() {
                        continue;
                    }
                    let i = g.len() - 1 - *k as usize % g.len().min(4);
                    (i, g[i].reference)
                };
                let s = w.now();
                Process::send(a.1, msg);
                push(&w, &me, s, Rec::Send(msg, vec![To::Alias(a.0)]));
            }
            Op::SendMany(ts) => {
                let mut to = vec![];
                let mut dests: Vec<Dest> = vec![];
                for t in ts {
                    let aliases = w.aliases.read().unwrap();
                    if t % 3 == 0 && !aliases.is_empty() {
                        let i = aliases.len() - 1 - *t as usize % aliases.len().min(4);
                        to.push(To::Alias(i));
                        dests.push(aliases[i].reference.into());
                    } else if t % 3 == 1 {
                        to.push(To::Name(*t as usize % NAMES));
                        dests.push(w.name(*t as usize % NAMES).into());
                    } else {
                        drop(aliases);
                        let (i, p) = w.pick(*t);
                        to.push(To::Proc(i));
                        dests.push(p.pid.into());
                    }
                }
                let s = w.now();
                Process::send(dests, msg);
                push(&w, &me, s, Rec::Send(msg, to));
            }
            Op::Link(t) => {
                let (i, p) = w.pick(*t);
                if i == idx {
                    continue;
                }
                let s = w.now();
                Process::link(p.pid);
                push(&w, &me, s, Rec::Link(i));
            }
            Op::Unlink(t) => {
                let (i, p) = w.pick(*t);
                if i == idx {
                    continue;
                }
                let s = w.now();
                Process::unlink(p.pid);
                push(&w, &me, s, Rec::Unlink(i));
            }
            Op::Monitor(t) => {
                let (i, p) = w.pick(*t);
                if i == idx {
                    continue;
                }
                let s = w.now();
                let r = Process::monitor(p.pid);
                mine_monitors.push(r);
                push(&w, &me, s, Rec::Mon(r, Some(i), None, None));
            }
            Op::MonitorName(k) => {
                let k = *k as usize % NAMES;
                let name = w.name(k);
                if Process::whereis(&name) == Some(me.pid) || my_name == Some(k) {
                    continue;
                }
                let s = w.now();
                let r = Process::monitor(name);
                mine_monitors.push(r);
                push(&w, &me, s, Rec::Mon(r, None, Some(k), None));
            }
            Op::MonitorAlias(t, reply) => {
                let (i, p) = w.pick(*t);
                if i == idx {
                    continue;
                }
                let s = w.now();
                let r = Process::monitor_alias(p.pid, *reply);
                let slot = {
                    let mut g = w.aliases.write().unwrap();
                    g.push(AliasInfo { owner: idx, reference: r, reply: *reply, monitor: true });
                    g.len() - 1
                };
                mine_monitors.push(r);
                mine_aliases.push(slot);
                push(&w, &me, s, Rec::Mon(r, Some(i), None, Some(slot)));
            }
            Op::Demonitor(k) => {
                if mine_monitors.is_empty() {
                    continue;
                }
                let r = mine_monitors[mine_monitors.len() - 1 - *k as usize % mine_monitors.len()];
                let s = w.now();
                Process::demonitor(r);
                push(&w, &me, s, Rec::Demon(r));
            }
            Op::Exit(t, kind) => {
                let (i, p) = w.pick(*t);
                if i == idx {
                    continue;
                }
                let reason = match kind {
                    Kind::Custom => ExitReason::from(format!("x{idx}-{n}")),
                    Kind::Kill => ExitReason::Kill,
                    Kind::Ignore => ExitReason::Ignore,
                };
                let s = w.now();
                Process::exit(p.pid, reason.clone());
                push(&w, &me, s, Rec::Exit(i, reason));
            }
            Op::Register(t, k) => {
                let (i, p) = if *t < 170 { (idx, me.clone()) } else { w.pick(*t) };
                let k = *k as usize % NAMES;
                let name = w.name(k);
                let s = w.now();
                let r = Process::register(p.pid, name).map_err(|e| format!("{e:?}"));
                if i == idx && r.is_ok() {
                    my_name = Some(k);
                }
                push(&w, &me, s, Rec::Reg(i, k, r));
            }
            Op::Unregister => {
                if let Some(k) = my_name.take() {
                    let name = w.name(k);
                    let s = w.now();
                    Process::unregister(name);
                    push(&w, &me, s, Rec::Unreg(k));
                }
            }
            Op::Whereis(k) => {
                let k = *k as usize % NAMES;
                let name = w.name(k);
                let s = w.now();
                let r = Process::whereis(name);
                push(&w, &me, s, Rec::Whereis(k, r));
            }
            Op::Alive(t) => {
                let (i, p) = w.pick(*t);
                let s = w.now();
                let r = Process::alive(p.pid);
                push(&w, &me, s, Rec::Alive(i, r));
            }
            Op::Info(t) => {
                let (_, p) = w.pick(*t);
                std::hint::black_box(Process::info(p.pid));
                std::hint::black_box(Process::list().len() + Process::registered().len());
            }
            Op::Alias(reply) => {
                let s = w.now();
                let r = Process::alias(*reply);
                let slot = {
                    let mut g = w.aliases.write().unwrap();
                    g.push(AliasInfo { owner: idx, reference: r, reply: *reply, monitor: false });
                    g.len() - 1
                };
                mine_aliases.push(slot);
                push(&w, &me, s, Rec::Alias(slot, *reply));
            }
            Op::Unalias(k) => {
                let slot = if *k < 64 {
                    // An alias of anybody.
                    let len = w.aliases.read().unwrap().len();
                    if len == 0 {
                        continue;
                    }
                    len - 1 - *k as usize % len.min(4)
                } else {
                    let Some(s) = mine_aliases.len().checked_sub(1 + *k as usize % mine_aliases.len().max(1)) else { continue };
                    mine_aliases[s]
                };
                let r = w.aliases.read().unwrap()[slot].reference;
                let s = w.now();
                let ok = Process::unalias(r);
                push(&w, &me, s, Rec::Unalias(slot, ok));
            }
            Op::Spawn(kind, turns, end) => {
                let s = w.now();
                let (tx, rx) = std::sync::mpsc::channel::<(usize, Arc<Proc>)>();
                let (w2, turns, end) = (w.clone(), *turns % 6, if *end == End::Stay { End::Return } else { *end });
                let body = async move {
                    // The parent tells its number, at the latest when it has been published.
                    let pid = Process::current();
                    let (i, me) = loop {
                        if let Ok(x) = rx.try_recv() {
                            break x;
                        }
                        tokio::task::yield_now().await;
                    };
                    assert_eq!(pid, me.pid);
                    for _ in 0..turns {
                        tokio::task::yield_now().await;
                    }
                    finish(&w2, &me, i, end).await;
                };
                let (pid, reference) = match kind % 3 {
                    0 => (Process::spawn(body), None),
                    1 => (Process::spawn_link(body), None),
                    _ => {
                        let (p, r) = Process::spawn_monitor(body);
                        (p, Some(r))
                    }
                };
                let alive = (w.now(), Process::alive(pid));
                let child = Arc::new(Proc { pid, trap: false, log: Default::default(), done: AtomicBool::new(false) });
                let i = {
                    let mut g = w.procs.write().unwrap();
                    g.push(child.clone());
                    g.len() - 1
                };
                if let Some(r) = reference {
                    mine_monitors.push(r);
                }
                push(&w, &me, s, Rec::Spawn(i, kind % 3, reference));
                push(&w, &me, alive.0, Rec::Alive(i, alive.1));
                let _ = tx.send((i, child));
            }
            Op::Timer(t, ms) => {
                let (i, p) = w.pick(*t);
                let at = Instant::now();
                let s = w.now();
                let msg = SMsg { from: idx as u32 | 1 << 16, n };
                let r = Process::send_after(p.pid, msg, Duration::from_millis((*ms % 4) as u64));
                mine_timers.push((msg, r));
                push(&w, &me, s, Rec::Timer(msg, i, *ms % 4, at));
            }
            Op::Cancel(k) => {
                if mine_timers.is_empty() {
                    continue;
                }
                let (m, r) = mine_timers[*k as usize % mine_timers.len()];
                let s = w.now();
                Process::cancel_timer(r);
                assert!(Process::read_timer(r).is_none(), "a cancelled timer can be read");
                push(&w, &me, s, Rec::Cancel(m));
            }
        }
    }
    finish(&w, &me, idx, gen_.end).await;
}

// ---------------------------------------------------------------- the oracle

#[derive(Clone, Copy, PartialEq, Debug)]
enum Area {
    Links,
    Monitors,
    Aliases,
    Names,
    Mail,
    Table,
    Timers,
    Exits,
}

struct Facts {
    procs: Vec<(Pid, bool, Vec<Entry>, bool)>,
    aliases: Vec<AliasInfo>,
    alive: Vec<bool>,
    info: Vec<Option<ProcessInfo>>,
    names: Vec<Option<Pid>>,
    observer: Pid,
    /// What the observer was told about the actors.
    told: BTreeMap<usize, Vec<ExitReason>>,
    initial: usize,
    /// Every process has ended its script.
    settled: bool,
}

fn facts(w: &World, observer: Pid, watch: &Mutex<Vec<(usize, ExitReason)>>, initial: usize) -> Facts {
    let procs: Vec<Arc<Proc>> = w.procs.read().unwrap().clone();
    // A process that has been told to end may still run, until it is gone from the table.
    let settled = procs.iter().all(|p| p.done.load(Ordering::SeqCst) || Process::info(p.pid).is_none());
    let settled = settled && w.procs.read().unwrap().len() == procs.len();
    let alive: Vec<bool> = procs.iter().map(|p| Process::alive(p.pid)).collect();
    let info = procs.iter().map(|p| Process::info(p.pid)).collect();
    let mut told: BTreeMap<usize, Vec<ExitReason>> = Default::default();
    for (i, r) in watch.lock().unwrap().iter() {
        told.entry(*i).or_default().push(r.clone());
    }
    Facts {
        settled,
        procs: procs.iter().map(|p| (p.pid, p.trap, p.log.lock().unwrap().clone(), p.done.load(Ordering::SeqCst))).collect(),
        aliases: w.aliases.read().unwrap().clone(),
        alive,
        info,
        names: (0..NAMES).map(|n| Process::whereis(w.name(n))).collect(),
        observer,
        told,
        initial,
    }
}

/// What is wrong in the final state; empty when everything is as it has to be.
fn judge(w: &World, f: &Facts) -> Vec<(Area, String)> {
    let mut bad: Vec<(Area, String)> = vec![];
    macro_rules! bad { ($a:expr, $($t:tt)*) => { bad.push(($a, format!($($t)*))) } }
    let n = f.procs.len();
    let idx: BTreeMap<Pid, usize> = f.procs.iter().enumerate().map(|(i, p)| (p.0, i)).collect();
    if !f.settled {
        bad!(Area::Table, "a script did not end");
    }
    // Links and unlinks per ordered pair, deaths.
    let mut links: BTreeMap<(usize, usize), Vec<(u64, u64)>> = Default::default();
    let mut unlinks: BTreeMap<(usize, usize), Vec<(u64, u64)>> = Default::default();
    let mut cause: Vec<u64> = vec![u64::MAX; n];
    let mut reasons: Vec<Vec<ExitReason>> = vec![vec![]; n];
    let mut must_die = vec![false; n];
    for (i, p) in f.procs.iter().enumerate() {
        for e in &p.2 {
            match &e.rec {
                Rec::Link(t) => links.entry((i, *t)).or_default().push((e.start, e.end)),
                Rec::Spawn(t, 1, _) => links.entry((i, *t)).or_default().push((e.start, e.end)),
                Rec::Unlink(t) => unlinks.entry((i, *t)).or_default().push((e.start, e.end)),
                Rec::Exit(t, r) => {
                    if r.is_kill() || r.is_custom() && !f.procs[*t].1 {
                        cause[*t] = cause[*t].min(e.start);
                        reasons[*t].push(r.clone());
                        must_die[*t] = true;
                    }
                }
                Rec::End(r) => {
                    cause[i] = cause[i].min(e.start);
                    reasons[i].push(r.clone());
                    must_die[i] = true;
                }
                _ => {}
            }
        }
    }
    let pair = |a: usize, b: usize| (a.min(b), a.max(b));
    let linked: BTreeSet<(usize, usize)> = links.keys().map(|(a, b)| pair(*a, *b)).collect();
    let unlinked: BTreeSet<(usize, usize)> = unlinks.keys().map(|(a, b)| pair(*a, *b)).collect();
    for _ in 0..n {
        for (a, b) in &linked {
            for (p, q) in [(*a, *b), (*b, *a)] {
                if !f.procs[p].1 && cause[q] < cause[p] {
                    cause[p] = cause[q];
                }
            }
        }
    }
    // The reason each process actually had, as far as anybody was told.
    let mut actual: Vec<Option<ExitReason>> = vec![None; n];
    for (i, r) in &f.told {
        if r.len() > 1 {
            bad!(Area::Monitors, "the observer got {} down messages for its one monitor on {i}", r.len());
        }
        if f.alive[*i] {
            bad!(Area::Monitors, "the observer was told that {i} is down, but it is alive");
        }
        actual[*i] = Some(r[0].clone());
    }
    for i in 0..f.initial {
        if !f.alive[i] && !f.told.contains_key(&i) {
            bad!(Area::Monitors, "the observer was not told that {i} is down");
        }
    }
    let noproc = ExitReason::from("noproc");
    for (o, p) in f.procs.iter().enumerate() {
        for e in &p.2 {
            let (t, r) = match &e.rec {
                Rec::GotDown(Dest::Pid(pid), _, r) => (idx.get(pid), r),
                Rec::GotExit(pid, r) if !r.is_ignore() => {
                    let q = idx.get(pid);
                    // Not an explicit signal.
                    if q.is_some_and(|q| f.procs[*q].2.iter().any(|e| matches!(&e.rec, Rec::Exit(t, x) if *t == o && x == r))) {
                        continue;
                    }
                    (q, r)
                }
                _ => continue,
            };
            let Some(&t) = t else {
                bad!(Area::Monitors, "{o} was told about an unknown process: {:?}", e.rec);
                continue;
            };
            if *r == noproc && !(actual[t].as_ref() == Some(&noproc)) {
                continue;
            }
            match &actual[t] {
                None => actual[t] = Some(r.clone()),
                Some(a) if a == r => {}
                Some(a) => bad!(Area::Exits, "{o} was told that {t} ended with {r:?}, others {a:?}"),
            }
        }
    }
    // Deaths: who has to be dead, with which reason.
    for i in 0..n {
        if f.alive[i] && must_die[i] {
            bad!(Area::Exits, "{i} was sent a terminating signal or ended, but is alive");
        }
        if !f.alive[i] && cause[i] == u64::MAX && !linked.iter().any(|(a, b)| *a == i || *b == i) {
            bad!(Area::Exits, "{i} is dead without a cause (reason {:?})", actual[i]);
        }
        if let Some(r) = &actual[i] {
            let mut ok: Vec<ExitReason> = reasons[i].clone();
            for (a, b) in &linked {
                if *a != i && *b != i {
                    continue;
                }
                let q = if *a == i { *b } else { *a };
                if !f.alive[q] && !f.procs[i].1 {
                    match &actual[q] {
                        Some(x) => ok.push(x.clone()),
                        None => ok.push(r.clone()),
                    }
                    if links.contains_key(&(i, q)) {
                        ok.push(noproc.clone());
                    }
                }
            }
            if !ok.contains(r) {
                bad!(Area::Exits, "{i} ended with {r:?}, possible are {ok:?}");
            }
        }
        if f.alive[i] != f.info[i].is_some() {
            bad!(Area::Table, "{i}: alive {} but in the table {}", f.alive[i], f.info[i].is_some());
        }
    }
    // Who may have ended with "noproc" itself: by a link to a dead process, or by the end of such a partner.
    let mut may_noproc = vec![false; n];
    for _ in 0..n {
        for (a, b) in &linked {
            for (p, q) in [(*a, *b), (*b, *a)] {
                if !f.procs[p].1 && !f.alive[p] && !f.alive[q] && (links.contains_key(&(p, q)) || may_noproc[q] && actual[q].as_ref().is_none_or(|r| *r == noproc)) {
                    may_noproc[p] = true;
                }
            }
        }
    }
    // Links.
    for (a, b) in &linked {
        for (p, q) in [(*a, *b), (*b, *a)] {
            if f.alive[q] || !f.alive[p] || unlinked.contains(&(*a, *b)) {
                continue;
            }
            if !f.procs[p].1 {
                match &actual[q] {
                    Some(r) if r.is_normal() => {
                        // Only a link made after the death reports (noproc), which would have ended it.
                    }
                    Some(r) => bad!(Area::Links, "{p} survives its linked partner {q}, which ended with {r:?}"),
                    None => {}
                }
            }
        }
    }
    for p in 0..n {
        if !f.procs[p].1 {
            for e in &f.procs[p].2 {
                if let Rec::GotExit(..) = e.rec {
                    bad!(Area::Exits, "{p} does not trap exits but got {:?}", e.rec);
                }
            }
            continue;
        }
        for q in 0..n {
            let explicit: Vec<&ExitReason> = f.procs[q].2.iter().filter_map(|e| if let Rec::Exit(t, r) = &e.rec { (*t == p && !r.is_kill()).then_some(r) } else { None }).collect();
            let mut got: Vec<&ExitReason> = f.procs[p].2.iter().filter_map(|e| if let Rec::GotExit(x, r) = &e.rec { (*x == f.procs[q].0).then_some(r) } else { None }).collect();
            for r in explicit {
                match got.iter().position(|g| *g == r) {
                    Some(i) => {
                        got.remove(i);
                    }
                    None if f.alive[p] => bad!(Area::Exits, "{p} traps exits but did not get the signal {r:?} of {q}"),
                    None => {}
                }
            }
            let mine = links.get(&(p, q)).map(|v| v.len()).unwrap_or(0);
            let theirs = links.get(&(q, p)).map(|v| v.len()).unwrap_or(0);
            if mine + theirs == 0 || f.alive[q] {
                if !got.is_empty() {
                    bad!(Area::Links, "{p} got {got:?} from {q} (linked: {}, alive: {})", mine + theirs > 0, f.alive[q]);
                }
                continue;
            }
            let max = mine + (theirs > 0) as usize;
            if got.len() > max {
                bad!(Area::Links, "{p} got {got:?} from {q} for {mine} links of its own and {theirs} of the partner");
            }
            if got.iter().filter(|r| Some(**r) == actual[q].as_ref() && **r != &noproc).count() > 1 {
                bad!(Area::Links, "{p} got the exit of {q} twice: {got:?}");
            }
            if got.is_empty() && f.alive[p] && !unlinked.contains(&pair(p, q)) {
                bad!(Area::Links, "{p} traps exits but was not told about the end of its linked partner {q}");
            }
            if got.contains(&&noproc) && actual[q].as_ref() != Some(&noproc) && !(actual[q].is_none() && may_noproc[q]) && !links.get(&(p, q)).is_some_and(|v| v.iter().any(|l| l.1 > cause[q])) {
                bad!(Area::Links, "{p} got noproc from {q}, which was alive when it linked");
            }
        }
    }
    for p in 0..n {
        let Some(info) = &f.info[p] else { continue };
        if info.trap_exit != f.procs[p].1 && f.procs[p].3 {
            bad!(Area::Table, "info of {p}: trap_exit {}", info.trap_exit);
        }
        let have: BTreeSet<Pid> = info.links.iter().copied().collect();
        for pid in &have {
            match idx.get(pid) {
                None => bad!(Area::Links, "info of {p} has a link to a stranger {pid:?}"),
                Some(&q) if !f.alive[q] => bad!(Area::Links, "info of {p} still has a link to the dead {q}"),
                Some(&q) if !linked.contains(&pair(p, q)) => bad!(Area::Links, "info of {p} has a link to {q}, which was never made"),
                Some(&q) => {
                    if f.info[q].as_ref().is_some_and(|i| !i.links.contains(&f.procs[p].0)) {
                        bad!(Area::Links, "{p} has a link to {q}, but not the other way");
                    }
                }
            }
        }
        for q in 0..n {
            if q == p || !f.alive[q] || !linked.contains(&pair(p, q)) {
                continue;
            }
            // The state is certain when only one side acted, or nobody unlinked.
            let mut ops: Vec<(u64, bool)> = vec![];
            let mut sides = BTreeSet::new();
            for (a, b) in [(p, q), (q, p)] {
                for l in links.get(&(a, b)).into_iter().flatten() {
                    ops.push((l.0, true));
                    sides.insert(a);
                }
                for l in unlinks.get(&(a, b)).into_iter().flatten() {
                    ops.push((l.0, false));
                    sides.insert(a);
                }
            }
            ops.sort();
            let want = if !unlinked.contains(&pair(p, q)) {
                Some(true)
            } else if sides.len() == 1 {
                Some(ops.last().unwrap().1)
            } else {
                None
            };
            if want.is_some_and(|w| w != have.contains(&f.procs[q].0)) {
                bad!(Area::Links, "info of {p}: link to {q} is {}, must be {want:?}", have.contains(&f.procs[q].0));
            }
        }
    }
    // Monitors.
    let mut attached: BTreeMap<(usize, usize), usize> = Default::default();
    let mut floating: BTreeMap<usize, usize> = Default::default();
    for (o, p) in f.procs.iter().enumerate() {
        let mut refs: BTreeSet<Reference> = Default::default();
        for e in &p.2 {
            let (r, t, k) = match &e.rec {
                Rec::Mon(r, t, k, _) => (*r, *t, *k),
                Rec::Spawn(t, 2, Some(r)) => (*r, Some(*t), None),
                _ => continue,
            };
            refs.insert(r);
            let downs: Vec<(&Entry, &Dest, &ExitReason)> = p.2.iter().filter_map(|e| if let Rec::GotDown(d, x, s) = &e.rec { (*x == r).then_some((e, d, s)) } else { None }).collect();
            let demon = p.2.iter().filter(|e| matches!(&e.rec, Rec::Demon(x) if *x == r)).map(|e| e.end).min();
            if downs.len() > 1 {
                bad!(Area::Monitors, "{o} got {} down messages for one monitor on {t:?}", downs.len());
            }
            if let (Some(d), Some(x)) = (downs.first(), demon) {
                if d.0.start > x {
                    bad!(Area::Monitors, "{o} got a down message after demonitor ({t:?})");
                }
            }
            if let Some((_, d, reason)) = downs.first() {
                match (t, k) {
                    (Some(t), _) => {
                        if **d != Dest::from(f.procs[t].0) {
                            bad!(Area::Monitors, "{o}: the down message for {t} names {d:?}");
                        }
                        if f.alive[t] {
                            bad!(Area::Monitors, "{o} was told that {t} is down, but it is alive");
                        }
                        if **reason == noproc && actual[t].as_ref() != Some(&noproc) && e.end < cause[t] && !linked.iter().any(|(a, b)| *a == t || *b == t) {
                            bad!(Area::Monitors, "{o} was told noproc for {t}, which was alive when it was monitored");
                        }
                    }
                    (None, Some(k)) => {
                        if **d != Dest::from(w.name(k)) {
                            bad!(Area::Monitors, "{o}: the down message for the name {k} names {d:?}");
                        }
                    }
                    _ => {}
                }
            } else if demon.is_none() && f.alive[o] {
                match t {
                    Some(t) if !f.alive[t] => bad!(Area::Monitors, "{o} was not told that {t} is down"),
                    Some(t) => *attached.entry((o, t)).or_default() += 1,
                    None => *floating.entry(o).or_default() += 1,
                }
            }
        }
        for e in &p.2 {
            if let Rec::GotDown(_, r, _) = &e.rec {
                if !refs.contains(r) {
                    bad!(Area::Monitors, "{o} got a down message with a reference it does not have");
                }
            }
        }
    }
    let mut extra: BTreeMap<usize, usize> = Default::default();
    for t in 0..n {
        let Some(info) = &f.info[t] else { continue };
        let mut have: BTreeMap<Pid, usize> = Default::default();
        for p in &info.monitored_by {
            *have.entry(*p).or_default() += 1;
        }
        let obs = have.remove(&f.observer).unwrap_or(0);
        if obs != (t < f.initial) as usize {
            bad!(Area::Monitors, "{t} is monitored by the observer {obs} times");
        }
        for o in 0..n {
            let h = have.remove(&f.procs[o].0).unwrap_or(0);
            let want = attached.get(&(o, t)).copied().unwrap_or(0);
            if h < want {
                bad!(Area::Monitors, "{t} is monitored by {o} {h} times, must be at least {want}");
            }
            if h > 0 && !f.alive[o] {
                bad!(Area::Monitors, "{t} is still monitored by the dead {o}");
            }
            *extra.entry(o).or_default() += h.saturating_sub(want);
        }
        if !have.is_empty() {
            bad!(Area::Monitors, "{t} is monitored by strangers: {have:?}");
        }
    }
    for o in 0..n {
        let (x, fl) = (extra.get(&o).copied().unwrap_or(0), floating.get(&o).copied().unwrap_or(0));
        if f.alive[o] && x != fl {
            bad!(Area::Monitors, "{o} has {fl} monitors on names without a down message, but the table has {x}");
        }
    }
    // Mail.
    #[derive(Default)]
    struct Exp {
        must: usize,
        max: usize,
    }
    let mut expect: BTreeMap<(usize, SMsg), Exp> = Default::default();
    // Holds of names: (name, process, from start, sure from, until at the latest sure)
    struct Hold {
        name: usize,
        proc_: usize,
        start: u64,
        end: u64,
        /// The first unregister after it by its owner, or the death.
        gone_from: u64,
        gone_by: u64,
    }
    let mut holds: Vec<Hold> = vec![];
    for p in &f.procs {
        for e in &p.2 {
            if let Rec::Reg(t, k, Ok(())) = &e.rec {
                // Unregisters by the process itself, that it knew of.
                let un = |sure: bool| {
                    f.procs[*t].2.iter().filter(move |u| matches!(&u.rec, Rec::Unreg(x) if x == k) && if sure { u.start > e.end } else { u.end > e.start })
                };
                let gone_from = un(false).map(|u| u.start).min().unwrap_or(u64::MAX).min(if f.alive[*t] {
                    u64::MAX
                } else if cause[*t] == u64::MAX {
                    0
                } else {
                    cause[*t]
                });
                let gone_by = un(true).map(|u| u.end).min().unwrap_or(u64::MAX);
                holds.push(Hold { name: *k, proc_: *t, start: e.start, end: e.end, gone_from, gone_by });
            }
        }
    }
    for (i, a) in holds.iter().enumerate() {
        for b in &holds[i + 1..] {
            let clash = (a.name == b.name && a.proc_ != b.proc_) || (a.name != b.name && a.proc_ == b.proc_);
            // Registering the same pair again may join an existing hold, whose end is then its own.
            if clash && !(a.gone_from < b.end || b.gone_from < a.end) {
                bad!(Area::Names, "name {} is held by {} and name {} by {} at the same time", a.name, a.proc_, b.name, b.proc_);
            }
        }
    }
    for k in 0..NAMES {
        let sure: Vec<&Hold> = holds.iter().filter(|h| h.name == k && h.gone_from == u64::MAX && f.alive[h.proc_]).collect();
        match f.names[k] {
            None => {
                if let Some(h) = sure.first() {
                    bad!(Area::Names, "name {k} is held by {}, but whereis finds nobody", h.proc_);
                }
            }
            Some(pid) => match idx.get(&pid) {
                None => bad!(Area::Names, "name {k} is a stranger's {pid:?}"),
                Some(&q) => {
                    if !f.alive[q] {
                        bad!(Area::Names, "name {k} still belongs to the dead {q}");
                    }
                    if !holds.iter().any(|h| h.name == k && h.proc_ == q) {
                        bad!(Area::Names, "name {k} belongs to {q}, which was never registered");
                    }
                    if sure.iter().any(|h| h.proc_ != q) {
                        bad!(Area::Names, "name {k} belongs to {q} instead of {}", sure[0].proc_);
                    }
                    if f.info[q].as_ref().is_some_and(|i| i.registered_name != Some(w.name(k))) {
                        bad!(Area::Names, "name {k} belongs to {q}, whose info has {:?}", f.info[q].as_ref().unwrap().registered_name);
                    }
                }
            },
        }
    }
    for p in 0..n {
        if let Some(name) = f.info[p].as_ref().and_then(|i| i.registered_name.clone()) {
            if !(0..NAMES).any(|k| w.name(k) == name && f.names[k] == Some(f.procs[p].0)) {
                bad!(Area::Names, "info of {p} has the name {name}, which belongs to {:?}", f.names);
            }
        }
    }
    for (o, p) in f.procs.iter().enumerate() {
        for e in &p.2 {
            match &e.rec {
                Rec::Reg(t, k, Err(err)) => {
                    let conflict = f.procs.iter().flat_map(|q| &q.2).any(|x| matches!(&x.rec, Rec::Reg(t2, k2, _) if (t2 != t || k2 != k) && (t2 == t || k2 == k) && x.start < e.end))
                        // The actor of a registration that was aborted after it is not recorded before its end.
                        || cause[*t] < e.end;
                    if !conflict {
                        bad!(Area::Names, "{o}: register {t} as {k} failed without a conflict: {err}");
                    }
                }
                Rec::Whereis(k, r) => {
                    if let Some(pid) = r {
                        match idx.get(pid) {
                            None => bad!(Area::Names, "{o}: whereis({k}) found a stranger {pid:?}"),
                            Some(&q) => {
                                if !holds.iter().any(|h| h.name == *k && h.proc_ == q && h.start < e.end && h.gone_by > e.start) {
                                    bad!(Area::Names, "{o}: whereis({k}) found {q}, which does not hold it");
                                }
                            }
                        }
                    } else if let Some(h) = holds.iter().find(|h| h.name == *k && h.end < e.start && h.gone_from > e.end) {
                        bad!(Area::Names, "{o}: whereis({k}) found nobody, but {} holds it", h.proc_);
                    }
                }
                Rec::Alive(t, a) => {
                    if !*a && cause[*t] > e.end && !linked.iter().any(|(a, b)| a == t || b == t) {
                        bad!(Area::Table, "{o}: {t} is not alive before anything ended it");
                    }
                    if *a {
                        let killed = f.procs.iter().flat_map(|q| &q.2).find(|x| matches!(&x.rec, Rec::Exit(t2, r) if t2 == t && (r.is_kill() || r.is_custom() && !f.procs[*t].1)) && x.end < e.start);
                        if killed.is_some() {
                            bad!(Area::Exits, "{o}: {t} is alive although it was sent a terminating signal before");
                        }
                    }
                }
                Rec::Send(m, to) => {
                    for t in to {
                        match t {
                            To::Proc(q) => {
                                let x = expect.entry((*q, *m)).or_default();
                                x.max += 1;
                                x.must += f.alive[*q] as usize;
                            }
                            To::Name(k) => {
                                for q in holds.iter().filter(|h| h.name == *k && h.start < e.end && h.gone_by > e.start).map(|h| h.proc_).collect::<BTreeSet<_>>() {
                                    expect.entry((q, *m)).or_default().max += 1;
                                }
                                if let Some(h) = holds.iter().find(|h| h.name == *k && h.end < e.start && h.gone_from > e.end && f.alive[h.proc_]) {
                                    expect.entry((h.proc_, *m)).or_default().must += 1;
                                }
                            }
                            To::Alias(a) => {
                                let al = &f.aliases[*a];
                                let un = f.procs[al.owner].2.iter().find(|u| matches!(&u.rec, Rec::Unalias(x, true) if x == a));
                                let x = expect.entry((al.owner, *m)).or_default();
                                if un.is_none_or(|u| e.start < u.end) {
                                    x.max += 1;
                                }
                                if !al.reply && !al.monitor && f.alive[al.owner] && un.is_none_or(|u| e.end < u.start) {
                                    x.must += 1;
                                }
                            }
                        }
                    }
                }
                Rec::Timer(m, q, _, _) => {
                    let cancelled = p.2.iter().any(|x| matches!(&x.rec, Rec::Cancel(y) if y == m));
                    let x = expect.entry((*q, *m)).or_default();
                    x.max += 1;
                    x.must += (f.alive[*q] && !cancelled) as usize;
                }
                _ => {}
            }
        }
    }
    // A sender that was aborted inside of an operation never happens: operations have no await.
    let mut got: BTreeMap<(usize, SMsg), usize> = Default::default();
    for (i, p) in f.procs.iter().enumerate() {
        let mut last: BTreeMap<u32, u32> = Default::default();
        for e in &p.2 {
            if let Rec::Got(m, at) = &e.rec {
                *got.entry((i, *m)).or_default() += 1;
                if m.from & (1 << 16) == 0 {
                    if last.insert(m.from, m.n).is_some_and(|l| l > m.n) {
                        bad!(Area::Mail, "{i} received the messages of {} out of order", m.from);
                    }
                } else {
                    let s = (m.from & 0xffff) as usize;
                    for x in &f.procs[s].2 {
                        if let Rec::Timer(y, _, ms, from) = &x.rec {
                            if y == m && *at < *from + Duration::from_millis(*ms as u64) {
                                bad!(Area::Timers, "{i} received a timer of {ms} ms after {:?}", *at - *from);
                            }
                        }
                    }
                }
            }
        }
    }
    let area = |m: &SMsg| -> Area {
        if m.from & (1 << 16) != 0 {
            return Area::Timers;
        }
        let to = f.procs[m.from as usize].2.iter().find_map(|e| if let Rec::Send(x, to) = &e.rec { (x == m).then_some(to.clone()) } else { None });
        match to {
            Some(t) if t.iter().any(|t| matches!(t, To::Alias(_))) => Area::Aliases,
            Some(t) if t.iter().any(|t| matches!(t, To::Name(_))) => Area::Names,
            _ => Area::Mail,
        }
    };
    for ((i, m), c) in &got {
        let max = expect.get(&(*i, *m)).map(|x| x.max).unwrap_or(0);
        if *c > max {
            bad!(area(m), "{i} received {m:?} {c} times, at most {max} were sent to it");
        }
    }
    for ((i, m), x) in &expect {
        let c = got.get(&(*i, *m)).copied().unwrap_or(0);
        if c < x.must {
            bad!(area(m), "{i} received {m:?} {c} times, {} were sent to it", x.must);
        }
    }
    // Aliases.
    for (a, al) in f.aliases.iter().enumerate() {
        let owner = &f.procs[al.owner];
        let sent: BTreeSet<SMsg> = f
            .procs
            .iter()
            .flat_map(|p| &p.2)
            .filter_map(|e| if let Rec::Send(m, to) = &e.rec { to.iter().any(|t| *t == To::Alias(a)).then_some((*m, to.clone())) } else { None })
            // Only this way to the owner.
            .filter(|(_, to)| to.iter().all(|t| match t { To::Alias(b) => *b == a || f.aliases[*b].owner != al.owner, To::Proc(q) => *q != al.owner, To::Name(_) => false }))
            .map(|(m, _)| m)
            .collect();
        let received = owner.2.iter().filter(|e| matches!(&e.rec, Rec::Got(m, _) if sent.contains(m))).count();
        let others = f.procs.iter().flat_map(|p| &p.2).filter(|e| matches!(&e.rec, Rec::Send(m, to) if !sent.contains(m) && to.contains(&To::Alias(a)))).count();
        let mut yes = 0;
        for p in f.procs.iter().enumerate() {
            for e in &p.1.2 {
                if let Rec::Unalias(x, ok) = &e.rec {
                    if *x == a && *ok {
                        yes += 1;
                        if p.0 != al.owner {
                            bad!(Area::Aliases, "{} unaliased an alias of {}", p.0, al.owner);
                        }
                    }
                    if *x == a && !*ok && p.0 == al.owner && !al.reply && !al.monitor && yes == 0 {
                        bad!(Area::Aliases, "unalias of the active alias {a} returned false");
                    }
                }
            }
        }
        if yes > 1 {
            bad!(Area::Aliases, "alias {a} was unaliased twice");
        }
        if al.reply {
            if received > 1 {
                bad!(Area::Aliases, "the reply alias {a} accepted {received} messages");
            }
            let refused = owner.2.iter().any(|e| matches!(&e.rec, Rec::Unalias(x, false) if *x == a));
            if f.alive[al.owner] && !al.monitor && others == 0 {
                if yes == 1 && received > 0 {
                    bad!(Area::Aliases, "the reply alias {a} accepted a message and was active when it was unaliased");
                }
                if yes == 0 && refused && received == 0 {
                    bad!(Area::Aliases, "the reply alias {a} was not active when it was unaliased, but accepted no message");
                }
                if yes == 0 && !refused && received == 0 && !sent.is_empty() {
                    bad!(Area::Aliases, "the reply alias {a} accepted none of {} messages", sent.len());
                }
            }
        }
        if al.monitor {
            // Active until its monitor fires or is removed.
            let Some((mon, t)) = owner.2.iter().find_map(|e| if let Rec::Mon(r, Some(t), _, Some(s)) = &e.rec { (*s == a).then_some((*r, *t)) } else { None }) else { continue };
            let demon = owner.2.iter().filter(|e| matches!(&e.rec, Rec::Demon(x) if *x == mon)).map(|e| (e.start, e.end)).min();
            let down = owner.2.iter().find(|e| matches!(&e.rec, Rec::GotDown(_, x, _) if *x == mon));
            for p in &f.procs {
                for e in &p.2 {
                    let Rec::Send(m, to) = &e.rec else { continue };
                    if !sent.contains(m) || !to.contains(&To::Alias(a)) {
                        continue;
                    }
                    let c = owner.2.iter().filter(|x| matches!(&x.rec, Rec::Got(y, _) if y == m)).count();
                    if c > 0 && (demon.is_some_and(|d| d.1 < e.start) || down.is_some_and(|d| false && d.end < e.start)) {
                        bad!(Area::Aliases, "the monitor alias {a} accepted a message after demonitor");
                    }
                    if c == 0 && !al.reply && f.alive[al.owner] && f.alive[t] && demon.is_none_or(|d| e.end < d.0) && yes == 0 {
                        bad!(Area::Aliases, "the monitor alias {a} is active but dropped a message");
                    }
                }
            }
        }
    }
    bad
}

fn run(case: &Case, own: &[Area]) -> Outcome {
    hydra::verif::set_chaos(case.chance as u64, case.seed);
    let w = Arc::new(World {
        id: CASES.fetch_add(1, Ordering::Relaxed),
        clock: AtomicU64::new(0),
        procs: Default::default(),
        aliases: Default::default(),
        go: AtomicBool::new(false),
        ready: AtomicUsize::new(0),
    });
    let initial = case.procs.len();
    let watch: Arc<Mutex<Vec<(usize, ExitReason)>>> = Default::default();
    let out: (Vec<(Area, String)>, Facts) = rt().block_on(async {
        let (otx, orx) = tokio::sync::oneshot::channel();
        let (w2, watch2, procs) = (w.clone(), watch.clone(), case.procs.clone());
        let observer = Process::spawn(async move {
            let mut refs = BTreeMap::new();
            for (i, p) in procs.into_iter().enumerate() {
                let trap = p.trap;
                let w3 = w2.clone();
                let pid = Process::spawn(actor(w3, i, p));
                w2.procs.write().unwrap().push(Arc::new(Proc { pid, trap, log: Default::default(), done: AtomicBool::new(false) }));
                refs.insert(Process::monitor(pid), i);
            }
            let _ = otx.send(());
            loop {
                if let Message::System(SystemMessage::ProcessDown(_, r, reason)) = Process::receive::<SMsg>().await {
                    watch2.lock().unwrap().push((refs[&r], reason));
                }
            }
        });
        orx.await.expect("HARNESS: observer");
        while w.ready.load(Ordering::SeqCst) < initial {
            tokio::task::yield_now().await;
        }
        w.go.store(true, Ordering::SeqCst);
        let from = Instant::now();
        let mut bad;
        let mut f;
        let mut wait = 50;
        loop {
            tokio::time::sleep(Duration::from_micros(wait)).await;
            f = facts(&w, observer, &watch, initial);
            bad = if f.settled { judge(&w, &f) } else { vec![(Area::Table, "a script does not end".into())] };
            if from.elapsed() > Duration::from_secs(6) {
                break;
            }
            if bad.is_empty() {
                // Nothing may change any more.
                tokio::time::sleep(Duration::from_micros(300)).await;
                f = facts(&w, observer, &watch, initial);
                bad = if f.settled { judge(&w, &f) } else { vec![(Area::Table, "a script does not end".into())] };
                if bad.is_empty() {
                    break;
                }
            }
            wait = (wait * 2).min(5000);
        }
        // Clean up, and see that nothing remains.
        hydra::verif::set_chaos(0, 1);
        let pids: Vec<Pid> = w.procs.read().unwrap().iter().map(|p| p.pid).collect();
        let all = pids.clone();
        Process::spawn(async move {
            for p in all {
                Process::exit(p, ExitReason::Kill);
            }
            Process::exit(observer, ExitReason::Kill);
        });
        let from = Instant::now();
        loop {
            let list: BTreeSet<Pid> = Process::list().into_iter().collect();
            let left = pids.iter().any(|p| list.contains(p)) || (0..NAMES).any(|k| Process::whereis(w.name(k)).is_some());
            if !left {
                break;
            }
            if from.elapsed() > Duration::from_secs(6) {
                bad.push((Area::Table, "killed processes or their names remain".into()));
                break;
            }
            tokio::time::sleep(Duration::from_micros(50)).await;
        }
        (bad, f)
    });
    let (bad, f) = out;
    let mut classes = BTreeSet::new();
    for e in f.procs.iter().flat_map(|p| &p.2) {
        classes.insert(match &e.rec {
            Rec::Send(_, to) if to.len() > 1 => "multi_send",
            Rec::Send(_, to) if matches!(to[0], To::Alias(_)) => "alias_send",
            Rec::Send(_, to) if matches!(to[0], To::Name(_)) => "name_send",
            Rec::Send(..) => "send",
            Rec::Link(_) => "link",
            Rec::Unlink(_) => "unlink",
            Rec::Mon(_, _, _, Some(_)) => "monitor_alias",
            Rec::Mon(_, _, Some(_), _) => "monitor_name",
            Rec::Mon(..) => "monitor",
            Rec::Demon(_) => "demonitor",
            Rec::Exit(..) => "exit_signal",
            Rec::Reg(_, _, Ok(())) => "registered",
            Rec::Reg(..) => "register_refused",
            Rec::Unreg(_) => "unregister",
            Rec::Unalias(_, true) => "unalias_hit",
            Rec::Unalias(..) => "unalias_miss",
            Rec::Spawn(..) => "spawn",
            Rec::Timer(..) => "timer",
            Rec::Cancel(_) => "cancel",
            Rec::GotExit(_, r) if *r == ExitReason::from("noproc") => "link_noproc",
            Rec::GotExit(..) => "exit_message",
            Rec::GotDown(_, _, r) if *r == ExitReason::from("noproc") => "down_noproc",
            Rec::GotDown(..) => "down_message",
            Rec::Got(..) => "received",
            _ => continue,
        });
    }
    let deaths = f.alive.iter().filter(|a| !**a).count();
    let mut o = Outcome::ok(deaths > 0 && f.procs.iter().filter(|p| p.2.len() > 2).count() > 1);
    o.classes.extend(classes);
    if let Some((a, text)) = bad.iter().find(|b| own.is_empty() || own.contains(&b.0)) {
        let mut log: Vec<(u64, String)> = f.procs.iter().enumerate().flat_map(|(i, p)| p.2.iter().map(move |e| (e.start, format!("{}-{} {i}: {:?}", e.start, e.end, e.rec)))).collect();
        log.sort();
        let log: Vec<String> = log.into_iter().map(|x| x.1).collect();
        o.failure = Some(format!("{a:?}: {text} (alive: {:?}; history: {})", f.alive, log.join("; ")));
    }
    o
}

fn op(theme: usize) -> BoxedStrategy<Op> {
    let t = || prop_oneof![3 => 0u8..6, 2 => 128u8..134, 1 => any::<u8>()];
    let kind = prop_oneof![4 => Just(Kind::Custom), 2 => Just(Kind::Kill), 1 => Just(Kind::Ignore)];
    let end = prop_oneof![2 => Just(End::Return), 1 => Just(End::Panic), 2 => Just(End::Exit)];
    // theme: 0 mixed, 1 links, 2 monitors, 3 names, 4 aliases, 5 mail and timers
    let k = |ws: [u32; 6]| ws[theme];
    weighted(vec![
        (k([3, 1, 1, 2, 2, 10]), t().prop_map(Op::Send).boxed()),
        (k([2, 0, 0, 8, 1, 4]), (0u8..2).prop_map(Op::SendName).boxed()),
        (k([3, 0, 1, 0, 14, 4]), (0u8..4).prop_map(Op::SendAlias).boxed()),
        (k([2, 0, 0, 2, 4, 6]), proptest::collection::vec(any::<u8>(), 2..5).prop_map(Op::SendMany).boxed()),
        (k([4, 14, 1, 1, 1, 1]), t().prop_map(Op::Link).boxed()),
        (k([2, 7, 0, 0, 0, 0]), t().prop_map(Op::Unlink).boxed()),
        (k([4, 1, 12, 1, 1, 0]), t().prop_map(Op::Monitor).boxed()),
        (k([1, 0, 4, 3, 0, 0]), (0u8..2).prop_map(Op::MonitorName).boxed()),
        (k([2, 0, 4, 0, 5, 0]), (t(), any::<bool>()).prop_map(|(t, r)| Op::MonitorAlias(t, r)).boxed()),
        (k([3, 0, 8, 1, 4, 0]), (0u8..4).prop_map(Op::Demonitor).boxed()),
        (k([3, 5, 4, 3, 2, 2]), (t(), kind).prop_map(|(t, k)| Op::Exit(t, k)).boxed()),
        (k([3, 0, 2, 12, 0, 2]), (any::<u8>(), 0u8..2).prop_map(|(t, n)| Op::Register(t, n)).boxed()),
        (k([2, 0, 1, 7, 0, 1]), Just(Op::Unregister).boxed()),
        (k([1, 0, 0, 5, 0, 0]), (0u8..2).prop_map(Op::Whereis).boxed()),
        (k([1, 1, 1, 1, 1, 1]), t().prop_map(Op::Alive).boxed()),
        (k([1, 1, 1, 1, 1, 1]), t().prop_map(Op::Info).boxed()),
        (k([2, 0, 0, 0, 8, 2]), any::<bool>().prop_map(Op::Alias).boxed()),
        (k([2, 0, 0, 0, 7, 1]), any::<u8>().prop_map(Op::Unalias).boxed()),
        (k([4, 5, 5, 3, 1, 2]), (0u8..3, any::<u8>(), end).prop_map(|(k, t, e)| Op::Spawn(k, t, e)).boxed()),
        (k([1, 0, 0, 0, 0, 4]), (t(), any::<u8>()).prop_map(|(t, m)| Op::Timer(t, m)).boxed()),
        (k([1, 0, 0, 0, 0, 3]), any::<u8>().prop_map(Op::Cancel).boxed()),
        (k([2, 2, 3, 1, 2, 4]), Just(Op::Drain).boxed()),
        (k([3, 3, 3, 3, 3, 3]), Just(Op::Yield).boxed()),
        (k([3, 3, 3, 3, 3, 3]), (0u16..2000).prop_map(Op::Spin).boxed()),
    ])
}

fn case(themes: &'static [usize]) -> BoxedStrategy<Case> {
    proptest::sample::select(themes)
        .prop_flat_map(|theme| {
            let end = prop_oneof![5 => Just(End::Stay), 2 => Just(End::Return), 1 => Just(End::Panic), 2 => Just(End::Exit)];
            let p = (any::<bool>(), proptest::collection::vec(op(theme), 1..14), end).prop_map(|(trap, script, end)| ProcGen { trap, script, end });
            (any::<u64>(), prop_oneof![1 => Just(0u16), 3 => 0u16..700], proptest::collection::vec(p, 2..6)).prop_map(|(seed, chance, procs)| Case { seed, chance, procs })
        })
        .boxed()
}

fn own(id: &str) -> (&'static [Area], &'static [usize]) {
    match id {
        "C01" => (&[Area::Mail], &[5]),
        "C03" => (&[Area::Links, Area::Exits], &[1]),
        "C04" => (&[Area::Exits], &[1, 2]),
        "C05" => (&[Area::Monitors], &[2]),
        "C06" => (&[Area::Aliases], &[4]),
        "C07" => (&[Area::Names], &[3]),
        "C08" => (&[Area::Table, Area::Exits], &[0, 2]),
        "C09" => (&[Area::Timers], &[5]),
        _ => (&[], &[0, 0, 1, 2, 3, 4, 5]),
    }
}

pub fn sub(id: &str, cases: u32) -> Box<dyn DynSub> {
    let (areas, themes) = own(id);
    Sub::new("concurrent", (cases, 12), move || case(themes), move |c| run(c, areas)).threads(4).shrink(400).hang_violates(Duration::from_secs(60)).replays(500).boxed()
}

pub fn subs() -> (Vec<Box<dyn DynSub>>, &'static str, Vec<&'static str>) {
    (
        vec![sub("C29", 60_000)],
        "A case is a set of processes that run generated scripts at the same time on a multi-threaded runtime, with delays injected between the steps of the library; it is non-trivial when at least two processes did something and at least one died.",
        vec!["the state is judged once it is quiet: at most 6 s after the scripts have ended", "schedules are sampled, not enumerated"],
    )
}

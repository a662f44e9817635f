//! C24: semaphores against a first-come-first-served permit model, and under real parallelism.
use crate::prop::*;
use hydra::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, VecDeque};
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::sync::oneshot;

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum SemOp {
    /// count, by `acquire`/`acquire_many`, owned permit
    Acquire { count: u8, owned: bool },
    Try { owned: bool },
    Release(u8),
    Kill(u8),
    Panic(u8),
    /// Drops the waiting acquire, the process goes on.
    Cancel(u8),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct SemCase {
    owned: bool,
    permits: u8,
    ops: Vec<SemOp>,
}

enum Sem {
    Shared(Semaphore),
    Owned(OwnedSemaphore),
}

#[allow(dead_code)]
enum Permit<'a> {
    Shared(SemaphorePermit<'a>),
    Owned(OwnedSemaphorePermit),
}

impl Sem {
    async fn acquire(&self, count: u8, owned: bool) -> Permit<'_> {
        match self {
            Sem::Shared(s) => Permit::Shared(if count == 1 { s.acquire().await } else { s.acquire_many(count as u32).await }),
            Sem::Owned(s) if owned => {
                Permit::Owned(if count == 1 { s.acquire_owned().await } else { s.acquire_many_owned(count as u32).await })
            }
            Sem::Owned(s) => Permit::Shared(if count == 1 { s.acquire().await } else { s.acquire_many(count as u32).await }),
        }
    }
    fn try_acquire(&self, owned: bool) -> Option<Permit<'_>> {
        match self {
            Sem::Shared(s) => s.try_acquire().ok().map(Permit::Shared),
            Sem::Owned(s) if owned => s.try_acquire_owned().ok().map(Permit::Owned),
            Sem::Owned(s) => s.try_acquire().ok().map(Permit::Shared),
        }
    }
}

enum Signal {
    Release,
    Panic,
    Cancel,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Waiting,
    Granted,
    Failed,
    Ended,
}

async fn client(sem: Arc<Sem>, id: usize, count: u8, owned: bool, try_only: bool, log: Arc<Mutex<BTreeMap<usize, St>>>, mut rx: oneshot::Receiver<Signal>) {
    let permit = if try_only {
        match sem.try_acquire(owned) {
            Some(p) => p,
            None => {
                log.lock().unwrap().insert(id, St::Failed);
                return;
            }
        }
    } else {
        tokio::select! {
            biased;
            p = sem.acquire(count, owned) => p,
            s = &mut rx => {
                if let Ok(Signal::Panic) = s {
                    panic!("client panics");
                }
                // The acquire is dropped, the process lives on for a while.
                tokio::time::sleep(Duration::from_millis(50)).await;
                log.lock().unwrap().insert(id, St::Ended);
                return;
            }
        }
    };
    log.lock().unwrap().insert(id, St::Granted);
    match rx.await {
        Ok(Signal::Panic) => panic!("client panics"),
        _ => drop(permit),
    }
    log.lock().unwrap().insert(id, St::Ended);
}

fn run(case: &SemCase) -> Outcome {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
    rt.block_on(async {
        let total = (case.permits % 7) as i64;
        let sem = Arc::new(if case.owned { Sem::Owned(OwnedSemaphore::new(total as usize)) } else { Sem::Shared(Semaphore::new(total as usize)) });
        let log: Arc<Mutex<BTreeMap<usize, St>>> = Default::default();
        let mut pids = Vec::new();
        let mut txs: Vec<Option<oneshot::Sender<Signal>>> = Vec::new();
        // Model.
        let mut free = total;
        let mut queue: VecDeque<usize> = VecDeque::new();
        let mut state: Vec<St> = Vec::new();
        let mut need: Vec<i64> = Vec::new();
        let mut cls = Vec::new();
        for (i, op) in case.ops.iter().enumerate() {
            let pick = |sel: u8, want: &dyn Fn(St) -> bool| -> Option<usize> {
                let c: Vec<usize> = (0..state.len()).filter(|k| want(state[*k])).collect();
                (!c.is_empty()).then(|| c[sel as usize % c.len()])
            };
            let mut checked_try = None;
            match op {
                SemOp::Acquire { .. } | SemOp::Try { .. } => {
                    let id = state.len();
                    let (count, owned, is_try) = match op {
                        SemOp::Acquire { count, owned } => ((*count % 9) as i64, *owned, false),
                        SemOp::Try { owned } => (1, *owned, true),
                        _ => unreachable!(),
                    };
                    let (tx, rx) = oneshot::channel();
                    pids.push(Process::spawn(client(sem.clone(), id, count as u8, owned, is_try, log.clone(), rx)));
                    txs.push(Some(tx));
                    need.push(count);
                    if is_try {
                        let ok = queue.is_empty() && free >= 1;
                        if ok {
                            free -= 1;
                        }
                        cls.push(if ok { "try_ok" } else if queue.is_empty() { "try_fails" } else { "try_fails_behind_queue" });
                        state.push(if ok { St::Granted } else { St::Failed });
                        checked_try = Some(id);
                    } else if count == 0 {
                        state.push(St::Granted);
                    } else {
                        state.push(St::Waiting);
                        queue.push_back(id);
                    }
                }
                SemOp::Release(s) => {
                    let Some(id) = pick(*s, &|x| x == St::Granted) else { continue };
                    let _ = txs[id].take().unwrap().send(Signal::Release);
                    state[id] = St::Ended;
                    free += need[id];
                }
                SemOp::Kill(s) | SemOp::Panic(s) => {
                    let Some(id) = pick(*s, &|x| x == St::Granted || x == St::Waiting) else { continue };
                    if matches!(op, SemOp::Kill(_)) {
                        let pid = pids[id];
                        Process::spawn(async move { Process::exit(pid, ExitReason::Kill) });
                    } else {
                        let _ = txs[id].take().unwrap().send(Signal::Panic);
                    }
                    if state[id] == St::Granted {
                        free += need[id];
                        cls.push("holder_dies");
                    } else {
                        queue.retain(|q| *q != id);
                        cls.push("waiter_dies");
                    }
                    state[id] = St::Ended;
                }
                SemOp::Cancel(s) => {
                    let Some(id) = pick(*s, &|x| x == St::Waiting) else { continue };
                    let _ = txs[id].take().unwrap().send(Signal::Cancel);
                    queue.retain(|q| *q != id);
                    state[id] = St::Ended;
                    cls.push("waiter_cancelled");
                }
            }
            while let Some(&f) = queue.front() {
                if need[f] > free {
                    break;
                }
                free -= need[f];
                state[f] = St::Granted;
                queue.pop_front();
                if need[f] > 1 {
                    cls.push("many_granted");
                }
            }
            if queue.len() > 1 {
                cls.push("queue");
            }
            tokio::time::sleep(Duration::from_millis(2)).await;
            let got = log.lock().unwrap().clone();
            for id in 0..state.len() {
                let g = got.get(&id).copied().unwrap_or(St::Waiting);
                let ok = match state[id] {
                    St::Waiting => g == St::Waiting,
                    St::Granted => g == St::Granted,
                    St::Failed => g == St::Failed,
                    St::Ended => true,
                };
                if !ok {
                    let what = if checked_try == Some(id) { "try_acquire" } else { "acquire" };
                    return Outcome::fail(format!("operation {i} {op:?}: {what} of client {id} ({} permits) is {g:?}, expected {:?} (free {free} of {total}, queue {queue:?})", need[id], state[id]));
                }
            }
        }
        // Everything dropped: exactly the original permits are there.
        for (id, pid) in pids.iter().enumerate() {
            if id % 2 == 0 {
                let pid = *pid;
                Process::spawn(async move { Process::exit(pid, ExitReason::Kill) });
            } else if let Some(tx) = txs[id].take() {
                let _ = tx.send(Signal::Release);
            }
        }
        tokio::time::sleep(Duration::from_millis(100)).await;
        let mut held = Vec::new();
        while let Some(p) = sem.try_acquire(held.len() % 2 == 0) {
            held.push(p);
            if held.len() as i64 > total {
                break;
            }
        }
        if held.len() as i64 != total {
            return Outcome::fail(format!("after everything was dropped {} permits can be taken instead of {total}", held.len()));
        }
        drop(held);
        if total > 0 && tokio::time::timeout(Duration::from_millis(10), sem.acquire(total as u8, true)).await.is_err() {
            return Outcome::fail("acquiring all permits at once does not succeed after everything was dropped");
        }
        cls.sort();
        cls.dedup();
        let mut o = Outcome::ok(cls.len() >= 2);
        o.classes = cls;
        o
    })
}

// ---------------------------------------------------------------- parallel

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct ParCase {
    owned: bool,
    permits: u8,
    clients: Vec<Vec<(u8, u8)>>,
    kills: Vec<u8>,
}

struct Held<'a>(&'a AtomicI64, i64);
impl Drop for Held<'_> {
    fn drop(&mut self) {
        self.0.fetch_sub(self.1, Ordering::SeqCst);
    }
}

fn run_par(case: &ParCase) -> Outcome {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    let total = (case.permits % 5 + 1) as i64;
    let out = rt.block_on(async {
        let sem = Arc::new(if case.owned { Sem::Owned(OwnedSemaphore::new(total as usize)) } else { Sem::Shared(Semaphore::new(total as usize)) });
        let used = Arc::new(AtomicI64::new(0));
        let worst = Arc::new(AtomicI64::new(0));
        let waits = Arc::new(AtomicUsize::new(0));
        let mut pids = Vec::new();
        for steps in &case.clients {
            let (sem, used, worst, waits, steps) = (sem.clone(), used.clone(), worst.clone(), waits.clone(), steps.clone());
            pids.push(Process::spawn(async move {
                for (how, hold) in steps {
                    let count = (how / 4) as i64 % total + 1;
                    let permit;
                    let n;
                    match how % 4 {
                        0 => {
                            let Some(p) = sem.try_acquire(hold % 2 == 0) else { continue };
                            permit = p;
                            n = 1;
                        }
                        1 => {
                            // A wait that is given up.
                            waits.fetch_add(1, Ordering::Relaxed);
                            match tokio::time::timeout(Duration::from_micros(hold as u64 * 20), sem.acquire(count as u8, true)).await {
                                Ok(p) => permit = p,
                                Err(_) => continue,
                            }
                            n = count;
                        }
                        _ => {
                            waits.fetch_add(1, Ordering::Relaxed);
                            permit = sem.acquire(count as u8, hold % 2 == 0).await;
                            n = count;
                        }
                    }
                    let now = used.fetch_add(n, Ordering::SeqCst) + n;
                    worst.fetch_max(now, Ordering::SeqCst);
                    let held = Held(&used, n);
                    if hold % 3 == 0 {
                        tokio::task::yield_now().await;
                    } else if hold % 3 == 1 {
                        tokio::time::sleep(Duration::from_micros(hold as u64 * 10)).await;
                    }
                    drop(held);
                    drop(permit);
                }
            }));
        }
        for k in &case.kills {
            let pid = pids[*k as usize % pids.len()];
            tokio::time::sleep(Duration::from_micros(*k as u64 * 10)).await;
            Process::spawn(async move { Process::exit(pid, ExitReason::Kill) });
        }
        let start = std::time::Instant::now();
        while pids.iter().any(|p| Process::alive(*p)) {
            if start.elapsed() > Duration::from_secs(20) {
                return Outcome::fail(format!("clients still wait although nobody holds a permit for long ({} of {total} in use)", used.load(Ordering::SeqCst)));
            }
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
        let w = worst.load(Ordering::SeqCst);
        if w > total {
            return Outcome::fail(format!("{w} permits of {total} were out at the same time"));
        }
        // A killed process drops what it holds as soon as it is taken off its thread.
        let mut n = 0;
        for _ in 0..2000 {
            let mut held = Vec::new();
            while let Some(p) = sem.try_acquire(true) {
                held.push(p);
                if held.len() as i64 > total {
                    return Outcome::fail(format!("more than {total} permits can be taken"));
                }
            }
            n = held.len() as i64;
            if n == total {
                break;
            }
            drop(held);
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
        if n != total {
            return Outcome::fail(format!("after everything was dropped {n} permits can be taken instead of {total}"));
        }
        Outcome::ok(waits.load(Ordering::Relaxed) > 3)
    });
    rt.shutdown_background();
    out
}

pub fn subs() -> (Vec<Box<dyn DynSub>>, &'static str, Vec<&'static str>) {
    let op = || {
        weighted(vec![
            (6, (prop_oneof![5 => Just(1u8), 5 => any::<u8>()], any::<bool>()).prop_map(|(count, owned)| SemOp::Acquire { count, owned }).boxed()),
            (2, any::<bool>().prop_map(|owned| SemOp::Try { owned }).boxed()),
            (4, any::<u8>().prop_map(SemOp::Release).boxed()),
            (2, any::<u8>().prop_map(SemOp::Kill).boxed()),
            (1, any::<u8>().prop_map(SemOp::Panic).boxed()),
            (2, any::<u8>().prop_map(SemOp::Cancel).boxed()),
        ])
    };
    (
        vec![
            Sub::new(
                "history",
                (200_000, 40),
                move || (any::<bool>(), any::<u8>(), prop::collection::vec(op(), 1..30)).prop_map(|(owned, permits, ops)| SemCase { owned, permits, ops }).boxed(),
                run,
            )
            .hang_violates(Duration::from_secs(100))
            .boxed(),
            Sub::new(
                "parallel",
                (2_000, 30),
                || {
                    (any::<bool>(), any::<u8>(), prop::collection::vec(prop::collection::vec((any::<u8>(), any::<u8>()), 1..12), 2..10), prop::collection::vec(any::<u8>(), 0..4))
                        .prop_map(|(owned, permits, clients, kills)| ParCase { owned, permits, clients, kills })
                        .boxed()
                },
                run_par,
            )
            .threads(4)
            .shrink(100)
            .boxed(),
        ],
        "history: non-trivial when at least two of these happened: waiters queued, a many-acquire granted, try_acquire succeeded/failed/failed behind a queue, a waiter cancelled or killed, a holder died; parallel: non-trivial when more than three acquires waited.",
        vec![],
    )
}

//! C25: tasks against a model in virtual time.
use crate::prop::*;
use hydra::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::time::Instant;

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum TaskOp {
    Spawn { blocking: bool, delay: u8, end: u8, sends: u8 },
    Await(u8),
    AwaitMany(Vec<u8>),
    Shutdown(u8),
    Drop(u8),
    Advance(u8),
    /// Several handles are awaited by another task each, results come in any order.
    Poll(u8),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct TaskCase {
    ops: Vec<TaskOp>,
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct FromTask {
    task: u32,
    n: u32,
}

type V = (u32, String, Vec<u8>);

fn value(id: u32) -> V {
    (id, format!("value of {id}"), vec![id as u8; id as usize % 5])
}

fn finish(id: u32, end: u8) -> V {
    match end % 5 {
        0 => std::panic::panic_any(format!("task panic <{id}>")),
        1 => {
            if id % 2 == 0 {
                panic!("static task panic")
            } else {
                std::panic::panic_any(id)
            }
        }
        _ => value(id),
    }
}

struct Spec {
    blocking: bool,
    /// When it finishes.
    at: u64,
    end: u8,
    sends: u32,
    /// The instant it was stopped, if it was.
    stopped: Option<u64>,
    handle: Option<TaskHandle<V>>,
}

fn run(case: &TaskCase) -> Outcome {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).max_blocking_threads(3).build().unwrap();
    let case = case.clone();
    rt.block_on(async move {
        let (tx, rx) = tokio::sync::oneshot::channel();
        let pid = Process::spawn(async move {
            let _ = tx.send(Outcome::from(spawner(&case).await));
        });
        match rx.await {
            Ok(o) => o,
            Err(_) => Outcome::fail(format!("the process that spawned the tasks died ({pid:?})")),
        }
    })
}

async fn many(mut hs: Vec<TaskHandle<V>>) -> Result<Vec<V>, TaskError> {
    macro_rules! go {
        ($($n:literal)*) => {
            match hs.len() {
                $($n => {
                    let a: [TaskHandle<V>; $n] = std::mem::take(&mut hs).try_into().ok().unwrap();
                    Task::await_many(a).await
                })*
                _ => unreachable!(),
            }
        };
    }
    go!(0 1 2 3 4 5)
}

async fn spawner(case: &TaskCase) -> Result<Outcome, String> {
    let me = Process::current();
    let t0 = Instant::now();
    let now = || t0.elapsed().as_millis() as u64;
    let mut specs: Vec<Spec> = Vec::new();
    // Which parts of the body ran.
    let ran: Arc<Mutex<BTreeMap<u32, Vec<u32>>>> = Default::default();
    let mut cls: Vec<&'static str> = Vec::new();
    let check = |s: &Spec, id: usize, r: &Result<V, TaskError>| -> Result<(), String> {
        let want_ok = s.end % 5 >= 2;
        match r {
            Ok(v) if want_ok && *v == value(id as u32) => Ok(()),
            Err(_) if !want_ok => Ok(()),
            r => Err(format!("task {id} (end {}) gave {r:?}", s.end % 5)),
        }
    };
    for (i, op) in case.ops.iter().enumerate() {
        if now() % 2 == 1 {
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
        let open: Vec<usize> = (0..specs.len()).filter(|k| specs[*k].handle.is_some()).collect();
        let at = |e: String| format!("operation {i} {op:?}: {e}");
        match op {
            TaskOp::Spawn { blocking, delay, end, sends } => {
                if specs.len() >= 16 {
                    continue;
                }
                let id = specs.len() as u32;
                let delay = if *blocking { 0 } else if delay % 5 == 0 { 0 } else { (*delay as u64 % 60) | 1 };
                let (end, sends) = (*end, *sends as u32 % 4);
                let ran = ran.clone();
                let handle = if *blocking {
                    Task::spawn_blocking(move || {
                        if end % 3 == 0 {
                            std::thread::sleep(Duration::from_micros(200));
                        }
                        for n in 0..sends {
                            Process::send(me, FromTask { task: id, n });
                        }
                        ran.lock().unwrap().entry(id).or_default().push(0);
                        finish(id, end)
                    })
                } else {
                    Task::spawn(async move {
                        ran.lock().unwrap().entry(id).or_default().push(0);
                        for n in 0..sends {
                            if n == sends / 2 && delay > 0 {
                                tokio::time::sleep(Duration::from_millis(delay)).await;
                            }
                            Process::send(me, FromTask { task: id, n });
                        }
                        if sends == 0 && delay > 0 {
                            tokio::time::sleep(Duration::from_millis(delay)).await;
                        }
                        ran.lock().unwrap().entry(id).or_default().push(1);
                        finish(id, end)
                    })
                };
                if *blocking {
                    cls.push("blocking");
                }
                if end % 5 < 2 {
                    cls.push("panics");
                }
                specs.push(Spec { blocking: *blocking, at: now() + delay, end, sends, stopped: None, handle: Some(handle) });
            }
            TaskOp::Await(k) => {
                if open.is_empty() {
                    continue;
                }
                let id = open[*k as usize % open.len()];
                let h = specs[id].handle.take().unwrap();
                let start = now();
                let r = h.await;
                check(&specs[id], id, &r).map_err(at)?;
                let want = specs[id].at.max(start);
                if !specs[id].blocking && now() != want {
                    return Err(at(format!("task {id} was awaited until {} instead of {want}", now())));
                }
            }
            TaskOp::Poll(k) => {
                if open.is_empty() {
                    continue;
                }
                // Awaited with a timeout first, then for good.
                let id = open[*k as usize % open.len()];
                let mut h = specs[id].handle.take().unwrap();
                let start = now();
                let first = tokio::time::timeout(Duration::from_millis(20), &mut h).await;
                let early = specs[id].blocking || specs[id].at < start + 20;
                let r = match first {
                    Ok(r) => {
                        if !early {
                            return Err(at(format!("task {id} finished before its time")));
                        }
                        r
                    }
                    Err(_) => {
                        if early && !specs[id].blocking {
                            return Err(at(format!("task {id} did not finish in time")));
                        }
                        cls.push("polled_twice");
                        h.await
                    }
                };
                check(&specs[id], id, &r).map_err(at)?;
            }
            TaskOp::AwaitMany(ks) => {
                let mut ids: Vec<usize> = Vec::new();
                for k in ks {
                    if open.is_empty() {
                        break;
                    }
                    let id = open[*k as usize % open.len()];
                    if !ids.contains(&id) && ids.len() < 5 {
                        ids.push(id);
                    }
                }
                let hs: Vec<TaskHandle<V>> = ids.iter().map(|id| specs[*id].handle.take().unwrap()).collect();
                let start = now();
                let r = many(hs).await;
                if ids.len() > 1 {
                    cls.push("await_many");
                }
                let bad = ids.iter().position(|id| specs[*id].end % 5 < 2);
                let upto = bad.map(|b| b + 1).unwrap_or(ids.len());
                let want = ids[..upto].iter().map(|id| specs[*id].at).max().unwrap_or(0).max(start);
                match (bad, r) {
                    (None, Ok(v)) => {
                        let w: Vec<V> = ids.iter().map(|id| value(*id as u32)).collect();
                        if v != w {
                            return Err(at(format!("await_many gave {v:?} instead of {w:?}")));
                        }
                    }
                    (Some(b), Err(TaskError(text))) => {
                        for (j, id) in ids.iter().enumerate() {
                            if j != b && text.contains(&format!("<{id}>")) {
                                return Err(at(format!("await_many of {ids:?} gave the error of task {id}, the first is that of {}", ids[b])));
                            }
                        }
                        if ids.len() > 1 {
                            cls.push("await_many_error");
                        }
                    }
                    (b, r) => return Err(at(format!("await_many of {ids:?}, first failing {b:?}, gave {r:?}"))),
                }
                if ids.iter().all(|id| !specs[*id].blocking) && now() != want {
                    return Err(at(format!("await_many of {ids:?} returned at {} instead of {want}", now())));
                }
            }
            TaskOp::Shutdown(k) => {
                if open.is_empty() {
                    continue;
                }
                let id = open[*k as usize % open.len()];
                let h = specs[id].handle.take().unwrap();
                let start = now();
                let finished = ran.lock().unwrap().get(&(id as u32)).is_some_and(|r| r.contains(&1));
                let r = Task::shutdown(h).await;
                if specs[id].blocking {
                    let body = ran.lock().unwrap().get(&(id as u32)).map(|r| r.len()).unwrap_or(0);
                    match (&r, body) {
                        // Not started yet.
                        (Err(_), 0) => {
                            specs[id].stopped = Some(0);
                            cls.push("stopped_blocking");
                        }
                        _ => check(&specs[id], id, &r).map_err(at)?,
                    }
                } else if finished {
                    cls.push("shutdown_finished");
                    check(&specs[id], id, &r).map_err(at)?;
                } else {
                    if let Ok(v) = &r {
                        return Err(at(format!("task {id} was not finished, shutdown returned {v:?}")));
                    }
                    cls.push("shutdown_pending");
                    specs[id].stopped = Some(start);
                }
                if !specs[id].blocking && now() != start {
                    return Err(at(format!("shutdown took {} ms", now() - start)));
                }
            }
            TaskOp::Drop(k) => {
                if open.is_empty() {
                    continue;
                }
                // A dropped handle neither stops nor disturbs anything else.
                let id = open[*k as usize % open.len()];
                specs[id].handle = None;
            }
            TaskOp::Advance(ms) => tokio::time::sleep(Duration::from_millis((*ms as u64 % 50) & !1)).await,
        }
    }
    // Everything that was not stopped finishes.
    for s in specs.iter_mut() {
        if let Some(h) = s.handle.take() {
            let _ = h.await;
        }
    }
    tokio::time::sleep(Duration::from_millis(200)).await;
    let ran = ran.lock().unwrap().clone();
    let mut want: BTreeMap<u32, Vec<u32>> = BTreeMap::new();
    for (id, s) in specs.iter().enumerate() {
        let r = ran.get(&(id as u32)).cloned().unwrap_or_default();
        let body: Vec<u32> = if s.blocking { vec![0] } else { vec![0, 1] };
        match s.stopped {
            None if r != body => return Err(format!("task {id} ran the parts {r:?} of its body instead of all of it")),
            Some(_) if r.contains(&1) || (s.blocking && !r.is_empty()) => return Err(format!("task {id} went on after it was shut down")),
            _ => {}
        }
        let sent = match s.stopped {
            None => s.sends,
            // Only what it sent before it slept.
            Some(_) if s.blocking || r.is_empty() => 0,
            Some(_) => s.sends / 2,
        };
        if sent > 0 {
            want.insert(id as u32, (0..sent).collect());
            cls.push("messages");
        }
    }
    let mut got: BTreeMap<u32, Vec<u32>> = BTreeMap::new();
    loop {
        let r = tokio::time::timeout(Duration::from_millis(4), Process::receiver().for_message::<FromTask>().strict_type_checking().receive()).await;
        match r {
            Ok(Message::User(m)) => got.entry(m.task).or_default().push(m.n),
            Ok(Message::System(s)) => return Err(format!("the spawner received {s:?}")),
            Err(_) => break,
        }
    }
    if got != want {
        return Err(format!("the messages of the tasks are {got:?} instead of {want:?}"));
    }
    if !Process::alive(me) {
        return Err("the spawner is not alive".into());
    }
    cls.sort();
    cls.dedup();
    let mut o = Outcome::ok(cls.len() >= 3);
    o.classes = cls;
    Ok(o)
}

pub fn subs() -> (Vec<Box<dyn DynSub>>, &'static str, Vec<&'static str>) {
    let op = || {
        weighted(vec![
            (
                8,
                (prop::bool::weighted(0.2), any::<u8>(), any::<u8>(), any::<u8>())
                    .prop_map(|(blocking, delay, end, sends)| TaskOp::Spawn { blocking, delay, end, sends })
                    .boxed(),
            ),
            (3, any::<u8>().prop_map(TaskOp::Await).boxed()),
            (1, any::<u8>().prop_map(TaskOp::Poll).boxed()),
            (2, prop::collection::vec(any::<u8>(), 0..6).prop_map(TaskOp::AwaitMany).boxed()),
            (3, any::<u8>().prop_map(TaskOp::Shutdown).boxed()),
            (1, any::<u8>().prop_map(TaskOp::Drop).boxed()),
            (3, any::<u8>().prop_map(TaskOp::Advance).boxed()),
        ])
    };
    (
        vec![
            Sub::new("history", (200_000, 40), move || prop::collection::vec(op(), 1..30).prop_map(|ops| TaskCase { ops }).boxed(), run)
                .hang_violates(Duration::from_secs(100))
                .boxed(),
        ],
        "A generated history of spawns (asynchronous, blocking, panicking, sending), awaits, awaits of many, shutdowns and drops; non-trivial when at least three of the counted behaviours occurred.",
        vec!["tokio's paused clock"],
    )
}

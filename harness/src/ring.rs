//! C17: the consistent hash ring against relations that any consistent hashing must satisfy.
use crate::prop::*;
use hydra::HashRing;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum RingOp {
    Add(u8),
    Remove(u8),
    AddMany(Vec<u8>),
    Set(Vec<u8>),
    Override(u8),
    OverrideMany(Vec<u8>),
    SetOverrides(Vec<u8>),
    RemoveOverride(u8),
    Clear,
    /// Reach the same content by another history.
    Rebuild(Vec<u8>),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct RingCase {
    kind: u8,
    ops: Vec<RingOp>,
}

const NODES: u8 = 10;
const KEYS: u16 = 24;

/// Keys of different types: plain numbers, strings, pairs.
fn key_of(kind: u8, k: u16) -> String {
    match kind % 3 {
        0 => format!("{k}"),
        1 => "x".repeat(k as usize),
        _ => format!("node-{k}@127.0.0.1"),
    }
}

/// The value stored for a node or override: which key it was stored for and in which version.
type V = (bool, u16, u32);

struct Api {
    ring: HashRing<V>,
    kind: u8,
}
impl Api {
    fn with<R>(&self, k: u16, f: impl FnOnce(&HashRing<V>, &str) -> R) -> R {
        f(&self.ring, &key_of(self.kind, k))
    }
    fn find(&self, k: u16) -> Result<Option<V>, String> {
        let s = key_of(self.kind, k);
        // The numeric kind uses the number itself as the key.
        let (a, b, c) = if self.kind % 3 == 0 {
            let mut m = None;
            let mut n = 0;
            self.ring.map_node(k, |v| {
                m = v.copied();
                n += 1;
            });
            (self.ring.find_node(k), m, n)
        } else {
            let mut m = None;
            let mut n = 0;
            self.ring.map_node(&s, |v| {
                m = v.copied();
                n += 1;
            });
            (self.ring.find_node(s.as_str()), m, n)
        };
        if a != b || c != 1 {
            return Err(format!("find_node gives {a:?}, map_node {b:?} ({c} calls)"));
        }
        Ok(a)
    }
    fn add(&self, k: u16, v: V) -> Option<V> {
        if self.kind % 3 == 0 { self.ring.add_node(k, v) } else { self.with(k, |r, s| r.add_node(s, v)) }
    }
    fn remove(&self, k: u16) -> Option<V> {
        if self.kind % 3 == 0 { self.ring.remove_node(k) } else { self.with(k, |r, s| r.remove_node(s.to_string())) }
    }
    fn add_override(&self, k: u16, v: V) -> Option<V> {
        if self.kind % 3 == 0 { self.ring.add_override(k, v) } else { self.with(k, |r, s| r.add_override(s, v)) }
    }
    fn remove_override(&self, k: u16) -> Option<V> {
        if self.kind % 3 == 0 { self.ring.remove_override(k) } else { self.with(k, |r, s| r.remove_override(s)) }
    }
    fn many(&self, what: u8, list: &[(u16, V)]) {
        macro_rules! go {
            ($it:expr) => {
                match what {
                    0 => self.ring.add_nodes($it),
                    1 => self.ring.set_nodes($it),
                    2 => self.ring.add_overrides($it),
                    _ => self.ring.set_overrides($it),
                }
            };
        }
        if self.kind % 3 == 0 {
            go!(list.iter().map(|(k, v)| (*k, *v)))
        } else {
            go!(list.iter().map(|(k, v)| (key_of(self.kind, *k), *v)).collect::<Vec<_>>())
        }
    }
    /// Which node key answers each key, by the ring without overrides.
    fn owners(&self, nodes: &BTreeMap<u16, V>, over: &BTreeMap<u16, V>) -> Result<Vec<Option<u16>>, String> {
        (0..KEYS)
            .map(|k| {
                let got = self.find(k)?;
                if let Some(o) = over.get(&k) {
                    if got != Some(*o) {
                        return Err(format!("key {k} resolves to {got:?} instead of its override {o:?}"));
                    }
                    return Ok(None);
                }
                match got {
                    None if nodes.is_empty() => Ok(None),
                    Some(v @ (false, n, _)) if nodes.get(&n) == Some(&v) => {
                        if nodes.contains_key(&k) && n != k {
                            return Err(format!("the key of node {k} resolves to node {n}"));
                        }
                        Ok(Some(n))
                    }
                    other => Err(format!("key {k} resolves to {other:?}, nodes {nodes:?}")),
                }
            })
            .collect()
    }
}

fn run(case: &RingCase) -> Outcome {
    let inner = || -> Result<Outcome, String> {
        let api = Api { ring: if case.kind & 4 == 0 { HashRing::new() } else { HashRing::default() }, kind: case.kind };
        let mut nodes: BTreeMap<u16, V> = BTreeMap::new();
        let mut over: BTreeMap<u16, V> = BTreeMap::new();
        let mut version = 0u32;
        // The owner of a key by node set must not depend on the history.
        let mut memo: BTreeMap<Vec<u16>, Vec<Option<u16>>> = BTreeMap::new();
        let mut before: Vec<Option<u16>> = vec![None; KEYS as usize];
        let mut out = Outcome::default();
        let mut moved = 0;
        for (i, op) in case.ops.iter().enumerate() {
            let old_nodes = nodes.clone();
            let old_over = over.clone();
            let at = |e: String| format!("operation {i} {op:?}: {e}");
            version += 1;
            let mut val = |o: bool, k: u16| {
                version += 1;
                (o, k, version)
            };
            let listv = |o: bool, ks: &[u8], m: u8, val: &mut dyn FnMut(bool, u16) -> V| -> Vec<(u16, V)> {
                ks.iter().map(|k| (*k % m) as u16).map(|k| (k, val(o, k))).collect()
            };
            match op {
                RingOp::Add(k) => {
                    let k = (*k % NODES) as u16;
                    let v = val(false, k);
                    let got = api.add(k, v);
                    let want = nodes.insert(k, v);
                    if got != want {
                        return Err(at(format!("returned {got:?} instead of {want:?}")));
                    }
                    if want.is_some() {
                        out.classes.push("replaced_node");
                    }
                }
                RingOp::Remove(k) => {
                    let k = (*k % NODES) as u16;
                    let got = api.remove(k);
                    let want = nodes.remove(&k);
                    if got != want {
                        return Err(at(format!("returned {got:?} instead of {want:?}")));
                    }
                    out.classes.push(if want.is_some() { "removed_node" } else { "removed_unknown" });
                }
                RingOp::AddMany(ks) => {
                    let l = listv(false, ks, NODES, &mut val);
                    api.many(0, &l);
                    nodes.extend(l);
                    out.classes.push("bulk_add");
                }
                RingOp::Set(ks) => {
                    let l = listv(false, ks, NODES, &mut val);
                    api.many(1, &l);
                    nodes = l.into_iter().collect();
                    out.classes.push("bulk_set");
                }
                RingOp::Override(k) => {
                    let k = *k as u16 % KEYS;
                    let v = val(true, k);
                    let got = api.add_override(k, v);
                    let want = over.insert(k, v);
                    if got != want {
                        return Err(at(format!("returned {got:?} instead of {want:?}")));
                    }
                    out.classes.push(if nodes.is_empty() { "override_on_empty_ring" } else { "override" });
                }
                RingOp::OverrideMany(ks) => {
                    let l = listv(true, ks, KEYS as u8, &mut val);
                    api.many(2, &l);
                    over.extend(l);
                    out.classes.push("bulk_override");
                }
                RingOp::SetOverrides(ks) => {
                    let l = listv(true, ks, KEYS as u8, &mut val);
                    api.many(3, &l);
                    over = l.into_iter().collect();
                    out.classes.push("set_overrides");
                }
                RingOp::RemoveOverride(k) => {
                    let k = *k as u16 % KEYS;
                    let got = api.remove_override(k);
                    let want = over.remove(&k);
                    if got != want {
                        return Err(at(format!("returned {got:?} instead of {want:?}")));
                    }
                    out.classes.push(if want.is_some() { "removed_override" } else { "removed_unknown_override" });
                }
                RingOp::Clear => {
                    api.ring.clear();
                    out.classes.push(if over.is_empty() { "clear" } else { "clear_with_overrides" });
                    nodes.clear();
                    over.clear();
                }
                RingOp::Rebuild(perm) => {
                    // Remove and add everything again, in an order given by `perm`.
                    let mut keys: Vec<u16> = nodes.keys().copied().collect();
                    for (j, p) in perm.iter().enumerate() {
                        if keys.len() > 1 {
                            let n = keys.len();
                            keys.swap(j % n, *p as usize % n);
                        }
                    }
                    if perm.len() % 2 == 0 {
                        for k in &keys {
                            api.remove(*k);
                        }
                    } else {
                        api.many(1, &[]);
                    }
                    if keys.len() > 1 {
                        out.classes.push("rebuilt");
                    }
                    for k in keys {
                        api.add(k, nodes[&k]);
                    }
                }
            }
            let after = api.owners(&nodes, &over).map_err(at)?;
            let set: Vec<u16> = nodes.keys().copied().collect();
            let known = memo.entry(set).or_insert_with(|| vec![None; KEYS as usize]);
            for k in 0..KEYS as usize {
                let (b, a) = (before[k], after[k]);
                if let (Some(b), Some(a)) = (b, a) {
                    if a != b {
                        moved += 1;
                        if nodes.contains_key(&b) && old_nodes.contains_key(&a) {
                            return Err(at(format!("key {k} moved from node {b} to node {a}, both were there before and after")));
                        }
                    }
                }
                if let Some(a) = a {
                    match known[k] {
                        Some(x) if x != a => {
                            return Err(at(format!("key {k} belongs to node {a}, with the same nodes it belonged to {x} before")));
                        }
                        _ => known[k] = Some(a),
                    }
                }
            }
            let _ = old_over;
            before = after;
        }
        out.classes.sort();
        out.classes.dedup();
        if moved > 0 {
            out.classes.push("keys_moved");
        }
        out.nontrivial = out.classes.len() >= 3;
        Ok(out)
    };
    inner().into()
}

// ---------------------------------------------------------------- concurrent lookups

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct ConcCase {
    kind: u8,
    ops: Vec<RingOp>,
    readers: u8,
    pairs: Vec<(u8, bool)>,
}

/// One thread changes the ring, others look keys up: every lookup sees a state from before or after a change.
fn run_conc(case: &ConcCase) -> Outcome {
    let api = Api { ring: HashRing::new(), kind: case.kind };
    let (done, step) = (AtomicBool::new(false), AtomicUsize::new(0));
    // The states in order: nodes and overrides.
    let mut states: Vec<(BTreeMap<u16, V>, BTreeMap<u16, V>)> = vec![Default::default()];
    let mut version = 0;
    let mut lists: Vec<Vec<(u16, V)>> = Vec::new();
    for op in &case.ops {
        let (mut n, mut o) = states.last().unwrap().clone();
        let mut list = |over: bool, ks: &[u8], m: u16| -> Vec<(u16, V)> {
            let mut l: Vec<(u16, V)> = Vec::new();
            for k in ks {
                let k = *k as u16 % m;
                version += 1;
                if !l.iter().any(|x| x.0 == k) {
                    l.push((k, (over, k, version)));
                }
            }
            l
        };
        let l = match op {
            RingOp::Add(k) => list(false, &[*k], NODES as u16),
            RingOp::AddMany(ks) | RingOp::Set(ks) => list(false, ks, NODES as u16),
            RingOp::Override(k) => list(true, &[*k], KEYS),
            RingOp::SetOverrides(ks) => list(true, ks, KEYS),
            _ => vec![],
        };
        match op {
            RingOp::Add(_) | RingOp::AddMany(_) => n.extend(l.iter().copied()),
            RingOp::Set(_) => n = l.iter().copied().collect(),
            RingOp::Override(_) => o.extend(l.iter().copied()),
            RingOp::SetOverrides(_) => o = l.iter().copied().collect(),
            RingOp::Remove(k) => {
                n.remove(&(*k as u16 % NODES as u16));
            }
            RingOp::RemoveOverride(k) => {
                o.remove(&(*k as u16 % KEYS));
            }
            RingOp::Clear => {
                n.clear();
                o.clear();
            }
            _ => {}
        }
        lists.push(l);
        states.push((n, o));
    }
    let mut logs: Vec<Vec<(usize, usize, u16, Result<Option<V>, String>)>> = Vec::new();
    std::thread::scope(|s| {
        let handles: Vec<_> = (0..case.readers % 3 + 1)
            .map(|r| {
                let (api, done, step) = (&api, &done, &step);
                s.spawn(move || {
                    let mut log = Vec::new();
                    let mut k = r as u16;
                    while log.len() < 2000 {
                        let from = step.load(Ordering::SeqCst);
                        let end = done.load(Ordering::SeqCst);
                        k = (k * 5 + 7) % KEYS;
                        let got = find_once(api, k);
                        let to = step.load(Ordering::SeqCst);
                        log.push((from, to, k, got));
                        if end {
                            break;
                        }
                    }
                    log
                })
            })
            .collect();
        for (i, op) in case.ops.iter().enumerate() {
            step.store(2 * i + 1, Ordering::SeqCst);
            match op {
                RingOp::Add(k) => {
                    api.add(*k as u16 % NODES as u16, lists[i][0].1);
                }
                RingOp::AddMany(_) => api.many(0, &lists[i]),
                RingOp::Set(_) => api.many(1, &lists[i]),
                RingOp::Override(k) => {
                    api.add_override(*k as u16 % KEYS, lists[i][0].1);
                }
                RingOp::SetOverrides(_) => api.many(3, &lists[i]),
                RingOp::Remove(k) => {
                    api.remove(*k as u16 % NODES as u16);
                }
                RingOp::RemoveOverride(k) => {
                    api.remove_override(*k as u16 % KEYS);
                }
                RingOp::Clear => api.ring.clear(),
                _ => {}
            }
            step.store(2 * i + 2, Ordering::SeqCst);
            for _ in 0..200 {
                std::hint::spin_loop();
            }
        }
        done.store(true, Ordering::SeqCst);
        for h in handles {
            logs.push(h.join().expect("reader"));
        }
    });
    // The owners by state, from the ring itself, sequentially.
    let mut tables: Vec<Vec<Option<V>>> = Vec::new();
    for (n, o) in &states {
        api.many(3, &[]);
        let l: Vec<(u16, V)> = n.iter().map(|(k, v)| (*k, *v)).collect();
        api.many(1, &l);
        tables.push((0..KEYS).map(|k| o.get(&k).copied().or_else(|| find_once(&api, k).unwrap())).collect());
    }
    let mut overlapped = 0u32;
    for (from, to, k, got) in logs.into_iter().flatten() {
        let got = match got {
            Ok(g) => g,
            Err(e) => return Outcome::fail(e),
        };
        // Step 2i+1: change i is under way; 2i+2: it is complete.
        let (lo, hi) = (from / 2, to.div_ceil(2));
        if hi > lo {
            overlapped += 1;
        }
        let k = k as usize;
        // The state of the nodes and that of the overrides are two reads, each atomic: within one change they are the same.
        let ok = (lo..=hi).any(|s| tables[s][k] == got);
        if !ok && hi - lo <= 1 {
            return Outcome::fail(format!(
                "a lookup of key {k} during change {lo} ({:?}) gave {got:?}, before the change it is {:?}, after it {:?}",
                case.ops.get(lo), tables[lo][k], tables[hi][k]
            ));
        }
    }
    // Writers of different keys do not lose each other's changes.
    api.ring.clear();
    let want: [BTreeMap<u16, V>; 2] = std::array::from_fn(|w| {
        let mut m = BTreeMap::new();
        for (i, (k, add)) in case.pairs.iter().enumerate() {
            let k = (*k as u16 % 5) * 2 + w as u16;
            if *add {
                m.insert(k, (false, k, i as u32));
            } else {
                m.remove(&k);
            }
        }
        m
    });
    std::thread::scope(|s| {
        for w in 0..2u16 {
            let (api, pairs) = (&api, &case.pairs);
            s.spawn(move || {
                for (i, (k, add)) in pairs.iter().enumerate() {
                    let k = (*k as u16 % 5) * 2 + w;
                    if *add {
                        if i % 3 == 0 { api.many(0, &[(k, (false, k, i as u32))]) } else { api.add(k, (false, k, i as u32)); }
                    } else {
                        api.remove(k);
                    }
                }
            });
        }
    });
    let all: BTreeMap<u16, V> = want.iter().flatten().map(|(k, v)| (*k, *v)).collect();
    if let Err(e) = api.owners(&all, &BTreeMap::new()) {
        return Outcome::fail(format!("after two threads changed different nodes: {e}"));
    }
    for k in 0..NODES as u16 {
        let own = find_once(&api, k).unwrap();
        if all.contains_key(&k) && own != all.get(&k).copied() {
            return Outcome::fail(format!("after two threads changed different nodes: node {k} is {own:?} instead of {:?}", all.get(&k)));
        }
    }
    let mut out = Outcome::ok(overlapped > 0);
    if overlapped > 0 {
        out.classes.push("lookup_overlaps_change");
    }
    out
}

fn find_once(api: &Api, k: u16) -> Result<Option<V>, String> {
    Ok(if api.kind % 3 == 0 { api.ring.find_node(k) } else { api.ring.find_node(key_of(api.kind, k)) })
}

fn ops(conc: bool) -> BoxedStrategy<RingOp> {
    let many = || prop::collection::vec(any::<u8>(), 0..6);
    weighted(vec![
        (6, any::<u8>().prop_map(RingOp::Add).boxed()),
        (3, any::<u8>().prop_map(RingOp::Remove).boxed()),
        (2, many().prop_map(RingOp::AddMany).boxed()),
        (2, many().prop_map(RingOp::Set).boxed()),
        (3, any::<u8>().prop_map(RingOp::Override).boxed()),
        (if conc { 0 } else { 1 }, many().prop_map(RingOp::OverrideMany).boxed()),
        (2, many().prop_map(RingOp::SetOverrides).boxed()),
        (2, any::<u8>().prop_map(RingOp::RemoveOverride).boxed()),
        (1, Just(RingOp::Clear).boxed()),
        (if conc { 0 } else { 2 }, many().prop_map(RingOp::Rebuild).boxed()),
    ])
}

pub fn subs() -> (Vec<Box<dyn DynSub>>, &'static str, Vec<&'static str>) {
    (
        vec![
            Sub::new(
                "history",
                (60_000, 30),
                || (any::<u8>(), prop::collection::vec(ops(false), 1..40)).prop_map(|(kind, ops)| RingCase { kind, ops }).boxed(),
                run,
            )
            .boxed(),
            Sub::new(
                "concurrent",
                (8_000, 30),
                || {
                    (any::<u8>(), prop::collection::vec(ops(true), 1..30), any::<u8>(), prop::collection::vec((any::<u8>(), any::<bool>()), 0..40))
                        .prop_map(|(kind, ops, readers, pairs)| ConcCase { kind, ops, readers, pairs })
                        .boxed()
                },
                run_conc,
            )
            .threads(3)
            .shrink(200)
            .boxed(),
        ],
        "history: non-trivial when at least three different kinds of change (replace, remove, bulk, override, clear, rebuild in another order, keys moved) happened; concurrent: non-trivial when at least one lookup overlapped a change.",
        vec!["keys with equal 64-bit hashes do not occur"],
    )
}

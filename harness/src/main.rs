mod agent;
mod beats;
mod cluster;
mod codec;
mod gen_server;
mod local;
mod peer;
mod prop;
mod reg;
mod ring;
mod sem;
mod serving;
mod stress;
mod sup;
mod task;
mod ws;

use prop::*;
use serde_json::{Value, json};
use std::path::PathBuf;
use std::time::Instant;

pub fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

static CHILDREN: std::sync::Mutex<Vec<u32>> = std::sync::Mutex::new(Vec::new());

/// Remembers a child process so that it is ended with us.
#[allow(dead_code)]
pub fn track_child(pid: u32) {
    CHILDREN.lock().unwrap().push(pid);
}
#[allow(dead_code)]
pub fn untrack_child(pid: u32) {
    CHILDREN.lock().unwrap().retain(|p| *p != pid);
}
pub fn kill_children() {
    for pid in CHILDREN.lock().unwrap().drain(..) {
        let _ = std::process::Command::new("kill").arg("-9").arg(pid.to_string()).status();
    }
}

type Subs = Vec<Box<dyn DynSub>>;

/// The checks: sub-checks, the rule that makes a case non-trivial, and the assumptions.
fn subs(id: &str) -> Option<(Subs, &'static str, Vec<&'static str>)> {
    Some(match id {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C08" | "C09" => local::subs(id),
        "C10" | "C11" => gen_server::subs(id),
        "C12" | "C13" | "C14" | "C15" => sup::subs(id),
        "C16" => reg::subs(),
        "C17" => ring::subs(),
        "C18" => codec::subs(),
        "C19" => peer::subs(id),
        "C20" | "C21" | "C22" => cluster::subs(id),
        "C27" => ws::subs(),
        "C28" => beats::subs(),
        "C24" => sem::subs(),
        "C25" => task::subs(),
        "C29" => stress::subs(),
        _ => return None,
    })
}

fn known_findings(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix(&format!("finding: property={id} key=")))
        .filter_map(|l| l.split_once(' '))
        .map(|(k, d)| (k.to_string(), d.to_string()))
        .collect()
}

fn check(id: &str, tier: Tier, seed: u64, only: Option<&str>) -> i32 {
    let start = Instant::now();
    let Some((subs, rule, assumptions)) = subs(id) else {
        eprintln!("no check for {id}");
        return 2;
    };
    let ctx = Ctx { id: id.to_string(), tier, seed };
    let mut rep = Report::default();
    for sub in subs {
        if only.is_some_and(|o| o != sub.name()) {
            continue;
        }
        let t = Instant::now();
        sub.run(&ctx, &mut rep);
        eprintln!("{id} {}: {} cases, {:.1}s", sub.name(), rep.subs.get(&sub.name()).unwrap_or(&0), t.elapsed().as_secs_f64());
    }
    let known = known_findings(id);
    let mut unlisted = None;
    for f in &rep.findings {
        if let Some((k, d)) = known.iter().find(|(k, _)| k == f) {
            println!("KNOWN-FINDING: property={id} {k}: {d}");
        } else {
            unlisted = Some(f.clone());
        }
    }
    if rep.violation.is_none() {
        if let Some(f) = unlisted {
            rep.violation = Some(Violation { sub: "finding".into(), case: json!({"key": f}), message: format!("deviation {f} is not a listed finding") });
        }
    }
    let evidence = json!({
        "property": id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": rep.evaluations,
            "distinct_nontrivial": rep.nontrivial.len(),
            "rule": rule,
            "samples": rep.samples,
            "classes": rep.classes,
            "cases_per_generator": rep.subs,
            "inconclusive": rep.inconclusive,
            "known_findings_seen": rep.findings,
        },
        "assumptions": assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": if rep.violation.is_some() { 1 } else { 0 },
    });
    let dir = verif_dir().join("evidence");
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&evidence).unwrap()).unwrap();
    if let Some(v) = &rep.violation {
        report_violation(&ctx, v);
    }
    kill_children();
    println!("{id}: held on {} cases ({} distinct non-trivial), {:.1}s", rep.evaluations, rep.nontrivial.len(), start.elapsed().as_secs_f64());
    0
}

fn main() {
    if std::env::var("HV_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let args: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("agent") => agent::main(),
        Some("check") => {
            let tier = match args.get(3).map(|s| s.as_str()).unwrap_or("quick") {
                "thorough" => Tier::Thorough,
                _ => Tier::Quick,
            };
            check(&args[2], tier, seed, args.get(4).map(|s| s.as_str()))
        }
        Some("replay") => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            let id = v["property"].as_str().unwrap();
            let (subs, _, _) = subs(id).expect("property");
            let sub = subs.into_iter().find(|s| s.name() == v["sub"].as_str().unwrap()).expect("sub-check");
            let out = sub.replay(v["case"].clone());
            kill_children();
            match out.failure {
                Some(f) => {
                    println!("{f}");
                    println!("VIOLATION property={id} replay={}", args[2]);
                    1
                }
                None => {
                    println!("{id}: replay passes");
                    0
                }
            }
        }
        _ => {
            eprintln!("usage: hydra-verif check <ID> <quick|thorough> [sub] | replay <file>");
            2
        }
    };
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}

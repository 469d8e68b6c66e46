//! dmiverif check <property> <quick|thorough> <seed> <verif dir>
//! dmiverif replay <file>
//! Others are for its own use: worker, isolate, serve; dump-enums and
//! dump-layouts draft the tables.

use dmiverif::checks;
use dmiverif::run::{self, Mode, Part, Progress, DONE, SHARDS};
use serde_json::{json, Value};
use std::process::{exit, Command};
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    match a[1..] {
        ["check", prop, tier, seed, dir] => {
            check(prop, tier == "thorough", seed.parse().unwrap_or(1), dir)
        }
        ["worker", prop, tier, seed, progress, out, guided] => worker(
            prop,
            tier == "thorough",
            seed,
            progress,
            out,
            guided == "guided",
        ),
        ["isolate", prop, tier, seed, part, shard, from, out] => {
            run::quiet_panics();
            let parts = checks::parts(prop);
            let mode = Mode {
                seed: seed.parse().unwrap(),
                thorough: tier == "thorough",
                isolate_from: Some(from.parse().unwrap()),
            };
            let p: usize = part.parse().unwrap();
            let (_, f) = (parts[p].shard)(prop, shard.parse().unwrap(), mode, &|_| {});
            let v = f
                .map(|f| json!({"case": f.case, "message": f.message}))
                .unwrap_or(Value::Null);
            std::fs::write(out, v.to_string()).unwrap();
        }
        ["replay", file] => {
            run::quiet_panics();
            let v: Value =
                serde_json::from_str(&std::fs::read_to_string(file).expect("replay file"))
                    .expect("replay file");
            let prop = v["property"].as_str().expect("property");
            let parts = checks::parts(prop);
            let part = parts
                .iter()
                .find(|p| Some(p.name) == v["part"].as_str())
                .expect("part");
            match (part.replay)(&v["case"]) {
                Ok(()) => println!("property {prop} holds on this case"),
                Err(m) => {
                    println!("{m}");
                    println!("VIOLATION property={prop} replay={file}");
                    exit(1);
                }
            }
        }
        ["serve"] => {
            run::quiet_panics();
            checks::config::serve()
        }
        ["dump-enums"] => {
            for en in dmiverif::enums::all() {
                for c in 0..=en.max {
                    let (a, b, l) = (en.conv)(c);
                    println!("{}\t{c:X}\t{a}\t{b}\t{l}", en.name);
                }
            }
        }
        ["dump-layouts"] => checks::bits::dump(),
        ["parts"] => {
            for id in checks::ids() {
                for p in checks::parts(id) {
                    println!("{id}\t{}\t{}", p.name, p.rule);
                }
            }
        }
        _ => {
            eprintln!(
                "usage: dmiverif check <property> <quick|thorough> <seed> <dir> | replay <file>"
            );
            exit(2);
        }
    }
}

fn worker(prop: &str, thorough: bool, seed: &str, progress: &str, out: &str, guided: bool) {
    run::quiet_panics();
    run::limit_memory();
    let parts = checks::parts(prop);
    let progress = Progress::open(progress, parts.len() * SHARDS as usize);
    let mode = Mode {
        seed: seed.parse().unwrap(),
        thorough,
        isolate_from: None,
    };
    let o = run::run_all(prop, &parts, guided, mode, &progress);
    std::fs::write(out, run::outcome_json(&parts, guided, &o).to_string()).unwrap();
}

/// Nothing shows life for this long: look at it in a process of its own.
const STALL: Duration = Duration::from_secs(90);
fn patience(part: &str) -> Duration {
    if part.contains(run::SLOW) {
        STALL * 3
    } else {
        STALL
    }
}

/// Run the worker; its outcome, or the (part, shard, index) it was at.
fn supervise(
    me: &Build,
    prop: &str,
    thorough: bool,
    seed: u64,
    parts: &[Part],
    tmp: &str,
) -> Result<Value, Vec<(usize, u64, u64)>> {
    let (pf, of) = (format!("{tmp}/progress"), format!("{tmp}/out"));
    let _ = std::fs::remove_file(&pf);
    let _ = std::fs::remove_file(&of);
    let progress = Progress::open(&pf, parts.len() * SHARDS as usize);
    let mut child = Command::new(&me.path)
        .args([
            "worker",
            prop,
            if thorough { "thorough" } else { "quick" },
            &seed.to_string(),
            &pf,
            &of,
        ])
        .arg(if me.guided { "guided" } else { "plain" })
        .spawn()
        .expect("worker");
    let mut seen: Vec<(u64, Instant)> = vec![(0, Instant::now()); progress.len];
    let mut stalled = false;
    loop {
        match child.try_wait().expect("worker") {
            Some(st) => {
                if st.success() && !stalled {
                    let s = std::fs::read_to_string(&of).expect("worker output");
                    return Ok(serde_json::from_str(&s).expect("worker output"));
                }
                break;
            }
            None => std::thread::sleep(Duration::from_millis(20)),
        }
        for (i, (v, at)) in seen.iter_mut().enumerate() {
            let now = progress.cell(i).load(Ordering::SeqCst);
            if now != *v {
                (*v, *at) = (now, Instant::now());
            } else if now != 0
                && now != DONE
                && at.elapsed() > patience(parts[i / SHARDS as usize].name)
                && !stalled
            {
                stalled = true;
                let _ = child.kill();
            }
        }
    }
    let mut at = vec![];
    for i in 0..progress.len {
        let v = progress.cell(i).load(Ordering::SeqCst);
        if v != 0 && v != DONE {
            let idx = (v & 0xFF_FFFF_FFFF) - 1;
            at.push((i / SHARDS as usize, i as u64 % SHARDS, idx));
        }
    }
    Err(at)
}

/// This program, and the same with the code under test reporting what it does.
struct Build {
    path: std::path::PathBuf,
    guided: bool,
}
fn builds(parts: &[Part]) -> Vec<Build> {
    let me = std::env::current_exe().unwrap();
    let mut v = vec![];
    if parts.iter().any(|p| !p.guided) {
        v.push(Build {
            path: me.clone(),
            guided: false,
        });
    }
    if parts.iter().any(|p| p.guided) {
        let beside = || {
            me.ancestors()
                .nth(2)
                .expect("target folder")
                .join("guided/dmiverif")
        };
        let path = std::env::var_os("DMIVERIF_GUIDED").map_or_else(beside, |p| p.into());
        v.push(Build { path, guided: true });
    }
    v
}

type Found = (String, Value, String);

/// Outcomes of the parts a build runs; or the case that ends it abruptly.
fn outcome(
    build: &Build,
    prop: &str,
    thorough: bool,
    seed: u64,
    parts: &[Part],
    tmp: &str,
) -> Result<Vec<Value>, Option<Found>> {
    let tier = if thorough { "thorough" } else { "quick" };
    for _ in 0..3 {
        match supervise(build, prop, thorough, seed, parts, tmp) {
            Ok(v) => return Ok(v.as_array().cloned().unwrap_or_default()),
            Err(at) => {
                let of = format!("{tmp}/isolated");
                for (p, s, i) in at {
                    let _ = std::fs::remove_file(&of);
                    let _ = Command::new(&build.path)
                        .args(["isolate", prop, tier, &seed.to_string()])
                        .args([p.to_string(), s.to_string(), i.to_string(), of.clone()])
                        .status();
                    let v: Value = std::fs::read_to_string(&of)
                        .ok()
                        .and_then(|s| serde_json::from_str(&s).ok())
                        .unwrap_or(Value::Null);
                    if v["case"] != Value::Null {
                        return Err(Some((
                            parts[p].name.to_string(),
                            v["case"].clone(),
                            v["message"].as_str().unwrap().to_string(),
                        )));
                    }
                }
            }
        }
    }
    Err(None)
}

fn check(prop: &str, thorough: bool, seed: u64, dir: &str) {
    let start = Instant::now();
    let parts = checks::parts(prop);
    let tier = if thorough { "thorough" } else { "quick" };
    let tmp = format!("{dir}/target/run-{prop}-{}", std::process::id());
    std::fs::create_dir_all(&tmp).expect("scratch directory");
    let mut found: Vec<Found> = vec![];
    let mut list: Vec<Value> = vec![];
    for build in builds(&parts) {
        // one failure is enough to know
        if !found.is_empty() || list.iter().any(|p| p["failures"] != json!([])) {
            break;
        }
        match outcome(&build, prop, thorough, seed, &parts, &tmp) {
            Ok(v) => list.extend(v),
            Err(Some(f)) => found.push(f),
            Err(None) => {
                let _ = std::fs::remove_dir_all(&tmp);
                eprintln!("the checking process ended abnormally three times, on no case that does so by itself");
                exit(2);
            }
        }
    }
    let _ = std::fs::remove_dir_all(&tmp);
    for p in &list {
        // the smallest of a part's failures
        let mut fs: Vec<&Value> = p["failures"].as_array().unwrap().iter().collect();
        fs.sort_by_key(|f| f["case"].to_string().len());
        if let Some(f) = fs.first() {
            found.push((
                p["part"].as_str().unwrap().into(),
                f["case"].clone(),
                f["message"].as_str().unwrap().into(),
            ));
        }
    }
    let sum = |k: &str| list.iter().map(|p| p[k].as_u64().unwrap_or(0)).sum::<u64>();
    let details: Vec<Value> = list
        .iter()
        .map(|p| {
            let mut p = p.clone();
            let o = p.as_object_mut().unwrap();
            o.remove("failures");
            o.remove("samples");
            p
        })
        .collect();
    let samples: Vec<Value> = list
        .iter()
        .flat_map(|p| {
            let name = p["part"].clone();
            p["samples"]
                .as_array()
                .unwrap()
                .iter()
                .take(2)
                .map(move |s| {
                    let text = s.to_string();
                    let text: String = text.chars().take(1500).collect();
                    json!({"part": name, "case": text})
                })
        })
        .collect();
    let rule = list
        .iter()
        .map(|p| {
            format!(
                "{}: {}",
                p["part"].as_str().unwrap(),
                p["rule"].as_str().unwrap()
            )
        })
        .collect::<Vec<_>>()
        .join(" | ");
    let all_exhaustive = !list.is_empty() && list.iter().all(|p| p["exhaustive"] == true);
    let ev = json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum("evaluations"),
            "distinct_nontrivial": sum("distinct_nontrivial"),
            "rule": rule,
            "samples": samples,
            "exhaustive": all_exhaustive,
            "parts": details,
        },
        "assumptions": checks::assumptions(prop),
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": found.len(),
    });
    std::fs::create_dir_all(format!("{dir}/evidence")).expect("evidence directory");
    std::fs::write(
        format!("{dir}/evidence/{prop}.json"),
        serde_json::to_string_pretty(&ev).unwrap() + "\n",
    )
    .expect("evidence");
    if found.is_empty() {
        println!(
            "{prop}: held on {} cases ({} distinct non-trivial) in {:.1} s",
            sum("evaluations"),
            sum("distinct_nontrivial"),
            start.elapsed().as_secs_f64()
        );
        return;
    }
    std::fs::create_dir_all(format!("{dir}/replay")).expect("replay directory");
    for (part, case, message) in &found {
        let file = format!("{dir}/replay/{prop}-{part}.json");
        let v =
            json!({"property": prop, "part": part, "seed": seed, "message": message, "case": case});
        std::fs::write(&file, serde_json::to_string_pretty(&v).unwrap() + "\n")
            .expect("replay file");
        println!("{prop}/{part}: {message}");
        println!(
            "  case: {}",
            case.to_string().chars().take(2000).collect::<String>()
        );
        println!("VIOLATION property={prop} replay={file}");
    }
    exit(1);
}

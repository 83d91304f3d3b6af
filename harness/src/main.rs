mod chain;
mod clk;
mod eng;
mod gen;
mod imp;
mod props;
#[allow(dead_code)]
mod rj;
mod svc;

use eng::*;
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn verif() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn known_findings(prop: &str) -> Vec<(String, String)> {
    // lines: "KF <id> property=<P> <what fails>"  /  "fixed: property=<P> <commit> <what>"
    let text = std::fs::read_to_string(verif().join("known-findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let mut it = l.splitn(4, ' ');
            if it.next()? != "KF" {
                return None;
            }
            let id = it.next()?.to_string();
            let p = it.next()?.strip_prefix("property=")?.to_string();
            let what = it.next()?.to_string();
            (p == prop).then_some((id, what))
        })
        .collect()
}

fn write_replay(prop: &str, f: &Failure, seed: u64) -> PathBuf {
    let dir = verif().join("scratch/replays");
    let _ = std::fs::create_dir_all(&dir);
    let h = hash_str(&format!("{}{}{:?}", f.sub, f.case, f.choices));
    let p = dir.join(format!("{prop}-{h:016x}.json"));
    let v = json!({"property": prop, "sub": f.sub, "seed": seed, "case": f.case, "message": f.msg, "choices": f.choices});
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap());
    p
}

/// Runs inside a child process: executes the property and prints a JSON result on the last line.
fn worker(args: &Args) -> i32 {
    install_hook();
    clk::install();
    let props = props::all();
    let Some(p) = props.iter().find(|p| p.id == args.prop) else {
        eprintln!("unknown property {}", args.prop);
        return 2;
    };
    let dir = args.progress.clone();
    start_watchdog(Duration::from_secs(180));
    if let Some((sub, case)) = &args.one {
        let s = p.subs.iter().find(|s| s.name == sub).unwrap();
        let mut src = Src::new(case_seed(args.seed, p.id, s.name, *case));
        src.scale = if args.thorough { 3 } else { 1 };
        let mut cov = Cov::default();
        let r = on_big_stack(|| run_case(s.f, &mut src, &mut cov));
        println!("ONE {:?}", r);
        return 0;
    }
    let mut tally = Tally::default();
    let t0 = Instant::now();
    let fail = run_prop(
        p,
        &RunCfg {
            thorough: args.thorough,
            seed: args.seed,
            threads: args.threads,
            deadline: Duration::from_secs(args.deadline),
            progress_dir: dir,
            only_sub: args.only_sub.clone(),
            cases_override: args.cases,
        },
        &mut tally,
    );
    let wall = t0.elapsed().as_secs_f64();
    let samples: Vec<Value> = tally
        .samples
        .iter()
        .map(|s| json!(s.chars().take(1200).collect::<String>()))
        .collect();
    let mut out = json!({
        "evaluations": tally.evals, "cases": tally.cases,
        "distinct_nontrivial": tally.distinct.len(),
        "tags": tally.tags, "samples": samples, "known": tally.known, "per_sub": tally.per_sub,
        "wall_s": wall,
    });
    if let Some(f) = fail {
        let rp = write_replay(p.id, &f, args.seed);
        out["failure"] =
            json!({"sub": f.sub, "case": f.case, "msg": f.msg, "replay": rp.display().to_string()});
    }
    println!("RESULT {}", out);
    0
}

fn on_big_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, f)
            .unwrap()
            .join()
            .unwrap()
    })
}

#[derive(Clone, Default)]
struct Args {
    prop: String,
    thorough: bool,
    seed: u64,
    threads: usize,
    deadline: u64,
    progress: Option<PathBuf>,
    one: Option<(String, u64)>,
    only_sub: Option<String>,
    cases: Option<u64>,
}

fn parse() -> (String, Args) {
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).cloned().unwrap_or_default();
    let mut r = Args {
        prop: a.get(2).cloned().unwrap_or_default(),
        seed: std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1),
        threads: std::thread::available_parallelism()
            .map(|n| n.get())
            .unwrap_or(8)
            .clamp(2, 16),
        ..Default::default()
    };
    let mut i = 3;
    let val = |i: usize| a.get(i + 1).cloned().unwrap_or_default();
    let mut deadline = None;
    while i < a.len() {
        match a[i].as_str() {
            "thorough" => r.thorough = true,
            "quick" => {}
            "--seed" => {
                r.seed = val(i).parse().unwrap();
                i += 1
            }
            "--threads" => {
                r.threads = val(i).parse().unwrap();
                i += 1
            }
            "--progress" => {
                r.progress = Some(val(i).into());
                i += 1
            }
            "--deadline" => {
                deadline = val(i).parse().ok();
                i += 1
            }
            "--sub" => {
                r.only_sub = Some(val(i));
                i += 1
            }
            "--cases" => {
                r.cases = val(i).parse().ok();
                i += 1
            }
            "--one" => {
                r.one = Some((val(i), a[i + 2].parse().unwrap()));
                i += 2
            }
            _ => {}
        }
        i += 1;
    }
    r.deadline = deadline.unwrap_or(if r.thorough { 3000 } else { 300 });
    (cmd, r)
}

fn child(args: &Args, extra: &[String]) -> (Option<i32>, String, String) {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("worker").arg(&args.prop);
    if args.thorough {
        c.arg("thorough");
    }
    c.args([
        "--seed",
        &args.seed.to_string(),
        "--threads",
        &args.threads.to_string(),
        "--deadline",
        &args.deadline.to_string(),
    ]);
    if let Some(p) = &args.progress {
        c.arg("--progress").arg(p);
    }
    if let Some(s) = &args.only_sub {
        c.args(["--sub", s]);
    }
    if let Some(s) = &args.cases {
        c.args(["--cases", &s.to_string()]);
    }
    c.args(extra);
    c.env_remove("RUST_LOG")
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    let o = c.output().expect("spawn worker");
    (
        o.status.code(),
        String::from_utf8_lossy(&o.stdout).into(),
        String::from_utf8_lossy(&o.stderr).into(),
    )
}

fn evidence(args: &Args, p: &Prop, res: &Value, violations: u64, wall: f64) {
    let tier = if args.thorough { "thorough" } else { "quick" };
    let ev = json!({
        "property": p.id, "tier": tier, "seed": args.seed, "level": "exploration",
        "coverage": {
            "evaluations": res["evaluations"], "cases": res["cases"],
            "distinct_nontrivial": res["distinct_nontrivial"],
            "rule": p.rule, "samples": res["samples"],
            "class_counts": res["tags"], "cases_per_subcheck": res["per_sub"], "known_finding_hits": res["known"],
        },
        "assumptions": p.assumptions, "wall_s": wall, "violations": violations,
    });
    let d = verif().join("evidence");
    let _ = std::fs::create_dir_all(&d);
    std::fs::write(
        d.join(format!("{}.json", p.id)),
        serde_json::to_string_pretty(&ev).unwrap(),
    )
    .expect("evidence");
}

fn check(mut args: Args) -> i32 {
    let props = props::all();
    let Some(p) = props.iter().find(|p| p.id == args.prop) else {
        eprintln!("unknown property {}", args.prop);
        return 2;
    };
    let t0 = Instant::now();
    let scratch = tempfile::Builder::new()
        .prefix("vharness")
        .tempdir_in(scratch_base())
        .unwrap();
    let prog = scratch.path().join("progress");
    std::fs::create_dir_all(&prog).unwrap();
    std::env::set_var("VH_SCRATCH", scratch.path());
    args.progress = Some(prog.clone());
    let kfs = known_findings(p.id);
    let (code, out, err) = child(&args, &[]);
    let res = out
        .lines()
        .rev()
        .find_map(|l| l.strip_prefix("RESULT ").map(|s| s.to_string()));
    if let (Some(0), Some(r)) = (code, res) {
        let v: Value = serde_json::from_str(&r).unwrap();
        let mut unlisted = vec![];
        if let Some(m) = v["known"].as_object() {
            for k in m.keys() {
                if !kfs.iter().any(|(id, _)| id == k) {
                    unlisted.push(k.clone());
                }
            }
        }
        let failed = v.get("failure").is_some();
        let nviol = (failed as u64) + unlisted.len() as u64;
        evidence(&args, p, &v, nviol, t0.elapsed().as_secs_f64());
        for (id, what) in &kfs {
            println!("KNOWN-FINDING: property={} {} {}", p.id, id, what);
        }
        println!(
            "{}: {} cases, {} evaluations, {} distinct non-trivial, {:.1}s",
            p.id,
            v["cases"],
            v["evaluations"],
            v["distinct_nontrivial"],
            t0.elapsed().as_secs_f64()
        );
        if let Some(f) = v.get("failure") {
            println!(
                "  {} case {}: {}",
                f["sub"].as_str().unwrap_or(""),
                f["case"],
                f["msg"].as_str().unwrap_or("")
            );
            println!(
                "VIOLATION property={} replay={}",
                p.id,
                f["replay"].as_str().unwrap_or("-")
            );
            return 1;
        }
        if !unlisted.is_empty() {
            let f = Failure {
                sub: "known".into(),
                case: 0,
                msg: format!("unlisted findings {unlisted:?}"),
                choices: vec![],
            };
            let rp = write_replay(p.id, &f, args.seed);
            println!("VIOLATION property={} replay={}", p.id, rp.display());
            return 1;
        }
        return 0;
    }
    // The worker died (abort, signal, hang): find the in-flight case that does it.
    let mut cand = vec![];
    if let Ok(rd) = std::fs::read_dir(&prog) {
        for e in rd.flatten() {
            if let Ok(s) = std::fs::read_to_string(e.path()) {
                let v: Vec<&str> = s.split(' ').collect();
                if v.len() == 3 {
                    cand.push((v[1].to_string(), v[2].parse::<u64>().unwrap_or(0)));
                }
            }
        }
    }
    cand.sort();
    eprintln!(
        "worker ended with {code:?}; in flight: {cand:?}\n{}",
        tail(&err, 2000)
    );
    for (sub, case) in cand {
        let mut a = args.clone();
        a.progress = None;
        let (c, o, e) = child(&a, &["--one".into(), sub.clone(), case.to_string()]);
        let died = c != Some(0) || !o.contains("ONE ");
        // A worker killed from outside (SIGKILL under memory pressure) is not an observation.
        if died {
            let f = Failure {
                sub: sub.clone(),
                case,
                msg: format!("process died or hung (status {c:?}): {}", tail(&e, 500)),
                choices: vec![],
            };
            let rp = write_replay(p.id, &f, args.seed);
            let v = json!({"evaluations": case + 1, "cases": case + 1, "distinct_nontrivial": 1, "tags": {}, "samples": [f.msg.clone()], "known": {}, "per_sub": {}});
            evidence(&args, p, &v, 1, t0.elapsed().as_secs_f64());
            println!("  {} case {}: {}", sub, case, f.msg);
            println!("VIOLATION property={} replay={}", p.id, rp.display());
            return 1;
        }
        if let Some(l) = o.lines().find(|l| l.starts_with("ONE Err")) {
            let f = Failure {
                sub: sub.clone(),
                case,
                msg: l.into(),
                choices: vec![],
            };
            let rp = write_replay(p.id, &f, args.seed);
            println!("  {} case {}: {}", sub, case, f.msg);
            println!("VIOLATION property={} replay={}", p.id, rp.display());
            return 1;
        }
    }
    eprintln!("worker failed without a reproducible case");
    3
}

fn scratch_base() -> PathBuf {
    let shm = Path::new("/dev/shm");
    if shm.is_dir() && std::fs::write(shm.join(".vh_probe"), b"x").is_ok() {
        let _ = std::fs::remove_file(shm.join(".vh_probe"));
        return shm.into();
    }
    std::env::temp_dir()
}

fn tail(s: &str, n: usize) -> String {
    let c: Vec<char> = s.chars().collect();
    c[c.len().saturating_sub(n)..].iter().collect()
}

fn replay(path: &str) -> i32 {
    install_hook();
    clk::install();
    QUIET.store(false, std::sync::atomic::Ordering::SeqCst);
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let props = props::all();
    let p = props.iter().find(|p| p.id == v["property"]).unwrap();
    let s = p.subs.iter().find(|s| s.name == v["sub"]).unwrap();
    let ch: Vec<u64> = v["choices"]
        .as_array()
        .unwrap()
        .iter()
        .map(|x| x.as_u64().unwrap())
        .collect();
    let mut src = if ch.is_empty() {
        Src::new(case_seed(
            v["seed"].as_u64().unwrap(),
            p.id,
            s.name,
            v["case"].as_u64().unwrap(),
        ))
    } else {
        Src::from_choices(ch)
    };
    let mut cov = Cov::default();
    let r = on_big_stack(|| run_case(s.f, &mut src, &mut cov));
    println!("sample: {:?}\nresult: {:?}", cov.sample, r);
    match r {
        Ok(()) => 0,
        Err(_) => {
            println!("VIOLATION property={} replay={}", p.id, path);
            1
        }
    }
}

fn main() {
    let (cmd, args) = parse();
    let code = match cmd.as_str() {
        "check" => check(args),
        "worker" => worker(&args),
        "replay" => replay(&args.prop),
        "list" => {
            for p in props::all() {
                println!(
                    "{} {:?}",
                    p.id,
                    p.subs
                        .iter()
                        .map(|s| (s.name, s.quick, s.thorough))
                        .collect::<Vec<_>>()
                );
            }
            0
        }
        _ => {
            eprintln!("usage: vharness check <prop> [quick|thorough] | replay <file> | list");
            2
        }
    };
    // Skip static destructors: detached runtime threads may still hold database handles.
    use std::io::Write;
    let _ = std::io::stdout().flush();
    extern "C" {
        fn _exit(code: i32) -> !;
    }
    unsafe { _exit(code) }
}

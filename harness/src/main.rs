mod kit;
mod props;
use kit::run::{install_panic_hook, Ctx};
use serde_json::{json, Value as J};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

const STALL_SECS: u64 = 90;

fn root() -> PathBuf {
    PathBuf::from(std::env::var("VP_ROOT").unwrap_or_else(|_| "/verif".into()))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
        }
        Some("check") => std::process::exit(check(&args[2], args.get(3).cloned())),
        Some("worker") => worker(&args[2..]),
        Some("helper") => props::helper(&args[2..]),
        _ => {
            eprintln!("usage: vp check <id> [case] | vp list");
            std::process::exit(2)
        }
    }
}

fn worker(a: &[String]) {
    let (id, shard, shards, out, cur, only) = (&a[0], a[1].parse().unwrap(), a[2].parse().unwrap(), &a[3], &a[4], a.get(5).cloned());
    install_panic_hook();
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    if let Err(e) = kit::order::self_check() {
        eprintln!("harness: {e}");
        std::process::exit(3);
    }
    let p = props::all().into_iter().find(|p| p.id == id).expect("unknown property");
    let mut ctx = Ctx::new(id, thorough, shard, shards, only, cur);
    let tick = ctx.tick.clone();
    std::thread::spawn(move || {
        let mut last = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_secs(2));
            let t = tick.load(Ordering::Relaxed);
            if t != last.0 {
                last = (t, Instant::now());
            } else if last.1.elapsed().as_secs() > STALL_SECS {
                eprintln!("harness: stalled");
                std::process::exit(77);
            }
        }
    });
    // all checks run on a big stack under controlled hash seeds
    let j = match kit::order::with_seed(1, || {
        kit::run::guard(|| {
            (p.run)(&mut ctx);
            ctx.to_json()
        })
    }) {
        Ok(j) => j,
        Err(e) => {
            eprintln!("{e}");
            // a panic raised inside the code under test, between cases, counts against the case
            std::process::exit(if e.contains(" at /repo/") { 78 } else { 3 });
        }
    };
    std::fs::write(out, j.to_string()).expect("write worker result");
}

struct Known {
    cases: Vec<String>,
    observed: String,
    what: String,
    hit: bool,
}

fn load_known(id: &str) -> Vec<Known> {
    let t = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| l.strip_prefix("finding: "))
        .map(|l| serde_json::from_str::<J>(l).expect("known_findings.txt: bad JSON"))
        .filter(|j| j["property"] == id)
        .map(|j| Known {
            cases: j["cases"].as_array().unwrap().iter().map(|c| c.as_str().unwrap().to_string()).collect(),
            observed: j["observed"].as_str().unwrap_or("").to_string(),
            what: j["what"].as_str().unwrap().to_string(),
            hit: false,
        })
        .collect()
}

fn check(id: &str, only: Option<String>) -> i32 {
    let start = Instant::now();
    let Some(p) = props::all().into_iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let shards = if only.is_some() { 1 } else { p.shards };
    let work = root().join("work").join(id);
    let _ = std::fs::remove_dir_all(&work);
    std::fs::create_dir_all(&work).expect("work dir");
    let exe = std::env::current_exe().unwrap();
    let mut kids = vec![];
    for s in 0..shards {
        let out = work.join(format!("out{s}.json"));
        let cur = work.join(format!("cur{s}"));
        let mut c = Command::new(&exe);
        c.args(["worker", id, &s.to_string(), &shards.to_string()]).arg(&out).arg(&cur);
        if let Some(o) = &only {
            c.arg(o);
        }
        let err = std::fs::File::create(work.join(format!("err{s}"))).unwrap();
        let child = c
            .stdin(Stdio::null())
            .stdout(Stdio::from(std::fs::File::create(work.join(format!("std{s}"))).unwrap()))
            .stderr(Stdio::from(err))
            .env("VERIF_TIER", &tier)
            .spawn()
            .expect("spawn worker");
        kids.push((child, out, cur, work.join(format!("err{s}"))));
    }
    let mut failures: Vec<(String, String)> = vec![];
    let (mut evals, mut nontriv, mut states, mut trans, mut traces, mut fc) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut outcomes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<J> = vec![];
    let (mut level, mut rule, mut assumptions) = (String::from("exploration"), String::new(), json!([]));
    for (child, out, cur, err) in kids.iter_mut() {
        let st = child.wait().expect("wait");
        let res = std::fs::read_to_string(&out).ok().and_then(|t| serde_json::from_str::<J>(&t).ok());
        match res {
            Some(j) if st.success() => {
                let n = |k: &str| j[k].as_u64().unwrap_or(0);
                evals += n("evaluations");
                nontriv += n("nontrivial");
                states += n("states");
                trans += n("transitions");
                traces += n("traces");
                fc += n("failure_count");
                for (k, v) in j["outcomes"].as_object().unwrap() {
                    *outcomes.entry(k.clone()).or_default() += v.as_u64().unwrap();
                }
                if samples.len() < 12 {
                    samples.extend(j["samples"].as_array().unwrap().iter().take(6).cloned());
                }
                for f in j["failures"].as_array().unwrap() {
                    failures.push((f["case"].as_str().unwrap().into(), f["detail"].as_str().unwrap().into()));
                }
                level = j["level"].as_str().unwrap().into();
                if rule.is_empty() {
                    rule = j["rule"].as_str().unwrap().into();
                }
                assumptions = j["assumptions"].clone();
            }
            _ => {
                let e = std::fs::read_to_string(&err).unwrap_or_default();
                if st.code() == Some(3) || st.code() == Some(101) {
                    eprintln!("harness error in worker: {e}");
                    return 2;
                }
                // killed by a signal (stack overflow, abort) or stalled: the running case did it
                let c = std::fs::read_to_string(&cur).unwrap_or_default();
                let case = c
                    .split_once('\n')
                    .map(|(n, r)| r.get(..n.parse().unwrap_or(0)).unwrap_or(r).to_string())
                    .unwrap_or_default();
                if case.is_empty() {
                    eprintln!("harness error: worker died before its first case: {st:?} {e}");
                    return 2;
                }
                fc += 1;
                let why = if st.code() == Some(77) { "does not terminate" } else { "process crashed" };
                failures.push((case, format!("{why} ({st}) {}", e.lines().last().unwrap_or(""))));
            }
        }
    }
    if only.is_none() && evals == 0 && failures.is_empty() {
        eprintln!("harness error: nothing explored");
        return 2;
    }
    let mut known = load_known(id);
    let mut fresh = vec![];
    for (c, d) in failures {
        let mut k_hit = false;
        for k in known.iter_mut() {
            if k.cases.iter().any(|x| x == &c) && d.contains(&k.observed) {
                k.hit = true;
                k_hit = true;
                break;
            }
        }
        if !k_hit {
            fresh.push((c, d));
        }
    }
    let mut listed = 0;
    for k in &known {
        if k.hit {
            listed += 1;
            println!("KNOWN-FINDING: property={id} {}", k.what);
        }
    }
    fresh.sort_by_key(|(c, _)| c.len());
    let rep = root().join("replays");
    let show = std::env::var("VP_SHOW").ok().and_then(|s| s.parse().ok()).unwrap_or(5);
    for (i, (c, d)) in fresh.iter().take(show).enumerate() {
        let _ = std::fs::create_dir_all(&rep);
        let path = rep.join(format!("{id}-{i}.txt"));
        let _ = std::fs::write(
            &path,
            format!("property: {id}\ncase: {c}\nobserved: {d}\nreplay: bash /verif/check.sh {id} {tier} '<case>'   (the case text above, verbatim)\n"),
        );
        println!("VIOLATION property={id} replay={}", path.display());
        println!("  case: {}", c.chars().take(600).collect::<String>());
        println!("  observed: {}", d.chars().take(900).collect::<String>());
    }
    if fresh.len() > show {
        println!("  ... {} violating cases in total", fresh.len());
    }
    samples.truncate(12);
    let mut cov = json!({
        "evaluations": evals, "distinct_nontrivial": nontriv, "rule": rule, "samples": samples,
        "outcomes": outcomes, "workers": shards, "exhaustive": true, "failing_cases": fc, "known_findings_seen": listed,
    });
    if level == "model_checking" {
        cov["states"] = json!(states);
        cov["transitions"] = json!(trans);
        cov["traces_validated_against_impl"] = json!(traces);
    }
    let ev = json!({
        "property": id, "tier": tier, "seed": seed, "level": level, "coverage": cov,
        "assumptions": assumptions, "wall_s": start.elapsed().as_secs_f64(), "violations": fresh.len(),
    });
    if only.is_none() {
        let dir = root().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    }
    println!("{id}: {evals} evaluations, {nontriv} distinct, states={states} transitions={trans}, outcomes={outcomes:?}, {:.1}s", start.elapsed().as_secs_f64());
    cleanup(&work);
    if fresh.is_empty() { 0 } else { 1 }
}

fn cleanup(p: &Path) {
    let _ = std::fs::remove_dir_all(p);
}

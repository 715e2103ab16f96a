//! check / worker / replay / determinism.

use crate::exec::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct Args {
    pub map: BTreeMap<String, String>,
}
impl Args {
    pub fn parse(a: &[String]) -> Args {
        let mut map = BTreeMap::new();
        let mut i = 0;
        while i + 1 < a.len() {
            map.insert(a[i].trim_start_matches("--").to_string(), a[i + 1].clone());
            i += 2;
        }
        Args { map }
    }
    pub fn s(&self, k: &str, d: &str) -> String {
        self.map.get(k).cloned().unwrap_or_else(|| d.to_string())
    }
    pub fn n(&self, k: &str, d: u64) -> u64 {
        self.map.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
    }
}

/// A genuine defect that is listed and not repaired: `finding: property=C01 class=<..> match=<..> what=<..>`.
struct Known {
    prop: String,
    class: String,
    pat: String,
    what: String,
}

fn known(dir: &str) -> Vec<Known> {
    let t = std::fs::read_to_string(format!("{dir}/KNOWN_FINDINGS.txt")).unwrap_or_default();
    let mut out = Vec::new();
    for l in t.lines() {
        let Some(r) = l.strip_prefix("finding: ") else { continue };
        let f = |k: &str, next: &str| -> String {
            let Some(i) = r.find(&format!("{k}=")) else { return String::new() };
            let rest = &r[i + k.len() + 1..];
            let e = if next.is_empty() { rest.len() } else { rest.find(&format!(" {next}=")).unwrap_or(rest.len()) };
            rest[..e].to_string()
        };
        out.push(Known { prop: f("property", "class"), class: f("class", "match"), pat: f("match", "what"), what: f("what", "") });
    }
    out
}

fn is_known<'a>(k: &'a [Known], v: &Found) -> Option<&'a Known> {
    k.iter().find(|x| x.prop == v.prop && x.class == v.class && !x.pat.is_empty() && v.msg.contains(&x.pat))
}

pub fn worker(a: &Args) -> i32 {
    let focus = prop(&a.s("prop", "")).expect("property");
    let (seed, start, stride, runs) = (a.n("seed", 1), a.n("start", 0), a.n("stride", 1), a.n("runs", 100));
    let end = Instant::now() + Duration::from_secs(a.n("wall", 600));
    let known = known(&a.s("verif", "/verif"));
    // the number of a run in which another worker found a violation: runs after it need not be made
    let stop_at = a.s("stop", "");
    let found_elsewhere = || -> u64 {
        if stop_at.is_empty() {
            return u64::MAX;
        }
        std::fs::read_dir(&stop_at).ok().into_iter().flatten().flatten().filter_map(|e| e.file_name().to_str()?.parse().ok()).min().unwrap_or(u64::MAX)
    };
    let mut last_look = Instant::now();
    let mut limit = u64::MAX;
    let mut hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut set: BTreeSet<u64> = BTreeSet::new();
    let mut distinct: BTreeSet<u64> = BTreeSet::new();
    let (mut n, mut evals, mut forks, mut sim, mut switches, mut steps) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut found = Value::Null;
    let mut seen: BTreeMap<String, u64> = BTreeMap::new();
    let mut i = start;
    while i < runs && i < limit && Instant::now() < end {
        if last_look.elapsed() > Duration::from_millis(200) {
            limit = found_elsewhere();
            last_look = Instant::now();
        }
        let o = execute(focus, i, &Source::Seed(seed_of(seed, focus, i)), false);
        if let Some(h) = &o.harness {
            println!("{}", json!({"harness": format!("run {i}: {h}")}));
            return 2;
        }
        n += 1;
        evals += o.evals;
        forks += o.forks;
        sim += o.sim_ns / 1000;
        switches += o.switches;
        steps += o.steps;
        let any = !o.faults.is_empty();
        for (k, v) in o.hits {
            *hits.entry(k).or_default() += v;
        }
        for (k, v) in o.faults {
            *faults.entry(k).or_default() += v;
        }
        set.insert(o.sched);
        if o.evals > 0 && (any || o.switches > 0) {
            distinct.insert(o.sched);
        }
        let mut stop = false;
        for v in o.viol.iter().filter(|v| v.prop == focus) {
            if let Some(k) = is_known(&known, v) {
                *seen.entry(k.what.clone()).or_default() += 1;
                continue;
            }
            found = json!({"run": i, "class": v.class, "msg": v.msg});
            stop = true;
            if !stop_at.is_empty() {
                let _ = std::fs::write(format!("{stop_at}/{i}"), b"");
            }
            break;
        }
        if stop {
            break;
        }
        i += stride;
    }
    println!(
        "{}",
        json!({"runs": n, "evals": evals, "forks": forks, "sim_us": sim, "switches": switches, "steps": steps, "hits": hits,
            "faults": faults, "found": found, "known": seen,
            "all": set.iter().map(|x| x.to_string()).collect::<Vec<_>>(),
            "distinct": distinct.iter().map(|x| x.to_string()).collect::<Vec<_>>()})
    );
    0
}

fn same(o: &RunOut, focus: &str, class: &str) -> Option<Found> {
    o.viol.iter().find(|v| v.prop == focus && v.class == class).cloned()
}

/// Makes the sequence of choices of a failing run as short and as small as the time allows.
fn shrink(focus: &'static str, run: u64, mut seq: Vec<u32>, class: &str, budget: Duration) -> (Vec<u32>, u64) {
    let end = Instant::now() + budget;
    let mut tried = 0u64;
    let mut test = |c: &Vec<u32>| -> bool {
        tried += 1;
        let o = execute(focus, run, &Source::Seq(c.clone()), false);
        o.harness.is_none() && same(&o, focus, class).is_some()
    };
    let trim = |s: &mut Vec<u32>| {
        while s.last() == Some(&0) {
            s.pop();
        }
    };
    trim(&mut seq);
    loop {
        let before = seq.clone();
        // shorter
        let mut cut = seq.len() / 2;
        while cut > 0 && Instant::now() < end {
            if seq.len() >= cut {
                let c = seq[..seq.len() - cut].to_vec();
                if test(&c) {
                    seq = c;
                    trim(&mut seq);
                    continue;
                }
            }
            cut /= 2;
        }
        // without, or with nothing in, a stretch
        for zero in [false, true] {
            let mut w = (seq.len() / 2).max(1);
            loop {
                let mut at = 0;
                while at < seq.len() && Instant::now() < end {
                    let hi = (at + w).min(seq.len());
                    let mut c = seq.clone();
                    if zero {
                        if c[at..hi].iter().all(|x| *x == 0) {
                            at += w;
                            continue;
                        }
                        c[at..hi].iter_mut().for_each(|x| *x = 0);
                    } else {
                        c.drain(at..hi);
                    }
                    trim(&mut c);
                    if test(&c) {
                        seq = c;
                        if zero {
                            at += w;
                        }
                    } else {
                        at += w;
                    }
                }
                if w == 1 || Instant::now() >= end {
                    break;
                }
                w /= 2;
            }
        }
        // smaller
        for i in 0..seq.len() {
            if Instant::now() >= end || i >= seq.len() {
                break;
            }
            for t in [1, seq[i] / 2, seq[i].saturating_sub(1)] {
                if t < seq[i] {
                    let mut c = seq.clone();
                    c[i] = t;
                    if test(&c) {
                        seq = c;
                        break;
                    }
                }
            }
        }
        trim(&mut seq);
        if Instant::now() >= end || seq == before {
            return (seq, tried);
        }
    }
}

pub fn replay(path: &str, quiet: bool) -> i32 {
    let v: Value = match std::fs::read(path).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
        Some(v) => v,
        None => {
            eprintln!("cannot read {path}");
            return 2;
        }
    };
    let Some(focus) = v["property"].as_str().and_then(prop) else { return 2 };
    let seq: Vec<u32> = v["choices"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect()).unwrap_or_default();
    let o = execute(focus, v["run"].as_u64().unwrap_or(0), &Source::Seq(seq), true);
    let class = v["class"].as_str().unwrap_or("");
    let trace: Vec<String> = v["trace"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default();
    if !quiet {
        for l in &o.trace {
            println!("{l}");
        }
    }
    match same(&o, focus, class) {
        Some(f) => {
            println!("{focus} {class}: {}", f.msg);
            println!("trace {}", if trace == o.trace { "identical to the recorded one" } else { "differs from the recorded one" });
            println!("VIOLATION property={focus} replay={path}");
            1
        }
        None => {
            println!("{focus}: not reproduced ({:?})", o.viol.first());
            0
        }
    }
}

pub fn determinism(a: &Args) -> i32 {
    let focus = prop(&a.s("prop", "")).expect("property");
    let (seed, runs) = (a.n("seed", 1), a.n("runs", 50));
    let mut h = 7u64;
    for i in 0..runs {
        let o = execute(focus, i, &Source::Seed(seed_of(seed, focus, i)), true);
        if o.harness.is_some() {
            return 2;
        }
        let d = digest(&o);
        if a.s("each", "") == "1" {
            println!("{i} {d:016x}");
        }
        h = crate::choice::mix(h, d);
    }
    println!("{focus} seed={seed} runs={runs} digest={h:016x}");
    0
}

/// Runs of the quick and the thorough tier.
fn budget(focus: &str, tier: &str) -> (u64, u64) {
    let quick = crate::quick_runs(focus);
    if tier == "thorough" {
        (quick * 40, 3000)
    } else {
        (quick, 240)
    }
}

pub fn check(a: &Args) -> i32 {
    let t0 = Instant::now();
    let focus = prop(&a.s("prop", "")).expect("property");
    let tier = a.s("tier", "quick");
    let seed = a.n("seed", 1);
    let verif = a.s("verif", "/verif");
    let (mut runs, mut wall) = budget(focus, &tier);
    runs = a.n("runs", runs);
    wall = a.n("wall", wall);
    let jobs = a.n("jobs", std::thread::available_parallelism().map_or(8, |n| n.get() as u64)).max(1);
    let me = std::env::current_exe().expect("own path");

    // One seed is one execution: a sample of runs, twice, in two processes.
    let sample = a.n("sample", 12);
    let det = |n: u64| {
        Command::new(&me)
            .args(["determinism", "--prop", focus, "--seed", &seed.to_string(), "--runs", &n.to_string()])
            .stdout(Stdio::piped())
            .spawn()
            .expect("spawn")
    };
    let d1 = det(sample);
    let d2 = det(sample);
    let stop_dir = std::env::temp_dir().join(format!("simctl-{focus}-{}", std::process::id()));
    std::fs::create_dir_all(&stop_dir).expect("scratch directory");
    let mut kids = Vec::new();
    for w in 0..jobs {
        kids.push(
            Command::new(&me)
                .args(["worker", "--prop", focus, "--seed", &seed.to_string(), "--start", &w.to_string()])
                .args(["--stride", &jobs.to_string(), "--runs", &runs.to_string(), "--wall", &wall.to_string(), "--verif", &verif])
                .args(["--stop", stop_dir.to_str().unwrap()])
                .stdout(Stdio::piped())
                .spawn()
                .expect("spawn"),
        );
    }
    let mut found: Option<(u64, String, String)> = None;
    let mut tot: BTreeMap<&str, u64> = BTreeMap::new();
    let mut hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut knowns: BTreeMap<String, u64> = BTreeMap::new();
    let mut all: BTreeSet<String> = BTreeSet::new();
    let mut distinct: BTreeSet<String> = BTreeSet::new();
    let mut bad: Option<String> = None;
    for mut k in kids {
        let mut s = String::new();
        let _ = k.stdout.take().unwrap().read_to_string(&mut s);
        let st = k.wait().expect("wait");
        let Ok(v) = serde_json::from_str::<Value>(s.lines().last().unwrap_or("")) else {
            bad = Some(format!("worker ended with {st}"));
            continue;
        };
        if let Some(h) = v["harness"].as_str() {
            bad = Some(h.to_string());
            continue;
        }
        for k in ["runs", "evals", "forks", "sim_us", "switches", "steps"] {
            *tot.entry(k).or_default() += v[k].as_u64().unwrap_or(0);
        }
        let merge = |m: &mut BTreeMap<String, u64>, v: &Value| {
            if let Some(o) = v.as_object() {
                for (k, x) in o {
                    *m.entry(k.clone()).or_default() += x.as_u64().unwrap_or(0);
                }
            }
        };
        merge(&mut hits, &v["hits"]);
        merge(&mut faults, &v["faults"]);
        merge(&mut knowns, &v["known"]);
        for (k, set) in [("all", &mut all), ("distinct", &mut distinct)] {
            for x in v[k].as_array().into_iter().flatten() {
                set.insert(x.as_str().unwrap_or("").to_string());
            }
        }
        if let Some(r) = v["found"]["run"].as_u64() {
            if found.as_ref().is_none_or(|f| r < f.0) {
                let s = |k: &str| v["found"][k].as_str().unwrap_or("").to_string();
                found = Some((r, s("class"), s("msg")));
            }
        }
    }
    let _ = std::fs::remove_dir_all(&stop_dir);
    let digests: Vec<String> = [d1, d2]
        .into_iter()
        .map(|mut d| {
            if found.is_some() {
                let _ = d.kill();
            }
            let mut s = String::new();
            let _ = d.stdout.take().unwrap().read_to_string(&mut s);
            let _ = d.wait();
            s.trim().to_string()
        })
        .collect();
    let repeatable = found.is_some() || (digests[0] == digests[1] && !digests[0].is_empty());
    let search_s = t0.elapsed().as_secs_f64();

    // Evidence samples: the trace of a few runs of this very check.
    let samples: Vec<Value> = (0..if found.is_some() { 0 } else { 2u64 })
        .map(|i| {
            let o = execute(focus, i, &Source::Seed(seed_of(seed, focus, i)), true);
            let mut t = o.trace.clone();
            t.truncate(40);
            json!({"run": i, "seed": seed_of(seed, focus, i).to_string(), "draws": o.choices.len(), "switches": o.switches, "faults": o.faults, "outcomes": o.hits, "trace_head": t})
        })
        .collect();

    let mut code = 0;
    let mut viol = 0;
    for k in known(&verif).iter().filter(|k| k.prop == focus) {
        println!("KNOWN-FINDING: property={focus} {} ({} runs of this check met it)", k.what, knowns.get(&k.what).copied().unwrap_or(0));
    }
    if let Some((run, class, msg)) = found {
        viol = 1;
        let src = Source::Seed(seed_of(seed, focus, run));
        let first = execute(focus, run, &src, false);
        let reproduced = same(&first, focus, &class).is_some();
        let dir = format!("{verif}/out");
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{focus}-{seed}-{run}.json");
        let mut seq = first.choices.clone();
        let whole = seq.len();
        let mut tried = 0;
        if reproduced && class != "endless loop" {
            (seq, tried) = shrink(focus, run, seq, &class, Duration::from_secs(a.n("shrink", 45)));
        }
        let o = execute(focus, run, &Source::Seq(seq.clone()), true);
        let (fin, used) = match same(&o, focus, &class) {
            Some(f) => (f.msg, o),
            None => {
                seq = first.choices.clone();
                (msg.clone(), execute(focus, run, &Source::Seq(seq.clone()), true))
            }
        };
        let doc = json!({"property": focus, "seed": seed, "run": run, "run_seed": seed_of(seed, focus, run).to_string(),
            "class": class, "message": fin, "choices": seq, "faults": used.faults, "trace": used.trace});
        let _ = std::fs::write(&path, serde_json::to_vec_pretty(&doc).unwrap());
        // It must come back, in a process of its own, from the file alone.
        let mut again = 0;
        for _ in 0..3 {
            let r = Command::new(&me).args(["replay", &path, "--quiet"]).stdout(Stdio::null()).status();
            again += u32::from(r.ok().and_then(|s| s.code()) == Some(1));
        }
        println!("{focus}: {class}: {fin}");
        println!("seed {seed} run {run}: {} of {whole} choices left after {tried} trials; {again}/3 replays reproduce it", seq.len());
        if again == 0 && !reproduced {
            eprintln!("harness: the violation does not repeat, so nothing is claimed: {msg}");
            code = 2;
        } else {
            println!("VIOLATION property={focus} replay={path}");
            code = 1;
        }
    } else if let Some(b) = bad {
        eprintln!("harness: {b}");
        code = 2;
    } else if !repeatable {
        eprintln!("harness: runs are not repeatable: {digests:?}");
        code = 2;
    }

    let (comp_real, comp_stub, assumptions) = crate::describe(focus);
    let wall_s = t0.elapsed().as_secs_f64();
    let g = |k: &str| tot.get(k).copied().unwrap_or(0);
    let per_hour = |n: u64| (n as f64 * 3600.0 / search_s.max(0.001)) as u64;
    let ev = json!({
        "property": focus, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": g("runs"),
            "distinct_nontrivial": distinct.len(),
            "rule": "One evaluation is one whole simulated run, made from one seed (callers, data, schedule and faults all drawn from it). It is non-trivial if at least one oracle of this property was evaluated in it and it had at least one injected fault or one switch between simulated threads; two are distinct if their hashes over the sequence of scheduling decisions, delivered events, injected faults and operation outcomes differ.",
            "samples": samples,
            "oracle_evaluations": g("evals"),
            "distinct_interleavings": all.len(),
            "context_switches": g("switches"),
            "scheduler_steps": g("steps"),
            "process_incarnations": g("runs") + g("forks"),
            "simulated_seconds": g("sim_us") / 1_000_000,
            "runs_per_hour_one_seed_each": per_hour(g("runs")),
            "faults_injected": faults,
            "outcomes_reached": hits,
            "repeatability": {"runs_executed_twice_in_separate_processes": sample, "digests": digests, "identical": repeatable},
            "real_code": comp_real,
            "stubs": comp_stub,
        },
        "assumptions": assumptions,
        "wall_s": wall_s,
        "violations": viol,
    });
    let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
    std::fs::write(format!("{verif}/evidence/{focus}.json"), serde_json::to_vec_pretty(&ev).unwrap()).expect("evidence");
    if code == 0 {
        println!(
            "{focus} held: {} runs, {} distinct non-trivial, {} oracle evaluations, {} faults, {:.0} s simulated, {:.1} s",
            g("runs"),
            distinct.len(),
            g("evals"),
            faults.values().sum::<u64>(),
            g("sim_us") as f64 / 1e6,
            wall_s
        );
    }
    code
}

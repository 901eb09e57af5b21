mod exec;
mod ir;
mod term;
mod z3;

use exec::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::io::Write;
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jlist(v: &[u64]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}

#[derive(Default)]
struct Agg {
    stats: Stats,
    jobs: u64,
    violations: Vec<Violation>,
    covers: BTreeMap<String, u64>,
    checks: BTreeMap<String, u64>,
    samples: Vec<Sample>,
    funcs: BTreeSet<String>,
    errors: Vec<String>,
    wall: Duration,
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut ll = String::new();
    let mut harness: Vec<String> = vec![];
    let mut threads = 8usize;
    let mut secs = 600u64;
    let mut query_ms = 60_000u32;
    let mut shard = 3usize;
    let mut max_steps = 20_000_000u64;
    let mut max_paths = 50_000_000u64;
    let mut max_viol = 8usize;
    let mut list = false;
    let mut certify = true;
    let mut i = 0;
    while i < args.len() {
        let v = || args[i + 1].clone();
        match args[i].as_str() {
            "--ll" => ll = v(),
            "--harness" => harness.extend(v().split(',').map(|s| s.to_string())),
            "--threads" => threads = v().parse().unwrap(),
            "--secs" => secs = v().parse().unwrap(),
            "--query-ms" => query_ms = v().parse().unwrap(),
            "--shard" => shard = v().parse().unwrap(),
            "--max-steps" => max_steps = v().parse().unwrap(),
            "--max-paths" => max_paths = v().parse().unwrap(),
            "--max-violations" => max_viol = v().parse().unwrap(),
            "--no-certify" => {
                certify = false;
                i += 1;
                continue;
            }
            "--list" => {
                list = true;
                i += 1;
                continue;
            }
            a => panic!("unknown argument {a}"),
        }
        i += 2;
    }
    let text = std::fs::read_to_string(&ll).expect("read IR");
    let m = ir::Module::load(text).expect("load IR");
    if list {
        let mut n: Vec<_> = m.func_names().filter(|n| n.starts_with("h_")).collect();
        n.sort();
        for n in n {
            println!("{n}");
        }
        return;
    }
    for h in &harness {
        if !m.has_func(h) {
            eprintln!("no harness {h}");
            std::process::exit(3);
        }
    }
    let lim = Limits {
        deadline: Instant::now() + Duration::from_secs(secs),
        max_steps,
        max_paths,
        shard_depth: shard,
        query_ms,
        max_violations: max_viol,
        certify,
    };
    // (harness index, prefix); pending counts jobs queued or running
    let queue: Mutex<(VecDeque<(usize, Vec<u32>)>, usize)> = Mutex::new((
        harness.iter().enumerate().map(|(i, _)| (i, vec![])).collect(),
        harness.len(),
    ));
    let cv = Condvar::new();
    let aggs: Mutex<Vec<Agg>> = Mutex::new(harness.iter().map(|_| Agg::default()).collect());
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, || loop {
                    let (h, prefix) = {
                        let mut q = queue.lock().unwrap();
                        loop {
                            if let Some(j) = q.0.pop_front() {
                                break j;
                            }
                            if q.1 == 0 {
                                return;
                            }
                            q = cv.wait(q).unwrap();
                        }
                    };
                    // a first pass discovers the shards of this prefix
                    let stop = {
                        let a = aggs.lock().unwrap();
                        a[h].violations.iter().filter(|v| v.marks.is_empty()).count() >= max_viol
                    };
                    if !stop {
                        let name = harness[h].clone();
                        let ex = Exec::new(&m, &lim, prefix.clone(), true);
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            ex.run(&name)
                        }));
                        match r {
                            Ok(r) => {
                                {
                                    let mut q = queue.lock().unwrap();
                                    q.1 += r.new_jobs.len();
                                    for p in r.new_jobs.iter().rev() {
                                        q.0.push_back((h, p.clone()));
                                    }
                                    cv.notify_all();
                                }
                                let mut a = aggs.lock().unwrap();
                                merge(&mut a[h], r, &prefix);
                            }
                            Err(e) => {
                                let msg = e
                                    .downcast_ref::<String>()
                                    .cloned()
                                    .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
                                    .unwrap_or_default();
                                aggs.lock().unwrap()[h]
                                    .errors
                                    .push(format!("engine panic {prefix:?}: {msg}"));
                            }
                        }
                    }
                    let mut q = queue.lock().unwrap();
                    q.1 -= 1;
                    cv.notify_all();
                })
                .unwrap();
        }
    });
    let out = std::io::stdout();
    let mut out = out.lock();
    for (h, a) in harness.iter().zip(aggs.into_inner().unwrap()) {
        let s = &a.stats;
        let viol = a
            .violations
            .iter()
            .map(|v| {
                format!(
                    "{{\"kind\":{},\"what\":{},\"location\":{},\"marks\":[{}],\"inputs\":{},\"count\":{}}}",
                    js(&v.kind),
                    js(&v.what),
                    js(&v.location),
                    v.marks.iter().map(|m| js(m)).collect::<Vec<_>>().join(","),
                    jlist(&v.inputs),
                    v.count
                )
            })
            .collect::<Vec<_>>()
            .join(",");
        let map = |m: &BTreeMap<String, u64>| {
            m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")
        };
        let samples = a
            .samples
            .iter()
            .map(|s| {
                format!(
                    "{{\"inputs\":{},\"digest\":{},\"end\":{}}}",
                    jlist(&s.inputs),
                    js(&s.digest.to_string()),
                    js(s.end)
                )
            })
            .collect::<Vec<_>>()
            .join(",");
        writeln!(
            out,
            "{{\"harness\":{},\"jobs\":{},\"paths\":{},\"panics_allowed\":{},\"assumed_away\":{},\"forks\":{},\"branches\":{},\"steps\":{},\"checks\":{},\"checks_by_solver\":{},\"queries\":{},\"reused_answers\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"slowest_query_s\":{:.3},\"cpu_s\":{:.3},\"terms\":{},\"certified\":{},\"covers\":{{{}}},\"check_ids\":{{{}}},\"violations\":[{}],\"samples\":[{}],\"functions\":[{}],\"errors\":[{}],\"z3\":{}}}",
            js(h),
            a.jobs,
            s.paths,
            s.panics_allowed,
            s.assumed_away,
            s.forks,
            s.branches,
            s.steps,
            s.checks,
            s.checks_by_solver,
            s.queries,
            s.reused,
            s.sat,
            s.unsat,
            s.unknown,
            s.solver_time.as_secs_f64(),
            s.slowest.as_secs_f64(),
            a.wall.as_secs_f64(),
            s.terms,
            s.certified,
            map(&a.covers),
            map(&a.checks),
            viol,
            samples,
            a.funcs.iter().map(|f| js(f)).collect::<Vec<_>>().join(","),
            a.errors.iter().map(|f| js(f)).collect::<Vec<_>>().join(","),
            js(&z3::version()),
        )
        .unwrap();
    }
}

fn merge(a: &mut Agg, r: JobResult, prefix: &[u32]) {
    let (s, t) = (&mut a.stats, &r.stats);
    s.paths += t.paths;
    s.panics_allowed += t.panics_allowed;
    s.assumed_away += t.assumed_away;
    s.forks += t.forks;
    s.branches += t.branches;
    s.steps += t.steps;
    s.checks += t.checks;
    s.checks_by_solver += t.checks_by_solver;
    s.queries += t.queries;
    s.reused += t.reused;
    s.sat += t.sat;
    s.unsat += t.unsat;
    s.unknown += t.unknown;
    s.solver_time += t.solver_time;
    s.slowest = s.slowest.max(t.slowest);
    s.terms += t.terms;
    s.certified += t.certified;
    a.jobs += 1;
    a.wall += r.wall;
    for v in r.violations {
        if let Some(x) = a.violations.iter_mut().find(|x| {
            x.kind == v.kind && x.what == v.what && x.location == v.location && x.marks == v.marks
        }) {
            x.count += v.count;
        } else {
            a.violations.push(v);
        }
    }
    for (k, v) in r.covers {
        *a.covers.entry(k).or_insert(0) += v;
    }
    for (k, v) in r.check_ids {
        *a.checks.entry(k).or_insert(0) += v;
    }
    a.samples.extend(r.samples);
    a.funcs.extend(r.funcs);
    if let Some(e) = r.error {
        a.errors.push(format!("{prefix:?}: {e}"));
    }
}

//! Runtime monitor for ripcalc: drives the real program and decides properties of what it does.

mod exec;
mod gen;
mod json;
mod model;
mod props;
mod rng;
mod show;

use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use exec::{Code, Exec, Fail, Out, Paths};
use json::J;
use rng::Rng;

/// What a case works with.
pub struct Ctx<'p> {
    pub x: Exec<'p>,
    pub stats: BTreeMap<String, u64>,
    pub seen: HashSet<u64>,
    pub samples: Vec<String>,
    pub want_sample: bool,
    pub thorough: bool,
    pub seed: u64,
    pub dir: String,
    /// The number of the thread that has the case.
    pub thread: usize,
}

pub fn args<S: AsRef<str>>(a: &[S]) -> Vec<String> { a.iter().map(|x| x.as_ref().to_owned()).collect() }

pub fn show_cmd(a: &[String]) -> String {
    let s = a.iter().map(|x| format!("{:?}", x)).collect::<Vec<_>>().join(" ");
    if s.chars().count() > 1500 { format!("{}...", s.chars().take(1500).collect::<String>()) } else { s }
}

impl<'p> Ctx<'p> {
    fn new(paths: &'p Paths, batch: bool, thorough: bool, seed: u64, dir: &str) -> Ctx<'p> {
        Ctx { x: Exec::new(paths, batch), stats: BTreeMap::new(), seen: HashSet::new(), samples: Vec::new(), want_sample: false, thorough, seed, dir: dir.to_owned(), thread: 0 }
    }
    pub fn count<S: Into<String>>(&mut self, k: S) { *self.stats.entry(k.into()).or_insert(0) += 1; }
    pub fn add<S: Into<String>>(&mut self, k: S, n: u64) { *self.stats.entry(k.into()).or_insert(0) += n; }
    /// Records a non-trivial case, identified by its text.
    pub fn note<S: AsRef<str>>(&mut self, text: S) {
        let t = text.as_ref();
        self.seen.insert(rng::hash_bytes(t.as_bytes()));
        if self.want_sample {
            self.want_sample = false;
            let s: String = t.chars().take(300).collect();
            self.samples.push(s);
        }
    }
    pub fn run(&mut self, a: &[String]) -> Result<Out, Fail> { self.x.run(a, false) }
    /// Runs a command line that has to succeed silently, and returns what it printed.
    pub fn ok(&mut self, a: &[String]) -> Result<String, Fail> { self.ok_color(a, false) }
    pub fn ok_color(&mut self, a: &[String], color: bool) -> Result<String, Fail> {
        let o = self.x.run(a, color)?;
        if o.code != Code::Exit(0) { return exec::bad(format!("{} ended with {:?}, stderr {:?}", show_cmd(a), o.code, short(&o.err_text()))); }
        match String::from_utf8(o.out) {
            Ok(s) => Ok(s),
            Err(_) => exec::bad(format!("{} printed bytes that are no text", show_cmd(a))),
        }
    }
}

pub fn short(s: &str) -> String {
    if s.chars().count() > 600 { format!("{}...", s.chars().take(600).collect::<String>()) } else { s.to_owned() }
}

/// A property and how to decide it.
pub struct Prop {
    pub id: &'static str,
    /// Number of systematic cases at the start.
    pub systematic: u64,
    pub rule: &'static str,
    /// Whether cases need fresh processes.
    pub plain_only: bool,
    pub case: fn(&mut Ctx, u64, &mut Rng) -> Result<(), Fail>,
}

struct Opts {
    prop: String, tier: String, seed: u64, evidence: String, replay: String, only: Option<u64>,
    seconds: Option<f64>, notes: Vec<String>, threads: usize, dir: String, max: u64,
}

fn parse_opts() -> (Opts, Paths) {
    let mut o = Opts {
        prop: String::new(), tier: "quick".to_owned(), seed: 1, evidence: String::new(), replay: String::new(), only: None,
        seconds: None, notes: Vec::new(), threads: 8, dir: String::new(), max: u64::MAX,
    };
    let mut p = Paths { plain: String::new(), batch: None, api: None, release: None, reduced: Vec::new(), shim: None, unbuilt: Vec::new(), asan: None, msan: None, miri: None, runner: String::new(), platforms: Vec::new(), readme: String::new() };
    let a: Vec<String> = std::env::args().skip(1).collect();
    let mut i = 0;
    while i + 1 < a.len() {
        let v = a[i + 1].clone();
        match a[i].as_str() {
            "--prop" => o.prop = v,
            "--tier" => o.tier = v,
            "--seed" => o.seed = v.parse().expect("seed"),
            "--evidence" => o.evidence = v,
            "--replay" => o.replay = v,
            "--only-index" => o.only = Some(v.parse().expect("index")),
            "--seconds" => o.seconds = Some(v.parse().expect("seconds")),
            "--max" => o.max = v.parse().expect("max"),
            "--note" => o.notes.push(v),
            "--threads" => o.threads = v.parse().expect("threads"),
            "--dir" => o.dir = v,
            "--plain" => p.plain = v,
            "--batch" => p.batch = Some(v),
            "--api" => p.api = Some(v),
            "--release" => p.release = Some(v),
            "--shim" => p.shim = Some(v),
            "--asan" => p.asan = Some(v),
            "--msan" => p.msan = Some(v),
            "--miri" => p.miri = Some(v),
            "--runner" => p.runner = v,
            "--platform" => {
                // NAME,API,SYSROOT,PROGRAM
                let f: Vec<&str> = v.splitn(4, ',').collect();
                p.platforms.push(exec::Platform { name: f[0].to_owned(), api: f[1] == "api", sysroot: f[2].to_owned(), path: f[3].to_owned() });
            },
            "--readme" => p.readme = v,
            "--literals" => {
                let t = String::from_utf8_lossy(&exec::read_file(&v)).into_owned();
                let (mut numbers, mut texts) = (Vec::new(), Vec::new());
                for l in t.lines() {
                    match l.split_at(l.len().min(1)) {
                        ("n", n) => numbers.extend(n.parse::<u128>()),
                        ("t", t) => texts.push(t.to_owned()),
                        _ => {},
                    }
                }
                let _ = rng::LITERALS.set(rng::Literals { numbers, texts });
            },
            "--bare" | "--only-console" | "--only-num-bigint" => p.reduced.push((a[i][2..].to_owned(), v)),
            x if x.starts_with("--unbuilt-") => p.unbuilt.push((x[10..].to_owned(), String::from_utf8_lossy(&exec::read_file(&v)).into_owned())),
            other => panic!("unknown option {}", other),
        }
        i += 2;
    }
    (o, p)
}

/// Runs one case. A defect of the monitor itself gives no verdict.
fn guarded(prop: &Prop, c: &mut Ctx, i: u64, seed: u64) -> Result<(), Fail> {
    let mut r = Rng::new(seed, prop.id, i);
    r.keen = i >= prop.systematic && (i % 6 == 5 || i % 6 == 2 && rng::new_literals());
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (prop.case)(c, i, &mut r)))
        .unwrap_or_else(|e| {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(Fail::Unsure(format!("the monitor panicked: {}", m)))
        })
}

struct Violation { index: u64, message: String, log: Vec<(Vec<String>, bool, Option<Out>)> }

fn main() {
    let (o, paths) = parse_opts();
    let all = props::all();
    let prop = all.iter().find(|p| p.id == o.prop).expect("unknown property");
    let thorough = o.tier == "thorough";
    let seconds = o.seconds.unwrap_or(match o.prop.as_str() { _ if thorough => 300.0, "P37" => 60.0, "P40" => 90.0, _ => 20.0 });
    let start = Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let evals = AtomicU64::new(0);
    let merged: Mutex<(BTreeMap<String, u64>, HashSet<u64>, Vec<(u64, String)>)> = Mutex::new(Default::default());
    let totals: Mutex<(u64, u64, u64)> = Mutex::new((0, 0, 0));
    let violation: Mutex<Option<Violation>> = Mutex::new(None);
    let unsure: Mutex<Vec<String>> = Mutex::new(Vec::new());
    let unconfirmed: Mutex<Vec<String>> = Mutex::new(Vec::new());

    std::thread::scope(|s| {
        for t in 0..o.threads {
            let (o, paths, next, stop, evals, merged, totals, violation, unsure, unconfirmed) =
                (&o, &paths, &next, &stop, &evals, &merged, &totals, &violation, &unsure, &unconfirmed);
            s.spawn(move || {
                let batch = !prop.plain_only && (t >= 2 || o.threads == 1 || prop.id == "P40") && o.only.is_none();
                let mut c = Ctx::new(paths, batch, thorough, o.seed, &format!("{}/t{}", o.dir, t));
                c.thread = t;
                let _ = std::fs::create_dir_all(&c.dir);
                let mut samples = Vec::new();
                loop {
                    if stop.load(SeqCst) { break; }
                    let i = match o.only { Some(i) => { if next.fetch_add(1, SeqCst) > 0 { break; } i }, None => next.fetch_add(1, SeqCst) };
                    if i >= o.max { break; }
                    let limit = if i < prop.systematic { (seconds * 8.0 + 60.0).min(500.0) } else { seconds };
                    if o.only.is_none() && start.elapsed() > Duration::from_secs_f64(limit) { break; }
                    c.want_sample = i % 997 == 1 || i < 3 || (i >= prop.systematic && i < prop.systematic + 3);
                    evals.fetch_add(1, SeqCst);
                    let r = guarded(prop, &mut c, i, o.seed);
                    for s in c.samples.drain(..) { samples.push((i, s)); }
                    match r {
                        Ok(()) => {},
                        Err(Fail::Unsure(m)) => { c.count("inconclusive"); unsure.lock().unwrap().push(format!("case {}: {}", i, m)); },
                        Err(Fail::Bad(first)) => {
                            // believe it only if fresh processes of the unhooked program (the hooked one
                            // only for API operations) fail the same case
                            let mut confirmed = None;
                            let since = Instant::now();
                            for _ in 0..20 {
                                if since.elapsed() > Duration::from_secs(120) { break; }
                                let mut c2 = Ctx::new(paths, false, thorough, o.seed, &c.dir);
                                c2.x.log = Some(Vec::new());
                                let r = guarded(prop, &mut c2, i, o.seed);
                                if let Err(Fail::Bad(m)) = r {
                                    confirmed = Some(Violation { index: i, message: m, log: c2.x.log.take().unwrap() });
                                    break;
                                }
                                if violation.lock().unwrap().is_some() { break; }
                            }
                            match confirmed {
                                Some(v) => {
                                    let mut g = violation.lock().unwrap();
                                    if g.is_none() { *g = Some(v); }
                                    stop.store(true, SeqCst);
                                },
                                None => { c.count("not confirmed by fresh processes"); unconfirmed.lock().unwrap().push(format!("case {}: {}", i, first)); },
                            }
                        },
                    }
                }
                let mut m = merged.lock().unwrap();
                for (k, v) in &c.stats { *m.0.entry(k.clone()).or_insert(0) += v; }
                m.1.extend(c.seen.iter());
                m.2.extend(samples);
                let mut t = totals.lock().unwrap();
                t.0 += c.x.runs_plain;
                t.1 += c.x.runs_batch;
                t.2 += c.x.broken;
            });
        }
    });

    let (stats, seen, mut samples) = merged.into_inner().unwrap();
    let (plain, batch, broken) = totals.into_inner().unwrap();
    let unsure = unsure.into_inner().unwrap();
    let unconfirmed = unconfirmed.into_inner().unwrap();
    let violation = violation.into_inner().unwrap();
    let evals = evals.into_inner();
    samples.sort();
    samples.dedup();
    let step = (samples.len() / 12).max(1);
    let samples: Vec<J> = samples.iter().step_by(step).take(14).map(|(i, s)| J::S(format!("case {}: {}", i, s))).collect();
    let handed = next.into_inner();

    let mut cov = vec![
        ("evaluations", J::N(evals as f64)),
        ("distinct_nontrivial", J::N(seen.len() as f64)),
        ("rule", J::S(prop.rule.to_owned())),
        ("samples", J::A(samples)),
        ("systematic_cases", J::N(prop.systematic.min(evals).min(handed) as f64)),
        ("systematic_cases_planned", J::N(prop.systematic as f64)),
        ("executions_fresh_process", J::N(plain as f64)),
        ("executions_serving_process", J::N(batch as f64)),
        ("serving_process_restarts", J::N(broken as f64)),
        ("api_operations_available", J::B(paths.api.is_some())),
        ("inconclusive_cases", J::N(unsure.len() as f64)),
        ("unconfirmed_alarms", J::N(unconfirmed.len() as f64)),
        ("observed", J::O(stats.iter().map(|(k, v)| (k.clone(), J::N(*v as f64))).collect())),
    ];
    if !unsure.is_empty() { cov.push(("inconclusive_examples", J::A(unsure.iter().take(5).map(|s| J::S(short(s))).collect()))); }
    if !unconfirmed.is_empty() { cov.push(("unconfirmed_examples", J::A(unconfirmed.iter().take(5).map(|s| J::S(short(s))).collect()))); }
    let mut assumptions = vec![
        J::S("The reference model in monitor/src/model.rs and the standard library's address parser are right.".to_owned()),
        J::S("Nothing is claimed about inputs that were not executed.".to_owned()),
    ];
    for n in &o.notes { assumptions.push(J::S(n.clone())); }
    let ev = J::O(vec![
        ("property".to_owned(), J::S(prop.id.to_owned())),
        ("tier".to_owned(), J::S(o.tier.clone())),
        ("seed".to_owned(), J::N(o.seed as f64)),
        ("level".to_owned(), J::S("exploration".to_owned())),
        ("coverage".to_owned(), J::O(cov.into_iter().map(|(k, v)| (k.to_owned(), v)).collect())),
        ("assumptions".to_owned(), J::A(assumptions)),
        ("wall_s".to_owned(), J::N((start.elapsed().as_secs_f64() * 100.0).round() / 100.0)),
        ("violations".to_owned(), J::N(if violation.is_some() { 1.0 } else { 0.0 })),
    ]);
    if !o.evidence.is_empty() { std::fs::write(&o.evidence, ev.text()).expect("write evidence"); }

    println!(
        "{}: {} cases ({} systematic), {} distinct non-trivial, {} fresh + {} served executions, {} inconclusive, {} unconfirmed, {:.1} s",
        prop.id, evals, prop.systematic.min(handed), seen.len(), plain, batch, unsure.len(), unconfirmed.len(), start.elapsed().as_secs_f64()
    );
    println!("  observed: {}", short(&stats.iter().map(|(k, v)| format!("{} {}", v, k)).collect::<Vec<_>>().join(", ")));
    for m in unsure.iter().take(3) { println!("  inconclusive: {}", short(m)); }
    for m in unconfirmed.iter().take(3) { println!("  unconfirmed: {}", short(m)); }
    if let Some(v) = violation {
        let mut t = format!(
            "property {} violated: case {} with seed {}, tier {}\n{}\n\nreplay: ./run_check.py {} --only-index {}  (VERIF_SEED={} VERIF_TIER={})\n",
            prop.id, v.index, o.seed, o.tier, v.message, prop.id, v.index, o.seed, o.tier
        );
        for (a, color, out) in v.log.iter().rev().take(6).rev() {
            t.push_str(&format!("\n$ {}ripcalc {}\n", if *color { "CLICOLOR_FORCE=1 " } else { "" }, show_cmd(a)));
            if let Some(out) = out {
                let cap = |s: String| if s.len() > 20000 { format!("{}... ({} bytes)", s.chars().take(20000).collect::<String>(), s.len()) } else { s };
                t.push_str(&format!("{:?}\n--- stdout\n{}\n--- stderr\n{}\n", out.code, cap(out.text()), cap(out.err_text())));
            }
        }
        if !o.replay.is_empty() { std::fs::write(&o.replay, t).expect("write replay"); }
        println!("  {}", short(&v.message));
        println!("VIOLATION property={} replay={}", prop.id, o.replay);
        std::process::exit(1);
    }
    if o.only.is_none() && (evals == 0 || seen.len() < 2) {
        println!("nothing was observed");
        std::process::exit(3);
    }
}

//! Command line of a harness binary: `run`, `replay`, `list`.
use crate::engine::{self, Config, Exploration, Violation};
use crate::json::{arr, esc};
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Scenario {
    pub name: String,
    pub about: String,
    pub cfg: Config,
    pub body: Box<dyn Fn() + Sync + Send>,
}

pub fn scenario(
    name: impl Into<String>,
    about: impl Into<String>,
    cfg: Config,
    body: impl Fn() + Sync + Send + 'static,
) -> Scenario {
    Scenario {
        name: name.into(),
        about: about.into(),
        cfg,
        body: Box::new(body),
    }
}

pub struct Check {
    pub property: &'static str,
    pub assumptions: Vec<&'static str>,
    pub scenarios: fn(Tier) -> Vec<Scenario>,
}

fn known_findings(property: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let Some(p) = std::env::var_os("MC_KNOWN") else {
        return m;
    };
    let text = std::fs::read_to_string(&p).unwrap_or_else(|e| {
        eprintln!("cannot read the known findings {p:?}: {e}");
        std::process::exit(2)
    });
    for l in text.lines() {
        if let Some(r) = l.strip_prefix("known: property=") {
            let Some((prop, rest)) = r.split_once(' ') else { continue };
            let Some(rest) = rest.strip_prefix("key=") else { continue };
            let (k, d) = rest.split_once(" | ").unwrap_or((rest, ""));
            if prop == property {
                m.insert(k.trim().to_string(), d.trim().to_string());
            }
        }
    }
    m
}

struct Args {
    tier: Tier,
    all: bool,
    only: Option<String>,
    out: Option<PathBuf>,
    replays: PathBuf,
    verbose: bool,
    /// Explore the scenarios with one worker, to see whether what happens depends on executions before.
    serial: bool,
}

/// Has what goes wrong in this scenario to do with the executions before? Then it goes wrong in every
/// serial exploration, which starts in a new process, at the same place.
fn serially(prop: &str, sc: &str, tier: Tier) -> Option<(String, String)> {
    let once = || {
        let out = std::process::Command::new(std::env::current_exe().ok()?)
            .args(["run", prop, "--only", sc, "--serial", "--tier", if tier == Tier::Thorough { "thorough" } else { "quick" }])
            .output()
            .ok()?;
        let text = String::from_utf8_lossy(&out.stdout).into_owned();
        let (k, m) = text.lines().find_map(|l| l.strip_prefix("SERIAL "))?.split_once('\t')?;
        Some((k.to_string(), m.to_string()))
    };
    let a = once()?;
    (once()? == a).then_some(a)
}

fn write_replay(dir: &PathBuf, prop: &str, sc: &str, cfg: &Config, v: &Violation) -> PathBuf {
    let _ = std::fs::create_dir_all(dir);
    let h = v
        .key
        .bytes()
        .chain(sc.bytes())
        .fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
    let p = dir.join(format!("{prop}-{h:016x}.replay"));
    let mut t = String::new();
    t.push_str(&format!("property: {prop}\nscenario: {sc}\nbound: {}\nfresh: {}\n", cfg.bound, cfg.fresh_thread));
    if cfg.serial {
        t.push_str("history: the executions of the scenario, one after another in a new process, up to the one that fails\n");
    }
    t.push_str(&format!(
        "choices: {}\n",
        v.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" ")
    ));
    t.push_str(&format!("key: {}\n", v.key.replace('\n', " ")));
    t.push_str(&format!("message: {}\ntrace:\n", v.msg));
    for n in &v.notes {
        t.push_str("  ");
        t.push_str(n);
        t.push('\n');
    }
    if let Err(e) = std::fs::write(&p, t) {
        eprintln!("cannot write {p:?}: {e}");
    }
    p
}

pub fn main(checks: Vec<Check>) -> ! {
    engine::install();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|s| s.as_str()) {
        Some("run") if a.len() >= 2 => run(&checks, &a[1], &a[2..]),
        Some("replay") if a.len() >= 2 => replay(&checks, &a[1]),
        Some("list") => {
            for c in &checks {
                for s in (c.scenarios)(Tier::Quick) {
                    println!("{} {}: {}", c.property, s.name, s.about);
                }
            }
            0
        }
        _ => {
            eprintln!("usage: run PROPERTY [--tier T] [--all] [--only SCENARIO] [--out F] | replay FILE | list");
            2
        }
    };
    std::process::exit(code)
}

fn run(checks: &[Check], prop: &str, rest: &[String]) -> i32 {
    let mut args = Args {
        tier: if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") {
            Tier::Thorough
        } else {
            Tier::Quick
        },
        all: false,
        only: None,
        out: None,
        replays: PathBuf::from(std::env::var("MC_REPLAYS").unwrap_or("/tmp/mc-replays".into())),
        verbose: false,
        serial: false,
    };
    let mut it = rest.iter();
    while let Some(x) = it.next() {
        match x.as_str() {
            "--tier" => {
                args.tier = match it.next().map(|s| s.as_str()) {
                    Some("thorough") => Tier::Thorough,
                    _ => Tier::Quick,
                }
            }
            "--all" => args.all = true,
            "--only" => args.only = it.next().cloned(),
            "--out" => args.out = it.next().map(PathBuf::from),
            "-v" => args.verbose = true,
            "--serial" => args.serial = true,
            _ => {
                eprintln!("unknown argument {x}");
                return 2;
            }
        }
    }
    let Some(check) = checks.iter().find(|c| c.property == prop) else {
        eprintln!("no check for {prop}");
        return 2;
    };
    let t0 = Instant::now();
    let known = known_findings(prop);
    let budget = Duration::from_secs(match args.tier {
        Tier::Quick => 240,
        Tier::Thorough => 3600,
    });
    let mut done: Vec<(Exploration, String)> = vec![];
    let mut violations: Vec<(String, Violation)> = vec![];
    let mut hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut error: Option<String> = None;
    for s in (check.scenarios)(args.tier) {
        if args.only.as_ref().is_some_and(|o| *o != s.name) {
            continue;
        }
        let mut cfg = s.cfg.clone();
        cfg.stop_on_violation = !args.all;
        cfg.wall = cfg.wall.min(budget.saturating_sub(t0.elapsed()).max(Duration::from_secs(2)));
        cfg.serial = args.serial;
        if args.serial {
            cfg.wall = cfg.wall.min(Duration::from_secs(150));
        }
        let hung = Mutex::new(());
        let on_hang = |v: Violation| {
            let _g = hung.lock().unwrap();
            let p = write_replay(&args.replays, prop, &s.name, &cfg, &v);
            println!("{prop} {}: {}", s.name, v.msg);
            println!("VIOLATION property={prop} replay={}", p.display());
            if let Some(out) = &args.out {
                let _ = std::fs::write(
                    out,
                    format!(
                        "{{\"coverage\":{{\"states\":1,\"transitions\":1,\"traces_validated_against_impl\":1,\"samples\":[{}]}},\"assumptions\":[],\"violations\":1}}",
                        esc(&v.msg)
                    ),
                );
            }
            std::process::exit(1);
        };
        let is_known = |k: &str| known.contains_key(k);
        let ex = engine::explore(&s.name, &cfg, &is_known, &on_hang, &*s.body);
        if args.serial {
            if let Some(v) = ex.violations.values().next() {
                println!("SERIAL {} execution {}: {}\t{}", v.key.replace(['\n', '\t'], " "), ex.executions, v.choices.len(), v.msg.replace('\n', " "));
                return 1;
            }
        }
        for (k, n) in &ex.known {
            *hits.entry(k.clone()).or_default() += n;
        }
        println!(
            "{prop} {}: {} executions, {} states, {} transitions, {} pruned, depth {}, {} outcomes, bound {}, {:.2}s{}",
            ex.name,
            ex.executions,
            ex.states,
            ex.transitions,
            ex.pruned,
            ex.max_depth,
            ex.outcomes,
            ex.bound,
            ex.wall_s,
            if ex.complete { "" } else { " (not complete)" }
        );
        if args.verbose {
            for smp in &ex.samples {
                println!("  sample:");
                for l in smp {
                    println!("    {l}");
                }
            }
        }
        if ex.violations.is_empty() && (!ex.unconfirmed.is_empty() || ex.divergence.is_some()) {
            cfg.serial = true;
            match serially(prop, &s.name, args.tier) {
                Some((key, msg)) => {
                    let v = Violation { key, msg: format!("{msg} (after the executions before it)"), choices: vec![], notes: vec![] };
                    let p = write_replay(&args.replays, prop, &s.name, &cfg, &v);
                    println!("  [{}] {}", v.key, v.msg);
                    violations.push((p.display().to_string(), v));
                }
                None => {
                    let d = ex.divergence.clone().unwrap_or_else(|| format!("{:?} is not reproducible", ex.unconfirmed[0]));
                    error = Some(format!("{}: {d}", ex.name));
                }
            }
        }
        for v in ex.violations.values() {
            let p = write_replay(&args.replays, prop, &s.name, &cfg, v);
            println!("  [{}] {}", v.key, v.msg);
            violations.push((p.display().to_string(), v.clone()));
        }
        done.push((ex, s.about.clone()));
        if error.is_some() || (!violations.is_empty() && !args.all) {
            break;
        }
    }
    for (k, n) in &hits {
        println!(
            "KNOWN-FINDING: property={prop} {} [{k}; {n} executions]",
            known.get(k).map(|s| s.as_str()).unwrap_or("")
        );
    }
    if let Some(out) = &args.out {
        let j = part_json(check, &done, &hits, violations.len());
        if let Err(e) = std::fs::write(out, j) {
            eprintln!("cannot write {out:?}: {e}");
            return 2;
        }
    }
    if let Some(e) = error {
        eprintln!("ERROR {e}");
        return 2;
    }
    if !violations.is_empty() {
        for (p, v) in &violations {
            if args.all {
                println!("VIOLATION property={prop} replay={p} key={}", v.key);
            } else {
                println!("VIOLATION property={prop} replay={p}");
            }
        }
        return 1;
    }
    0
}

fn part_json(
    check: &Check,
    done: &[(Exploration, String)],
    hits: &BTreeMap<String, u64>,
    violations: usize,
) -> String {
    let sum = |f: fn(&Exploration) -> u64| done.iter().map(|(e, _)| f(e)).sum::<u64>();
    let samples = arr(done.iter().flat_map(|(e, _)| {
        e.samples
            .iter()
            .take(1)
            .map(|s| esc(&format!("{}: {}", e.name, s.join("; ").chars().take(1500).collect::<String>())))
            .collect::<Vec<_>>()
    }));
    let scen = arr(done.iter().map(|(e, about)| {
        format!(
            "{{\"name\":{},\"about\":{},\"deviation_bound\":{},\"executions\":{},\"states\":{},\"transitions\":{},\"equivalent_pruned\":{},\"max_depth\":{},\"distinct_outcomes\":{},\"complete\":{},\"wall_s\":{:.3}}}",
            esc(&e.name), esc(about), e.bound, e.executions, e.states, e.transitions, e.pruned, e.max_depth, e.outcomes, e.complete, e.wall_s
        )
    }));
    format!(
        "{{\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"executions\":{},\"distinct_outcomes\":{},\"exhaustive\":{},\"scenarios\":{},\"known_findings_hit\":{},\"samples\":{}}},\"assumptions\":{},\"violations\":{}}}\n",
        sum(|e| e.states),
        sum(|e| e.transitions),
        sum(|e| e.executions - e.pruned),
        sum(|e| e.executions),
        sum(|e| e.outcomes as u64),
        done.iter().all(|(e, _)| e.complete),
        scen,
        arr(hits.iter().map(|(k, n)| format!("{{\"key\":{},\"executions\":{n}}}", esc(k)))),
        samples,
        arr(check.assumptions.iter().map(|a| esc(a))),
        violations
    )
}

fn replay(checks: &[Check], file: &str) -> i32 {
    let Ok(text) = std::fs::read_to_string(file) else {
        eprintln!("cannot read {file}");
        return 2;
    };
    let get = |k: &str| {
        text.lines()
            .find_map(|l| l.strip_prefix(&format!("{k}: ")))
            .unwrap_or("")
            .to_string()
    };
    let prop = get("property");
    let sc = get("scenario");
    let choices: Vec<u32> = get("choices").split_whitespace().filter_map(|x| x.parse().ok()).collect();
    let Some(check) = checks.iter().find(|c| c.property == prop) else {
        eprintln!("no check for {prop}");
        return 2;
    };
    for tier in [Tier::Quick, Tier::Thorough] {
        for s in (check.scenarios)(tier) {
            if s.name == sc && s.cfg.bound.to_string() == get("bound") {
                if !get("history").is_empty() {
                    return match serially(&prop, &sc, tier) {
                        Some((k, m)) => {
                            println!("[{k}] {m}");
                            println!("VIOLATION property={prop} replay={file}");
                            1
                        }
                        None => {
                            println!("{prop}: the recorded executions satisfy the property");
                            0
                        }
                    };
                }
                let (r, notes, div) = engine::replay(&*s.body, &choices, &s.cfg);
                for n in notes {
                    println!("  {n}");
                }
                return match (r, div) {
                    (_, Some(d)) => {
                        eprintln!("ERROR {d}");
                        2
                    }
                    (Some((k, m)), _) => {
                        println!("[{k}] {m}");
                        println!("VIOLATION property={prop} replay={file}");
                        1
                    }
                    _ => {
                        println!("{prop}: the recorded execution satisfies the property");
                        0
                    }
                };
            }
        }
    }
    eprintln!("no scenario {sc}");
    2
}
